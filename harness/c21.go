package main

import (
	"fmt"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

func init() {
	register("C21", "exploration",
		"evaluations are complete rounds of requests of a well-behaved client, shortages and terminations; distinct by back end, listener and the set of kinds of misbehaving clients present, or by kind and size of a shortage, or by kind of termination and the clients present; rounds with no misbehaving client are trivial",
		checkC21)
}

func checkC21(t *T) {
	t.Assume("a missing answer counts as refusal of service only if the server does not use the processor meanwhile or answers others; otherwise the run is inconclusive")
	t.Go(
		func() { c21Bad(t, true) },
		func() { c21Bad(t, false) },
		func() { c21Shortage(t, true) },
		func() { c21Shortage(t, false) },
		func() { c21Crowd(t, true) },
		func() { c21Crowd(t, false) },
		func() { c21Storm(t) },
		func() { c21TermWriters(t) },
	)
}

type c21World struct {
	t    *T
	s    *Server
	file bool
	m    *Model
	old  *Conn // connected from the start
	n    int
	bad  []*Conn
	kind map[string]int
}

func c21Model() *Model {
	m := baseModel()
	for i := 0; i < 20; i++ {
		uid := fmt.Sprintf("u%d", i)
		mustAdd(m, mustDN(userDN(uid)), personAttrs(uid, "User "+uid, "S", "", "pw-"+uid)...)
	}
	big := m.Base.Child("ou", "big")
	mustAdd(m, big, thing(big)...)
	for i := 0; i < 600; i++ {
		d := big.Child("cn", fmt.Sprintf("b%d", i))
		mustAdd(m, d, thing(d, attr("description", strings.Repeat("z", 2000)))...)
	}
	return m
}

func c21Start(t *T, file bool, mod func(*ServerOpts)) *c21World {
	w := &c21World{t: t, file: file, m: c21Model(), kind: map[string]int{}}
	all := func(o *ServerOpts) {
		o.TLS = true
		if mod != nil {
			mod(o)
		}
	}
	if file {
		w.s = t.StartLDIF(w.m.LDIF(), "", all)
	} else {
		w.s = t.StartDB(w.m, all)
	}
	return w
}

func (w *c21World) back() string {
	if w.file {
		return "file"
	}
	return "db"
}

// good is one round of requests of a well-behaved client on a connection.
func (w *c21World) good(c *Conn, via string) {
	t := w.t
	uid := fmt.Sprintf("u%d", w.n%20)
	w.n++
	ctx := fmt.Sprintf("%s, %s, with %s", w.back(), via, w.kinds())
	bind := func(dn, pw string, want int) {
		res, err := c.Bind(dn, pw)
		t.netErr(err, "bind: "+ctx)
		if res.Code != want {
			t.Fail("a bind is answered wrongly next to misbehaving clients", ctx, fmt.Sprintf("%s: %+v", dn, res))
		}
	}
	find := func(dn string, want []Attr) {
		sr, err := c.Search(SearchReq{Base: dn, Scope: 0, Filter: Present("objectClass")})
		t.netErr(err, "search: "+ctx)
		ok := sr.Result.Code == rcSuccess
		if want == nil {
			ok = ok && len(sr.Entries) == 0
		} else {
			ok = ok && len(sr.Entries) == 1 && canonAttrs(sr.Entries[0].Attrs) == canonAttrs(want)
		}
		if !ok {
			t.Fail("a search is answered wrongly next to misbehaving clients", ctx, fmt.Sprintf("%s: got %+v, want %+v", dn, sr, want))
		}
	}
	bind(userDN(uid), "wrong", 49)
	bind(userDN(uid), "pw-"+uid, rcSuccess)
	plain := personAttrs(uid, "User "+uid, "S", "", "")
	if w.file {
		find(userDN(uid), plain)
	} else {
		find(userDN(uid), personAttrs(uid, "User "+uid, "S", "", "pw-"+uid))
	}
	if w.n%2 == 0 {
		// a search in pages that is continued as it should be
		people := mustDN("ou=people," + baseDN)
		want := 0
		for _, n := range w.m.Nodes {
			if len(n.DN) > len(people) && n.DN.Under(people) {
				want++
			}
		}
		got := map[string]bool{}
		var cookie []byte
		for {
			sr, err := c.Search(SearchReq{Base: people.String(), Scope: 1, Filter: Present("objectClass")}, pagingControl(7, cookie))
			t.netErr(err, "search in pages: "+ctx)
			for _, e := range sr.Entries {
				got[fold(e.DN)] = true
			}
			if sr.Result.Code != rcSuccess {
				t.Fail("a search in pages is answered wrongly next to misbehaving clients", ctx, fmt.Sprintf("%+v", sr.Result))
			}
			if cookie = sr.Cookie; len(cookie) == 0 {
				break
			}
		}
		if len(got) != want {
			t.Fail("a search in pages is answered wrongly next to misbehaving clients", ctx, fmt.Sprintf("%d entries, want %d", len(got), want))
		}
		t.Count("good_paged_searches", 1)
	}
	if !w.file {
		bind(adminDN, adminPW, rcSuccess)
		d := fmt.Sprintf("cn=new%d,%s", w.n, baseDN)
		// Large enough to make the file grow now and then.
		as := []Attr{attr("objectClass", "top"), attr("cn", fmt.Sprintf("new%d", w.n)), attr("description", strings.Repeat("y", 1+(w.n*37)%60000))}
		step := func(what string, res Result, err error) {
			t.netErr(err, what+": "+ctx)
			if res.Code != rcSuccess {
				t.Fail("a change is refused next to misbehaving clients", ctx, what, fmt.Sprintf("%+v", res))
			}
		}
		res, err := c.Add(Entry{DN: d, Attrs: as})
		step("add", res, err)
		find(d, as)
		res, err = c.Modify(d, []Change{{2, "description", []string{"changed"}}})
		step("modify", res, err)
		find(d, setVals(as, "description", []string{"changed"}))
		if w.n%5 == 0 {
			res, err = c.ModDN(d, fmt.Sprintf("cn=moved%d", w.n), false, nil)
			step("rename", res, err)
			find(d, nil)
			d = fmt.Sprintf("cn=moved%d,%s", w.n, baseDN)
		}
		if w.n%3 != 0 {
			res, err = c.Delete(d)
			step("delete", res, err)
			find(d, nil)
		}
	}
	t.Count("good_rounds", 1)
	t.SampleEvery(w.n, func() interface{} { return "well-behaved client answered correctly: " + ctx })
	t.Eval(fmt.Sprintf("%s %s %s", w.back(), via, w.kinds()), len(w.kind) > 0)
}

func (w *c21World) kinds() string {
	ks := sortedKeys(w.kind)
	return "[" + strings.Join(ks, " ") + "]"
}

// probe: the well-behaved client connects anew in both ways and uses its old
// connection.
func (w *c21World) probe() {
	c, err := dial(w.s.Addr)
	w.t.netErr(mapDial(err), "connect")
	w.good(c, "new")
	c.Close()
	c, err = dialTLS(w.s.TLSAddr)
	w.t.netErr(mapDial(err), "connect with TLS")
	w.good(c, "new TLS")
	c.Close()
	if w.old == nil {
		w.old = w.s.Dial()
	}
	w.good(w.old, "old")
}

func mapDial(err error) error {
	if err == nil {
		return nil
	}
	if ne, ok := err.(net.Error); ok && ne.Timeout() {
		return errTimeout
	}
	return err
}

var c21Kinds = []string{
	"silent", "silent tls", "half hello", "hello only", "one byte", "half request", "long announced", "bound idle", "bound half",
	"stalled", "stalled tls", "stalled pipeline", "vanished in request", "vanished in result", "vanished in tls", "paged",
	"paged twice", "dribble", "half closed", "garbage", "stalled paged",
}

// misbehave adds a client of the kind. It stays connected if it can.
func (w *c21World) misbehave(r *rand.Rand, kind string) {
	t := w.t
	w.kind[kind]++
	uid := fmt.Sprintf("u%d", r.Intn(20))
	tcp := func(a string) *Conn {
		c, err := dial(a)
		t.netErr(mapDial(err), "connect of a misbehaving client")
		return c
	}
	bound := func(viaTLS bool) *Conn {
		var c *Conn
		var err error
		if viaTLS {
			c, err = dialTLS(w.s.TLSAddr)
			t.netErr(mapDial(err), "TLS connect of a misbehaving client")
		} else {
			c = tcp(w.s.Addr)
		}
		res, err := c.Bind(userDN(uid), "pw-"+uid)
		t.netErr(err, "bind of a misbehaving client")
		if res.Code != rcSuccess {
			t.Fail("a bind is refused next to misbehaving clients", w.kinds(), fmt.Sprintf("%+v", res))
		}
		return c
	}
	all := searchOp(SearchReq{Base: baseDN, Scope: 2})
	req := envelope(9, all).Bytes()
	hello := []byte("\x16\x03\x01\x00\xc8\x01\x00\x00\xc4\x03\x03")
	// flood sends requests without reading until the server stops taking them.
	flood := func(c *Conn, n int) {
		c.c.SetWriteDeadline(time.Now().Add(200 * time.Millisecond))
		for i := 0; i < n; i++ {
			if c.SendRaw(req) != nil {
				break
			}
		}
	}
	var c *Conn
	switch kind {
	case "silent":
		c = tcp(w.s.Addr)
	case "silent tls":
		c = tcp(w.s.TLSAddr)
	case "half hello":
		c = tcp(w.s.TLSAddr)
		c.SendRaw(hello[:1+r.Intn(len(hello)-1)])
	case "hello only":
		c = tcp(w.s.TLSAddr)
		c.SendRaw(append(hello, make([]byte, 100)...))
	case "one byte":
		c = tcp(w.s.Addr)
		c.SendRaw(req[:1])
	case "half request":
		c = tcp(w.s.Addr)
		c.SendRaw(req[:1+r.Intn(len(req)-1)])
	case "long announced":
		c = tcp(w.s.Addr)
		c.SendRaw(append([]byte{0x30, 0x83, 0x0f, 0xff, 0xff}, make([]byte, r.Intn(5000))...))
	case "bound idle":
		c = bound(r.Intn(2) == 0)
	case "bound half":
		c = bound(r.Intn(2) == 0)
		c.SendRaw(req[:1+r.Intn(len(req)-1)])
	case "stalled", "stalled tls":
		c = bound(kind == "stalled tls")
		flood(c, 12)
	case "stalled pipeline":
		c = bound(false)
		flood(c, 2000)
	case "vanished in request":
		c = bound(false)
		c.SendRaw(req[:len(req)/2])
		reset(c)
		c = nil
	case "vanished in result":
		c = bound(false)
		flood(c, 5)
		c.Recv()
		reset(c)
		c = nil
	case "vanished in tls":
		c = tcp(w.s.TLSAddr)
		c.SendRaw(append(hello, make([]byte, 50)...))
		reset(c)
		c = nil
	case "paged", "paged twice":
		c = bound(false)
		sr, err := c.Search(SearchReq{Base: baseDN, Scope: 2}, pagingControl(5, nil))
		t.netErr(err, "paged search of a misbehaving client")
		if kind == "paged twice" && sr.Result.Code == rcSuccess && len(sr.Cookie) > 0 {
			c.Search(SearchReq{Base: baseDN, Scope: 2}, pagingControl(5, sr.Cookie))
			c.Search(SearchReq{Base: baseDN, Scope: 2}, pagingControl(5, nil))
		}
	case "stalled paged":
		c = bound(false)
		c.c.SetWriteDeadline(time.Now().Add(200 * time.Millisecond))
		for i := 0; i < 12; i++ {
			if _, err := c.Send(searchOp(SearchReq{Base: baseDN, Scope: 2}), pagingControl(500, nil)); err != nil {
				break
			}
		}
	case "dribble":
		c = tcp(w.s.Addr)
		for _, b := range req[:len(req)-1] {
			c.SendRaw([]byte{b})
		}
	case "half closed":
		c = bound(false)
		c.SendRaw(req)
		c.halfClose()
	case "garbage":
		c = tcp(w.s.Addr)
		b := make([]byte, 500)
		r.Read(b)
		c.SendRaw(b)
	}
	if c != nil {
		w.bad = append(w.bad, c)
	}
	t.Count("bad_clients", 1)
}

func (w *c21World) dropBad() {
	for _, c := range w.bad {
		c.Close()
	}
	w.bad = nil
	w.kind = map[string]int{}
}

// mustEnd: the process has to end by itself.
func (w *c21World) mustEnd(how string) {
	endsAfterSignal(w.t, w.s, how+", "+w.back()+", with "+w.kinds())
	w.t.Eval("end "+w.back()+" "+how+" "+w.kinds(), true)
	w.t.Count("terminations", 1)
}

func endsAfterSignal(t *T, s *Server, how string) {
	for i := 0; i < 40; i++ {
		select {
		case <-s.done:
			return
		case <-time.After(3 * time.Second):
		}
		if i < 3 {
			continue
		}
		before := s.cpuTicks()
		time.Sleep(3 * time.Second)
		if !s.Alive() {
			return
		}
		if s.cpuTicks()-before < 5 {
			t.Fail("the process does not end after a termination signal", how, s.LogTail(4000))
		}
	}
	t.Inconclusive("a busy server does not end: %s", how)
}

func c21Bad(t *T, file bool) {
	for round := 0; round < t.N(8, 40); round++ {
		w := c21Start(t, file, nil)
		r := t.Sub(fmt.Sprintf("bad-%s-%d", w.back(), round))
		w.s.WaitSignals()
		w.probe()
		kinds := append([]string(nil), c21Kinds...)
		r.Shuffle(len(kinds), func(i, j int) { kinds[i], kinds[j] = kinds[j], kinds[i] })
		if round%4 == 1 {
			// many of a few kinds
			kinds = kinds[:1+r.Intn(2)]
			for len(kinds) < 120 {
				kinds = append(kinds, kinds[r.Intn(len(kinds))])
			}
		}
		for i, k := range kinds {
			w.misbehave(r, k)
			if i%20 < 3 || r.Intn(4) == 0 || i == len(kinds)-1 {
				w.probe()
			}
			if r.Intn(5) == 0 {
				w.s.Signal(syscall.SIGHUP)
				w.probe()
			}
		}
		w.s.CheckAlive("with misbehaving clients")
		end := pick(r, []string{"TERM", "INT", "TERM", "drop and TERM"})
		if end == "drop and TERM" {
			w.dropBad()
			w.probe()
		}
		sig := syscall.SIGTERM
		if end == "INT" {
			sig = syscall.SIGINT
		}
		w.s.expectDead = true
		w.s.Signal(sig)
		w.mustEnd(end)
		w.dropBad()
		if w.old != nil {
			w.old.Close()
		}
	}
}

// c21Crowd: very many clients of the kinds that cost little.
func c21Crowd(t *T, file bool) {
	for round := 0; round < t.N(1, 3); round++ {
		w := c21Start(t, file, nil)
		r := t.Sub(fmt.Sprintf("crowd-%s-%d", w.back(), round))
		w.s.WaitSignals()
		w.probe()
		kinds := []string{"silent", "silent tls", "half request", "half hello", "one byte", "bound idle", "paged", "paged twice", "dribble"}
		r.Shuffle(len(kinds), func(i, j int) { kinds[i], kinds[j] = kinds[j], kinds[i] })
		for _, k := range kinds {
			n := 280
			if k == "dribble" {
				n = 60
			}
			for i := 0; i < n; i++ {
				w.misbehave(r, k)
				if i%90 == 89 {
					w.probe()
				}
			}
			w.probe()
		}
		w.s.CheckAlive("with very many clients")
		t.Count("crowds", 1)
		w.s.expectDead = true
		w.s.Signal(syscall.SIGTERM)
		w.mustEnd("TERM with very many clients")
		w.dropBad()
		if w.old != nil {
			w.old.Close()
		}
	}
}

// c21Shortage: the server may open only few files.
func c21Shortage(t *T, file bool) {
	for round := 0; round < t.N(6, 24); round++ {
		limit := []int{40, 64, 100}[round%3]
		w := c21Start(t, file, func(o *ServerOpts) {
			o.Prefix = []string{"/bin/bash", "-c", fmt.Sprintf("ulimit -n %d; exec \"$@\"", limit), "limit"}
		})
		r := t.Sub(fmt.Sprintf("shortage-%s-%d", w.back(), round))
		w.s.WaitSignals()
		w.probe()
		for k := 0; k < 2+round%2; k++ {
			addr, via := w.s.Addr, "plain"
			if (round+k)%2 == 1 {
				addr, via = w.s.TLSAddr, "tls"
			}
			// Some do things, the rest only take a descriptor each.
			for i := 0; i < 4; i++ {
				w.misbehave(r, pick(r, []string{"bound idle", "paged", "half request", "stalled", "silent tls"}))
			}
			var cs []net.Conn
			for i := 0; i < limit+20+r.Intn(30); i++ {
				c, err := net.DialTimeout("tcp", addr, 20*time.Second)
				if err != nil {
					break
				}
				cs = append(cs, c)
			}
			full := false
			for i := 0; i < 400; i++ {
				if w.s.FDs() >= limit {
					full = true
					break
				}
				time.Sleep(10 * time.Millisecond)
			}
			time.Sleep(time.Duration(50+r.Intn(200)) * time.Millisecond)
			if !full {
				t.Count("shortages_not_reached", 1)
			}
			if r.Intn(2) == 0 {
				w.s.Signal(syscall.SIGHUP)
				time.Sleep(30 * time.Millisecond)
			}
			w.s.CheckAlive("short of file descriptors")
			for _, c := range cs {
				if r.Intn(2) == 0 {
					c.(*net.TCPConn).SetLinger(0)
				}
				c.Close()
			}
			w.dropBad()
			if w.old != nil {
				w.old.Close()
				w.old = nil
			}
			w.kind["shortage of descriptors"] = 1
			w.probe()
			t.Count("shortages", 1)
			t.Eval(fmt.Sprintf("shortage %s %s %d", w.back(), via, limit), full)
			w.kind = map[string]int{}
		}
		w.s.expectDead = true
		w.s.Signal(syscall.SIGTERM)
		w.mustEnd("TERM after shortages")
	}
}

// c21Storm: a termination signal is not lost between others.
func c21Storm(t *T) {
	r := t.Sub("storm")
	d := t.Dir("storm")
	f := filepath.Join(d, "main.ldif")
	t.Must(os.WriteFile(f, []byte(c21Model().LDIF()), 0o644), "write")
	for i := 0; i < t.N(60, 300); i++ {
		s := t.Start(ServerOpts{Handler: "ldif", Main: f})
		s.WaitSignals()
		var conns []*Conn
		for k := r.Intn(3); k > 0; k-- {
			conns = append(conns, s.Dial())
		}
		hups := r.Intn(40)
		s.expectDead = true
		for k := 0; k < hups; k++ {
			s.Signal(syscall.SIGHUP)
			if r.Intn(6) == 0 {
				time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
			}
		}
		sig := pick(r, []os.Signal{syscall.SIGTERM, syscall.SIGINT})
		s.Signal(sig)
		if r.Intn(2) == 0 {
			s.Signal(syscall.SIGHUP)
		}
		endsAfterSignal(t, s, fmt.Sprintf("%v after %d reload signals, %d connections", sig, hups, len(conns)))
		for _, c := range conns {
			c.Close()
		}
		t.Count("terminations", 1)
		t.Eval(fmt.Sprintf("end %v after %d reload signals", sig, hups), hups > 0)
	}
}

// c21TermWriters: what was acknowledged before a termination is there
// afterwards.
func c21TermWriters(t *T) {
	for round := 0; round < t.N(10, 60); round++ {
		r := t.Sub(fmt.Sprintf("writers-%d", round))
		m := baseModel()
		db := t.LoadDB(m)
		opts := ServerOpts{Handler: "boltdb", DB: db, Base: baseDN, Admin: adminDN}
		s := t.Start(opts)
		s.WaitSignals()
		const writers = 4
		acked := make([]map[string]string, writers)
		sent := make([]map[string]string, writers)
		stop := make(chan struct{})
		var fs []func()
		for i := 0; i < writers; i++ {
			i := i
			acked[i], sent[i] = map[string]string{}, map[string]string{}
			wr := t.Sub(fmt.Sprintf("writers-%d-%d", round, i))
			fs = append(fs, func() {
				c, err := dial(s.Addr)
				if err != nil {
					return
				}
				defer c.Close()
				if res, err := c.Bind(adminDN, adminPW); err != nil || res.Code != rcSuccess {
					return
				}
				for k := 0; ; k++ {
					select {
					case <-stop:
						return
					default:
					}
					d := fmt.Sprintf("cn=w%d-%d,%s", i, k, baseDN)
					v := fmt.Sprintf("v%d", wr.Intn(1000))
					sent[i][d] = v
					res, err := c.Add(Entry{DN: d, Attrs: []Attr{attr("objectClass", "top"), attr("cn", fmt.Sprintf("w%d-%d", i, k)), attr("description", v)}})
					if err != nil {
						return
					}
					if res.Code != rcSuccess {
						t.Fail("an add is refused", fmt.Sprintf("%+v", res))
					}
					acked[i][d] = v
				}
			})
		}
		s.expectDead = true
		wait := time.Duration(20+r.Intn(300)) * time.Millisecond
		fs = append(fs, func() {
			time.Sleep(wait)
			s.Signal(syscall.SIGTERM)
			endsAfterSignal(t, s, "TERM with writers")
			close(stop)
		})
		t.Go(fs...)
		s2 := t.Start(opts)
		c := s2.DialAs(adminDN, adminPW)
		sr, err := c.Search(SearchReq{Base: baseDN, Scope: 1, Filter: Sub("cn", SubPart{0, "w"})})
		t.netErr(err, "search after restart")
		got := map[string]string{}
		for _, e := range sr.Entries {
			if v := getVals(e.Attrs, "description"); len(v) == 1 {
				got[e.DN] = v[0]
			}
		}
		n, open := 0, 0
		for i := range acked {
			for d, v := range acked[i] {
				n++
				if got[d] != v {
					t.Fail("an acknowledged change is missing after a termination", fmt.Sprintf("%s: %q, found %q", d, v, got[d]))
				}
			}
			for d, v := range sent[i] {
				if g, ok := got[d]; ok && acked[i][d] == "" {
					open++
					if g != v {
						t.Fail("an unfinished change is there in part after a termination", fmt.Sprintf("%s: %q, found %q", d, v, g))
					}
				}
				delete(got, d)
			}
		}
		if len(got) > 0 {
			var ds []string
			for d := range got {
				ds = append(ds, d)
			}
			sort.Strings(ds)
			t.Fail("something that was never added is there after a termination", ds)
		}
		c.Close()
		s2.Kill()
		t.Count("acknowledged_changes", n)
		t.Count("terminations", 1)
		t.Eval(fmt.Sprintf("end with writers, unfinished %d", open), n > 0)
	}
}
