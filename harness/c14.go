package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"net"
	"strings"

	ber "github.com/go-asn1-ber/asn1-ber"
)

func init() {
	register("C14", "exploration",
		"one evaluation per search by a client without permission (no entry may come back, and the answer must be the same as for names and values that do not exist), per search of two file-backed servers that differ only in secrets (equal answers), and per search by a permitted client; distinct by back end, way of losing or lacking permission, transport, base, scope, filter shape and outcome",
		runC14)
}

// nonLoopback is an address of this host that clients reach the server from
// without being on the loopback interface.
func nonLoopback() string {
	as, _ := net.InterfaceAddrs()
	for _, a := range as {
		if n, ok := a.(*net.IPNet); ok && !n.IP.IsLoopback() && n.IP.To4() != nil && !n.IP.IsLinkLocalUnicast() {
			return n.IP.String()
		}
	}
	return ""
}

func portOf(addr string) string { return addr[strings.LastIndexByte(addr, ':')+1:] }

// how a connection comes to have no identity
var lackKinds = []string{"fresh", "wrong-password", "unknown-user", "empty-password", "anonymous-bind", "bound-then-wrong", "bound-then-anonymous", "sasl", "service-wrong", "bound-then-malformed"}

type c14World struct {
	t      *T
	s      *Server
	file   bool
	anon   bool
	m      *Model // what bound clients may see
	config *Model // bind-only entries
	remote string
	v6     bool // the loopback address of IPv6 can be used
	turn   int
	cookie []byte // of a paged search of somebody else
}

func c14Data(r *rand.Rand, pw func(i int) string) (*Model, *Model) {
	m := baseModel()
	people := m.Base.Child("ou", "people")
	spell := []string{"userPassword", "userPassword", "userpassword", "USERPASSWORD", "UserPassword"}
	for i := 0; i < 12; i++ {
		uid := fmt.Sprintf("user%d", i)
		name := randCase(r, "userPassword")
		if i < len(spell) {
			name = spell[i]
		}
		as := personAttrs(uid, "User "+uid, "Sn", uid+"@example.com", "")
		as = append(as, attr("description", fmt.Sprintf("d%d", i)), attr(name, pw(i)))
		mustAdd(m, people.Child("uid", uid), as...)
	}
	for i := 12; i < 16; i++ { // several passwords
		uid := fmt.Sprintf("user%d", i)
		as := personAttrs(uid, "User "+uid, "Sn", uid+"@example.com", "")
		as = append(as, attr("description", fmt.Sprintf("d%d", i)), attr(randCase(r, "userPassword"), pw(i), pw(20+i), pw(40+i)))
		mustAdd(m, people.Child("uid", uid), as...)
	}
	c := newModel(baseDN)
	for i := 0; i < 3; i++ {
		d := c.Base.Child("cn", fmt.Sprintf("service%d", i))
		c.Nodes[d.Key()] = &Node{DN: d, Attrs: []Attr{attr("objectClass", "top", "person"), attr("cn", fmt.Sprintf("service%d", i)), attr("description", "d1"), attr("userPassword", pw(100+i))}}
	}
	return m, c
}

func (w *c14World) dial(tls, remote bool) *Conn {
	host := "127.0.0.1"
	if remote {
		host = w.remote
	} else if w.v6 {
		w.turn++
		switch w.turn % 4 {
		case 1:
			host = "[::1]"
		case 2:
			host = "127.0.0.7"
		}
	}
	if tls {
		c, err := dialTLS(host + ":" + portOf(w.s.TLSAddr))
		w.t.Must(err, "tls connect")
		return c
	}
	c, err := dial(host + ":" + portOf(w.s.Addr))
	w.t.Must(err, "connect")
	return c
}

// without makes a connection that has no identity, in the given way.
func (w *c14World) without(kind string, tls, remote bool) *Conn {
	t := w.t
	c := w.dial(tls, remote)
	bind := func(op *ber.Packet, want string) {
		res, _, err := c.roundTrip(op, tagBindResp)
		t.netErr(err, "bind "+kind)
		if want == "ok" && res.Code != rcSuccess {
			t.Fail("a bind with the right password was refused", kind, fmt.Sprintf("%+v", res))
		}
		if want == "no" && res.Code == rcSuccess {
			t.Fail("a bind without the right password was accepted", kind)
		}
		if want == "anon" && (res.Code == rcSuccess) != (w.anon && !remote) {
			t.Fail("the anonymous bind is not accepted exactly where it is enabled", fmt.Sprintf("%s enabled=%v remote=%v -> %+v", kind, w.anon, remote, res))
		}
	}
	good := func() { bind(bindOp(userDN("user0"), "secret-0-abc"), "ok") }
	switch kind {
	case "wrong-password":
		bind(bindOp(userDN("user0"), "wrong"), "no")
	case "unknown-user":
		bind(bindOp(userDN("nobody"), "secret-0-abc"), "no")
	case "empty-password":
		bind(bindOp(userDN("user0"), ""), "no")
	case "anonymous-bind":
		bind(bindOp("", ""), "anon")
	case "bound-then-wrong":
		good()
		bind(bindOp(userDN("user0"), "secret-1-abc"), "no")
	case "bound-then-anonymous":
		good()
		bind(bindOp("", ""), "anon")
	case "service-wrong":
		bind(bindOp("cn=service0,"+baseDN, "secret-1-abc"), "no")
	case "sasl", "bound-then-malformed":
		if kind != "sasl" {
			good()
		}
		op := appConstructed(tagBindReq)
		op.AppendChild(integer(3))
		op.AppendChild(octet(userDN("user0")))
		sasl := ber.Encode(ber.ClassContext, ber.TypeConstructed, 3, nil, "")
		sasl.AppendChild(octet("PLAIN"))
		sasl.AppendChild(octet("\x00user0\x00secret-0-abc"))
		op.AppendChild(sasl)
		bind(op, "no")
	}
	return c
}

// ask sends one search and returns everything that came back, without the
// message number.
func (w *c14World) ask(c *Conn, q SearchReq, page bool) (int, []byte, Result) {
	var ctl []*ber.Packet
	if page {
		ctl = append(ctl, pagingControl(3, w.cookie))
	}
	id, err := c.Send(searchOp(q), ctl...)
	w.t.netErr(err, "search")
	n := 0
	var all bytes.Buffer
	for {
		m, err := c.Recv()
		if errors.Is(err, errClosed) {
			fmt.Fprint(&all, "closed")
			return n, all.Bytes(), Result{Code: -1}
		}
		w.t.netErr(err, "search")
		if m.ID != id {
			w.t.Fail("an answer carries the wrong number", fmt.Sprint(m.ID))
		}
		all.Write(m.Op.Bytes())
		if m.Tag == tagSearchDone {
			if m.Ctrl != nil {
				if _, paged := m.pagingCookie(); paged {
					fmt.Fprint(&all, "paged")
				}
			}
			r, err := m.Result()
			w.t.netErr(err, "search")
			return n, all.Bytes(), r
		}
		n++
	}
}

// existing and missing bases and filters that a curious client might try
func (w *c14World) probe(r *rand.Rand) (there, missing SearchReq) {
	ks := w.m.Keys()
	d := w.m.Nodes[pick(r, ks)].DN
	if w.config != nil && r.Intn(4) == 0 {
		cs := w.config.Keys()
		d = w.config.Nodes[pick(r, cs)].DN
	}
	q := SearchReq{Base: d.String(), Scope: r.Intn(3), Attrs: pick(r, [][]string{nil, {"*"}, {"userPassword"}, {"uid", "cn"}, {"1.1"}, {"+"}}), SizeLimit: pick(r, []int{0, 0, 0, 1, 5})}
	o := q
	f := pick(r, []*Filter{Present("objectClass"), Eq("uid", "user1"), Eq("userPassword", "secret-1-abc"), Sub("userPassword", SubPart{0, "secret"}),
		Not(Eq("uid", "user1")), Eq("description", "d1"), And(Present("cn"), Eq("uid", "user3")), Or(Eq("uid", "user2"), Eq("cn", "service1"))})
	q.Filter, o.Filter = f, f
	switch r.Intn(3) {
	case 0: // the base does not exist
		o.Base = d.Child("cn", "not here").String()
	case 1: // nothing matches
		o.Filter = Eq("uid", "not here")
	default:
		o.Base = "uid=not here,ou=people," + baseDN
	}
	return q, o
}

func runC14(t *T) {
	remote := nonLoopback()
	if remote == "" {
		t.Assume("this machine has no address besides loopback: clients of another host are not covered")
	} else {
		t.Assume("a client of another host is represented by one that connects from a non-loopback address of this machine")
	}
	pw := func(i int) string { return fmt.Sprintf("secret-%d-abc", i) }
	var fs []func()
	for _, file := range []bool{true, false} {
		for _, anon := range []bool{true, false} {
			file, anon := file, anon
			fs = append(fs, func() {
				label := fmt.Sprintf("access-%v-%v", file, anon)
				r := t.Sub(label)
				m, c := c14Data(r, pw)
				w := &c14World{t: t, file: file, anon: anon, remote: remote, m: m}
				set := func(o *ServerOpts) { o.TLS, o.AnyAddr, o.Anonymous = true, true, anon }
				if file {
					w.s = t.StartLDIF(m.LDIF(), c.LDIF(), set)
					w.config = c
					w.m = withoutSecrets(m)
				} else {
					w.s = t.StartDB(m, set)
				}
				if x, err := net.Dial("tcp", "[::1]:"+portOf(w.s.Addr)); err == nil {
					x.Close()
					w.v6 = true
				}
				t.Set("loopback_ipv6", w.v6)
				c14Access(w, r, label)
				w.s.CheckAlive("after the searches")
				w.s.Kill()
			})
		}
	}
	fs = append(fs, func() { c14Secrets(t) }, func() { c14AnonTimes(t, pw) })
	t.Go(fs...)
}

func c14Access(w *c14World, r *rand.Rand, label string) {
	t := w.t
	for i := 0; i < t.N(1600, 12000); i++ {
		kind := lackKinds[i%len(lackKinds)]
		tls := r.Intn(3) == 0
		remote := w.remote != "" && r.Intn(2) == 0
		page := r.Intn(4) == 0
		q, o := w.probe(r)
		granted := w.anon && !remote
		a := w.without(kind, tls, remote)
		if page && w.file && r.Intn(2) == 0 { // continue the search of a bound client
			q = SearchReq{Base: baseDN, Scope: 2, Filter: Present("objectClass")}
			c := w.dial(tls, remote)
			br, err := c.Bind(userDN("user3"), "secret-3-abc")
			t.netErr(err, "bind")
			sr, err := c.Search(q, pagingControl(int64(1+r.Intn(3)), nil))
			t.netErr(err, "paged search")
			if br.Code != rcSuccess || len(sr.Cookie) == 0 {
				t.Fail("a bound client cannot page through the directory", fmt.Sprintf("%+v %+v", br, sr.Result))
			}
			if r.Intn(2) == 0 {
				defer c.Close()
			} else {
				c.Close()
			}
			w.cookie = sr.Cookie
			t.Count("cookies_of_others", 1)
		}
		n, raw, res := w.ask(a, q, page)
		borrowed := w.cookie != nil
		w.cookie = nil
		a.Close()
		t.Eval(fmt.Sprint(label, kind, tls, remote, page, q.Scope, shapeOf(q.Filter), granted, n > 0), true)
		t.Count(fmt.Sprintf("searches_without_identity_granted_%v", granted), 1)
		if granted {
			if res.Code != rcSuccess && res.Code != rcSizeLimit && w.m.Get(mustDN(q.Base)) != nil {
				t.Fail("a search by an anonymous client of the same host was refused although it is enabled", kind, describeSearch(q), fmt.Sprintf("%+v", res))
			}
			continue
		}
		if n > 0 {
			t.Fail("a client without permission got entries", fmt.Sprintf("%s tls=%v remote=%v %s: %d entries", kind, tls, remote, describeSearch(q), n), fmt.Sprintf("%q", raw))
		}
		if res.Code == rcSuccess {
			t.Count("refused_by_empty_success", 1)
		}
		if borrowed {
			continue
		}
		b := w.without(kind, tls, remote)
		_, raw2, _ := w.ask(b, o, page)
		b.Close()
		if !bytes.Equal(raw, raw2) {
			t.Fail("the answer to a refused search tells whether an entry exists", kind, describeSearch(q), fmt.Sprintf("%q", raw), describeSearch(o), fmt.Sprintf("%q", raw2))
		}
		t.SampleEvery(i, func() interface{} {
			return map[string]interface{}{"server": label, "kind": kind, "tls": tls, "remote": remote, "search": describeSearch(q), "result": res.Code}
		})
	}
	// clients with permission get exactly what there is, and no secrets of files
	for i := 0; i < t.N(200, 1200); i++ {
		tls, remote := r.Intn(3) == 0, w.remote != "" && r.Intn(2) == 0
		c := w.dial(tls, remote)
		dn, p := userDN("user3"), "secret-3-abc"
		if w.file && r.Intn(2) == 0 {
			dn, p = "cn=service1,"+baseDN, "secret-101-abc"
		}
		res, err := c.Bind(dn, p)
		t.netErr(err, "bind")
		if res.Code != rcSuccess {
			t.Fail("a bind with the right password was refused", dn, fmt.Sprintf("%+v", res))
		}
		base := mustDN(baseDN)
		if r.Intn(2) == 0 {
			base = w.m.Nodes[pick(r, w.m.Keys())].DN
		}
		q := SearchReq{Base: base.String(), Scope: r.Intn(3), Attrs: pick(r, [][]string{nil, {"*"}, {"userPassword", "uid"}, {"USERPASSWORD"}, {"*", "userPassword"}})}
		sr, err := c.Search(q)
		t.netErr(err, "search")
		want := map[string]string{}
		for _, n := range w.m.InScope(base, q.Scope) {
			want[n.DN.Key()] = canonAttrs(project(n.Attrs, q.Attrs))
		}
		got, err := snapshotOf(sr.Entries)
		t.netErr(err, "search")
		if diff := diffSnap(want, got); diff != "" {
			t.Fail("a bound client does not get exactly what it may see", dn, describeSearch(q), diff)
		}
		t.Eval(fmt.Sprint(label, "granted", tls, remote, q.Scope, q.Attrs, strings.HasPrefix(dn, "cn=")), true)
		t.Count("searches_with_identity", 1)
		// the bind-only entries are like entries that do not exist
		if w.file {
			for _, k := range w.config.Keys() {
				d := w.config.Nodes[k].DN
				for scope := 0; scope < 3; scope++ {
					a := w.dial(tls, remote)
					a.Bind(dn, p)
					n1, raw1, _ := w.ask(a, SearchReq{Base: d.String(), Scope: scope}, false)
					a.Close()
					b := w.dial(tls, remote)
					b.Bind(dn, p)
					n2, raw2, _ := w.ask(b, SearchReq{Base: "cn=servicex," + baseDN, Scope: scope}, false)
					b.Close()
					if n1 != 0 || n2 != 0 || !bytes.Equal(raw1, raw2) {
						t.Fail("a search tells about an entry of the bind-only file", d.String(), fmt.Sprintf("%q", raw1), fmt.Sprintf("%q", raw2))
					}
					t.Count("bind_only_probes", 1)
				}
			}
		}
		c.Close()
	}
}

// c14Secrets: two file-backed servers that differ in nothing but passwords and
// bind-only entries must answer every search alike.
func c14Secrets(t *T) {
	for round := 0; round < t.N(5, 30); round++ {
		r := t.Sub(fmt.Sprintf("secrets%d", round))
		pws := func(seed int64) (func(i int) string, []string) {
			rr := rand.New(rand.NewSource(seed))
			var all []string
			for i := 0; i < 200; i++ {
				v := genText(rr, 10)
				if i%3 == 0 {
					v = sshaOf(rr, v)
				}
				all = append(all, v)
			}
			return func(i int) string { return all[i] }, all
		}
		pwA, allA := pws(r.Int63())
		pwB, allB := pws(r.Int63())
		fix := func(m, c *Model, v string) {
			// one known account on both
			d := mustDN(userDN("user5"))
			n := m.Get(d).clone()
			n.Attrs = setVals(n.Attrs, "userPassword", []string{"known"})
			m.Nodes[d.Key()] = n
			x := c.Base.Child("cn", "only in "+v)
			c.Nodes[x.Key()] = &Node{DN: x, Attrs: []Attr{attr("objectClass", "top", "person"), attr("cn", "only in "+v), attr("mail", v+"@example.com"), attr("userPassword", v)}}
		}
		mA, cA := c14Data(r, pwA)
		mB, cB := c14Data(r, pwB)
		fix(mA, cA, "A")
		fix(mB, cB, "B")
		sA := t.StartLDIF(mA.LDIF(), cA.LDIF(), nil)
		sB := t.StartLDIF(mB.LDIF(), cB.LDIF(), nil)
		conn := func(s *Server) *Conn { return s.DialAs(userDN("user5"), "known") }
		a, b := conn(sA), conn(sB)
		value := func(r *rand.Rand, at string) string {
			if fold(at) == "userpassword" {
				v := pick(r, allA)
				if r.Intn(2) == 0 {
					v = pick(r, allB)
				}
				if r.Intn(2) == 0 {
					v = string([]rune(v)[:1+r.Intn(len([]rune(v)))])
				}
				return v
			}
			return pick(r, []string{"user1", "user2", "d1", "d2", "top", "person", "service0", "only in A", "User user3", "A@example.com", "user4@example.com"})
		}
		for i := 0; i < t.N(3000, 6000); i++ {
			f := genFilter(r, 3, []string{"userPassword", "USERPASSWORD", "userpassword", "uid", "cn", "mail", "description", "objectClass"}, value)
			if r.Intn(4) == 0 {
				f = pick(r, []*Filter{Present("userPassword"), Not(Present("userPassword")), And(Eq("uid", "user1"), Sub("userPassword", SubPart{0, value(r, "userPassword")})),
					Not(Eq("userPassword", value(r, "userPassword"))), Or(Eq("uid", "user1"), Eq("userPassword", value(r, "userPassword")))})
			}
			q := SearchReq{Base: pick(r, []string{baseDN, "ou=people," + baseDN, userDN("user1"), "cn=service0," + baseDN, "cn=only in A," + baseDN}), Scope: r.Intn(3), Filter: f,
				Attrs: pick(r, [][]string{nil, {"*"}, {"userPassword"}, {"USERpassword", "uid"}, {"+", "*"}, {"userPassword;binary"}})}
			page := r.Intn(6) == 0
			w := &c14World{t: t, s: sA}
			nA, rawA, resA := w.ask(a, q, page)
			nB, rawB, resB := w.ask(b, q, page)
			same := bytes.Equal(rawA, rawB)
			if !same && nA == nB && resA.Code == resB.Code && !page {
				// the order of entries may differ
				same = sortedBytes(rawA) == sortedBytes(rawB)
			}
			if page && !same {
				// which entries are on a page depends on the order
				same = nA == nB && resA.Code == resB.Code
			}
			if !same {
				t.Fail("the answer to a search depends on stored passwords or bind-only entries", describeSearch(q), fmt.Sprintf("%q", rawA), fmt.Sprintf("%q", rawB))
			}
			if bytes.Contains(bytes.ToLower(rawA), []byte("userpassword")) {
				t.Fail("a search of the file-backed directory returns a password attribute", describeSearch(q), fmt.Sprintf("%q", rawA))
			}
			t.Eval(fmt.Sprint("secrets", shapeOf(f), q.Scope, q.Attrs, nA, resA.Code), nA > 0)
			t.Count("secret_comparisons", 1)
			if resA.Code != rcSuccess {
				a.Close()
				b.Close()
				a, b = conn(sA), conn(sB)
			}
		}
		sA.Kill()
		sB.Kill()
	}
}

func sortedBytes(b []byte) string {
	x := append([]byte{}, b...)
	var n [256]int
	for _, c := range x {
		n[c]++
	}
	return fmt.Sprint(n)
}

// c14AnonTimes: permission is judged at every search, whatever other
// connections did before or do meanwhile.
func c14AnonTimes(t *T, pw func(int) string) {
	for _, file := range []bool{true, false} {
		r := t.Sub(fmt.Sprint("times", file))
		m, c := c14Data(r, pw)
		w := &c14World{t: t, file: file, m: m}
		if file {
			w.s = t.StartLDIF(m.LDIF(), c.LDIF(), nil)
		} else {
			w.s = t.StartDB(m, nil)
		}
		type cl struct {
			c     *Conn
			bound bool
		}
		var cs []*cl
		for i := 0; i < t.N(3000, 20000); i++ {
			if len(cs) < 6 {
				cs = append(cs, &cl{c: w.s.Dial()})
			}
			k := r.Intn(len(cs))
			x := cs[k]
			switch r.Intn(4) {
			case 0:
				j := r.Intn(12)
				res, err := x.c.Bind(userDN(fmt.Sprintf("user%d", j)), pw(j))
				t.netErr(err, "bind")
				x.bound = res.Code == rcSuccess
				if !x.bound {
					t.Fail("a bind with the right password was refused", fmt.Sprintf("%+v", res))
				}
			case 1:
				res, err := x.c.Bind(userDN("user1"), pw(2))
				t.netErr(err, "bind")
				if res.Code == rcSuccess {
					t.Fail("a bind with a wrong password was accepted")
				}
				x.bound = false
			case 2:
				x.c.Close()
				cs = append(cs[:k], cs[k+1:]...)
			default:
				n, raw, res := w.ask(x.c, SearchReq{Base: baseDN, Scope: 2}, file && r.Intn(3) == 0)
				if !x.bound && n > 0 {
					t.Fail("a client without permission got entries", fmt.Sprintf("%q", raw))
				}
				if x.bound && n == 0 {
					t.Fail("a bound client got nothing", fmt.Sprintf("%+v", res))
				}
				t.Eval(fmt.Sprint("times", file, x.bound, len(cs), n > 0), true)
				if res.Code != rcSuccess {
					x.c.Close()
					cs = append(cs[:k], cs[k+1:]...)
				}
			}
		}
		w.s.Kill()
	}
}
