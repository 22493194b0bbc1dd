package main

import (
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

func init() {
	register("C19", "exploration",
		"evaluations are requests and events sent to a server built with the race detector; distinct are the pairs of kinds of requests and events that were in progress at the same time on one back end; a pair counts as trivial if it never overlapped, so it is not counted at all",
		checkC19)
}

func checkC19(t *T) {
	t.Assume("the race detector reports unsynchronised accesses that happen in a run; accesses inside C code (crypt) are judged by the answers only")
	t.Go(func() { c19Same(t, true) }, func() { c19Same(t, false) })
	var fs []func()
	for i := 0; i < t.N(3, 6); i++ {
		i := i
		fs = append(fs, func() { c19Round(t, true, i) }, func() { c19Round(t, false, i) })
	}
	// Two at a time: more servers only slow each other down.
	for len(fs) > 0 {
		t.Go(fs[0], fs[1])
		fs = fs[2:]
	}
}

// c19Same lets several clients do the same unusual thing at the same time, one
// thing after the other.
func c19Same(t *T, file bool) {
	rw := &raceWorld{t: t, file: file, flight: map[string]int{}, logs: t.Dir("race")}
	w := c24Start(t, file, func(o *ServerOpts) {
		o.Kind = "race"
		o.Env = []string{"GORACE=log_path=" + filepath.Join(rw.logs, "race") + " halt_on_error=0 atexit_sleep_ms=0 history_size=4"}
	})
	rw.s = w.s
	for _, k := range c24Works() {
		if k.only == "db" && file || k.only == "file" && !file || strings.HasPrefix(k.name, "reload") || k.name == "many at once" || t.failed() {
			continue
		}
		k := k
		reps := t.N(4, 12)
		if k.reps < 50 {
			reps = 1
		}
		var fs []func()
		for c := 0; c < 8; c++ {
			x := *w
			r := t.Sub(fmt.Sprintf("same %v %s %d", file, k.name, c))
			fs = append(fs, func() {
				defer x.lost()
				for i := 0; i < reps && !t.failed(); i++ {
					rw.during("the same: "+k.name, func() { k.f(&x, r) })
				}
			})
		}
		t.Go(fs...)
		w.s.CheckAlive("under concurrent use: " + k.name)
	}
	rw.judge()
	t.Count("same_requests", int(rw.ops.Load()))
}

type raceWorld struct {
	t        *T
	s        *Server
	file     bool
	m        *Model
	logs     string
	main     string
	conf     string
	stopping atomic.Bool
	ops      atomic.Int64

	mu     sync.Mutex
	flight map[string]int
	fixed  map[string]string // names and passwords that never change
	names  []string
}

// during runs f and notes what else was going on.
func (w *raceWorld) during(kind string, f func()) {
	w.mu.Lock()
	var others []string
	for k, n := range w.flight {
		if n > 0 {
			others = append(others, k)
		}
	}
	w.flight[kind]++
	w.mu.Unlock()
	sort.Strings(others)
	back := "db"
	if w.file {
		back = "file"
	}
	if len(others) > 3 {
		w.t.SampleEvery(int(w.ops.Load()), func() interface{} { return back + ": " + kind + " during " + strings.Join(others, ", ") })
	}
	if len(others) == 0 {
		w.t.Eval(back+" "+kind, false)
	}
	for i, o := range others {
		a, b := o, kind
		if a > b {
			a, b = b, a
		}
		key := back + " " + a + " | " + b
		if i == 0 {
			w.t.Eval(key, true)
		} else {
			w.t.Also(key)
		}
	}
	w.ops.Add(1)
	f()
	w.mu.Lock()
	w.flight[kind]--
	w.mu.Unlock()
}

func c19Round(t *T, file bool, i int) {
	what := "db"
	if file {
		what = "file"
	}
	r := t.Sub(fmt.Sprintf("%s-%d", what, i))
	w := &raceWorld{t: t, file: file, flight: map[string]int{}, fixed: map[string]string{}}
	w.m = baseModel()
	for j := 0; j < 24; j++ {
		uid := fmt.Sprintf("u%d", j)
		pw := fmt.Sprintf("pw-%d", j)
		stored := pw
		switch j % 5 {
		case 1:
			stored = sshaOf(r, pw)
		case 2:
			stored = argonOf(r, pw, 64, 1, 2)
		case 3:
			stored = cryptOf(r, pw, pick(r, []string{"1", "5", "6"}))
		}
		mustAdd(w.m, mustDN(userDN(uid)), append(personAttrs(uid, "User "+uid, "Sn", uid+"@x.example", stored), attr("description", genText(r, 30)))...)
		w.fixed[userDN(uid)] = pw
	}
	for j := 0; j < 150; j++ {
		d := w.m.Base.Child("ou", "groups").Child("cn", fmt.Sprintf("g%d", j))
		mustAdd(w.m, d, thing(d, attr("description", strings.Repeat("x", r.Intn(500))), attr("member", userDN(fmt.Sprintf("u%d", j%24))))...)
	}
	w.names = sortedKeys(w.fixed)
	w.logs = t.Dir("race")
	mod := func(o *ServerOpts) {
		o.Kind = "race"
		o.Metrics, o.Pprof, o.TLS = true, true, true
		o.Anonymous = i%2 == 0
		o.LogLevel = pick(r, []string{"error", "warn", "debug"})
		o.Env = []string{"GORACE=log_path=" + filepath.Join(w.logs, "race") + " halt_on_error=0 atexit_sleep_ms=0 history_size=4"}
	}
	if file {
		w.main = t.Dir("data")
		w.conf = filepath.Join(t.Dir("conf"), "conf.ldif")
		w.writeFiles(0)
		o := ServerOpts{Handler: "ldif", Main: w.main, Config: w.conf}
		mod(&o)
		w.s = t.Start(o)
	} else {
		w.s = t.StartDB(w.m, mod)
	}
	w.s.WaitSignals()

	n := t.N(60, 150)
	const clients = 10
	stop := make(chan struct{})
	pause := func(d time.Duration) bool {
		select {
		case <-stop:
			return false
		case <-time.After(d):
			return true
		}
	}
	reloads := func() {
		for k := 1; pause(40 * time.Millisecond); k++ {
			if file {
				w.writeFiles(k)
			}
			w.during("reload", func() {
				w.s.Signal(syscall.SIGHUP)
				pause(20 * time.Millisecond)
			})
		}
	}
	metrics := func() {
		for pause(5 * time.Millisecond) {
			w.during("metrics", func() { w.s.MetricValues() })
		}
	}
	// all runs the clients together with reloads and metrics reads.
	all := func(label string, n int, more ...func()) {
		stop = make(chan struct{})
		var wg sync.WaitGroup
		fs := append([]func(){reloads, metrics, func() { wg.Wait(); close(stop) }}, more...)
		for c := 0; c < clients; c++ {
			c := c
			cr := t.Sub(fmt.Sprintf("%s-%d-%s-%d", what, i, label, c))
			wg.Add(1)
			fs = append(fs, func() {
				defer wg.Done()
				for k := 0; k < n && w.s.Alive() && !t.failed(); k++ {
					w.session(cr, c, k)
				}
			})
		}
		t.Go(fs...)
	}
	all("client", n)
	w.s.CheckAlive("under concurrent use")
	// Terminate in the middle of everything.
	w.stopping.Store(true)
	w.s.expectDead = true
	wait := time.Duration(5+r.Intn(150)) * time.Millisecond
	all("late", 1<<30, func() {
		time.Sleep(wait)
		w.during("terminate", func() {
			for k := 0; k < 600 && w.s.Alive(); k++ {
				w.s.Signal(syscall.SIGTERM)
				time.Sleep(100 * time.Millisecond)
			}
		})
		if w.s.Alive() {
			t.Count("killed_after_60s", 1)
			w.s.Kill()
		}
	})
	w.judge()
	t.Count("requests", int(w.ops.Load()))
	t.Count("servers_"+what, 1)
}

// judge looks at what the race detector and the process have to say.
func (w *raceWorld) judge() {
	w.s.Kill()
	t := w.t
	var all []string
	fs, _ := filepath.Glob(filepath.Join(w.logs, "race*"))
	for _, f := range fs {
		b, err := os.ReadFile(f)
		t.Must(err, "race log")
		all = append(all, string(b))
	}
	if s := strings.Join(all, "\n"); strings.Contains(s, "DATA RACE") {
		t.Fail(fmt.Sprintf("the race detector reports %d unsynchronised accesses", strings.Count(s, "WARNING: DATA RACE")), clip(s, 12000))
	} else if len(s) > 0 {
		t.Fail("the race detector stopped the server", clip(s, 12000))
	}
	l := w.s.Log()
	for _, bad := range []string{"fatal error: ", "panic: ", "concurrent map", "DATA RACE"} {
		if k := strings.Index(l, bad); k >= 0 {
			t.Fail("concurrent use makes the server fail", clip(l[k:], 8000))
		}
	}
	t.Count("race_logs_read", len(fs)+1)
}

// writeFiles puts another version of the data into place.
func (w *raceWorld) writeFiles(k int) {
	put := func(f, s string) {
		w.t.Must(os.WriteFile(f+".new", []byte(s), 0o644), "write")
		w.t.Must(os.Rename(f+".new", f), "rename")
	}
	put(filepath.Join(w.main, "a.ldif"), w.m.LDIF())
	put(filepath.Join(w.main, "b.ldif"), fmt.Sprintf("dn: cn=version,%s\nobjectClass: top\ncn: version\ndescription: %d {{.Company}}\n", baseDN, k))
	conf := fmt.Sprintf("dn: cn=svc,%s\nobjectClass: top\ncn: svc\nuserPassword: svc-pw\ndescription: %d\n", baseDN, k)
	if k%9 == 8 {
		conf += "dn cn=broken\n" // refused
	}
	put(w.conf, conf)
}

// session is one connection with a few requests.
func (w *raceWorld) session(r *rand.Rand, client, k int) {
	t := w.t
	var c *Conn
	var err error
	tls := r.Intn(5) == 0
	if w.stopping.Load() {
		time.Sleep(time.Millisecond)
	}
	w.during("connect", func() {
		if tls {
			c, err = dialTLS(w.s.TLSAddr)
		} else {
			c, err = dial(w.s.Addr)
		}
	})
	lost := func(err error, what string) bool {
		if err == nil {
			return false
		}
		if w.stopping.Load() {
			return true
		}
		t.netErr(err, what)
		return true
	}
	if lost(err, "connect") {
		return
	}
	defer c.Close()
	name := pick(r, w.names)
	pw := w.fixed[name]
	if !w.file && r.Intn(2) == 0 {
		name, pw = adminDN, adminPW
	}
	var res Result
	w.during("bind", func() { res, err = c.Bind(name, pw) })
	if lost(err, "bind") {
		return
	}
	if res.Code != rcSuccess && !w.stopping.Load() {
		t.Fail("a bind is refused under concurrent use", name, fmt.Sprintf("%+v", res))
	}
	own := fmt.Sprintf("own%d", client)
	var did []string
	for j := 1 + r.Intn(6); j > 0; j-- {
		kind := r.Intn(16)
		did = append(did, fmt.Sprint(kind))
		switch kind {
		case 0, 1, 2:
			f := genFilter(r, 2, []string{"cn", "uid", "description", "mail", "objectClass", "member"}, func(r *rand.Rand, a string) string {
				return pick(r, []string{"u1", "User u3", "g1", "x", "top", "u5@x.example", userDN("u2")})
			})
			w.during("search", func() {
				_, err = c.Search(SearchReq{Base: pick(r, []string{baseDN, "ou=people," + baseDN, "ou=groups," + baseDN}), Scope: r.Intn(3), Filter: f})
			})
		case 14, 15:
			// parts of values at the end, the start and in the middle
			x := r.Intn(24)
			fs := []*Filter{
				Sub("mail", SubPart{2, "@x.example"}), Sub("mail", SubPart{2, fmt.Sprintf("u%d@x.example", x)}), Sub("cn", SubPart{2, fmt.Sprint(x)}),
				Sub("cn", SubPart{2, fmt.Sprintf("User u%d", x)}), Sub("cn", SubPart{0, "User"}), Sub("sn", SubPart{2, "n"}), Sub("cn", SubPart{1, "r u"}),
				Sub("givenName", SubPart{2, "x"}), Sub("mail", SubPart{0, fmt.Sprintf("u%d@", x)}, SubPart{2, "example"}), Present("mail"), Present("sn"),
			}
			f := pick(r, fs)
			w.during("search for parts", func() { _, err = c.Search(SearchReq{Base: baseDN, Scope: 2, Filter: f}) })
		case 3:
			w.during("search one", func() {
				var sr *SearchResult
				sr, err = c.Search(SearchReq{Base: baseDN, Scope: 2, Filter: Eq("uid", "u7")})
				if err == nil && sr.Result.Code == rcSuccess && len(sr.Entries) != 1 {
					t.Fail("a search is answered wrongly under concurrent use", fmt.Sprintf("%+v", sr), fmt.Sprintf("as %s, after requests %v, file %v", name, did, w.file))
				}
			})
		case 4, 5:
			var cookie []byte
			size := int64(1 + r.Intn(80))
			for p := 1 + r.Intn(5); p > 0 && err == nil; p-- {
				w.during("paged search", func() {
					var sr *SearchResult
					sr, err = c.Search(SearchReq{Base: baseDN, Scope: 2}, pagingControl(size, cookie))
					if err == nil {
						cookie = sr.Cookie
					}
				})
				if len(cookie) == 0 {
					break
				}
			}
		case 6:
			w.during("bind wrong", func() { res, err = c.Bind(pick(r, w.names), "wrong") })
			if err == nil && res.Code == rcSuccess {
				t.Fail("a bind with a wrong password succeeds under concurrent use", fmt.Sprintf("%+v", res))
			}
		case 7:
			n := pick(r, w.names)
			w.during("bind again", func() { res, err = c.Bind(n, w.fixed[n]) })
			if err == nil && res.Code != rcSuccess && !w.stopping.Load() {
				t.Fail("a bind is refused under concurrent use", n, fmt.Sprintf("%+v", res))
			}
		case 8:
			w.during("add", func() {
				_, err = c.Add(Entry{DN: userDN(own), Attrs: personAttrs(own, "Own", "O", "", "own-pw")})
			})
		case 9:
			w.during("modify", func() {
				_, err = c.Modify(userDN(own), []Change{{2, "description", []string{fmt.Sprint(k)}}, {0, "mail", []string{fmt.Sprintf("m%d@x", k)}}})
			})
		case 10:
			w.during("rename", func() { _, err = c.ModDN(userDN(own), "uid="+own+"x", true, nil) })
			if err == nil {
				w.during("rename", func() { _, err = c.ModDN(userDN(own+"x"), "uid="+own, true, nil) })
			}
		case 11:
			w.during("delete", func() { _, err = c.Delete(userDN(own)) })
		case 12:
			w.during("password", func() { _, _, err = c.PwMod(sp(userDN(own)), nil, sp("own-pw")) })
		case 13:
			w.during("limited search", func() { _, err = c.Search(SearchReq{Base: baseDN, Scope: 2, SizeLimit: 1 + r.Intn(5)}) })
			// May end the connection.
			return
		}
		if errors.Is(err, errClosed) {
			// Refused searches end the connection.
			return
		}
		if lost(err, "request") {
			return
		}
	}
	switch r.Intn(7) {
	case 0:
		w.during("unbind", func() { c.Send(unbindOp()) })
	case 1:
		w.during("reset", func() {
			c.Send(searchOp(SearchReq{Base: baseDN, Scope: 2}))
			reset(c)
		})
	case 2:
		w.during("abandon", func() {
			id, _ := c.Send(searchOp(SearchReq{Base: baseDN, Scope: 2}))
			c.Send(abandonOp(id))
			c.Recv()
		})
	case 3:
		w.during("compare", func() { c.roundTrip(compareOp(name, "uid", "u1"), tagCmpResp) })
	case 4:
		w.during("garbage", func() {
			b := make([]byte, 40)
			r.Read(b)
			c.SendRaw(b)
		})
	case 5:
		w.during("pipeline", func() {
			for x := 0; x < 8; x++ {
				c.Send(searchOp(SearchReq{Base: baseDN, Scope: 2, Filter: Eq("uid", fmt.Sprintf("u%d", x))}))
			}
			for x := 0; x < 3; x++ {
				c.Recv()
			}
		})
	}
}
