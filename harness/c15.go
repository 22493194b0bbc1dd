package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

func init() {
	register("C15", "exploration",
		"an observation (search or bind) counts as distinct by kind of client, layout of the files, generation seen and generations possible at that time; it is nontrivial when more than one generation was possible or a reload of broken files came before it",
		checkC15)
}

// gen is one content of the files.
type gen struct {
	n     int
	good  bool
	model *Model // visible data
	cache map[string]map[string]string
	mu    sync.Mutex
}

type reloadWorld struct {
	t      *T
	r      *rand.Rand
	s      *Server
	layout string // single, file, folder
	dir    string
	mu     sync.Mutex
	gens   []*gen
	seen   int64 // highest generation known to have been served
	trig   int64 // highest generation asked for
	bad    int64 // number of reloads of broken files so far
	pause  sync.RWMutex
	stop   int32
	size   int
	steps  []string
}

func (w *reloadWorld) note(format string, a ...interface{}) {
	w.mu.Lock()
	w.steps = append(w.steps, fmt.Sprintf(format, a...))
	if len(w.steps) > 40 {
		w.steps = w.steps[1:]
	}
	w.mu.Unlock()
}

func (w *reloadWorld) history() string {
	w.mu.Lock()
	defer w.mu.Unlock()
	return strings.Join(w.steps, "\n")
}

func (w *reloadWorld) gen(n int) *gen {
	w.mu.Lock()
	defer w.mu.Unlock()
	if n < 0 || n >= len(w.gens) {
		return nil
	}
	return w.gens[n]
}

// possible lists the generations that may be served between two moments.
func (w *reloadWorld) possible(lo, hi int64) []int {
	var out []int
	for n := lo; n <= hi; n++ {
		if g := w.gen(int(n)); g != nil && g.good {
			out = append(out, int(n))
		}
	}
	return out
}

func (w *reloadWorld) saw(n int) {
	for {
		o := atomic.LoadInt64(&w.seen)
		if o >= int64(n) || atomic.CompareAndSwapInt64(&w.seen, o, int64(n)) {
			return
		}
	}
}

func dataPW(n int) string { return fmt.Sprintf("data-%d", n) }
func confPW(n int) string { return fmt.Sprintf("conf-%d", n) }

const movers = 6

// make writes the files of the next generation into its own folder.
func (w *reloadWorld) make(breakage string) *gen {
	r := w.r
	t := w.t
	n := len(w.gens)
	g := &gen{n: n, good: breakage == "", cache: map[string]map[string]string{}}
	m := baseModel()
	people := m.Base.Child("ou", "people")
	desc := fmt.Sprintf("g%d", n)
	m.Add(people.Child("uid", "prober"), append(personAttrs("prober", "Prober", "P", "p@x", dataPW(n)), attr("description", desc)))
	conf := ""
	confUser := func(uid, pw string) {
		conf += (&Node{DN: people.Child("uid", uid), Attrs: []Attr{attr("objectClass", "top"), attr("uid", uid), attr("userPassword", pw)}}).LDIF()
	}
	confUser("service", confPW(n))
	for i := 0; i < movers; i++ {
		uid := fmt.Sprintf("mover%d", i)
		if w.layout != "single" && (n+i)%2 == 0 {
			confUser(uid, "mover-pw")
			continue
		}
		m.Add(people.Child("uid", uid), append(personAttrs(uid, "Mover", "M", uid+"@x", "mover-pw"), attr("description", desc)))
	}
	k := r.Intn(w.size) + 3
	pad := strings.Repeat("x", pick(r, []int{1, 100, 2000}))
	for i := 0; i < k; i++ {
		uid := fmt.Sprintf("u%d", i)
		if r.Intn(4) == 0 {
			uid = fmt.Sprintf("u%d-%d", n, i)
		}
		as := []Attr{attr("objectClass", "top", "person"), attr("uid", uid), attr("cn", pad), attr("description", desc)}
		if r.Intn(2) == 0 {
			as = append(as, attr("sn", pick(r, []string{"alpha", "beta"})))
		}
		if r.Intn(3) == 0 {
			as = append(as, attr("mail", fmt.Sprintf("%s@%s.example", uid, desc)))
		}
		m.Add(people.Child("uid", uid), as)
	}
	for _, x := range m.Ordered() {
		if len(getVals(x.Attrs, "description")) == 0 {
			x.Attrs = append(x.Attrs, attr("description", desc))
		}
	}
	g.model = withoutSecrets(m)
	d := filepath.Join(w.dir, fmt.Sprintf("gen%d", n))
	t.Must(os.MkdirAll(filepath.Join(d, "data.d"), 0o755), "mkdir")
	put := func(name, s string) { t.Must(os.WriteFile(filepath.Join(d, name), []byte(s), 0o644), "write") }
	put("config.ldif", conf)
	var names []string
	if w.layout == "folder" {
		parts := make([]string, 2+r.Intn(3))
		for _, x := range m.Ordered() {
			parts[r.Intn(len(parts))] += x.LDIF()
		}
		for i, p := range parts {
			name := fmt.Sprintf("data.d/%d.ldif", i)
			names = append(names, name)
			put(name, p)
		}
	} else {
		names = []string{"main.ldif"}
		put("main.ldif", m.LDIF())
	}
	if breakage != "" {
		f := pick(r, names)
		if strings.HasPrefix(breakage, "bind-only ") {
			f = "config.ldif"
		}
		p := filepath.Join(d, f)
		b, err := os.ReadFile(p)
		t.Must(err, "read")
		s := string(b)
		switch breakage[strings.LastIndexByte(breakage, ' ')+1:] {
		case "gone":
			if w.layout == "folder" && f != "config.ldif" {
				t.Must(os.RemoveAll(filepath.Join(d, "data.d")), "remove")
			} else {
				t.Must(os.Remove(p), "remove")
			}
		case "line":
			s += "\ndn: uid=late,ou=people," + baseDN + "\nuid: late\nrubbish\n"
		case "template":
			s += "\ndn: uid=late,ou=people," + baseDN + "\nuid: {{NoSuchThing}}\n"
		case "lateerror":
			s += "\ndn: uid=late,ou=people," + baseDN + "\nuid: {{index .Company 99999}}\n"
		case "twice":
			one := "\ndn: uid=late,ou=people," + baseDN + "\nuid: late\n"
			s += one + one
		case "folder":
			t.Must(os.Remove(p), "remove")
			t.Must(os.Mkdir(p, 0o755), "mkdir")
			if w.layout != "folder" && f != "config.ldif" {
				// a folder would be a proper source of data, so put a broken file into it
				t.Must(os.WriteFile(filepath.Join(p, "x.ldif"), []byte("rubbish\n"), 0o644), "write")
			}
			s = ""
		}
		if s != "" && !strings.HasSuffix(breakage, "gone") {
			put(f, s)
		}
	}
	w.mu.Lock()
	w.gens = append(w.gens, g)
	w.mu.Unlock()
	return g
}

// install makes the files of a generation the current ones in one step.
func (w *reloadWorld) install(n int) {
	l := filepath.Join(w.dir, "next")
	os.Remove(l)
	w.t.Must(os.Symlink(fmt.Sprintf("gen%d", n), l), "symlink")
	w.t.Must(os.Rename(l, filepath.Join(w.dir, "current")), "rename")
}

func (w *reloadWorld) hup(n int) {
	if w.gen(n).good {
		for {
			o := atomic.LoadInt64(&w.trig)
			if o >= int64(n) || atomic.CompareAndSwapInt64(&w.trig, o, int64(n)) {
				break
			}
		}
	}
	w.s.Signal(syscall.SIGHUP)
}

// settle waits until the server has nothing to do any more.
func (w *reloadWorld) settle() {
	w.pause.Lock()
	defer w.pause.Unlock()
	for i := 0; i < 100; i++ {
		a := w.s.cpuTicks()
		time.Sleep(100 * time.Millisecond)
		if w.s.cpuTicks() == a {
			return
		}
	}
}

// await waits until a generation is served; a server that has become idle
// without serving it has missed the reload.
func (w *reloadWorld) await(n int, what string) {
	deadline := time.Now().Add(20 * time.Second)
	for time.Now().Before(deadline) {
		if atomic.LoadInt64(&w.seen) >= int64(n) {
			return
		}
		time.Sleep(5 * time.Millisecond)
	}
	w.pause.Lock()
	defer w.pause.Unlock()
	a := w.s.cpuTicks()
	time.Sleep(5 * time.Second)
	if atomic.LoadInt64(&w.seen) >= int64(n) {
		return
	}
	if w.s.cpuTicks()-a > 50 {
		w.t.Inconclusive("reload takes too long")
	}
	w.t.Fail("a reload of proper files never takes effect", what, fmt.Sprintf("generation %d, still serving %d", n, atomic.LoadInt64(&w.seen)), w.history())
}

var c15Queries = []SearchReq{
	{Base: baseDN, Scope: 2},
	{Base: baseDN, Scope: 2, Filter: Eq("sn", "alpha")},
	{Base: "ou=people," + baseDN, Scope: 1, Filter: Present("mail")},
	{Base: "uid=prober,ou=people," + baseDN, Scope: 0},
	{Base: baseDN, Scope: 2, Filter: Not(Eq("sn", "beta")), Attrs: []string{"uid", "description"}},
	{Base: "ou=people," + baseDN, Scope: 2, Filter: Sub("mail", SubPart{0, "u1"}), Attrs: []string{"description", "mail"}},
}

func (g *gen) expect(i int) map[string]string {
	g.mu.Lock()
	defer g.mu.Unlock()
	k := fmt.Sprint(i)
	if g.cache[k] == nil {
		q := c15Queries[i]
		if q.Filter == nil {
			q.Filter = Present("objectClass")
		}
		g.cache[k] = g.model.expectSearch(mustDN(q.Base), q)
	}
	return g.cache[k]
}

// judge decides about a complete result of a search.
func (w *reloadWorld) judge(kind string, qi int, es []Entry, lo, hi int64) {
	t := w.t
	got, err := snapshotOf(es)
	if err != nil {
		t.Fail("a search around a reload has an impossible result", kind, err.Error(), w.history())
	}
	gens := map[string]int{}
	for _, e := range es {
		for _, v := range getVals(e.Attrs, "description") {
			gens[v]++
		}
	}
	if len(gens) > 1 {
		t.Fail("one search saw several contents", kind, describeSearch(c15Queries[qi]), fmt.Sprintf("%v", gens), w.history())
	}
	ps := w.possible(lo, hi)
	best := ""
	for _, n := range ps {
		d := diffSnap(w.gen(n).expect(qi), got)
		if d == "" {
			if len(es) > 0 {
				w.saw(n)
			}
			t.Count("searches", 1)
			t.Eval(fmt.Sprintf("%s %s q%d possible=%d bad=%d", w.layout, kind, qi, len(ps), min64(3, atomic.LoadInt64(&w.bad))), len(ps) > 1 || atomic.LoadInt64(&w.bad) > 0)
			return
		}
		best = d
	}
	for k := range gens {
		best = "served: " + k + "\n" + best
	}
	t.Fail("a search around a reload saw neither the old nor the new content", kind, describeSearch(c15Queries[qi]), fmt.Sprintf("possible generations: %v", ps), best, w.history())
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

// step does something that the controller can keep from happening.
func (w *reloadWorld) step(f func()) {
	w.pause.RLock()
	defer w.pause.RUnlock()
	f()
}

func (w *reloadWorld) searcher(r *rand.Rand) {
	c := w.s.DialAs(adminDN, adminPW)
	defer c.Close()
	for atomic.LoadInt32(&w.stop) == 0 {
		w.step(func() { w.search(c, r.Intn(len(c15Queries)), "search") })
	}
}

func (w *reloadWorld) search(c *Conn, qi int, kind string) {
	lo := atomic.LoadInt64(&w.seen)
	res, err := c.Search(c15Queries[qi])
	hi := atomic.LoadInt64(&w.trig)
	w.t.netErr(err, "search around a reload")
	if res.Result.Code != rcSuccess {
		w.t.Fail("a search around a reload is refused", kind, fmt.Sprintf("%+v", res.Result), w.history())
	}
	w.judge(kind, qi, res.Entries, lo, hi)
}

// bindOnce tries one bind whose outcome depends on the generation.
func (w *reloadWorld) bindOnce(c *Conn, user string, pw func(int) string, n int, kind string) {
	t := w.t
	lo := atomic.LoadInt64(&w.seen)
	res, err := c.Bind(userDN(user), pw(n))
	hi := atomic.LoadInt64(&w.trig)
	t.netErr(err, "bind around a reload")
	ps := w.possible(lo, hi)
	is, other := false, false
	for _, p := range ps {
		if p == n {
			is = true
		} else {
			other = true
		}
	}
	d := fmt.Sprintf("bind as %s with the password of generation %d, possible generations %v: %+v", user, n, ps, res)
	if res.Code == rcSuccess {
		if !is {
			t.Fail("a bind saw content that is not served", kind, d, w.history())
		}
		w.saw(n)
	} else if !other {
		t.Fail("a bind did not see the content that is served", kind, d, w.history())
	}
	t.Count("binds", 1)
	t.Eval(fmt.Sprintf("%s %s %s is=%v other=%v bad=%d", w.layout, kind, user, is, other, min64(3, atomic.LoadInt64(&w.bad))), len(ps) > 1 || atomic.LoadInt64(&w.bad) > 0)
}

func (w *reloadWorld) binder(r *rand.Rand) {
	c := w.s.Dial()
	defer c.Close()
	for atomic.LoadInt32(&w.stop) == 0 {
		w.step(func() { w.bindAny(c, r) })
	}
}

func (w *reloadWorld) bindAny(c *Conn, r *rand.Rand) {
	t := w.t
	w.mu.Lock()
	last := len(w.gens) - 1
	w.mu.Unlock()
	n := last - r.Intn(3)
	if r.Intn(2) == 0 {
		n = int(atomic.LoadInt64(&w.seen))
	}
	if n < 0 {
		n = 0
	}
	switch k := r.Intn(4); {
	case k == 0:
		w.bindOnce(c, "prober", dataPW, n, "bind")
	case k == 1 && w.layout != "single":
		w.bindOnce(c, "service", confPW, n, "bind")
	default:
		u := fmt.Sprintf("mover%d", r.Intn(movers))
		pw := "mover-pw"
		if r.Intn(8) == 0 {
			pw = "mover-px"
		}
		res, err := c.Bind(userDN(u), pw)
		t.netErr(err, "bind around a reload")
		if (res.Code == rcSuccess) != (pw == "mover-pw") {
			t.Fail("a bind that both the old and the new content decide alike was decided otherwise", u, pw, fmt.Sprintf("%+v", res), w.history())
		}
		t.Count("binds", 1)
		t.Eval(fmt.Sprintf("%s mover %s", w.layout, pw), true)
	}
}

// slow reads the result of a search late, while reloads happen.
func (w *reloadWorld) slow(r *rand.Rand) {
	t := w.t
	c := w.s.DialAs(adminDN, adminPW)
	defer c.Close()
	for atomic.LoadInt32(&w.stop) == 0 {
		w.step(func() {
			lo := atomic.LoadInt64(&w.seen)
			id, err := c.Send(searchOp(c15Queries[0]))
			t.netErr(err, "search around a reload")
			time.Sleep(time.Duration(20+r.Intn(250)) * time.Millisecond)
			res, err := c.recvSearch(id)
			hi := atomic.LoadInt64(&w.trig)
			t.netErr(err, "slowly read search around a reload")
			if res.Result.Code != rcSuccess {
				t.Fail("a search around a reload is refused", "slow", fmt.Sprintf("%+v", res.Result), w.history())
			}
			w.judge("slow", 0, res.Entries, lo, hi)
		})
	}
}

// paged reads a search in pages while reloads happen.
func (w *reloadWorld) paged(r *rand.Rand) {
	t := w.t
	c := w.s.DialAs(adminDN, adminPW)
	defer c.Close()
	for atomic.LoadInt32(&w.stop) == 0 {
		w.step(func() {
			qi := r.Intn(len(c15Queries))
			lo := atomic.LoadInt64(&w.seen)
			var hi int64
			var es []Entry
			var cookie []byte
			for first := true; first || len(cookie) > 0; first = false {
				res, err := c.Search(c15Queries[qi], pagingControl(int64(50+r.Intn(400)), cookie))
				if first {
					hi = atomic.LoadInt64(&w.trig)
				}
				t.netErr(err, "paged search around a reload")
				if res.Result.Code != rcSuccess {
					t.Fail("a page around a reload is refused", fmt.Sprintf("%+v", res.Result), w.history())
				}
				es = append(es, res.Entries...)
				cookie = res.Cookie
				time.Sleep(time.Duration(r.Intn(30)) * time.Millisecond)
			}
			w.judge("paged", qi, es, lo, hi)
		})
	}
}

var c15Breakages = []string{"data line", "data template", "data twice", "data gone", "data lateerror", "data folder",
	"bind-only line", "bind-only template", "bind-only twice", "bind-only gone", "bind-only lateerror", "bind-only folder"}

// probe looks at everything once, with nothing else going on.
func (w *reloadWorld) probe(kind string) {
	c := w.s.DialAs(adminDN, adminPW)
	defer c.Close()
	b := w.s.Dial()
	defer b.Close()
	for i := range c15Queries {
		w.search(c, i, kind)
	}
	w.mu.Lock()
	last := len(w.gens) - 1
	w.mu.Unlock()
	for n := last; n >= 0 && n > last-4; n-- {
		w.bindOnce(b, "prober", dataPW, n, kind)
		if w.layout != "single" {
			w.bindOnce(b, "service", confPW, n, kind)
		}
	}
}

func (w *reloadWorld) control(steps int) {
	r := w.r
	defer atomic.StoreInt32(&w.stop, 1)
	badOrder := r.Perm(len(c15Breakages))
	for i := 0; i < steps; i++ {
		switch k := r.Intn(10); {
		case k < 4:
			kind := c15Breakages[badOrder[i%len(badOrder)]]
			if w.layout == "single" && strings.HasPrefix(kind, "bind-only") {
				kind = "data" + strings.TrimPrefix(kind, "bind-only")
			}
			g := w.make(kind)
			w.note("reload broken generation %d: %s", g.n, kind)
			w.install(g.n)
			w.hup(g.n)
			atomic.AddInt64(&w.bad, 1)
			time.Sleep(150 * time.Millisecond)
			w.settle()
			w.probe("after broken: " + kind)
			w.t.Count("reloads_broken", 1)
			w.t.Eval(w.layout+" broken "+kind, true)
		case k < 6 && w.layout == "single":
			// several reloads in a row, the last content has to win
			var g *gen
			for j := 0; j < 2+r.Intn(4); j++ {
				g = w.make("")
				w.note("reload generation %d at once", g.n)
				w.install(g.n)
				w.hup(g.n)
				time.Sleep(time.Duration(r.Intn(20)) * time.Millisecond)
			}
			w.await(g.n, "several reloads in a row")
			w.settle()
			w.t.Count("reloads_in_a_row", 1)
		default:
			g := w.make("")
			w.note("reload generation %d", g.n)
			w.install(g.n)
			for j := 0; j <= r.Intn(2); j++ {
				w.hup(g.n)
			}
			w.await(g.n, "reload")
			w.t.Count("reloads", 1)
			if r.Intn(3) == 0 {
				w.settle()
				w.probe("after reload")
			} else {
				// a reload asked for twice may still be reading
				time.Sleep(50 * time.Millisecond)
				w.settle()
			}
		}
		w.s.CheckAlive("after a reload")
		// the folders of long gone contents are not needed any more
		w.mu.Lock()
		old := len(w.gens) - 12
		w.mu.Unlock()
		if old >= 0 {
			os.RemoveAll(filepath.Join(w.dir, fmt.Sprintf("gen%d", old)))
		}
	}
}

func (t *T) newReloadWorld(label, layout string, size int) *reloadWorld {
	w := &reloadWorld{t: t, r: t.Sub(label), layout: layout, dir: t.Dir("reload"), size: size}
	w.make("")
	w.install(0)
	o := ServerOpts{Handler: "ldif", Main: filepath.Join(w.dir, "current", "main.ldif")}
	if layout == "folder" {
		o.Main = filepath.Join(w.dir, "current", "data.d")
	}
	if layout != "single" {
		o.Config = filepath.Join(w.dir, "current", "config.ldif")
	}
	w.s = t.Start(o)
	// the signal handler is in place once a first reload has had an effect
	t.Must(w.s.WaitSignals(), "wait")
	return w
}

func checkC15(t *T) {
	t.Assume("the files are replaced in one step before the reload is asked for and are not touched while the server reads them")
	for round := 0; round < t.N(1, 3); round++ {
		var fs []func()
		for i, l := range []string{"single", "file", "folder"} {
			for k, size := range []int{40, 900} {
				name := fmt.Sprintf("%s%d-%d-%d", l, i, k, round)
				l, size := l, size
				fs = append(fs, func() {
					w := t.newReloadWorld(name, l, size)
					run := []func(){func() { w.control(t.N(45, 120)) }}
					for j := 0; j < 2; j++ {
						rs, rb := t.Sub(fmt.Sprint(name, "s", j)), t.Sub(fmt.Sprint(name, "b", j))
						run = append(run, func() { w.guard(func() { w.searcher(rs) }) }, func() { w.guard(func() { w.binder(rb) }) })
					}
					r1, r2 := t.Sub(name+"slow"), t.Sub(name+"paged")
					run = append(run, func() { w.guard(func() { w.slow(r1) }) }, func() { w.guard(func() { w.paged(r2) }) })
					t.Go(run...)
					w.s.CheckAlive("after all reloads")
					w.s.Kill()
					os.RemoveAll(w.dir)
				})
			}
		}
		for _, l := range []string{"single", "file", "folder"} {
			name, l := fmt.Sprint("small", l, round), l
			fs = append(fs, func() { c15Steps(t, name, l, t.N(40, 150)) })
		}
		t.Go(fs...)
	}
}

// guard makes the other clients of a world stop when one has failed.
func (w *reloadWorld) guard(f func()) {
	ok := false
	defer func() {
		if !ok {
			atomic.StoreInt32(&w.stop, 1)
			atomic.StoreInt64(&w.seen, 1<<40)
		}
	}()
	f()
	ok = true
}
