package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
)

func init() {
	register("C01", "exploration",
		"one evaluation per request of a concurrent history that was checked for a one-at-a-time explanation, per search of a steadily changing subtree that was checked for showing one moment, and per race for a name; non-trivial when other requests were in progress at the same time",
		runC01)
}

// a request of a history and its answer
type hOp struct {
	kind    string // add delete modify rename search bind pwmod
	dn      DN
	spelled string
	attrs   []Attr
	chs     []Change
	newRDN  DN
	del     bool
	scope   int
	filter  *Filter
	old, pw string
}

func (o hOp) String() string {
	switch o.kind {
	case "add":
		return fmt.Sprintf("add %s %v", o.spelled, o.attrs)
	case "modify":
		return fmt.Sprintf("modify %s %+v", o.spelled, o.chs)
	case "rename":
		return fmt.Sprintf("rename %s to %s del=%v", o.spelled, o.newRDN, o.del)
	case "search":
		return fmt.Sprintf("search %s scope %d", o.spelled, o.scope)
	case "bind":
		return fmt.Sprintf("bind %s %q", o.spelled, o.pw)
	case "pwmod":
		return fmt.Sprintf("pwmod %s old=%q new=%q", o.spelled, o.old, o.pw)
	}
	return o.kind + " " + o.spelled
}

type hOut struct {
	ok   bool
	snap map[string]string // of searches
}

type hState struct {
	m   *Model
	key string
}

func newHState(m *Model) *hState {
	s := m.Snapshot()
	var b strings.Builder
	for _, k := range sortedKeys(s) {
		fmt.Fprintf(&b, "%s|%s\n", k, s[k])
	}
	return &hState{m, b.String()}
}

func hStep(st *hState, o hOp, out hOut) (bool, *hState) {
	if o.kind == "search" {
		if st.m.Get(o.dn) == nil {
			return len(out.snap) == 0, st // refused or empty
		}
		want := map[string]string{}
		for _, n := range st.m.InScope(o.dn, o.scope) {
			if o.filter == nil || o.filter.Match(n.entry()) {
				want[n.DN.Key()] = canonAttrs(n.Attrs)
			}
		}
		return out.ok && diffSnap(want, out.snap) == "", st
	}
	m := st.m.Clone()
	var ok bool
	switch o.kind {
	case "add":
		ok = m.Add(o.dn, o.attrs)
	case "delete":
		ok = m.Delete(o.dn)
	case "modify":
		ok = m.Modify(o.dn, o.chs)
	case "rename":
		ok = m.Rename(o.dn, o.newRDN, o.del, false)
	}
	if ok != out.ok {
		return false, st
	}
	if !ok {
		return true, st
	}
	return true, newHState(m)
}

// hClient sends requests as the administrator and notes when they were
// outstanding.
type hClient struct {
	t    *T
	s    *Server
	c    *Conn
	skip string // part of names that are left out of search results
	less int    // how many of those there must be below the root
	root DN
}

func (h *hClient) do(o hOp) hOut {
	h.t.Count("requests_"+o.kind, 1)
	var res Result
	var err error
	switch o.kind {
	case "add":
		res, err = h.c.Add(Entry{DN: o.spelled, Attrs: o.attrs})
	case "delete":
		res, err = h.c.Delete(o.spelled)
	case "modify":
		res, err = h.c.Modify(o.spelled, o.chs)
	case "rename":
		res, err = h.c.ModDN(o.spelled, o.newRDN.String(), o.del, nil)
	case "search":
		r := SearchReq{Base: o.spelled, Scope: o.scope, Filter: o.filter}
		var sr *SearchResult
		sr, err = h.c.Search(r)
		h.t.netErr(err, o.String())
		snap, err := snapshotOf(sr.Entries)
		if err != nil {
			h.t.Fail("a search returned an impossible result", err.Error(), o.String())
		}
		n := 0
		for k := range snap {
			if h.skip != "" && strings.Contains(k, h.skip) {
				delete(snap, k)
				n++
			}
		}
		if h.skip != "" && o.scope == 2 && o.dn.Key() == h.root.Key() && o.filter == nil && n != h.less {
			h.t.Fail("a subtree search misses entries that nobody touched", fmt.Sprintf("%s: %d of %d", o, n, h.less))
		}
		if sr.Result.Code != rcSuccess {
			// refused searches end the connection
			h.c.Close()
			h.c = h.s.DialAs(adminDN, adminPW)
		}
		return hOut{sr.Result.Code == rcSuccess, snap}
	}
	h.t.netErr(err, o.String())
	return hOut{ok: res.Code == rcSuccess}
}

func runC01(t *T) {
	t.Assume("requests of one history are sent by one process over loopback; the order in time is taken from a monotonic clock before sending and after receiving")
	t.Go(
		func() { c01Trees(t, "a", t.N(220, 900)) },
		func() { c01Trees(t, "b", t.N(220, 900)) },
		func() { c01Chain(t, t.N(9, 36)) },
		func() { c01Races(t, t.N(160, 500)) },
		func() { c01Passwords(t, t.N(30, 140)) },
		func() { c01Counters(t, t.N(10, 26)) },
		func() { c01Registers(t, t.N(400, 1500)) },
	)
}

func c01Trees(t *T, label string, rounds int) {
	r := t.Sub("trees" + label)
	const ballast = 60
	m := baseModel()
	roots := make([]DN, rounds)
	for i := range roots {
		roots[i] = m.Base.Child("ou", fmt.Sprintf("h%d", i))
		mustAdd(m, roots[i], attr("objectClass", "top", "thing"), attr("ou", fmt.Sprintf("h%d", i)))
	}
	s := t.StartDB(m, nil)
	clients := make([]*hClient, 6)
	for i := range clients {
		clients[i] = &hClient{t: t, s: s, c: s.DialAs(adminDN, adminPW)}
	}
	for i := 0; i < rounds; i++ {
		c01Tree(t, r, clients, roots[i], i, ballast)
	}
	s.CheckAlive("after the histories")
	s.Kill()
}

func mustAdd(m *Model, d DN, as ...Attr) {
	if !m.Add(d, as) {
		panic("fixture " + d.String())
	}
}

func thing(d DN, more ...Attr) []Attr {
	as := []Attr{attr("objectClass", "top", "thing"), attr(d[0][0].Type, d[0][0].Val)}
	return append(as, more...)
}

func c01Tree(t *T, r *rand.Rand, clients []*hClient, root DN, round, ballast int) {
	start := &Model{Base: root, Nodes: map[string]*Node{}}
	mustAdd(start, root, attr("objectClass", "top", "thing"), attr("ou", root[0][0].Val))
	// setup, one request at a time
	h := clients[0]
	setup := func(d DN, as ...Attr) {
		if out := h.do(hOp{kind: "add", dn: d, spelled: d.String(), attrs: as}); !out.ok {
			t.Fail("a valid add was refused", d.String())
		}
	}
	z := root.Child("ou", "ballast")
	less := 0
	if round%3 == 0 {
		setup(z, thing(z)...)
		less++
		for i := 0; i < ballast; i++ {
			d := z.Child("cn", fmt.Sprintf("bal%d", i))
			setup(d, thing(d, attr("description", strings.Repeat("x", 200)))...)
			less++
		}
	}
	parents := []DN{root, root.Child("ou", "p1")}
	if r.Intn(2) == 0 {
		parents = append(parents, root.Child("ou", "p2"))
	}
	for _, p := range parents[1:] {
		if r.Intn(3) > 0 {
			setup(p, thing(p)...)
			mustAdd(start, p, thing(p)...)
		}
	}
	leaf := []string{"a", "b", "c"}[:2+r.Intn(2)]
	var names []DN
	for _, p := range parents {
		for _, l := range leaf {
			names = append(names, p.Child("cn", l))
		}
	}
	names = append(names, parents[1:]...)
	names = append(names, parents[1:]...)
	focus := names[:]
	if r.Intn(2) == 0 { // few names: more conflicts
		r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
		focus = names[:3]
	}
	for _, d := range names {
		if d.Key() == z.Key() || r.Intn(3) > 0 || start.Get(d) != nil {
			continue
		}
		as := thing(d, attr("description", "start"))
		if start.Add(d, as) {
			setup(d, as...)
		}
	}
	k := 0
	gen := func() hOp {
		d := pick(r, focus)
		if r.Intn(5) == 0 {
			d = pick(r, names)
		}
		o := hOp{dn: d, spelled: d.Spell(r)}
		tok := fmt.Sprintf("t%d", k)
		k++
		switch x := r.Intn(20); {
		case x < 4:
			o.kind, o.attrs = "add", thing(d, attr("description", tok), attr("x", tok), attr("y", tok))
		case x < 7:
			o.kind = "delete"
		case x < 11:
			o.kind = "modify"
			switch r.Intn(3) {
			case 0:
				o.chs = []Change{{0, "description", []string{tok}}}
			case 1:
				o.chs = []Change{{2, "x", []string{tok}}, {2, "y", []string{tok}}}
			default:
				o.chs = []Change{{1, "description", []string{"start", fmt.Sprintf("t%d", r.Intn(k))}}, {0, "Description", []string{tok}}}
			}
		case x < 15:
			o.kind = "rename"
			typ := d[0][0].Type
			vals := leaf
			if typ == "ou" {
				vals = []string{"p1", "p2"}
			}
			o.newRDN = DN{RDN{{typ, pick(r, vals)}}}
			// keeping a name while asking for its removal is contradictory
			o.del = o.newRDN.Key() != (DN{d[0]}).Key() && r.Intn(2) == 0
		default:
			o.kind = "search"
			o.scope = r.Intn(3)
			if r.Intn(2) == 0 {
				o.dn, o.spelled, o.scope = root, root.String(), 2
			}
		}
		return o
	}
	plans := make([][]hOp, len(clients))
	for i := range plans {
		for j := 0; j < 7; j++ {
			plans[i] = append(plans[i], gen())
		}
		clients[i].skip, clients[i].less, clients[i].root = fmt.Sprintf("%q=%q", "ou", "ballast"), less, root
	}
	var mu sync.Mutex
	var hist []porcupine.Operation
	t0 := time.Now()
	var wg sync.WaitGroup
	gate := make(chan struct{})
	var fs []func()
	for i := range clients {
		i := i
		wg.Add(1)
		fs = append(fs, func() {
			wg.Done()
			<-gate
			for _, o := range plans[i] {
				a := time.Since(t0).Nanoseconds()
				out := clients[i].do(o)
				b := time.Since(t0).Nanoseconds()
				mu.Lock()
				hist = append(hist, porcupine.Operation{ClientId: i, Input: o, Call: a, Output: out, Return: b})
				mu.Unlock()
			}
		})
	}
	fs = append(fs, func() { wg.Wait(); close(gate) })
	t.Go(fs...)
	o := hOp{kind: "search", dn: root, spelled: root.String(), scope: 2}
	a := time.Since(t0).Nanoseconds()
	out := h.do(o)
	hist = append(hist, porcupine.Operation{ClientId: 0, Input: o, Call: a, Output: out, Return: time.Since(t0).Nanoseconds()})
	t.judgeHistory(hist, porcupine.Model{
		Init: func() interface{} { return newHState(start) },
		Step: func(st, in, out interface{}) (bool, interface{}) {
			return hStep(st.(*hState), in.(hOp), out.(hOut))
		},
		Equal: func(a, b interface{}) bool { return a.(*hState).key == b.(*hState).key },
	}, "tree", start.LDIF(), round)
}

// judgeHistory looks for a one-at-a-time explanation of a history.
func (t *T) judgeHistory(hist []porcupine.Operation, model porcupine.Model, what, start string, round int) {
	sort.SliceStable(hist, func(i, j int) bool { return hist[i].Call < hist[j].Call })
	overlap := 0
	var lines []string
	for i, x := range hist {
		o, out := x.Input.(hOp), x.Output.(hOut)
		together := false
		for j, y := range hist {
			if i != j && x.Call < y.Return && y.Call < x.Return {
				together = true
			}
		}
		if together {
			overlap++
		}
		t.Eval(fmt.Sprint(what, o.kind, o.scope, out.ok, len(out.snap), o.dn.Key()), together)
		lines = append(lines, fmt.Sprintf("client %d [%d,%d] %s -> ok=%v %v", x.ClientId, x.Call, x.Return, o, out.ok, out.snap))
	}
	t.Count(what+"_histories", 1)
	t.Count(what+"_overlapping_requests", overlap)
	res, info := porcupine.CheckOperationsVerbose(model, hist, 120*time.Second)
	switch res {
	case porcupine.Ok:
		t.Count(what+"_histories_explained", 1)
	case porcupine.Unknown:
		t.Count(what+"_histories_undecided", 1)
	default:
		// the longest explanation of a part of the history, and what is left
		var best []porcupine.Operation
		for _, p := range info.PartialLinearizationsOperations() {
			for _, l := range p {
				if len(l) > len(best) {
					best = l
				}
			}
		}
		var order []string
		done := map[string]bool{}
		for _, x := range best {
			l := fmt.Sprintf("client %d [%d,%d] %s", x.ClientId, x.Call, x.Return, x.Input)
			done[l] = true
			order = append(order, l)
		}
		order = append(order, "-- not explained:")
		for i, x := range hist {
			if !done[fmt.Sprintf("client %d [%d,%d] %s", x.ClientId, x.Call, x.Return, x.Input)] {
				order = append(order, lines[i])
			}
		}
		t.Fail("the answers to concurrent requests cannot have come from running them one at a time", strings.Join(order, "\n"), strings.Join(lines, "\n"), "start:\n"+start)
	}
	t.SampleEvery(round*8, func() interface{} {
		return map[string]interface{}{"kind": what, "requests": len(hist), "overlapping": overlap, "first": lines[0]}
	})
}

// c01Chain: one writer counts a row of entries up, one entry after the other,
// while others read them all at once. Any reading of one single moment shows a
// row that goes down by at most one along the entries.
func c01Chain(t *T, rounds int) {
	r := t.Sub("chain")
	m := baseModel()
	people := m.Base.Child("ou", "people")
	const n, ballast = 12, 400
	var chain []DN
	group := func(name string) DN {
		d := m.Base.Child("ou", name)
		mustAdd(m, d, thing(d)...)
		return d
	}
	g1, g2 := group("g1"), group("g2")
	for i := 0; i < ballast; i++ {
		if i%(ballast/n) == 0 && len(chain) < n {
			p := []DN{g1, people, g2}[len(chain)%3]
			d := p.Child("cn", fmt.Sprintf("chain%d", len(chain)))
			mustAdd(m, d, thing(d, attr("x", "0"), attr("y", "0"), attr("description", strings.Repeat("d", 300)))...)
			chain = append(chain, d)
		}
		d := []DN{g1, people, g2}[i%3].Child("cn", fmt.Sprintf("bal%d", i))
		mustAdd(m, d, thing(d, attr("description", strings.Repeat("x", 100)))...)
	}
	s := t.StartDB(m, nil)
	total := len(m.Nodes)
	for round := 0; round < rounds; round++ {
		var stop atomic.Bool
		var steps atomic.Int64
		limit := t.N(60, 80)
		base := round * 1000
		var fs []func()
		w := s.DialAs(adminDN, adminPW)
		seed := r.Int63()
		fs = append(fs, func() {
			defer stop.Store(true)
			rr := rand.New(rand.NewSource(seed))
			for v := base + 1; v <= base+limit && !stop.Load(); v++ {
				for i, d := range chain {
					val := strconv.Itoa(v)
					res, err := w.Modify(d.Spell(rr), []Change{{2, "x", []string{val}}, {2, "description", []string{strings.Repeat("d", 1+rr.Intn(600))}}, {2, "y", []string{val}}})
					t.netErr(err, "modify")
					if res.Code != rcSuccess {
						t.Fail("a valid modify was refused", fmt.Sprintf("%d %+v", i, res))
					}
					steps.Add(1)
				}
			}
			// to the start value of the next round, last entry first
			for i := range chain {
				_, err := w.Modify(chain[i].String(), []Change{{2, "x", []string{strconv.Itoa(base + 1000)}}, {2, "y", []string{strconv.Itoa(base + 1000)}}})
				t.netErr(err, "modify")
			}
		})
		for k := 0; k < 3; k++ {
			c := s.DialAs(adminDN, adminPW)
			fs = append(fs, func() {
				prev := make([]int, n)
				for !stop.Load() {
					before := steps.Load()
					res, err := c.Search(SearchReq{Base: baseDN, Scope: 2})
					t.netErr(err, "search")
					after := steps.Load()
					if len(res.Entries) != total || res.Result.Code != rcSuccess {
						t.Fail("a subtree search did not return every entry while entries were modified", fmt.Sprintf("%d of %d entries, %+v", len(res.Entries), total, res.Result))
					}
					vals := make([]int, n)
					for _, e := range res.Entries {
						d := mustDN(e.DN)
						if v := d[0][0].Val; strings.HasPrefix(v, "chain") {
							i, _ := strconv.Atoi(v[5:])
							if len(e.Get("x")) != 1 || len(e.Get("y")) != 1 || e.Get("x")[0] != e.Get("y")[0] {
								t.Fail("a search shows a modify that is only partly applied", e.Canon())
							}
							vals[i], _ = strconv.Atoi(e.Get("x")[0])
						}
					}
					mixed := false
					for i := range vals {
						if i > 0 && (vals[i] > vals[i-1] || vals[0]-vals[i] > 1 && vals[0] < base+1000) {
							t.Fail("a subtree search shows entries as they were at different moments", fmt.Sprint(vals))
						}
						if vals[i] < prev[i] {
							t.Fail("a search shows an entry as it was before an earlier search", fmt.Sprint(prev, vals))
						}
						mixed = mixed || vals[i] != vals[0]
					}
					prev = vals
					t.Count("moment_searches", 1)
					if mixed {
						t.Count("moment_searches_in_mid_row", 1)
					}
					t.Eval(fmt.Sprint("moment", vals), after > before)
				}
			})
		}
		t.Go(fs...)
		t.Count("chain_modifies", int(steps.Load()))
	}
	s.CheckAlive("after the searches")
	s.Kill()
}

// c01Races: all clients want the same thing at the same time.
func c01Races(t *T, rounds int) {
	r := t.Sub("races")
	m := baseModel()
	s := t.StartDB(m, nil)
	people := m.Base.Child("ou", "people")
	const n = 6
	cs := make([]*Conn, n)
	for i := range cs {
		cs[i] = s.DialAs(adminDN, adminPW)
	}
	// all runs f for every client at once and returns which succeeded
	all := func(f func(i int) (Result, error)) []int {
		oks := make([]bool, n)
		var fs []func()
		var wg sync.WaitGroup
		gate := make(chan struct{})
		for i := range cs {
			i := i
			wg.Add(1)
			fs = append(fs, func() {
				wg.Done()
				<-gate
				res, err := f(i)
				t.netErr(err, "race")
				oks[i] = res.Code == rcSuccess
			})
		}
		fs = append(fs, func() { wg.Wait(); close(gate) })
		t.Go(fs...)
		var won []int
		for i, ok := range oks {
			if ok {
				won = append(won, i)
			}
		}
		return won
	}
	read := func(d DN) *Entry {
		res, err := cs[0].Search(SearchReq{Base: baseDN, Scope: 2})
		t.netErr(err, "search")
		var out *Entry
		seen := map[string]bool{}
		for i, e := range res.Entries {
			k := mustDN(e.DN).Key()
			if seen[k] {
				t.Fail("an entry exists twice after a race", e.DN)
			}
			seen[k] = true
			if k == d.Key() {
				out = &res.Entries[i]
			}
		}
		for k := range seen {
			if !seen[mustDN(baseDN).Key()] {
				t.Fail("the base entry is gone", k)
			}
		}
		return out
	}
	one := func(what string, won []int) int {
		t.Eval(fmt.Sprint("race ", what, won), true)
		t.Count("race_"+what, 1)
		if len(won) != 1 {
			t.Fail("of several identical requests at the same time not exactly one succeeded", fmt.Sprintf("%s: successful clients %v of %d", what, won, n))
		}
		return won[0]
	}
	for round := 0; round < rounds; round++ {
		d := people.Child("cn", fmt.Sprintf("r%d", round))
		w := one("add", all(func(i int) (Result, error) {
			return cs[i].Add(Entry{DN: d.String(), Attrs: thing(d, attr("description", fmt.Sprintf("from %d", i)))})
		}))
		if e := read(d); e == nil || e.Get("description")[0] != fmt.Sprintf("from %d", w) {
			t.Fail("the entry is not the one whose add was acknowledged", fmt.Sprintf("client %d; %v", w, e))
		}
		// concurrent modifies: all are acknowledged, all are there
		won := all(func(i int) (Result, error) {
			return cs[i].Modify(d.String(), []Change{{0, "description", []string{fmt.Sprintf("also %d", i)}}, {2, fmt.Sprintf("own%d", i), []string{"v"}}})
		})
		e := read(d)
		for i := 0; i < n; i++ {
			if len(won) != n || e == nil || !hasFold(e.Get("description"), fmt.Sprintf("also %d", i)) || !e.Has(fmt.Sprintf("own%d", i)) {
				t.Fail("an acknowledged modify is lost", fmt.Sprintf("acknowledged %v, entry %v", won, e))
			}
		}
		t.Eval("race modify", true)
		target := func(i int) DN { return people.Child("cn", fmt.Sprintf("r%d-%d", round, i)) }
		w = one("rename", all(func(i int) (Result, error) {
			x := target(i)
			return cs[i].ModDN(d.String(), x[0].String(), true, nil)
		}))
		if read(d) != nil || read(target(w)) == nil {
			t.Fail("the acknowledged rename is not in effect", fmt.Sprint(w))
		}
		d = target(w)
		// children against removal of their parent
		mode := r.Intn(2)
		won = all(func(i int) (Result, error) {
			if i == n-1 {
				if mode == 0 {
					return cs[i].Delete(d.String())
				}
				return cs[i].ModDN(d.String(), fmt.Sprintf("cn=moved%d", round), true, nil)
			}
			c := d.Child("cn", fmt.Sprintf("child%d", i))
			return cs[i].Add(Entry{DN: c.String(), Attrs: thing(c)})
		})
		removed := len(won) > 0 && won[len(won)-1] == n-1
		kids := len(won)
		if removed {
			kids--
		}
		t.Eval(fmt.Sprint("race children", mode, removed, kids), true)
		t.Count(fmt.Sprintf("race_children_removed_%v", removed), 1)
		if removed && kids > 0 {
			// children before the removal would have prevented it, after it they have no parent
			t.Fail("an entry was removed or renamed although children were added to it at the same time", fmt.Sprintf("mode %d, successful %v", mode, won))
		}
		if !removed && kids != n-1 {
			t.Fail("a valid add was refused in a race", fmt.Sprintf("mode %d, successful %v", mode, won))
		}
		if !removed {
			for i := 0; i < n-1; i++ {
				if read(d.Child("cn", fmt.Sprintf("child%d", i))) == nil {
					t.Fail("an acknowledged add is lost", fmt.Sprint(i))
				}
			}
			c := d.Child("cn", "child0")
			one("delete", all(func(i int) (Result, error) { return cs[i].Delete(c.String()) }))
			if read(c) != nil {
				t.Fail("an acknowledged delete is lost", c.String())
			}
			// many siblings leave at once; the list of children must follow
			won = all(func(i int) (Result, error) {
				if i == 0 {
					x := d.Child("cn", "late")
					return cs[i].Add(Entry{DN: x.String(), Attrs: thing(x)})
				}
				if i == n-1 {
					return cs[i].Delete(d.Child("cn", "child1").String())
				}
				return cs[i].Delete(d.Child("cn", fmt.Sprintf("child%d", i)).String())
			})
			if read(d.Child("cn", "late")) == nil || len(won) < n-1 {
				t.Fail("an acknowledged add is lost between deletes of siblings", fmt.Sprint(won))
			}
			for i := 1; i < n-1; i++ {
				if read(d.Child("cn", fmt.Sprintf("child%d", i))) != nil {
					t.Fail("an acknowledged delete is lost", fmt.Sprint(i, won))
				}
			}
			t.Eval("race siblings", true)
		}
	}
	s.CheckAlive("after the races")
	s.Kill()
}

// c01Passwords: password changes that name the old password are a compare and
// swap, binds are reads.
func c01Passwords(t *T, rounds int) {
	r := t.Sub("passwords")
	m := baseModel()
	for i := 0; i < rounds; i++ {
		mustAdd(m, mustDN(userDN(fmt.Sprintf("u%d", i))), personAttrs(fmt.Sprintf("u%d", i), "U", "U", "", "pw-zero-start")...)
	}
	s := t.StartDB(m, nil)
	for round := 0; round < rounds; round++ {
		dn := userDN(fmt.Sprintf("u%d", round))
		pws := []string{"pw-zero-start"}
		const n = 4
		plans := make([][]hOp, n)
		for i := range plans {
			for j := 0; j < 4; j++ {
				o := hOp{kind: "pwmod", dn: mustDN(dn), spelled: dn, old: pick(r, pws), pw: fmt.Sprintf("Secret number %d-%d %x", i, j, r.Int63())}
				switch r.Intn(5) {
				case 0:
					o = hOp{kind: "bind", dn: mustDN(dn), spelled: dn, pw: pick(r, pws)}
				case 1: // the administrator sets it
					o.kind = "set"
					pws = append(pws, o.pw)
				default:
					pws = append(pws, o.pw)
				}
				plans[i] = append(plans[i], o)
			}
		}
		admins := make([]*Conn, n)
		users := make([]*Conn, n)
		for i := range admins {
			admins[i] = s.DialAs(adminDN, adminPW)
			users[i] = s.DialAs(dn, pws[0])
		}
		var mu sync.Mutex
		var hist []porcupine.Operation
		t0 := time.Now()
		bind := func(pw string) bool {
			c := s.Dial()
			defer c.Close()
			res, err := c.Bind(dn, pw)
			t.netErr(err, "bind")
			return res.Code == rcSuccess
		}
		var fs []func()
		for i := range plans {
			i := i
			fs = append(fs, func() {
				for _, o := range plans[i] {
					a := time.Since(t0).Nanoseconds()
					var ok bool
					switch o.kind {
					case "bind":
						ok = bind(o.pw)
					case "set":
						res, err := admins[i].Modify(dn, []Change{{2, "userPassword", []string{o.pw}}})
						t.netErr(err, "modify")
						ok = res.Code == rcSuccess
					default:
						c := users[i]
						id := dn
						res, _, err := c.PwMod(&id, &o.old, &o.pw)
						t.netErr(err, "password change")
						ok = res.Code == rcSuccess
					}
					b := time.Since(t0).Nanoseconds()
					mu.Lock()
					hist = append(hist, porcupine.Operation{ClientId: i, Input: o, Call: a, Output: hOut{ok: ok}, Return: b})
					mu.Unlock()
				}
			})
		}
		// other attributes of the same entry change meanwhile
		notes := 12
		other := s.DialAs(adminDN, adminPW)
		fs = append(fs, func() {
			for k := 0; k < notes; k++ {
				res, err := other.Modify(dn, []Change{{0, "description", []string{fmt.Sprintf("note %d", k)}}})
				t.netErr(err, "modify")
				if res.Code != rcSuccess {
					t.Fail("a valid modify was refused", fmt.Sprintf("%+v", res))
				}
			}
		})
		t.Go(fs...)
		sr, err := other.Search(SearchReq{Base: dn, Scope: 0})
		t.netErr(err, "search")
		if len(sr.Entries) != 1 || len(sr.Entries[0].Get("description")) != notes || len(sr.Entries[0].Get("userPassword")) != 1 {
			t.Fail("an acknowledged modify is lost next to password changes of the same entry", fmt.Sprintf("%v", sr.Entries))
		}
		other.Close()
		// afterwards exactly one of all passwords binds
		var works []string
		for _, p := range pws {
			a := time.Since(t0).Nanoseconds()
			ok := bind(p)
			hist = append(hist, porcupine.Operation{ClientId: 0, Input: hOp{kind: "bind", dn: mustDN(dn), spelled: dn, pw: p}, Call: a, Output: hOut{ok: ok}, Return: time.Since(t0).Nanoseconds()})
			if ok {
				works = append(works, p)
			}
		}
		if len(works) != 1 {
			t.Fail("after concurrent password changes not exactly one password works", fmt.Sprint(works))
		}
		t.judgeHistory(hist, porcupine.Model{
			Init: func() interface{} { return pws[0] },
			Step: func(st, in, out interface{}) (bool, interface{}) {
				cur, o, ok := st.(string), in.(hOp), out.(hOut).ok
				switch o.kind {
				case "bind":
					return ok == (cur == o.pw), cur
				case "set":
					return ok, o.pw
				}
				if ok != (cur == o.old) {
					return false, cur
				}
				if ok {
					return true, o.pw
				}
				return true, cur
			},
		}, "password", dn, round)
		for i := range admins {
			admins[i].Close()
			users[i].Close()
		}
	}
	s.CheckAlive("after the password changes")
	s.Kill()
}

// c01Counters: many clients add values to, and take their own values out of,
// the same few entries; adds and deletes of other entries go on at the same
// time. In the end everything that was acknowledged is there.
func c01Counters(t *T, rounds int) {
	r := t.Sub("counters")
	m := baseModel()
	people := m.Base.Child("ou", "people")
	s := t.StartDB(m, nil)
	const n = 6
	for round := 0; round < rounds; round++ {
		var targets []DN
		adm := s.DialAs(adminDN, adminPW)
		for i := 0; i < 2; i++ {
			d := people.Child("cn", fmt.Sprintf("count%d-%d", round, i))
			as := thing(d)
			res, err := adm.Add(Entry{DN: d.String(), Attrs: as})
			t.netErr(err, "add")
			if res.Code != rcSuccess {
				t.Fail("a valid add was refused", fmt.Sprint(res))
			}
			mustAdd(m, d, as...)
			targets = append(targets, d)
		}
		var mu sync.Mutex
		steps := t.N(40, 60)
		var fs []func()
		for i := 0; i < n; i++ {
			i, seed := i, r.Int63()
			fs = append(fs, func() {
				rr := rand.New(rand.NewSource(seed))
				c := s.DialAs(adminDN, adminPW)
				defer c.Close()
				for k := 0; k < steps; k++ {
					d := pick(rr, targets)
					v := fmt.Sprintf("c%d-%d", i, k)
					var chs []Change
					if k%4 == 3 {
						old := fmt.Sprintf("c%d-%d", i, k-1)
						chs = []Change{{1, "member", []string{old}}, {0, "member", []string{v}}}
					} else {
						chs = []Change{{0, "member", []string{v}}}
					}
					res, err := c.Modify(d.String(), chs)
					t.netErr(err, "modify")
					if res.Code != rcSuccess {
						t.Fail("a valid modify was refused", fmt.Sprintf("%+v", res))
					}
					own := people.Child("cn", fmt.Sprintf("own%d-%d-%d", round, i, k))
					as := thing(own, attr("description", v))
					res, err = c.Add(Entry{DN: own.String(), Attrs: as})
					t.netErr(err, "add")
					if res.Code != rcSuccess {
						t.Fail("a valid add was refused", fmt.Sprintf("%+v", res))
					}
					gone := k%3 == 0
					if gone {
						res, err = c.Delete(own.String())
						t.netErr(err, "delete")
						if res.Code != rcSuccess {
							t.Fail("a valid delete was refused", fmt.Sprintf("%+v", res))
						}
					}
					mu.Lock()
					// values of different clients are different: the order does not matter
					m.Modify(d, chs)
					if !gone {
						mustAdd(m, own, as...)
					}
					mu.Unlock()
					t.Eval(fmt.Sprint("count", i, k%12, gone), true)
				}
			})
		}
		t.Go(fs...)
		t.sameSnap(m.Snapshot(), t.Dump(adm, baseDN), "acknowledged changes made at the same time are not all there afterwards")
		t.Count("counter_rounds", 1)
		adm.Close()
	}
	s.CheckAlive("after the counters")
	s.Kill()
}

// c01Registers: one writer takes an entry from version to version, others read
// it. Every reading must show a version between the last one answered before
// it was asked for and the last one sent before it was answered.
func c01Registers(t *T, versions int) {
	r := t.Sub("registers")
	m := baseModel()
	people := m.Base.Child("ou", "people")
	type register struct {
		name  string
		reads []SearchReq
		write func(c *Conn, v int) (Result, error) // from version v-1 to v
		want  func(v int) [][]string               // per reading, what version v shows
	}
	shown := func(es []Entry) []string {
		var out []string
		for _, e := range es {
			out = append(out, e.Canon())
		}
		sort.Strings(out)
		return out
	}
	many := func(d DN, v, n int) []Attr {
		as := thing(d, attr("x", fmt.Sprint(v)))
		for i := 0; i < n; i++ {
			as = append(as, attr(fmt.Sprintf("a%d", i), fmt.Sprintf("%d of version %d", i, v)))
		}
		return as
	}
	entries := func(es ...Entry) []string { return shown(es) }
	var regs []register
	for _, n := range []int{0, 40} {
		// modified
		d := people.Child("cn", fmt.Sprintf("modified%d", n))
		mustAdd(m, d, many(d, 0, n)...)
		n := n
		regs = append(regs, register{
			name:  fmt.Sprintf("modify an entry of %d attributes", n),
			reads: []SearchReq{{Base: d.String(), Scope: 0}, {Base: people.String(), Scope: 1, Filter: Eq("cn", d[0][0].Val)}},
			write: func(c *Conn, v int) (Result, error) {
				var chs []Change
				for _, a := range many(d, v, n)[2:] {
					chs = append(chs, Change{2, a.Name, a.Vals})
				}
				return c.Modify(d.String(), chs)
			},
			want: func(v int) [][]string {
				e := entries(Entry{DN: d.String(), Attrs: many(d, v, n)})
				return [][]string{e, e}
			},
		})
		// added and deleted
		x := people.Child("cn", fmt.Sprintf("there%d", n))
		regs = append(regs, register{
			name:  fmt.Sprintf("add and delete an entry of %d attributes", n),
			reads: []SearchReq{{Base: x.String(), Scope: 0}, {Base: people.String(), Scope: 1, Filter: Eq("cn", x[0][0].Val)}},
			write: func(c *Conn, v int) (Result, error) {
				if v%2 == 1 {
					return c.Add(Entry{DN: x.String(), Attrs: many(x, v, n)})
				}
				return c.Delete(x.String())
			},
			want: func(v int) [][]string {
				if v%2 == 0 {
					return [][]string{nil, nil}
				}
				e := entries(Entry{DN: x.String(), Attrs: many(x, v, n)})
				return [][]string{e, e}
			},
		})
	}
	// renamed to and fro
	a, b := people.Child("cn", "fro"), people.Child("cn", "to")
	mustAdd(m, a, thing(a)...)
	regs = append(regs, register{
		name:  "rename an entry to and fro",
		reads: []SearchReq{{Base: a.String(), Scope: 0}, {Base: b.String(), Scope: 0}, {Base: people.String(), Scope: 1, Filter: Or(Eq("cn", "fro"), Eq("cn", "to"))}},
		write: func(c *Conn, v int) (Result, error) {
			if v%2 == 1 {
				return c.ModDN(a.String(), b[0].String(), true, nil)
			}
			return c.ModDN(b.String(), a[0].String(), true, nil)
		},
		want: func(v int) [][]string {
			ea, eb := entries(Entry{DN: a.String(), Attrs: thing(a)}), entries(Entry{DN: b.String(), Attrs: thing(b)})
			if v%2 == 0 {
				return [][]string{ea, nil, ea}
			}
			return [][]string{nil, eb, eb}
		},
	})
	s := t.StartDB(m, nil)
	var fs []func()
	for _, reg := range regs {
		reg := reg
		var sent, answered atomic.Int64
		var stop atomic.Bool
		look := func(c *Conn, k int) {
			lo := answered.Load()
			res, err := c.Search(reg.reads[k])
			t.netErr(err, reg.name)
			hi := sent.Load()
			got := strings.Join(shown(res.Entries), "\n")
			match := false
			for v := lo; v <= hi && !match; v++ {
				match = strings.Join(reg.want(int(v))[k], "\n") == got
			}
			if !match {
				t.Fail("a search shows an entry neither as the answered changes left it nor as one in progress makes it", reg.name, fmt.Sprintf("%+v", reg.reads[k]), fmt.Sprintf("versions %d to %d were possible", lo, hi), "got "+got, "version "+fmt.Sprint(lo)+": "+strings.Join(reg.want(int(lo))[k], "\n"))
			}
			t.Eval(fmt.Sprint("register ", reg.name, k, lo, hi), hi > lo)
			t.Count("register_readings", 1)
			if hi > lo {
				t.Count("register_readings_during_a_change", 1)
			}
			if res.Result.Code != rcSuccess {
				t.Fail("a search was refused", reg.name, fmt.Sprintf("%+v", res.Result))
			}
		}
		w, own := s.DialAs(adminDN, adminPW), s.DialAs(adminDN, adminPW)
		seed := r.Int63()
		fs = append(fs, func() {
			defer stop.Store(true)
			rr := rand.New(rand.NewSource(seed))
			for v := 1; v <= versions && !t.failed(); v++ {
				sent.Store(int64(v))
				res, err := reg.write(w, v)
				t.netErr(err, reg.name)
				if res.Code != rcSuccess {
					t.Fail("a valid change was refused", reg.name, fmt.Sprintf("version %d: %+v", v, res))
				}
				answered.Store(int64(v))
				for i := rr.Intn(4); i > 0; i-- {
					look([]*Conn{w, own}[rr.Intn(2)], rr.Intn(len(reg.reads)))
				}
			}
		})
		for i := 0; i < 3; i++ {
			c := s.DialAs(adminDN, adminPW)
			i := i
			fs = append(fs, func() {
				for n := i; !stop.Load() && !t.failed(); n++ {
					look(c, n%len(reg.reads))
				}
			})
		}
	}
	t.Go(fs...)
	s.CheckAlive("after the readings")
	s.Kill()
}
