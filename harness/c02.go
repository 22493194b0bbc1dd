package main

import (
	"crypto/sha256"
	bin "encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

func init() {
	register("C02", "fault_enumeration",
		"an evaluation is one stop: a database file as it is found after a stop (or the files after a killed process), opened by the server, read and compared; distinct are different file contents together with the set of changes that had been answered",
		checkC02)
}

// ---- changes ------------------------------------------------------------------

// A stopOp is a change that a client asked for. Positions are sizes of the
// record of file operations.
type stopOp struct {
	what      string
	send, ack int64 // ack is -1 if there was no success
	states    []*Model
	names     []DN // the names it is about
}

// A stopClient changes its own part of the directory.
type stopClient struct {
	t      *T
	r      *rand.Rand
	c      *Conn
	m      *Model // base is the client's own part
	init   *Model
	ops    []stopOp
	pos    func() int64
	pw     bool // with password changes
	killed bool // the server will be killed
}

// allowed lists the states that may be found after a stop when the file
// operations up to pos were started.
func (k *stopClient) allowed(pos int64) (ms []*Model, acked, sent int) {
	ms = []*Model{k.init}
	for i, op := range k.ops {
		if op.send >= pos && !(op.ack >= 0 && op.ack <= pos) {
			break
		}
		if op.ack >= 0 && op.ack <= pos {
			ms = nil
			acked = i + 1
		}
		ms = append(ms, op.states...)
		sent = i + 1
	}
	return ms, acked, sent
}

// step sends one change. It returns false when the connection is gone.
func (k *stopClient) step(faulty bool) bool {
	t, r, m := k.t, k.r, k.m
	next := m.Clone()
	var send func() (Result, error)
	var what, pwOf string
	ok := false
	keys := m.Keys()
	node := m.Nodes[pick(r, keys)]
	kind := r.Intn(11)
	if faulty && r.Intn(8) == 0 {
		kind = 10
	}
	var names []DN
	if len(keys) > 40 && r.Intn(3) == 0 {
		kind = 4
	}
	switch {
	case kind < 4:
		dn := newChildDN(r, m, r.Intn(4) == 0)
		if kind == 3 && r.Intn(2) == 0 {
			dn = append(DN{RDN{{"cn", fmt.Sprintf("e%d", r.Intn(100000))}}}, dn[1:]...)
		}
		as := namedAttrs(r, dn[0])
		switch r.Intn(6) {
		case 0:
			as = append(as, attr("postalAddress", strings.Repeat("z", 3000+r.Intn(6000))))
		case 1:
			as = append(as, attr("postalAddress", strings.Repeat("y", r.Intn(40000))))
		case 2:
			for i := 0; i < 10+r.Intn(40); i++ {
				as = append(as, attr(fmt.Sprint("x", i), genText(r, 10)))
			}
		}
		names = []DN{dn}
		what = fmt.Sprintf("add %q (%d attributes)", dn.String(), len(as))
		ok = next.Add(dn, as)
		send = func() (Result, error) { return k.c.Add(Entry{DN: dn.String(), Attrs: as}) }
	case kind < 6:
		dn := node.DN
		if len(dn) == len(m.Base) {
			return true
		}
		names = []DN{dn}
		what = fmt.Sprintf("delete %q", dn.String())
		ok = next.Delete(dn)
		send = func() (Result, error) { return k.c.Delete(dn.String()) }
	case kind < 9:
		dn := node.DN
		var chs []Change
		for i := 0; i <= r.Intn(3); i++ {
			switch r.Intn(3) {
			case 0:
				chs = append(chs, Change{2, "description", []string{fmt.Sprint("v", r.Int31()), genText(r, 20)}})
			case 1:
				chs = append(chs, Change{0, "l", []string{fmt.Sprint("l", r.Int31())}})
			case 2:
				chs = append(chs, Change{2, pick(r, []string{"street", "title"}), []string{strings.Repeat("s", 1+r.Intn(5000))}})
			}
		}
		what = fmt.Sprintf("modify %q (%d changes)", dn.String(), len(chs))
		ok = next.Modify(dn, chs)
		send = func() (Result, error) { return k.c.Modify(dn.String(), chs) }
	case kind < 10 || !k.pw:
		dn := node.DN
		if len(dn) == len(m.Base) {
			return true
		}
		rdn := DN{RDN{{pick(r, namingTypes), pick(r, plainVals)}}}
		if rdn[0].Key() == dn[0].Key() {
			return true
		}
		del := r.Intn(2) == 0
		names = []DN{dn, append(append(DN{}, rdn...), dn[1:]...)}
		what = fmt.Sprintf("rename %q to %q", dn.String(), rdn.String())
		ok = next.Rename(dn, rdn, del, false)
		send = func() (Result, error) { return k.c.ModDN(dn.String(), rdn.String(), del, nil) }
	default:
		pwOf = node.DN.String()
		what = fmt.Sprintf("set password of %q", pwOf)
		ok = true
		send = func() (Result, error) {
			res, _, err := k.c.PwMod(sp(pwOf), nil, sp(fmt.Sprint("pw", r.Int31())))
			return res, err
		}
	}
	op := stopOp{what: what, ack: -1, states: []*Model{next}, names: names}
	op.send = k.pos()
	k.ops = append(k.ops, op)
	p := &k.ops[len(k.ops)-1]
	t.Trace("%s: %s", m.Base.String(), what)
	res, err := send()
	if err != nil && faulty {
		return false
	}
	t.netErr(err, what)
	success := res.Code == rcSuccess
	ack := k.pos()
	if success != ok {
		if !faulty || success {
			t.Fail("a change is not answered as it has to be", what, fmt.Sprintf("%+v, expected success: %v", res, ok))
		}
		if k.killed {
			p.states = append(p.states, m)
			return false
		}
		// The change may be there or not, but not in part.
		got := t.Dump(k.c, m.Base.String())
		if diffSnap(m.Snapshot(), got) == "" {
			p.states = append(p.states, m)
			next = m
		} else if pwOf != "" || diffSnap(next.Snapshot(), got) != "" {
			t.Fail("a change that failed is there in part", what, diffSnap(next.Snapshot(), got))
		}
		t.Count("failed_changes", 1)
		k.m = next
		return true
	}
	if pwOf != "" {
		sr, err := k.c.Search(SearchReq{Base: pwOf, Scope: 0})
		t.netErr(err, "search")
		if len(sr.Entries) != 1 {
			t.Fail("an entry is missing after a change of its password", pwOf)
		}
		n := next.Get(mustDN(pwOf)).clone()
		next.Nodes[n.DN.Key()] = n
		pw := getVals(sr.Entries[0].Attrs, "userPassword")
		if len(pw) != 1 || strings.Join(getVals(n.Attrs, "userPassword"), "\n") == pw[0] {
			t.Fail("an answered change of a password is not there", pwOf)
		}
		n.Attrs = setVals(n.Attrs, "userPassword", pw)
	}
	if success || !ok {
		p.ack = ack
	}
	k.m = next
	return true
}

// stopModel has a part for each client.
func stopModel(t *T, r *rand.Rand, clients, size int) (*Model, []*stopClient) {
	m := baseModel()
	var ks []*stopClient
	for i := 0; i < clients; i++ {
		root := m.Base.Child("ou", fmt.Sprintf("w%d", i))
		part := &Model{Base: root, Nodes: map[string]*Node{}}
		mustAdd(part, root, thing(root)...)
		for len(part.Nodes) < size {
			dn := newChildDN(r, part, false)
			dn = append(DN{RDN{{"cn", fmt.Sprintf("s%d", len(part.Nodes))}}}, dn[1:]...)
			part.Add(dn, namedAttrs(r, dn[0]))
		}
		for _, n := range part.Ordered() {
			mustAdd(m, n.DN, n.Attrs...)
		}
		ks = append(ks, &stopClient{t: t, r: t.Sub(fmt.Sprintf("client %d %d", i, r.Int63())), m: part, init: part})
	}
	return m, ks
}

// ---- files after a stop ---------------------------------------------------------

type fileEvent struct {
	kind byte
	off  int64
	data []byte
	pos  int64 // where the record starts
}

func readEvents(t *T, name string) (es []fileEvent, end int64) {
	b, err := os.ReadFile(name)
	t.Must(err, "read the record of file operations")
	for p := 0; p < len(b); {
		if len(b)-p < 17 {
			t.Inconclusive("the record of file operations is cut off")
		}
		n := int(bin.BigEndian.Uint64(b[p+9:]))
		es = append(es, fileEvent{b[p], int64(bin.BigEndian.Uint64(b[p+1:])), b[p+17 : p+17+n], int64(p)})
		p += 17 + n
	}
	return es, int64(len(b))
}

// apply does a write to an image; mask selects the sectors that reach the
// disk (nil is all).
func (e fileEvent) apply(img []byte, mask func(sector int) bool) []byte {
	switch e.kind {
	case 'T':
		if int64(len(img)) < e.off {
			img = append(img, make([]byte, e.off-int64(len(img)))...)
		}
		return img[:e.off]
	case 'W':
		if end := e.off + int64(len(e.data)); int64(len(img)) < end {
			img = append(img, make([]byte, end-int64(len(img)))...)
		}
		const sector = 512
		for i := 0; i*sector < len(e.data); i++ {
			if mask == nil || mask(i) {
				copy(img[e.off+int64(i*sector):], e.data[i*sector:min(len(e.data), (i+1)*sector)])
			}
		}
	}
	return img
}

type stopImage struct {
	pos   int64
	data  []byte
	what  string
	first bool // before anything was flushed
}

// stopImages gives the files that may be found after a stop between any two
// file operations.
func stopImages(r *rand.Rand, base []byte, es []fileEvent, end int64, subsets int, f func(stopImage)) {
	durable := append([]byte{}, base...)
	var pending []fileEvent
	synced := len(base) > 0
	for i := 0; i <= len(es); i++ {
		pos := end
		if i < len(es) {
			pos = es[i].pos
		}
		emit := func(what string, img []byte) {
			f(stopImage{pos, img, fmt.Sprintf("before file operation %d of %d, of %d writes since the last flush: %s", i, len(es), len(pending), what), !synced})
		}
		if i == 0 || es[i-1].kind != 'O' {
			emit("none kept", append([]byte{}, durable...))
			if len(pending) > 0 {
				all := append([]byte{}, durable...)
				for _, e := range pending {
					all = e.apply(all, nil)
				}
				emit("all kept", all)
				img := append([]byte{}, durable...)
				for j, e := range pending {
					if j == len(pending)-1 { // torn
						n := r.Intn(1 + len(e.data)/512)
						img = e.apply(img, func(s int) bool { return s < n })
					} else {
						img = e.apply(img, nil)
					}
				}
				emit("last one torn", img)
				if !synced {
					emit("first sector lost", pending[0].apply(append([]byte{}, durable...), func(s int) bool { return s > 0 }))
					emit("only the size kept", pending[0].apply(append([]byte{}, durable...), func(s int) bool { return false }))
				}
				img = append([]byte{}, durable...)
				img = pending[len(pending)-1].apply(img, nil)
				emit("only the last", img)
			}
			for v := 0; v < subsets && len(pending) > 1; v++ {
				img := append([]byte{}, durable...)
				var kept []string
				for j, e := range pending {
					switch r.Intn(3) {
					case 0:
						img = e.apply(img, nil)
						kept = append(kept, fmt.Sprint(j))
					case 1:
						if v%2 == 1 {
							img = e.apply(img, func(int) bool { return r.Intn(2) == 0 })
							kept = append(kept, fmt.Sprint(j, " in part"))
						}
					}
				}
				emit("kept "+strings.Join(kept, ","), img)
			}
		}
		if i == len(es) {
			break
		}
		switch es[i].kind {
		case 'W', 'T':
			pending = append(pending, es[i])
		case 'S':
			for _, e := range pending {
				durable = e.apply(durable, nil)
			}
			pending = nil
			synced = true
		}
	}
}

// stopWorld is a recorded history.
type stopWorld struct {
	t      *T
	name   string
	static *Model
	ks     []*stopClient
	n      int64
}

// openImage starts the real server on a file as found after a stop.
func (w *stopWorld) open(img stopImage) (*Server, *Conn, string) {
	t := w.t
	dir := t.Dir("stop")
	db := filepath.Join(dir, "idm.db")
	t.Must(os.WriteFile(db, img.data, 0o600), "write")
	s, err := t.TryStart(ServerOpts{Handler: "boltdb", DB: db, Admin: adminDN, Base: baseDN, LogLevel: "error"})
	if err != nil {
		details := []interface{}{w.name, img.what, err.Error()}
		if img.first {
			details = append(details, knownKey("stop-while-creating-the-file"))
		}
		t.Fail("the directory cannot be opened after a stop", details...)
		os.RemoveAll(dir)
		return nil, nil, dir
	}
	return s, s.DialAs(adminDN, adminPW), dir
}

// key tells stops apart by the file and the changes that had been answered.
func (w *stopWorld) key(img stopImage) string {
	key := fmt.Sprintf("%x", sha256.Sum256(img.data))
	for _, k := range w.ks {
		_, a, s := k.allowed(img.pos)
		key += fmt.Sprintf(" %d-%d", a, s)
	}
	return key
}

func (w *stopWorld) judge(img stopImage) {
	t := w.t
	key := w.key(img)
	s, c, dir := w.open(img)
	if s == nil {
		return
	}
	all := t.Dump(c, baseDN)
	var found []*Model
	var names [][]DN // those of the last changes of each client
	for _, k := range w.ks {
		ms, acked, sent := k.allowed(img.pos)
		var last []DN
		for i := max2(0, acked-1); i < sent; i++ {
			last = append(last, k.ops[i].names...)
		}
		names = append(names, last)
		got := map[string]string{}
		for key, v := range all {
			if key == k.m.Base.Key() || strings.HasSuffix(key, ","+k.m.Base.Key()) {
				got[key] = v
				delete(all, key)
			}
		}
		var match *Model
		for _, m := range ms {
			if diffSnap(m.Snapshot(), got) == "" {
				match = m
			}
		}
		if match == nil {
			var ops []string
			for i, op := range k.ops[:sent] {
				if i >= acked-3 {
					ops = append(ops, fmt.Sprintf("%d %s (answered: %v)", i, op.what, i < acked && op.ack >= 0))
				}
			}
			what := "after a stop the directory is not what the answered changes made of it"
			if len(ms) > 1 {
				what = "after a stop a change is neither completely there nor completely absent, or an answered one is lost"
			}
			t.Fail(what, w.name+": "+img.what, fmt.Sprintf("%d of %d changes answered", acked, sent), strings.Join(ops, "\n"),
				"compared with the last allowed state:\n"+diffSnap(ms[len(ms)-1].Snapshot(), got))
		}
		found = append(found, match)
	}
	if diff := diffSnap(w.static.Snapshot(), all); diff != "" {
		t.Fail("after a stop entries differ that were not changed", w.name+": "+img.what, diff)
	}
	// The recovered directory has to work: searches in all scopes, and further
	// changes.
	i := int(atomic.AddInt64(&w.n, 1))
	r := t.Sub(fmt.Sprintf("%s after stop %s", w.name, key))
	m := found[i%len(found)].Clone()
	d := &DBDriver{t: t, s: s, c: c, m: m, r: r}
	d.CheckScopes(m.Base, m.Base.String())
	dn := m.Nodes[pick(r, m.Keys())].DN
	d.CheckScopes(dn, dn.String())
	// names of the last changes can be used as if they had never been in use,
	// or as an entry like any other
	for j, last := range names {
		d := &DBDriver{t: t, s: s, c: c, m: found[j].Clone(), r: r}
		for _, dn := range last {
			d.CheckScopes(dn, dn.String())
			for range "ab" {
				if d.m.Get(dn) != nil {
					d.Delete(dn, dn.String())
				} else {
					d.Add(dn, dn.String(), namedAttrs(r, dn[0]))
				}
			}
		}
		if len(last) > 0 {
			d.CheckScopes(d.m.Base, d.m.Base.String())
		}
		found[j] = d.m
	}
	m = found[i%len(found)]
	d.m = m
	if i%4 == 0 {
		for j := 0; j < 4; j++ {
			dn := newChildDN(r, m, false)
			d.Add(dn, dn.String(), namedAttrs(r, dn[0]))
			dn = m.Nodes[pick(r, m.Keys())].DN
			if len(dn) > len(m.Base) {
				d.Delete(dn, dn.String())
			}
		}
		d.CheckAll("after further changes the recovered directory is not what they made of it")
		t.Count("recovered_then_changed", 1)
	}
	c.Close()
	s.Kill()
	os.RemoveAll(dir)
	os.RemoveAll(s.Dir)
	t.Eval(key, true)
	t.SampleEvery(i, func() interface{} {
		_, a, sent := w.ks[0].allowed(img.pos)
		return fmt.Sprintf("%s: stop %s; %d bytes; first client: %d changes answered, %d sent; found whole", w.name, img.what, len(img.data), a, sent)
	})
}

// sampleStops judges a uniform sample of the different files that may be found
// after stops in a history.
func (w *stopWorld) sampleStops(base []byte, trace string, subsets, max int, key func(stopImage) string, judge func(img stopImage, end int64)) int {
	t := w.t
	es, end := readEvents(t, trace)
	t.Count("file_operations", len(es))
	// The first pass numbers the different ones, the second one judges.
	r := t.Sub(w.name + " sample")
	var numbers []int
	chosen := map[int]bool{}
	seen := map[string]bool{}
	i, different := 0, 0
	stopImages(t.Sub(w.name+" files"), base, es, end, subsets, func(img stopImage) {
		i++
		k := key(img)
		if seen[k] {
			return
		}
		seen[k] = true
		different++
		if img.first || len(base) == 0 && different < 40 {
			chosen[i] = true
		} else if len(numbers) < max-1 {
			numbers = append(numbers, i)
		} else if j := r.Intn(different); j < max-1 {
			numbers[j] = i
		}
	})
	t.Count("possible_files_enumerated", different)
	chosen[i] = true
	for _, n := range numbers {
		chosen[n] = true
	}
	imgs := make(chan stopImage)
	fs := []func(){func() {
		i := 0
		stopImages(t.Sub(w.name+" files"), base, es, end, subsets, func(img stopImage) {
			i++
			if chosen[i] && !t.failed() {
				imgs <- img
			}
		})
		close(imgs)
	}}
	for i := 0; i < 10; i++ {
		fs = append(fs, func() {
			for img := range imgs {
				if !t.failed() {
					judge(img, end)
				}
			}
		})
	}
	t.Go(fs...)
	return len(chosen)
}

// stopHistory records a history of changes and judges every stop in it.
func stopHistory(t *T, n, clients, size, steps, subsets, max int, faults bool) {
	name := fmt.Sprintf("history %d (%d clients, %d entries, %d changes, failing writes: %v)", n, clients, size*clients, clients*steps, faults)
	r := t.Sub(name)
	t.ResetTrace()
	m, ks := stopModel(t, r, clients, size)
	w := &stopWorld{t: t, name: name, static: baseModel(), ks: ks}
	db := t.LoadDB(m)
	base, err := os.ReadFile(db)
	t.Must(err, "read")
	trace := filepath.Join(t.Dir("trace"), "trace")
	env := []string{"BBOLT_TRACE=" + trace}
	if faults {
		var at []string
		for i := 10; i < 40*steps; i += 1 + r.Intn(25) {
			at = append(at, fmt.Sprint(i))
			if r.Intn(3) == 0 { // several in a row
				at = append(at, fmt.Sprint(i+1), fmt.Sprint(i+2))
			}
		}
		env = append(env, "BBOLT_FAULTS="+strings.Join(at, ","))
	}
	s := t.Start(ServerOpts{Kind: "trace", Handler: "boltdb", DB: db, Admin: adminDN, Base: baseDN, Env: env})
	pos := func() int64 {
		fi, err := os.Stat(trace)
		if err != nil {
			t.Inconclusive("the server does not record its file operations: %v", err)
		}
		return fi.Size()
	}
	var fs []func()
	for _, k := range ks {
		k := k
		k.pos, k.pw = pos, true
		k.c = s.DialAs(adminDN, adminPW)
		fs = append(fs, func() {
			for i := 0; i < steps && !t.failed(); i++ {
				if !k.step(faults) {
					t.netErr(errClosed, "change while writes fail")
				}
			}
		})
	}
	t.Go(fs...)
	s.CheckAlive("after a history of changes")
	// The running server agrees before anything is stopped.
	for _, k := range ks {
		t.sameSnap(k.m.Snapshot(), t.Dump(k.c, k.m.Base.String()), "the directory is not what the answered changes made of it")
		t.Count("changes", len(k.ops))
	}
	s.Kill()
	w.sampleStops(base, trace, subsets, max, w.key, func(img stopImage, end int64) { w.judge(img) })
}

// stopImport judges stops during the import into a new or existing file.
func stopImport(t *T, no int, existing bool, max int) {
	name := fmt.Sprintf("import %d (existing file: %v)", no, existing)
	r := t.Sub(name)
	m, _ := stopModel(t, r, 1, 40)
	dir := t.Dir("import")
	db := filepath.Join(dir, "idm.db")
	var base []byte
	full := m
	if existing {
		db = t.LoadDB(m)
		var err error
		base, err = os.ReadFile(db)
		t.Must(err, "read")
		more := &Model{Base: m.Base, Nodes: map[string]*Node{}}
		full = m.Clone()
		for i := 0; i < 25; i++ {
			dn := newChildDN(r, full, false)
			dn = append(DN{RDN{{"cn", fmt.Sprintf("i%d", i)}}}, dn[1:]...)
			as := append(namedAttrs(r, dn[0]), attr("street", strings.Repeat("q", r.Intn(9000))))
			full.Add(dn, as)
			more.Nodes[dn.Key()] = &Node{DN: dn, Attrs: mergeAttrs(as)}
		}
		m = more
	}
	in := filepath.Join(dir, "in.ldif")
	t.Must(os.WriteFile(in, []byte(m.LDIF()), 0o644), "write")
	trace := filepath.Join(dir, "trace")
	_, se, code := t.CommandEnv("trace", nil, []string{"BBOLT_TRACE=" + trace}, "boltdb", "load", "--boltdb-file", db, "--input-file", in, "--ldap-base-dn", baseDN)
	if code != 0 {
		t.Fail("importing a valid LDIF file failed", fmt.Sprintf("exit %d: %s", code, se))
	}
	w := &stopWorld{t: t, name: name}
	var mu sync.Mutex
	most := 0
	n := w.sampleStops(base, trace, 1, max, w.key, func(img stopImage, end int64) {
		dir := t.Dir("stop")
		db := filepath.Join(dir, "idm.db")
		t.Must(os.WriteFile(db, img.data, 0o600), "write")
		s, err := t.TryStart(ServerOpts{Handler: "boltdb", DB: db, Admin: adminDN, Base: baseDN, LogLevel: "error"})
		key := fmt.Sprintf("import %x", sha256.Sum256(img.data))
		if err != nil {
			details := []interface{}{w.name, img.what, err.Error()}
			if img.first {
				details = append(details, knownKey("stop-while-creating-the-file"))
			}
			t.Fail("the directory cannot be opened after a stop", details...)
			t.Eval(key, true)
			os.RemoveAll(dir)
			return
		}
		s.Kill()
		os.RemoveAll(s.Dir)
		so, se, code := t.Command("", nil, "boltdb", "export", "--boltdb-file", db, "--ldap-base-dn", baseDN)
		if code != 0 && !existing && img.pos < end {
			// Nothing to export: then the topmost entry can be imported.
			one := filepath.Join(dir, "one.ldif")
			t.Must(os.WriteFile(one, []byte(full.Get(full.Base).LDIF()), 0o644), "write")
			if _, se2, code := t.Command("", nil, "boltdb", "load", "--boltdb-file", db, "--input-file", one, "--ldap-base-dn", baseDN); code != 0 {
				t.Fail("the directory can neither be exported nor filled after a stop", w.name, img.what, se, se2)
			}
			t.Eval(key, true)
			os.RemoveAll(dir)
			return
		}
		if code != 0 {
			t.Fail("the directory cannot be exported after a stop", w.name, img.what, se)
		}
		got, err := readLDIF(so)
		if err != nil {
			t.Fail("the directory is exported wrongly after a stop", w.name, img.what, err.Error())
		}
		snap, err := snapshotOf(got)
		if err != nil {
			t.Fail("the directory is exported wrongly after a stop", w.name, img.what, err.Error())
		}
		for key, v := range snap {
			f := full.Nodes[key]
			if f == nil || canonAttrs(f.Attrs) != v {
				t.Fail("after a stop during an import an entry is there in part", w.name, img.what, key)
			}
			if key != full.Base.Key() && snap[f.DN.Parent().Key()] == "" {
				t.Fail("after a stop during an import an entry is there without its parent", w.name, img.what, key)
			}
		}
		if existing && len(snap) < len(full.Nodes)-len(m.Nodes) {
			t.Fail("a stop during an import loses entries", w.name, img.what)
		}
		// all of it is there once the import has ended
		if img.pos == end && len(snap) != len(full.Nodes) {
			t.Fail("a stop after an import loses entries", w.name, img.what, fmt.Sprintf("%d of %d", len(snap), len(full.Nodes)))
		}
		// what is missing can still be imported
		rest := &Model{Base: full.Base, Nodes: map[string]*Node{}}
		for key, n := range full.Nodes {
			if snap[key] == "" {
				rest.Nodes[key] = n
			}
		}
		if len(rest.Nodes) > 0 {
			in := filepath.Join(dir, "rest.ldif")
			t.Must(os.WriteFile(in, []byte(rest.LDIF()), 0o644), "write")
			if _, se, code := t.Command("", nil, "boltdb", "load", "--boltdb-file", db, "--input-file", in, "--ldap-base-dn", baseDN); code != 0 {
				t.Fail("after a stop during an import the rest cannot be imported", w.name, img.what, se)
			}
			so, se, code := t.Command("", nil, "boltdb", "export", "--boltdb-file", db, "--ldap-base-dn", baseDN)
			got, err := readLDIF(so)
			if code != 0 || err != nil {
				t.Fail("the directory cannot be exported after importing the rest", w.name, img.what, se)
			}
			all, err := snapshotOf(got)
			t.Must(err, "export")
			t.sameSnap(full.Snapshot(), all, "after a stop during an import and importing the rest, the directory is not the imported one")
			t.Count("import_continued", 1)
		}
		mu.Lock()
		most = max2(most, len(snap))
		mu.Unlock()
		t.Eval(key, true)
		os.RemoveAll(dir)
	})
	if most != len(full.Nodes) {
		t.Inconclusive("no stop after the end of the import")
	}
	t.Count("import_stops", n)
}

func max2(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// stopKill ends the real process again and again on the same file.
func stopKill(t *T, n, clients, cycles int) {
	r := t.Sub(fmt.Sprint("kill ", n))
	m, ks := stopModel(t, r, clients, 8)
	db := t.LoadDB(m)
	for cycle := 0; cycle < cycles && !t.failed(); cycle++ {
		t.ResetTrace()
		s := t.Start(ServerOpts{Handler: "boltdb", DB: db, Admin: adminDN, Base: baseDN})
		var seq int64
		var fs []func()
		var answered int64
		for _, k := range ks {
			k := k
			k.ops, k.init = nil, k.m
			k.pos = func() int64 { return atomic.AddInt64(&seq, 1) }
			k.c = s.DialAs(adminDN, adminPW)
			k.killed = true
			fs = append(fs, func() {
				for k.step(true) && !t.failed() {
					atomic.AddInt64(&answered, 1)
				}
			})
		}
		wait := time.Duration(r.Intn(120)) * time.Millisecond
		term := r.Intn(4) == 0
		fs = append(fs, func() {
			time.Sleep(wait)
			s.expectDead = true
			if term {
				s.Signal(syscall.SIGTERM)
				time.Sleep(time.Duration(r.Intn(20)) * time.Millisecond)
			}
			s.Kill()
		})
		t.Go(fs...)
		s = t.Start(ServerOpts{Handler: "boltdb", DB: db, Admin: adminDN, Base: baseDN})
		c := s.DialAs(adminDN, adminPW)
		for _, k := range ks {
			k.c.Close()
			got := t.Dump(c, k.m.Base.String())
			ms, acked, sent := k.allowed(1 << 60)
			var match *Model
			for _, m := range ms {
				if diffSnap(m.Snapshot(), got) == "" {
					match = m
				}
			}
			if match == nil {
				t.Fail("after the process was killed the directory is not what the answered changes made of it", fmt.Sprintf("%d of %d changes answered, the last: %s", acked, sent, k.ops[len(k.ops)-1].what), diffSnap(ms[len(ms)-1].Snapshot(), got))
			}
			k.m = match
		}
		c.Close()
		s.Kill()
		t.Eval(fmt.Sprintf("kill %d cycle %d: %d answered", n, cycle, answered), answered > 0)
		t.Count("kills", 1)
		t.Count("changes_answered_before_kills", int(answered))
	}
}

func checkC02(t *T) {
	t.Assume("flushed writes survive; of the writes since the last flush any subset of 512-byte sectors may survive; a process that is killed keeps all its writes")
	subsets := t.N(2, 4)
	max := t.N(400, 1500)
	stopHistory(t, 0, 1, 6, t.N(60, 200), subsets, max, false)
	stopHistory(t, 1, 4, 6, t.N(25, 80), subsets, max, false)
	stopHistory(t, 2, 1, 120, t.N(40, 200), subsets, t.N(250, 900), false)
	stopHistory(t, 3, 1, 6, t.N(60, 200), subsets, max, true)
	stopImport(t, 0, false, t.N(100, 330))
	stopImport(t, 1, true, t.N(100, 330))
	t.Go(
		func() { stopKill(t, 0, 1, t.N(12, 60)) },
		func() { stopKill(t, 1, 4, t.N(12, 60)) },
		func() { stopKill(t, 2, 8, t.N(8, 60)) },
	)
}
