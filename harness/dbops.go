package main

import (
	"fmt"
	"math/rand"
	"strings"
)

// DBDriver sends requests to a database-backed server as its administrator and
// keeps a model of the expected directory next to it.
type DBDriver struct {
	t *T
	s *Server
	c *Conn
	m *Model
	r *rand.Rand
	n int
}

func (t *T) NewDB(m *Model, r *rand.Rand, mod func(*ServerOpts)) *DBDriver {
	s := t.StartDB(m, mod)
	return &DBDriver{t: t, s: s, c: s.DialAs(adminDN, adminPW), m: m, r: r}
}

// Restart stops the server and starts it again on the same database file.
func (d *DBDriver) Restart(o ServerOpts) {
	d.c.Close()
	d.s.Kill()
	d.s = d.t.Start(o)
	d.c = d.s.DialAs(adminDN, adminPW)
}

func (d *DBDriver) Close() {
	d.c.Close()
	d.s.Kill()
}

func (d *DBDriver) expect(what string, res Result, err error, accept bool, op string) {
	d.t.netErr(err, op)
	if accept && res.Code != rcSuccess {
		d.t.Fail("a valid "+what+" was refused", fmt.Sprintf("%s -> %+v", op, res))
	}
	if !accept && res.Code == rcSuccess {
		d.t.Fail("an invalid "+what+" was accepted", fmt.Sprintf("%s -> %+v", op, res))
	}
}

func (d *DBDriver) Add(dn DN, spelled string, as []Attr) bool {
	op := fmt.Sprintf("add %q %v", spelled, as)
	d.t.Trace("%s", op)
	res, err := d.c.Add(Entry{DN: spelled, Attrs: as})
	ok := d.m.Add(dn, as)
	d.expect("add", res, err, ok, op)
	return ok
}

// AddSplit adds an entry with the values of some types listed in several
// places of the request, under different spellings of the type.
func (d *DBDriver) AddSplit(r *rand.Rand, dn DN, spelled string, as []Attr) bool {
	var first, second []Attr
	for _, a := range as {
		k := len(a.Vals)
		if k > 1 && r.Intn(2) == 0 {
			k = 1 + r.Intn(len(a.Vals)-1)
		}
		first = append(first, Attr{Name: a.Name, Vals: a.Vals[:k]})
		if k < len(a.Vals) {
			name := a.Name
			if r.Intn(2) == 0 {
				name = randCase(r, name)
			}
			second = append(second, Attr{Name: name, Vals: a.Vals[k:]})
		}
	}
	sent := append(first, second...)
	op := fmt.Sprintf("add %q %v", spelled, sent)
	d.t.Trace("%s", op)
	res, err := d.c.Add(Entry{DN: spelled, Attrs: sent})
	ok := d.m.Add(dn, as)
	d.expect("add", res, err, ok, op)
	d.t.Count("adds_with_split_attributes", len(second))
	return ok
}

func (d *DBDriver) Delete(dn DN, spelled string) bool {
	op := fmt.Sprintf("delete %q", spelled)
	d.t.Trace("%s", op)
	res, err := d.c.Delete(spelled)
	ok := d.m.Delete(dn)
	d.expect("delete", res, err, ok, op)
	return ok
}

func (d *DBDriver) Modify(dn DN, spelled string, chs []Change) bool {
	op := fmt.Sprintf("modify %q %+v", spelled, chs)
	d.t.Trace("%s", op)
	res, err := d.c.Modify(spelled, chs)
	ok := d.m.Modify(dn, chs)
	d.expect("modify", res, err, ok, op)
	return ok
}

func (d *DBDriver) Rename(dn DN, spelled string, newRDN DN, newSpelled string, del bool, sup *string) bool {
	op := fmt.Sprintf("rename %q to %q deleteold=%v superior=%v", spelled, newSpelled, del, strOr(sup))
	d.t.Trace("%s", op)
	res, err := d.c.ModDN(spelled, newSpelled, del, sup)
	// A new name that keeps an old naming value while asking for its removal is
	// contradictory; refusing it is as good as keeping the value.
	if del && len(newRDN) == 1 && err == nil && res.Code != rcSuccess {
		for _, a := range dn[0:min(1, len(dn))] {
			for _, x := range a {
				for _, y := range newRDN[0] {
					if fold(x.Type) == fold(y.Type) && fold(x.Val) == fold(y.Val) {
						return false
					}
				}
			}
		}
	}
	// the naming value is stored in the letter case of the request
	if as, err := parseDN(newSpelled); err == nil {
		newRDN = as
	}
	ok := d.m.Rename(dn, newRDN, del, sup != nil)
	d.expect("rename", res, err, ok, op)
	return ok
}

func strOr(s *string) string {
	if s == nil {
		return "-"
	}
	return fmt.Sprintf("%q", *s)
}

// CheckAll compares the whole directory with the model.
func (d *DBDriver) CheckAll(what string) {
	d.t.sameSnap(d.m.Snapshot(), d.t.Dump(d.c, d.m.Base.String()), what)
}

// CheckScopes compares the three scopes below a name with the model.
func (d *DBDriver) CheckScopes(dn DN, spelled string) {
	for scope := 0; scope <= 2; scope++ {
		res, err := d.c.Search(SearchReq{Base: spelled, Scope: scope})
		d.t.netErr(err, "search")
		snap, err := snapshotOf(res.Entries)
		if err != nil {
			d.t.Fail("a search returned an impossible result", fmt.Sprintf("base %q scope %d: %v", spelled, scope, err))
		}
		want := map[string]string{}
		for _, n := range d.m.InScope(dn, scope) {
			want[n.DN.Key()] = canonAttrs(n.Attrs)
		}
		if diff := diffSnap(want, snap); diff != "" {
			d.t.Fail("a search does not return exactly the entries in its scope", fmt.Sprintf("base %q scope %d\n%s", spelled, scope, diff))
		}
	}
}

// ---- generators -------------------------------------------------------------

// name parts with characters that names have to cope with
var trickyVals = []string{
	"plain", "Two Words", "a,b", "a\\,b", "x=y", "p+q", `qu"ote`, `back\slash`, "semi;colon", "lt<gt>", "#hash", "mid#hash",
	" lead", "trail ", "ünïcödé", "Жанна", "日本", "tab\there", "nl\nx", "dc=lg", "ou=people", "a,ou=people", "o'hara", "100%", "*star*", "(paren)",
	"nul\x00byte", "del\x7f", "é", "é", "\\2c", "\\", "==", ",", "ou=people,dc=lg,dc=local",
}

var plainVals = []string{"anna", "Bert", "carl", "Dora x", "emil-7", "fritz.k", "gerd", "hugo"}

func pick[T any](r *rand.Rand, xs []T) T { return xs[r.Intn(len(xs))] }

var namingTypes = []string{"cn", "ou", "uid", "cn", "sn"}

// genRDN draws from a small pool so that names collide often.
func genRDN(r *rand.Rand, tricky bool) RDN {
	v := pick(r, plainVals)
	if tricky && r.Intn(2) == 0 {
		v = pick(r, trickyVals)
	}
	return RDN{{pick(r, namingTypes), v}}
}

func namedAttrs(r *rand.Rand, rdn RDN) []Attr {
	as := []Attr{attr("objectClass", "top", "thing")}
	for _, a := range rdn {
		as = append(as, attr(a.Type, a.Val))
	}
	as = mergeAttrs(as)
	if r.Intn(2) == 0 {
		as = append(as, attr("description", fmt.Sprintf("d%d", r.Intn(100)), genText(r, 12)))
	}
	return as
}

func genText(r *rand.Rand, n int) string {
	const al = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 -_.@äöüéß日本"
	rs := []rune(al)
	k := 1 + r.Intn(n)
	var b strings.Builder
	for i := 0; i < k; i++ {
		b.WriteRune(rs[r.Intn(len(rs))])
	}
	return b.String()
}

// someDN picks an existing name (most of the time) or makes up one.
func someDN(r *rand.Rand, m *Model, existing int, tricky bool) DN {
	ks := m.Keys()
	if r.Intn(100) < existing && len(ks) > 0 {
		return m.Nodes[pick(r, ks)].DN
	}
	return newChildDN(r, m, tricky)
}

func newChildDN(r *rand.Rand, m *Model, tricky bool) DN {
	ks := m.Keys()
	p := m.Nodes[pick(r, ks)].DN
	if len(p) > 6 {
		p = m.Base
	}
	return append(DN{genRDN(r, tricky)}, p...)
}
