package main

import (
	"fmt"
	"math/rand"
	"strings"
)

func init() {
	register("C09", "exploration",
		"a search counts as distinct by the shape of its filter, scope, kind of attribute list and size limit, and the size of its expected result; searches whose expected result is empty or everything count as trivial",
		checkC09)
}

var searchAttrs = []string{"cn", "sn", "mail", "description", "memberUid", "title", "objectClass", "uid"}

// searchValue draws values from a small alphabet so that parts overlap.
func searchValue(r *rand.Rand) string {
	switch r.Intn(12) {
	case 0:
		return pick(r, []string{"a*b", "(a)", "a\\b", "a&b|c!", "*", "a=b", "x,y", "a\x00b", "()", "\\2a", "a\\28b", "#hash", "<x>", "a~=b", ">=", ":dn:=x"})
	case 1:
		return pick(r, []string{"äöü", "ÄÖ", "Éclair", "мир", "МИР труд", "日本語", "añb", "a\xffb", "a\xfeb", "a\ufffdb", "\xfe\xff", "\xff\xfe", "\xff\xff"})
	case 2:
		return pick(r, []string{" a", "a ", "a  b", " ", "a b a b"})
	}
	n := 1 + r.Intn(8)
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcABC  1"[r.Intn(9)]
	}
	s := strings.TrimSpace(string(b))
	if s == "" {
		s = "a"
	}
	return s
}

func shapeOf(f *Filter) string {
	switch f.Kind {
	case "and", "or", "not":
		s := f.Kind + "("
		for _, k := range f.Subs {
			s += shapeOf(k) + " "
		}
		return s + ")"
	case "sub":
		s := "sub"
		for _, p := range f.Parts {
			s += fmt.Sprint(p.Pos)
		}
		return s
	}
	return f.Kind
}

func searchEntryAttrs(r *rand.Rand, rdn RDN) []Attr {
	as := []Attr{attr("objectClass", "top", pick(r, []string{"person", "group", "account"}))}
	if r.Intn(12) == 0 {
		as = nil
	}
	for _, a := range rdn {
		as = append(as, attr(a.Type, a.Val))
	}
	for _, n := range searchAttrs[:6] {
		if r.Intn(2) == 0 {
			vals := distinctVals(r, 1+r.Intn(3), func() string { return searchValue(r) })
			skip := false
			for _, a := range rdn {
				if fold(a.Type) == fold(n) {
					skip = true
				}
			}
			if !skip {
				as = append(as, attr(randCase(r, n), oddValues(r, vals)...))
			}
		}
	}
	return as
}

// oddValues sometimes adds an empty value, or one that differs from another one
// in letter case only.
func oddValues(r *rand.Rand, vals []string) []string {
	switch r.Intn(20) {
	case 0:
		vals = append([]string{""}, vals...)
	case 1:
		for _, v := range []string{strings.ToUpper(vals[0]), strings.ToLower(vals[0])} {
			if v != vals[0] && validRunes(vals[0]) {
				return append(vals, v)
			}
		}
	}
	return vals
}

func genAttrList(r *rand.Rand) ([]string, string) {
	switch r.Intn(11) {
	case 9:
		return pick(r, [][]string{{"+"}, {"1.1"}, {"1.1", "+"}, {"+", "cn"}, {"*", "+"}}), "special"
	case 10: // long lists, the one that counts at the end
		var out []string
		for i := 0; i < 5+r.Intn(60); i++ {
			out = append(out, fmt.Sprint("nosuch", i))
		}
		return append(out, pick(r, []string{"*", "cn", "mail", "description"})), "long"
	case 0, 1, 2:
		return nil, "none"
	case 3:
		return []string{"*"}, "star"
	case 4:
		return []string{"*", pick(r, searchAttrs)}, "star+"
	case 5:
		a := pick(r, searchAttrs)
		return []string{a, randCase(r, a)}, "dup"
	case 6:
		return []string{"nosuch"}, "unknown"
	}
	var out []string
	for i := 0; i <= r.Intn(4); i++ {
		out = append(out, randCase(r, pick(r, append([]string{"nosuch", "dc", "ou"}, searchAttrs...))))
	}
	return out, "some"
}

// poolValue draws a value that often occurs in the directory.
func poolValue(r *rand.Rand, nodes []*Node, name string) string {
	if r.Intn(5) > 0 && len(nodes) > 0 {
		for i := 0; i < 5; i++ {
			if v := getVals(nodes[r.Intn(len(nodes))].Attrs, name); len(v) > 0 {
				return pick(r, v)
			}
		}
	}
	return searchValue(r)
}

// expectSearch is the reference: check every entry one by one.
func (m *Model) expectSearch(base DN, q SearchReq) map[string]string {
	out := map[string]string{}
	for _, n := range m.InScope(base, q.Scope) {
		if q.Filter == nil || q.Filter.Match(n.entry()) {
			out[n.DN.Key()] = canonAttrs(project(n.Attrs, q.Attrs))
		}
	}
	return out
}

// judgeSearch compares a search result with what was expected.
func (t *T) judgeSearch(q SearchReq, want map[string]string, res *SearchResult, d string) {
	got := map[string]string{}
	for _, e := range res.Entries {
		x, err := parseDN(e.DN)
		if err != nil {
			t.Fail("a search returned an unparsable name", d, e.DN)
		}
		if _, dup := got[x.Key()]; dup {
			t.Fail("a search returned an entry twice", d, e.DN)
		}
		names := map[string]bool{}
		for _, a := range e.Attrs {
			if names[fold(a.Name)] {
				t.Fail("a search returned an attribute of an entry twice", d, fmt.Sprintf("%q %q", e.DN, a.Name))
			}
			names[fold(a.Name)] = true
		}
		got[x.Key()] = canonAttrs(e.Attrs)
	}
	if q.SizeLimit > 0 && len(want) > q.SizeLimit {
		if res.Result.Code != rcSizeLimit {
			t.Fail("a search cut off by the size limit does not say so", d, fmt.Sprintf("%+v, %d of %d entries", res.Result, len(got), len(want)))
		}
		if len(got) != q.SizeLimit {
			t.Fail("a search cut off by the size limit returned another number of entries", d, fmt.Sprintf("%d of %d entries", len(got), len(want)))
		}
		for k, v := range got {
			if want[k] != v {
				t.Fail("a search cut off by the size limit returned something wrong", d, fmt.Sprintf("%q: %s, expected %s", k, v, want[k]))
			}
		}
		return
	}
	if res.Result.Code != rcSuccess && !(len(want) == 0 && res.Result.Code == rcNoSuchObject) {
		t.Fail("a valid search was not answered with success", d, fmt.Sprintf("%+v", res.Result))
	}
	if diff := diffSnap(want, got); diff != "" {
		t.Fail("a search returned not exactly the matching entries and attributes", d, diff)
	}
}

func describeSearch(q SearchReq) string {
	return fmt.Sprintf("base %q scope %d filter %s attributes %q size limit %d", q.Base, q.Scope, q.Filter, q.Attrs, q.SizeLimit)
}

func checkC09(t *T) {
	rounds := t.N(8, 40)
	steps := t.N(1500, 3000)
	for round := 0; round <= rounds; round++ {
		r := t.Sub(fmt.Sprintf("round%d", round))
		t.ResetTrace()
		m := baseModel()
		parents := []DN{m.Base.Child("ou", "people"), m.Base.Child("ou", "groups"), m.Base}
		size := 45
		if round == rounds { // a large directory
			size, steps = 1200, 150
		}
		for _, v := range []string{"a\xffb", "a\xfeb", "a\ufffdb"} { // alike, but not the same
			for _, dn := range []DN{parents[0].Child("uid", v), parents[0].Child("uid", v).Child("cn", "below")} {
				m.Add(dn, searchEntryAttrs(r, dn[0]))
			}
		}
		for i := 0; i < size; i++ {
			rdn := RDN{{pick(r, []string{"cn", "uid"}), searchValue(r)}}
			if r.Intn(8) == 0 {
				rdn = append(rdn, AVA{"sn", searchValue(r)})
			}
			dn := append(DN{rdn}, pick(r, parents)...)
			if m.Get(dn) == nil && m.Add(dn, searchEntryAttrs(r, rdn)) && r.Intn(4) == 0 {
				parents = append(parents, dn)
			}
		}
		d := t.NewDB(m, r, nil)
		m = d.m
		t.Trace("initial content:\n%s", m.LDIF())
		for i := 0; i < steps; i++ {
			if i%12 == 11 { // the directory changes in between
				dn := someDN(r, m, 80, false)
				switch r.Intn(3) {
				case 0:
					nd := dn.Child("cn", searchValue(r))
					d.AddSplit(r, nd, nd.String(), searchEntryAttrs(r, nd[0]))
				case 1:
					if dn.Key() != mustDN(adminDN).Key() && len(m.Nodes) > 25 && !dn.Under(m.Base.Child("ou", "sysusers")) {
						d.Delete(dn, dn.String())
					}
				case 2:
					if dn.Key() != mustDN(adminDN).Key() {
						d.Modify(dn, dn.String(), []Change{{2, "description", distinctVals(r, 1+r.Intn(2), func() string { return searchValue(r) })}, {0, "title", []string{searchValue(r)}}})
					}
				}
			}
			nodes := m.Ordered()
			base := pick(r, nodes).DN
			if r.Intn(3) == 0 {
				base = m.Base
			}
			if r.Intn(30) == 0 {
				base = base.Child("cn", "nothing here")
			}
			q := SearchReq{Base: base.String(), Scope: pick(r, []int{0, 1, 1, 2, 2, 2})}
			if r.Intn(3) == 0 {
				q.Base = base.Spell(r)
			}
			q.Filter = genFilter(r, r.Intn(4), searchAttrs, func(r *rand.Rand, a string) string { return poolValue(r, nodes, a) })
			var akind string
			q.Attrs, akind = genAttrList(r)
			want := m.expectSearch(base, q)
			lim := "unlimited"
			if r.Intn(3) == 0 {
				q.SizeLimit = 1 + r.Intn(len(want)+2)
				if big := pick(r, []int{257, 65537, 1<<24 + 1, 1<<31 - 1}); r.Intn(6) == 0 && big > len(want) {
					q.SizeLimit = big
				}
				lim = "above"
				if q.SizeLimit < len(want) {
					lim = "below"
				} else if q.SizeLimit == len(want) {
					lim = "equal"
				}
			}
			desc := describeSearch(q)
			res, err := d.c.Search(q)
			t.netErr(err, "search: "+desc)
			t.judgeSearch(q, want, res, desc)
			t.Eval(fmt.Sprint(shapeOf(q.Filter), q.Scope, akind, lim, len(want)), len(want) > 0 && len(want) < len(m.InScope(base, q.Scope)))
			t.Count("limit_"+lim, 1)
			t.Count("attrs_"+akind, 1)
			t.Count("entries_compared", len(want))
			t.SampleEvery(i, func() interface{} { return desc + fmt.Sprintf(" -> %d entries", len(want)) })
			if res.Result.Code != rcSuccess { // such an answer ends the connection
				d.c.Close()
				d.c = d.s.DialAs(adminDN, adminPW)
			}
		}
		d.Close()
	}
	for round := 0; round < t.N(1, 4); round++ {
		r := t.Sub(fmt.Sprintf("big%d", round))
		t.ResetTrace()
		names := []string{"cn", "description", "mail"}
		m := baseModel()
		d := t.NewDB(m, r, nil)
		for _, n := range bigModel(r, names).Ordered() {
			if d.m.Get(n.DN) == nil {
				d.Add(n.DN, n.DN.String(), n.Attrs)
			}
		}
		t.bigSearches(r, d.m, d.c, names)
		d.Close()
	}
}
