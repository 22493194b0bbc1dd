package main

import (
	"fmt"
	"math/rand"
	"strings"
)

func init() {
	register("C10", "exploration",
		"a search counts as distinct by the shape of its filter, which of its attributes are indexed, scope, kind of attribute list and the size of its expected result; searches whose expected result is empty or everything count as trivial; the comparison of equal filters on indexed and other attributes counts one evaluation per filter",
		checkC10)
}

// attributes with every kind of index (equality only, all three, none)
var (
	fileAttrs    = []string{"cn", "sn", "givenName", "mail", "uid", "memberUid", "ou", "objectClass", "description", "title", "street", "uidNumber"}
	fileIndexed  = map[string]string{"cn": "f", "sn": "f", "givenname": "f", "mail": "f", "uid": "e", "memberuid": "e", "ou": "e", "objectclass": "e", "uidnumber": "e"}
	foldLetters  = []string{"ς", "Σ", "σ", "ſ", "s", "S", "K", "k", "K", "ß", "ẞ", "ss", "µ", "μ", "Ω", "ω", "Ⅷ", "ⅷ", "é", "É", "Ж", "ж"}
	twinFull     = []string{"cn", "sn", "givenName", "mail"}
	twinEq       = []string{"memberUid", "uniqueMember", "otherMailbox"}
	twinNo       = []string{"description", "title"}
	twinAttrsAll = append(append(append([]string{}, twinFull...), twinEq...), twinNo...)
)

func fileEntryAttrs(r *rand.Rand, rdn RDN) []Attr {
	as := []Attr{attr("objectClass", "top", pick(r, []string{"person", "group", "account"}))}
	if r.Intn(12) == 0 {
		as = nil
	}
	for _, a := range rdn {
		as = append(as, attr(a.Type, a.Val))
	}
	for _, n := range fileAttrs {
		if n == "objectClass" || r.Intn(5) < 2 {
			continue
		}
		skip := false
		for _, a := range rdn {
			if fold(a.Type) == fold(n) {
				skip = true
			}
		}
		if skip {
			continue
		}
		as = append(as, attr(randCase(r, n), oddValues(r, distinctVals(r, 1+r.Intn(3), func() string { return fileValue(r) }))...))
	}
	if r.Intn(3) == 0 {
		as = append(as, attr("userPassword", "pw-"+genText(r, 6)))
	}
	return as
}

// fileValue is a search value that is plain text.
func fileValue(r *rand.Rand) string {
	for {
		v := searchValue(r)
		if validRunes(v) && !strings.Contains(v, "\x00") {
			return v
		}
	}
}

func indexShape(f *Filter) string {
	if len(f.Subs) > 0 {
		s := ""
		for _, k := range f.Subs {
			s += indexShape(k)
		}
		return s
	}
	if k := fileIndexed[fold(f.Attr)]; k != "" {
		return k
	}
	return "n"
}

// withoutSecrets is the content a client may see of a file-backed directory.
func withoutSecrets(m *Model) *Model {
	o := m.Clone()
	for k, n := range o.Nodes {
		o.Nodes[k] = &Node{DN: n.DN, Attrs: setVals(n.Attrs, "userPassword", nil)}
	}
	return o
}

func checkC10(t *T) {
	rounds := t.N(6, 30)
	steps := t.N(1500, 4000)
	for round := 0; round <= rounds; round++ {
		r := t.Sub(fmt.Sprintf("round%d", round))
		t.ResetTrace()
		m := baseModel()
		parents := []DN{m.Base.Child("ou", "people"), m.Base.Child("ou", "groups"), m.Base}
		size := 50
		if round == rounds { // a large directory
			size, steps = 2600, 250
		}
		for _, v := range []string{"a\xffb", "a\xfeb", "a\ufffdb"} { // alike, but not the same
			for _, dn := range []DN{parents[0].Child("uid", v), parents[0].Child("uid", v).Child("cn", "below")} {
				m.Add(dn, fileEntryAttrs(r, dn[0]))
			}
		}
		for i := 0; i < size; i++ {
			rdn := RDN{{pick(r, []string{"cn", "uid", "ou"}), fileValue(r)}}
			dn := append(DN{rdn}, pick(r, parents)...)
			if m.Get(dn) == nil && m.Add(dn, fileEntryAttrs(r, rdn)) && r.Intn(4) == 0 {
				parents = append(parents, dn)
			}
		}
		vis := withoutSecrets(m)
		text := m.LDIF()
		// entries outside the base, some looking as if they were inside
		for i, d := range []string{"uid=eve,xdc=lg,dc=local", "uid=out,dc=other", "ou=people2,xou=people,dc=lg,dc=local.x", "dc=local"} {
			text += (&Node{DN: mustDN(d), Attrs: fileEntryAttrs(r, RDN{{"cn", fmt.Sprint("out", i)}})}).LDIF()
		}
		t.Trace("content:\n%s", text)
		s := t.StartLDIF(text, "", nil)
		c := s.DialAs(adminDN, adminPW)
		nodes := vis.Ordered()
		for i := 0; i < steps; i++ {
			base := pick(r, nodes).DN
			if r.Intn(3) > 0 {
				base = pick(r, []DN{m.Base, m.Base.Child("ou", "people")})
			}
			if r.Intn(30) == 0 {
				base = base.Child("cn", "nothing here")
			}
			q := SearchReq{Base: base.String(), Scope: pick(r, []int{0, 1, 1, 2, 2, 2})}
			if r.Intn(3) == 0 {
				q.Base = randCase(r, q.Base)
			}
			q.Filter = genFilter(r, r.Intn(4), fileAttrs, func(r *rand.Rand, a string) string { return poolValue(r, nodes, a) })
			var akind string
			q.Attrs, akind = genAttrList(r)
			want := vis.expectSearch(base, q)
			if big := pick(r, []int{65537, 1<<24 + 1, 1<<31 - 1}); r.Intn(12) == 0 {
				q.SizeLimit = big
			}
			desc := describeSearch(q)
			res, err := c.Search(q)
			t.netErr(err, "search: "+desc)
			t.judgeSearch(q, want, res, desc)
			t.Eval(fmt.Sprint(shapeOf(q.Filter), indexShape(q.Filter), q.Scope, akind, len(want)), len(want) > 0 && len(want) < len(vis.InScope(base, q.Scope)))
			t.Count("attrs_"+akind, 1)
			t.Count("entries_compared", len(want))
			t.SampleEvery(i, func() interface{} { return desc + fmt.Sprintf(" -> %d entries", len(want)) })
			if res.Result.Code != rcSuccess {
				c.Close()
				c = s.DialAs(adminDN, adminPW)
			}
		}
		c.Close()
		s.Kill()
	}
	for round := 0; round < t.N(1, 4); round++ {
		r := t.Sub(fmt.Sprintf("big%d", round))
		t.ResetTrace()
		names := []string{"cn", "description", "mail", "memberUid"}
		m := bigModel(r, names)
		s := t.StartLDIF(m.LDIF(), "", nil)
		c := s.DialAs(adminDN, adminPW)
		t.bigSearches(r, withoutSecrets(m), c, names)
		c.Close()
		s.Kill()
	}
	// The same values under indexed and other attributes: the same filter must
	// find the same entries, also for letters with unusual case rules.
	for round := 0; round < t.N(2, 10); round++ {
		r := t.Sub(fmt.Sprintf("twin%d", round))
		t.ResetTrace()
		m := baseModel()
		people := m.Base.Child("ou", "people")
		var pool []string
		for i := 0; i < 40; i++ {
			vals := distinctVals(r, 1+r.Intn(2), func() string {
				s := ""
				for k := 0; k <= r.Intn(3); k++ {
					s += pick(r, foldLetters)
				}
				return s
			})
			pool = append(pool, vals...)
			as := []Attr{attr("objectClass", "top", "person"), attr("uid", fmt.Sprint("u", i))}
			for _, n := range twinAttrsAll {
				as = append(as, attr(n, vals...))
			}
			m.Add(people.Child("uid", fmt.Sprint("u", i)), as)
		}
		t.Trace("content:\n%s", m.LDIF())
		s := t.StartLDIF(m.LDIF(), "", nil)
		c := s.DialAs(adminDN, adminPW)
		for i := 0; i < t.N(400, 1500); i++ {
			v := pick(r, pool)
			f := Sub("", genParts(r, v)...)
			if r.Intn(2) == 0 {
				f = Eq("", v)
			}
			find := func(name string) map[string]string {
				f.Attr = name
				g := f
				if i%3 == 1 {
					g = Or(f, Eq("uid", "u1"))
				} else if i%3 == 2 {
					g = And(Present("objectClass"), f)
				}
				res, err := c.Search(SearchReq{Base: people.String(), Scope: 1, Filter: g, Attrs: []string{"uid"}})
				t.netErr(err, "search "+g.String())
				snap, err := snapshotOf(res.Entries)
				if err != nil || res.Result.Code != rcSuccess {
					t.Fail("a valid search gave an impossible result", g.String(), fmt.Sprint(err, res.Result))
				}
				return snap
			}
			names := []string{pick(r, twinFull), pick(r, twinEq), pick(r, twinNo)}
			first := find(names[2])
			for _, n := range names[:2] {
				if d := diffSnap(first, find(n)); d != "" {
					t.Fail("a search finds something else when another attribute with the same values is used", f.String(), names[2], n, d)
				}
			}
			t.Eval("twin "+f.Kind+shapeOf(f)+fmt.Sprint(names, len(first), i%3), len(first) > 0)
			t.Count("twin_entries", len(first))
		}
		c.Close()
		s.Kill()
	}
}
