package main

import (
	"fmt"
	"math/rand"
	"strings"
)

func init() {
	register("C04", "exploration",
		"a modify request counts as distinct by its sequence of (operation, attribute kind, relation of its values to the current ones) together with its outcome; requests with no change are trivial",
		checkC04)
}

var modAttrs = []string{"cn", "sn", "mail", "description", "title", "memberUid", "telephoneNumber", "uid"}

func genValue(r *rand.Rand) string {
	switch r.Intn(8) {
	case 0:
		return genText(r, 40)
	case 1:
		return pick(r, trickyVals)
	case 2:
		return strings.Repeat(pick(r, plainVals), 1+r.Intn(60))
	default:
		return pick(r, []string{"one", "two", "three", "Four", "five", "Ünï", "ABC", "x y"})
	}
}

// nearValue makes a value that is almost another one.
func nearValue(r *rand.Rand, v string) string {
	rs := []rune(v)
	if len(rs) == 0 {
		return "x"
	}
	i := r.Intn(len(rs))
	switch r.Intn(6) {
	case 0:
		return v + pick(r, []string{"x", " ", "1", "\x00", "."})
	case 1:
		return pick(r, []string{"x", " ", "1", "."}) + v
	case 2:
		return string(rs[:len(rs)-1])
	case 3:
		return string(rs[1:])
	case 4:
		return string(rs[:i]) + " " + string(rs[i:])
	}
	return string(rs[:i]) + "q" + string(rs[i+1:])
}

// distinctVals draws values that are pairwise different without regard to case.
func distinctVals(r *rand.Rand, n int, f func() string) []string {
	var out []string
	for i := 0; i < n*3 && len(out) < n; i++ {
		v := f()
		if !hasFold(out, v) {
			out = append(out, v)
		}
	}
	return out
}

func genChanges(r *rand.Rand, n *Node, maxN int) ([]Change, string) {
	var chs []Change
	var shape []string
	k := 1 + r.Intn(maxN)
	as := n.clone().Attrs
	focus := pick(r, modAttrs)
	for i := 0; i < k; i++ {
		typ := pick(r, modAttrs)
		if r.Intn(2) == 0 {
			typ = focus
		}
		if r.Intn(6) == 0 {
			typ = n.DN[0][r.Intn(len(n.DN[0]))].Type
		}
		cur := getVals(as, typ)
		op := r.Intn(3)
		someCur := func() string {
			if len(cur) > 0 {
				return randCaseU(r, pick(r, cur))
			}
			return genValue(r)
		}
		var vals []string
		rel := "new"
		switch r.Intn(5) {
		case 0: // existing values
			vals = distinctVals(r, 1+r.Intn(2), someCur)
			rel = "cur"
		case 1: // mixture
			vals = distinctVals(r, 1+r.Intn(3), func() string {
				if r.Intn(2) == 0 {
					return someCur()
				}
				return genValue(r)
			})
			rel = "mix"
		case 2:
			if op != 0 {
				rel = "none"
				break
			}
			fallthrough
		default:
			vals = distinctVals(r, 1+r.Intn(3), func() string { return genValue(r) })
			if r.Intn(40) == 0 { // many
				for i := 50 + r.Intn(100); i > 0; i-- {
					vals = append(vals, fmt.Sprintf("many%d", i))
				}
			}
		}
		if len(cur) > 0 && len(vals) > 0 && r.Intn(6) == 0 {
			if near := nearValue(r, pick(r, cur)); !hasFold(vals, near) {
				vals[r.Intn(len(vals))] = near
			}
		}
		naming := ""
		for _, a := range n.DN[0] {
			if fold(a.Type) == fold(typ) {
				naming = "N"
				if op == 2 && r.Intn(2) == 0 && !hasFold(vals, a.Val) {
					vals = append(vals, randCaseU(r, a.Val))
				}
				if near := nearValue(r, a.Val); r.Intn(3) == 0 && len(vals) > 0 && !hasFold(vals, near) {
					vals[r.Intn(len(vals))] = near
				}
				if op == 1 && r.Intn(3) > 0 {
					var keep []string
					for _, v := range vals {
						if fold(v) != fold(a.Val) {
							keep = append(keep, v)
						}
					}
					if len(keep) > 0 {
						vals = keep
					}
				}
			}
		}
		ch := Change{Op: op, Type: randCase(r, typ), Vals: vals}
		chs = append(chs, ch)
		shape = append(shape, fmt.Sprintf("%d%s%s%d%s", op, naming, rel, len(cur), map[bool]string{true: "f"}[typ == focus]))
		// keep a running view so later changes relate to earlier ones
		switch op {
		case 0:
			as = setVals(as, typ, applyAdd(getVals(as, typ), vals))
		case 1:
			as = setVals(as, typ, applyDel(getVals(as, typ), vals))
		case 2:
			as = setVals(as, typ, vals)
		}
	}
	return chs, strings.Join(shape, " ")
}

func checkC04(t *T) {
	rounds := t.N(12, 50)
	steps := t.N(500, 1200)
	for round := 0; round < rounds; round++ {
		r := t.Sub(fmt.Sprintf("round%d", round))
		t.ResetTrace()
		m := baseModel()
		var targets []DN
		people := m.Base.Child("ou", "people")
		for i := 0; i < 6; i++ {
			dn := people.Child("uid", fmt.Sprintf("User%d", i))
			m.Add(dn, personAttrs(fmt.Sprintf("User%d", i), "Some One", "One", fmt.Sprintf("u%d@example.org", i), "secret"))
			targets = append(targets, dn)
		}
		for _, v := range []string{"Comma, Name", "plus+eq=x", "Ünïcode", "tail "} {
			dn := people.Child("cn", v)
			m.Add(dn, []Attr{attr("objectClass", "person"), attr("CN", v, "other "+v), attr("sn", "x")})
			targets = append(targets, dn)
		}
		multi := append(DN{RDN{{"cn", "Multi"}, {"sn", "Part"}}}, people...)
		m.Add(multi, []Attr{attr("objectClass", "person"), attr("cn", "Multi", "second"), attr("sn", "Part"), attr("description", "d")})
		targets = append(targets, multi)
		d := t.NewDB(m, r, nil)
		for i := 0; i < 3; i++ {
			uid := fmt.Sprintf("split%d", i)
			dn := people.Child("uid", uid)
			as := personAttrs(uid, "S", "T", "", "")
			for _, name := range []string{"description", "mail", "title", "memberUid"} {
				as = setVals(as, name, distinctVals(r, 1+r.Intn(5), func() string { return genValue(r) }))
			}
			d.AddSplit(r, dn, dn.String(), as)
			targets = append(targets, dn)
		}
		missing := people.Child("uid", "nobody")
		for i := 0; i < steps; i++ {
			dn := pick(r, targets)
			if r.Intn(40) == 0 {
				ok := d.Modify(missing, missing.Spell(r), []Change{{0, "sn", []string{"x"}}})
				t.Eval(fmt.Sprint("missing", ok), true)
				continue
			}
			n := d.m.Get(dn)
			spelled := dn.String()
			if r.Intn(3) == 0 {
				spelled = dn.Spell(r)
			}
			chs, shape := genChanges(r, n, 5)
			if r.Intn(60) == 0 {
				chs = nil
			}
			before := d.m.Snapshot()
			ok := d.Modify(dn, spelled, chs)
			t.Eval(fmt.Sprint(shape, ok), len(chs) > 0)
			t.Count(fmt.Sprintf("accepted_%v", ok), 1)
			t.SampleEvery(i, func() interface{} {
				return map[string]interface{}{"dn": spelled, "changes": fmt.Sprintf("%+v", chs), "accepted": ok}
			})
			res, err := d.c.Search(SearchReq{Base: dn.String(), Scope: 0})
			t.netErr(err, "search")
			snap, err := snapshotOf(res.Entries)
			t.netErr(err, "search after modify")
			want := map[string]string{dn.Key(): canonAttrs(d.m.Get(dn).Attrs)}
			if diff := diffSnap(want, snap); diff != "" {
				what := "an accepted modify did not give the result of its changes in order"
				if !ok {
					what = "a refused modify changed the entry"
				}
				t.Fail(what, fmt.Sprintf("entry before: %s\nmodify %q %+v", before[dn.Key()], spelled, chs), diff)
			}
			if i%50 == 49 {
				d.CheckAll("a modify changed something else than its entry")
			}
			// keep entries from growing without bound
			if v := d.m.Get(dn); len(canonAttrs(v.Attrs)) > 6000 {
				d.Modify(dn, dn.String(), []Change{{2, "description", nil}, {2, "title", nil}, {2, "memberUid", nil}, {2, "telephoneNumber", nil}, {2, "mail", nil}})
			}
		}
		d.CheckAll("the directory differs from the result of all modifies")
		d.Close()
	}
}
