package main

import (
	"fmt"
)

func init() {
	register("C23", "exploration",
		"a rename counts as distinct by the class of its target, the kind of the new name, the delete-old flag, its outcome and the names involved",
		checkC23)
}

func checkC23(t *T) {
	rounds := t.N(5, 30)
	steps := t.N(350, 800)
	for round := 0; round < rounds; round++ {
		r := t.Sub(fmt.Sprintf("round%d", round))
		t.ResetTrace()
		tricky := round%2 == 0
		d := t.NewDB(baseModel(), r, nil)
		people := d.m.Base.Child("ou", "people")
		groups := d.m.Base.Child("ou", "groups")
		// names that existed once, to be checked for leftovers
		var gone []DN
		pw := map[string]string{}
		seq := 0
		addOne := func(parent DN) {
			rdn := genRDN(r, tricky)
			if r.Intn(8) == 0 {
				rdn = append(rdn, AVA{"l", pick(r, plainVals)})
			}
			dn := append(DN{rdn}, parent...)
			if d.m.Get(dn) != nil {
				return
			}
			seq++
			p := fmt.Sprintf("pw%d-%d", round, seq)
			as := append(namedAttrs(r, rdn), attr("userPassword", p), attr("employeeNumber", fmt.Sprint(seq)))
			// further values of the naming attribute that have to stay
			for i := range as {
				if fold(as[i].Name) == fold(rdn[0].Type) && r.Intn(2) == 0 {
					as[i].Vals = append(append([]string{}, as[i].Vals...), "extra value", pick(r, plainVals)+"-keep")
				}
			}
			if d.Add(dn, dn.Spell(r), as) {
				pw[dn.Key()] = p
			}
		}
		for i := 0; i < 12; i++ {
			addOne(pick(r, []DN{people, groups}))
		}
		for i := 0; i < steps; i++ {
			if len(d.m.Nodes) < 14 || r.Intn(8) == 0 {
				p := pick(r, []DN{people, groups})
				if r.Intn(3) == 0 {
					p = someDN(r, d.m, 100, false)
					if len(p) > 5 || mustDN(adminDN).Key() == p.Key() {
						p = people
					}
				}
				addOne(p)
			}
			dn := someDN(r, d.m, 88, tricky)
			if mustDN(adminDN).Key() == dn.Key() {
				continue
			}
			class := targetClass(d.m, dn)
			kind := r.Intn(16)
			newRDN := DN{genRDN(r, tricky)}
			kindName := "fresh"
			var spelledNew string
			var sup *string
			switch {
			case kind == 0:
				newRDN, kindName = DN{}, "empty"
				spelledNew = pick(r, []string{"", " "})
			case kind == 1:
				newRDN, kindName = DN{genRDN(r, tricky), genRDN(r, tricky)}, "several"
			case kind == 2:
				newRDN, kindName = append(DN{genRDN(r, tricky)}, people...), "fulldn"
			case kind == 3:
				kindName = "superior"
				s := pick(r, []DN{groups, d.m.Base, d.m.Base.Child("ou", "nowhere"), d.m.Base.Child("ou", "sysusers")})
				if len(dn) > 1 && s.Key() == dn.Parent().Key() {
					s = d.m.Base.Child("ou", "elsewhere")
				}
				ss := s.Spell(r)
				sup = &ss
			case kind == 4 || kind == 5:
				kindName = "sibling"
				if len(dn) > 1 {
					if ch := d.m.Children(dn.Parent()); len(ch) > 0 {
						newRDN = DN{pick(r, ch).DN[0]}
					}
				}
			case kind == 6:
				kindName = "samename"
				if len(dn) > 0 {
					newRDN = DN{dn[0]}
				}
			case kind == 7:
				kindName = "multi"
				newRDN = DN{RDN{{"cn", pick(r, plainVals)}, {"l", pick(r, plainVals)}}}
			case kind == 8:
				kindName = "back"
				for _, g := range gone {
					if len(g) == len(dn) && g.Parent().Key() == dn.Parent().Key() {
						newRDN = DN{g[0]}
					}
				}
			}
			if kindName != "empty" {
				spelledNew = newRDN.Spell(r)
			}
			del := r.Intn(2) == 0
			before := d.m.Snapshot()
			oldKey := dn.Key()
			oldPW := pw[oldKey]
			ok := d.Rename(dn, dn.Spell(r), newRDN, spelledNew, del, sup)
			t.Eval(fmt.Sprint(class, kindName, del, ok, oldKey, newRDN.Key()), true)
			t.Count(fmt.Sprintf("%s_%s_%v", class, kindName, ok), 1)
			t.SampleEvery(i, func() interface{} {
				return map[string]interface{}{"old": dn.String(), "class": class, "new": spelledNew, "deleteold": del, "kind": kindName, "accepted": ok}
			})
			if !ok {
				t.sameSnap(before, t.Dump(d.c, baseDN), "a refused rename changed the directory")
				continue
			}
			nd := append(DN{newRDN[0]}, dn.Parent()...)
			delete(pw, oldKey)
			gone = append(gone, dn)
			d.CheckScopes(nd, nd.Spell(r))
			d.CheckScopes(dn, dn.Spell(r))
			if oldPW != "" {
				pw[nd.Key()] = oldPW
				c := d.s.Dial()
				res, err := c.Bind(nd.Spell(r), oldPW)
				t.netErr(err, "bind")
				if res.Code != rcSuccess {
					t.Fail("a renamed entry cannot bind with its password", fmt.Sprintf("%q -> %q: %+v", dn.String(), nd.String(), res))
				}
				res, err = c.Bind(dn.Spell(r), oldPW)
				t.netErr(err, "bind")
				if res.Code == rcSuccess {
					t.Fail("the old name of a renamed entry can still bind", dn.String())
				}
				c.Close()
			}
			switch r.Intn(5) {
			case 0: // usable in a filter by its new naming value
				f := Eq(nd[0][0].Type, nd[0][0].Val)
				res, err := d.c.Search(SearchReq{Base: dn.Parent().String(), Scope: 1, Filter: f})
				t.netErr(err, "search")
				found := false
				for _, e := range res.Entries {
					if x, err := parseDN(e.DN); err == nil && x.Key() == nd.Key() {
						found = true
					}
				}
				if !found {
					t.Fail("a renamed entry is not found by its new naming value", fmt.Sprintf("%q filter %s", nd.String(), f))
				}
			case 1: // the old name is free again
				seq++
				if d.Add(dn, dn.Spell(r), append(namedAttrs(r, dn[0]), attr("employeeNumber", fmt.Sprint(seq)))) {
					delete(pw, dn.Key())
				}
			case 2: // modifying keeps protecting the new naming value
				d.Modify(nd, nd.Spell(r), []Change{{2, "description", []string{"after rename"}}})
				d.Modify(nd, nd.Spell(r), []Change{{1, nd[0][0].Type, []string{nd[0][0].Val}}})
			case 3:
				if d.Delete(nd, nd.Spell(r)) {
					delete(pw, nd.Key())
				}
			case 4: // it can get children and is then no leaf any more
				child := nd.Child("cn", "kid")
				if d.Add(child, child.Spell(r), namedAttrs(r, child[0])) {
					x := DN{RDN{{"cn", "refused"}}}
					d.Rename(nd, nd.Spell(r), x, x.String(), true, nil)
					d.Delete(child, child.String())
				}
			}
			if i%20 == 19 {
				d.CheckAll("renames changed something else than the entry they name")
			}
		}
		d.CheckAll("renames changed something else than the entry they name")
		// The base entry cannot be renamed even when nothing is below it.
		order := d.m.Ordered()
		for i := len(order) - 1; i > 0; i-- {
			d.Delete(order[i].DN, order[i].DN.String())
		}
		x := DN{RDN{{"dc", "other"}}}
		d.Rename(d.m.Base, d.m.Base.String(), x, x.String(), round%2 == 0, nil)
		t.Eval(fmt.Sprint("bareBase", round%2), true)
		d.CheckAll("renaming the base entry changed the directory")
		d.Close()
	}
}
