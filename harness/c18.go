package main

import (
	"fmt"
	"math/rand"
	"strings"
)

func init() {
	register("C18", "exploration",
		"a case is one operation addressed by one spelling; distinct by operation, spelling and entry; spellings equal to the stored one are trivial",
		checkC18)
}

const hostileAlphabet = "ab,+=\"\\;<># \tAäÖ*()/'&%\x00\x01\x7f0"

func hostileValue(r *rand.Rand) string {
	rs := []rune(hostileAlphabet)
	n := 1 + r.Intn(5)
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteRune(rs[r.Intn(len(rs))])
	}
	return b.String()
}

// otherName makes a different name by a small change.
func otherName(r *rand.Rand, d DN) DN {
	v := d[0][0].Val
	var w string
	switch r.Intn(7) {
	case 0:
		w = v + "x"
	case 1:
		w = " " + v
	case 2:
		w = v + " "
	case 3:
		w = "\\" + v
	case 4:
		w = strings.Replace(v, ",", "\\,", 1)
	case 5:
		w = strings.ReplaceAll(v, " ", "  ")
	default:
		w = v + pick(r, []string{",", "+", "=", "#", ";", "\"", "\x00", ",ou=people", "+cn=x", "é"})
	}
	out := append(DN{RDN{{d[0][0].Type, w}}}, d[1:]...)
	switch r.Intn(10) {
	case 0, 1:
		out = append(DN{RDN{{pick(r, []string{"cn", "uid", "ou", "sn"}), v}}}, d[1:]...)
	case 2: // one part more in the first component
		out = append(DN{append(append(RDN{}, d[0]...), AVA{pick(r, []string{d[0][0].Type, "l"}), w})}, d[1:]...)
	case 3: // one part less
		if len(d[0]) > 1 {
			out = append(DN{d[0][:1]}, d[1:]...)
		}
	case 4: // a level left out
		if len(d) > 3 {
			out = append(DN{d[0]}, d[2:]...)
		}
	case 5: // a level twice
		out = append(DN{d[0], d[0]}, d[1:]...)
	case 6: // two levels exchanged
		if len(d) > 4 {
			out = append(DN{d[1], d[0]}, d[2:]...)
		}
	case 7: // two levels as one
		if len(d) > 3 {
			out = append(DN{append(append(RDN{}, d[0]...), d[1]...)}, d[2:]...)
		}
	}
	return out
}

func checkC18(t *T) {
	rounds := t.N(5, 30)
	perRound := t.N(40, 60)
	steps := t.N(420, 900)
	for round := 0; round < rounds; round++ {
		r := t.Sub(fmt.Sprintf("round%d", round))
		t.ResetTrace()
		d := t.NewDB(baseModel(), r, nil)
		people := d.m.Base.Child("ou", "people")
		parents := []DN{people, d.m.Base.Child("ou", "groups")}
		pw := map[string]string{}
		content := func(dn DN, id int) []Attr {
			as := []Attr{attr("objectClass", "thing")}
			for _, a := range dn[0] {
				as = append(as, attr(a.Type, a.Val))
			}
			return append(mergeAttrs(as), attr("description", fmt.Sprintf("id-%d", id)), attr("userPassword", fmt.Sprintf("pw-%d-%d", round, id)))
		}
		id := 0
		addNew := func(dn DN) {
			if d.m.Get(dn) != nil || len(dn) > 7 {
				return
			}
			id++
			if d.Add(dn, dn.Spell(r), content(dn, id)) {
				pw[dn.Key()] = fmt.Sprintf("pw-%d-%d", round, id)
				t.Eval("add"+dn.Key(), true)
				if r.Intn(3) == 0 {
					parents = append(parents, dn)
				}
			}
		}
		vals := append([]string{}, trickyVals...)
		for i := 0; i < 40; i++ {
			vals = append(vals, hostileValue(r))
		}
		for b := 0x80; b < 0x100; b += 1 + r.Intn(40) { // bytes that are no text
			vals = append(vals, string([]byte{'a', byte(b), 'b'}))
		}
		for i := 0; i < perRound; i++ {
			p := pick(r, parents)
			if d.m.Get(p) == nil {
				continue
			}
			rdn := RDN{{pick(r, namingTypes), pick(r, vals)}}
			switch r.Intn(14) {
			case 0:
				rdn = append(rdn, AVA{"l", pick(r, vals)})
			case 1: // the same type twice, as its own entry besides the one with only the first part
				addNew(append(DN{rdn}, p...))
				if v := pick(r, vals); fold(v) != fold(rdn[0].Val) {
					rdn = append(append(RDN{}, rdn...), AVA{rdn[0].Type, v})
				}
			case 2:
				rdn = append(rdn, AVA{"l", pick(r, vals)}, AVA{"st", pick(r, vals)})
			}
			addNew(append(DN{rdn}, p...))
		}
		protected := func(dn DN) bool {
			k := dn.Key()
			return k == d.m.Base.Key() || k == people.Key() || mustDN(adminDN).Under(dn) || k == d.m.Base.Child("ou", "groups").Key()
		}
		for i := 0; i < steps; i++ {
			ks := d.m.Keys()
			dn := d.m.Nodes[pick(r, ks)].DN
			sp := dn.Spell(r)
			op := r.Intn(11)
			if protected(dn) && op != 0 && op != 8 {
				continue
			}
			t.Eval(fmt.Sprint(op, sp, dn.Key()), sp != dn.String())
			t.Count([]string{"search", "modify", "readd", "bind", "pwmod", "rename", "delete", "add_new", "near_miss", "shown_name", "odd_type"}[op], 1)
			t.SampleEvery(i, func() interface{} { return map[string]string{"name": dn.String(), "spelled": sp} })
			switch op {
			case 0:
				d.CheckScopes(dn, sp)
			case 1:
				id++
				d.Modify(dn, sp, []Change{{2, "description", []string{fmt.Sprintf("id-%d", id)}}})
			case 2:
				res, err := d.c.Add(Entry{DN: sp, Attrs: content(dn, 0)})
				t.netErr(err, "add")
				if res.Code == rcSuccess {
					t.Fail("another spelling of an existing name was added as a new entry", fmt.Sprintf("%q exists, added %q", dn.String(), sp))
				}
			case 3:
				c := d.s.Dial()
				res, err := c.Bind(sp, pw[dn.Key()])
				t.netErr(err, "bind")
				if res.Code != rcSuccess {
					t.Fail("a bind by another spelling of the name was refused", fmt.Sprintf("%q spelled %q: %+v", dn.String(), sp, res))
				}
				c.Close()
			case 4:
				if r.Intn(4) > 0 { // expensive hashing, so not always
					continue
				}
				np := fmt.Sprintf("newpw-%d", i)
				who := d.c
				if r.Intn(2) == 0 {
					who = d.s.DialAs(dn.Spell(r), pw[dn.Key()])
				}
				res, _, err := who.PwMod(&sp, nil, &np)
				t.netErr(err, "password change")
				if who != d.c {
					who.Close()
				}
				if res.Code != rcSuccess {
					t.Fail("a password change by another spelling of the name was refused", fmt.Sprintf("%q spelled %q: %+v", dn.String(), sp, res))
				}
				c := d.s.DialAs(dn.Spell(r), np)
				c.Close()
				// put the clear text back so that content stays predictable
				d.Modify(dn, dn.Spell(r), []Change{{2, "userPassword", []string{pw[dn.Key()]}}})
			case 5:
				nr := DN{RDN{{pick(r, namingTypes), pick(r, vals)}}}
				oldk := dn.Key()
				nd := append(DN{nr[0]}, dn.Parent()...)
				if d.Rename(dn, sp, nr, nr[0].Spell(r), r.Intn(2) == 0, nil) {
					pw[nd.Key()] = pw[oldk]
					delete(pw, oldk)
				}
			case 6:
				if d.Delete(dn, sp) {
					delete(pw, dn.Key())
				}
			case 7:
				p := pick(r, parents)
				if d.m.Get(p) != nil {
					addNew(append(DN{RDN{{pick(r, namingTypes), pick(r, vals)}}}, p...))
				}
			case 8:
				o := otherName(r, dn)
				d.CheckScopes(o, o.Spell(r))
				if d.m.Get(o) == nil {
					d.Delete(o, o.Spell(r))
					d.Modify(o, o.Spell(r), []Change{{2, "description", []string{"wrong"}}})
					c := d.s.Dial()
					res, err := c.Bind(o.Spell(r), pw[dn.Key()])
					t.netErr(err, "bind")
					if res.Code == rcSuccess {
						t.Fail("a different name was accepted for an entry in a bind", fmt.Sprintf("%q for %q", o.String(), dn.String()))
					}
					c.Close()
					if r.Intn(2) == 0 && d.m.Get(o.Parent()) != nil {
						addNew(o) // other names can be entries of their own
					}
				}
			case 9:
				res, err := d.c.Search(SearchReq{Base: sp, Scope: 0})
				t.netErr(err, "search")
				if len(res.Entries) != 1 {
					t.Fail("a base search by another spelling does not find the entry", fmt.Sprintf("%q spelled %q", dn.String(), sp))
				}
				shown := res.Entries[0].DN
				d.CheckScopes(dn, shown)
				id++
				d.Modify(dn, shown, []Change{{2, "description", []string{fmt.Sprintf("id-%d", id)}}})
			case 10:
				// an attribute type that contains separators never makes the
				// name of another entry
				odd := oddType(dn)
				if d.m.Get(odd) != nil {
					continue
				}
				d.CheckScopes(odd, odd.String())
				d.Modify(odd, odd.String(), []Change{{2, "description", []string{"wrong"}}})
				d.Delete(odd, odd.String())
				c := d.s.Dial()
				res, err := c.Bind(odd.String(), pw[dn.Key()])
				t.netErr(err, "bind")
				if res.Code == rcSuccess {
					t.Fail("a different name was accepted for an entry in a bind", fmt.Sprintf("%q for %q", odd.String(), dn.String()))
				}
				c.Close()
			}
			if i%40 == 39 {
				d.CheckAll("an operation addressed by a spelling of a name reached another entry or none")
			}
		}
		d.CheckAll("an operation addressed by a spelling of a name reached another entry or none")
		d.Close()
	}
}

// oddType joins the first two parts of a name into one whose attribute type
// contains the separators.
func oddType(d DN) DN {
	if len(d) < 2 {
		return append(DN{RDN{{"x=y,cn", "z"}}}, d...)
	}
	t := d[0][0].Type + "=" + d[0][0].Val + "," + d[1][0].Type
	return append(DN{RDN{{t, d[1][0].Val}}}, d[2:]...)
}
