package main

import (
	"fmt"
	"strings"
)

func init() {
	register("C03", "exploration",
		"a request counts as distinct if its kind, the shape of its target (existing, has children, missing, missing parent, outside, base, used name) and the tree size class were not seen together before with the same accept/refuse outcome and name",
		checkC03)
}

func targetClass(m *Model, d DN) string {
	switch {
	case len(d) == 0:
		return "empty"
	case !d.Under(m.Base):
		return "outside"
	case d.Key() == m.Base.Key():
		return "base"
	case m.Get(d) != nil && len(m.Children(d)) > 0:
		return "inner"
	case m.Get(d) != nil:
		return "leaf"
	case m.Get(d.Parent()) == nil:
		return "noparent"
	}
	return "free"
}

var outsideNames = []string{
	"", "dc=local", "dc=other,dc=local", "dc=lg,dc=localx", "cn=x,dc=other,dc=local", "cn=adc=lg,dc=local",
	"cn=x\\,dc=lg,dc=local", "dc=xlg,dc=local", "cn=x", "cn=a\\,dc\\=lg\\,dc\\=local", "cn=x,dc=lg,dc=local,dc=lg,dc=other",
	"cn=x\\,ou=people\\,dc=lg,dc=local",
}

func checkC03(t *T) {
	rounds := t.N(6, 30)
	steps := t.N(700, 1500)
	total, refused := 0, 0
	for round := 0; round < rounds; round++ {
		r := t.Sub(fmt.Sprintf("round%d", round))
		t.ResetTrace()
		tricky := round%2 == 1
		var opts ServerOpts
		d := t.NewDB(baseModel(), r, func(o *ServerOpts) { opts = *o })
		for i := 0; i < steps; i++ {
			var dn DN
			if r.Intn(12) == 0 {
				dn = mustDN(pick(r, outsideNames))
			} else {
				dn = someDN(r, d.m, []int{40, 60, 20}[r.Intn(3)], tricky)
				if r.Intn(15) == 0 { // below a missing parent
					dn = append(DN{genRDN(r, tricky)}, append(DN{RDN{{"ou", fmt.Sprintf("missing%d", r.Intn(4))}}}, dn...)...)
				}
			}
			if dn.Key() == mustDN(adminDN).Key() {
				continue
			}
			spelled := dn.String()
			if r.Intn(2) == 0 && len(dn) > 0 {
				spelled = dn.Spell(r)
			}
			class := targetClass(d.m, dn)
			var ok bool
			kind := r.Intn(10)
			before := d.m.Snapshot()
			switch {
			case kind < 5:
				var as []Attr
				if len(dn) > 0 {
					as = namedAttrs(r, dn[0])
				}
				ok = d.Add(dn, spelled, as)
				kind = 0
			case kind < 8:
				ok = d.Delete(dn, spelled)
				kind = 1
			default:
				nr := DN{genRDN(r, tricky)}
				ok = d.Rename(dn, spelled, nr, nr[0].Spell(r), r.Intn(2) == 0, nil)
				kind = 2
			}
			total++
			t.Eval(fmt.Sprint(kind, class, ok, dn.Key(), len(d.m.Nodes)/8), true)
			t.Count(fmt.Sprintf("%s_%s_%v", []string{"add", "delete", "rename"}[kind], class, ok), 1)
			t.SampleEvery(i, func() interface{} {
				return map[string]interface{}{"op": []string{"add", "delete", "rename"}[kind], "name": spelled, "class": class, "accepted": ok}
			})
			if !ok {
				refused++
				if refused%4 == 0 {
					t.sameSnap(before, t.Dump(d.c, baseDN), "a refused request changed the directory")
				}
			}
			if i%25 == 24 {
				d.CheckAll("the directory differs from what the accepted requests made of it")
				for k := 0; k < 4; k++ {
					x := someDN(r, d.m, 85, tricky)
					d.CheckScopes(x, x.Spell(r))
				}
			}
			if i == steps/2 && round%2 == 0 {
				d.Restart(opts)
				d.CheckAll("the directory differs after a restart")
				t.Count("restarts", 1)
			}
		}
		d.CheckAll("the directory differs from what the accepted requests made of it")
		for _, k := range d.m.Keys() {
			n := d.m.Nodes[k]
			d.CheckScopes(n.DN, n.DN.Spell(r))
			t.Count("scope_checks", 1)
		}
		// freed names can be used again: empty the tree, then rebuild it
		order := d.m.Ordered()
		for i := len(order) - 1; i >= 0; i-- {
			n := order[i]
			if n.DN.Key() == d.m.Base.Key() || n.DN.Key() == mustDN(adminDN).Key() || n.DN.Key() == mustDN("ou=sysusers,"+baseDN).Key() {
				continue
			}
			d.Delete(n.DN, n.DN.String())
		}
		d.CheckAll("entries are left or missing after everything was deleted")
		for _, n := range order {
			if d.m.Get(n.DN) != nil {
				continue
			}
			d.Add(n.DN, n.DN.String(), n.Attrs)
			t.Count("names_reused", 1)
		}
		d.CheckAll("names freed by deletes cannot be used again properly")
		d.Close()
	}
	for i := 0; i < t.N(2, 6); i++ {
		total += largeC03(t, i)
	}
	t.Set("requests", total)
	t.Set("refused", refused)
}

// largeC03 is about large directories: many children below one entry, many
// entries on one level, long rows of entries one below the other, long names.
func largeC03(t *T, no int) int {
	r := t.Sub(fmt.Sprintf("large%d", no))
	t.ResetTrace()
	m := baseModel()
	wide := m.Base.Child("ou", "wide")
	mustAdd(m, wide, thing(wide)...)
	// all of them next to each other or taking turns with others
	together := no%2 == 1
	count := 560 + r.Intn(300)
	if together {
		count = 5000 + r.Intn(300)
	}
	for i := 0; i < count && !together; i++ {
		d := wide.Child("cn", fmt.Sprintf("w%d", i))
		mustAdd(m, d, thing(d)...)
		if i%2 == 0 {
			d = d.Child("cn", "below")
			mustAdd(m, d, thing(d)...)
		}
	}
	deep := m.Base.Child("ou", "deep")
	mustAdd(m, deep, thing(deep)...)
	for i, d := 0, deep; i < 70+r.Intn(60) && !together; i++ {
		d = d.Child("cn", fmt.Sprintf("d%d", i))
		mustAdd(m, d, thing(d)...)
		if i%9 == 0 {
			x := d.Child("cn", "side")
			mustAdd(m, x, thing(x)...)
		}
	}
	long := m.Base
	for i := 0; i < 4 && !together; i++ {
		long = long.Child("ou", strings.Repeat(fmt.Sprint("long", i), 10+r.Intn(300)))
		mustAdd(m, long, thing(long)...)
	}
	var opts ServerOpts
	d := t.NewDB(m, r, func(o *ServerOpts) { opts = *o })
	before := d.m.Keys()
	for i := 0; i < count && together; i++ {
		x := wide.Child("cn", fmt.Sprintf("w%d", i))
		if !d.Add(x, x.String(), thing(x)) {
			t.Fail("an add below an existing parent was refused", x.String())
		}
	}
	steps := 140
	for i := 0; i < steps; i++ {
		dn := d.m.Nodes[pick(r, d.m.Keys())].DN
		class := targetClass(d.m, dn)
		var ok bool
		kind := "delete"
		k := r.Intn(5)
		if together && i < 60 { // the latest ones go
			dn = wide.Child("cn", fmt.Sprintf("w%d", count-1-i*7))
			if i < 40 { // and those around the 2048th and the 4096th entry of the directory
				dn = wide.Child("cn", fmt.Sprintf("w%d", 2048+i/20*2048-len(before)+10-i%20))
			}
			k = 4
		}
		switch k {
		case 0:
			kind = "add"
			dn = dn.Child("cn", fmt.Sprintf("new%d", i))
			ok = d.Add(dn, dn.String(), thing(dn))
		case 1:
			kind = "rename"
			if dn.Key() == mustDN(adminDN).Key() {
				continue
			}
			to := DN{RDN{{dn[0][0].Type, fmt.Sprintf("%s-%d", dn[0][0].Val, i)}}}
			ok = d.Rename(dn, dn.String(), to, to.String(), true, nil)
		default:
			if dn.Key() == mustDN(adminDN).Key() {
				continue
			}
			ok = d.Delete(dn, dn.String())
		}
		t.Eval(fmt.Sprint("large", kind, class, ok, dn.Key()), true)
		t.Count("large_directory_requests", 1)
		if i%7 == 0 || i == steps-1 {
			d.CheckScopes(wide, wide.String())
			d.CheckScopes(deep, deep.String())
			d.CheckScopes(d.m.Base, baseDN)
			x := d.m.Nodes[pick(r, d.m.Keys())].DN
			d.CheckScopes(x, x.Spell(r))
		}
		if i == steps/2 {
			d.Restart(opts)
		}
	}
	d.CheckAll("the large directory differs from what the accepted requests made of it")
	t.Set("large_directory_entries", len(d.m.Nodes))
	d.Close()
	return steps
}
