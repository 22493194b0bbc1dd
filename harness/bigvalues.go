package main

import (
	"fmt"
	"math/rand"
	"strings"
)

// bigModel is a directory with long values and with attributes of many values.
func bigModel(r *rand.Rand, names []string) *Model {
	m := baseModel()
	people := m.Base.Child("ou", "people")
	sizes := []int{127, 128, 129, 255, 256, 257, 300, 511, 513, 1023, 1025, 4095, 4097, 32767, 32769, 65535, 65536, 65537, 131073, 262145, 1<<20 + 1, 3<<20 + 1}
	for i, n := range sizes {
		dn := people.Child("uid", fmt.Sprintf("size%d", n))
		v := bigText(r, n)
		as := []Attr{attr("objectClass", "top", "person"), attr("uid", dn[0][0].Val), attr(names[i%len(names)], "short before", v, "short after")}
		if n <= 4097 { // two that differ at the end only
			as = append(as, attr(names[(i+1)%len(names)], v[:n-1]+"1", v[:n-1]+"2"))
		}
		mustAdd(m, dn, as...)
	}
	for i, n := range []int{99, 100, 101, 127, 128, 255, 256, 257, 999, 1001, 4000} {
		dn := people.Child("uid", fmt.Sprintf("count%d", n))
		var vals []string
		for k := 0; k < n; k++ {
			vals = append(vals, fmt.Sprintf("v%d-%d", k, i))
		}
		mustAdd(m, dn, attr("objectClass", "top", "person"), attr("uid", dn[0][0].Val), attr(names[i%len(names)], vals...))
	}
	dn := people.Child("uid", "types")
	as := []Attr{attr("objectClass", "top", "person"), attr("uid", "types")}
	for k := 0; k < 300; k++ {
		as = append(as, attr(fmt.Sprintf("type%d", k), fmt.Sprintf("t%d", k)))
	}
	mustAdd(m, dn, as...)
	return m
}

func bigText(r *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcdefghijklmnopqrstuvwxyz0123456789"[r.Intn(36)]
	}
	return string(b)
}

// bigSearches looks for long values and values among many, by equality and by
// parts, and compares what is returned to the last byte.
func (t *T) bigSearches(r *rand.Rand, m *Model, c *Conn, names []string) {
	n := 0
	do := func(base DN, scope int, f *Filter, attrs ...string) {
		q := SearchReq{Base: base.String(), Scope: scope, Filter: f, Attrs: attrs}
		want := m.expectSearch(base, q)
		d := fmt.Sprintf("base %q scope %d filter %.200s attributes %q", q.Base, scope, f, attrs)
		res, err := c.Search(q)
		t.netErr(err, "search: "+d)
		t.judgeSearch(q, want, res, d)
		t.Eval(fmt.Sprint("big", n, len(want)), len(want) > 0)
		t.Count("searches_for_long_or_many_values", 1)
		n++
	}
	people := m.Base.Child("ou", "people")
	for _, x := range m.Children(people) {
		do(x.DN, 0, Present("objectClass"))
		for _, a := range x.Attrs {
			if fold(a.Name) == "objectclass" || strings.HasPrefix(a.Name, "type") && r.Intn(20) > 0 {
				continue
			}
			for k, v := range a.Vals {
				if len(a.Vals) > 50 && k > 0 && k < len(a.Vals)-1 && r.Intn(len(a.Vals)/8) > 0 {
					continue
				}
				if len(v) > 5000 { // the server needs long to read such filters
					continue
				}
				do(people, 1, Eq(a.Name, strings.ToUpper(v)), "uid")
				do(people, 1, Eq(a.Name, v+"x"), "uid")
				if len(v) > 4 {
					h := len(v) / 2
					do(people, 1, Eq(a.Name, v[:len(v)-1]), "uid")
					do(people, 2, Sub(a.Name, SubPart{0, v[:len(v)-1]}), "uid", a.Name)
					do(people, 2, Sub(a.Name, SubPart{2, v[1:]}), "uid")
					do(people, 2, And(Present("objectClass"), Sub(a.Name, SubPart{0, v[:h]}, SubPart{2, v[h:]})), "uid")
					do(people, 2, Sub(a.Name, SubPart{1, v[h-2:]}), "uid")
				}
			}
		}
	}
	do(people, 1, Or(Present(names[0]), Present(names[1])), "uid")
	do(people, 1, Present("objectClass"), names...)
	do(m.Base, 2, Present("type299"))
}
