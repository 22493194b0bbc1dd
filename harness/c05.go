package main

import (
	"fmt"
	"math/rand"
	"strings"
)

func init() {
	register("C05", "exploration",
		"a write attempt counts as distinct by back end, administrator setting, kind of identity and how it was reached, kind of request and outcome",
		checkC05)
}

// writeReq is a change that would be valid if an administrator asked for it.
type writeReq struct {
	kind string
	do   func(c *Conn) (Result, error)
	ok   func(m *Model) // what it does to the model
	desc string
}

func genWrite(r *rand.Rand, m *Model, adminKey string, seq int) writeReq {
	people := m.Base.Child("ou", "people")
	var leaves []DN
	for _, n := range m.Ordered() {
		if len(m.Children(n.DN)) == 0 && n.DN.Key() != adminKey && n.DN.Under(people) && n.DN.Key() != people.Key() {
			leaves = append(leaves, n.DN)
		}
	}
	k := r.Intn(5)
	if len(leaves) < 4 {
		k = 0
	}
	switch k {
	case 0:
		dn := people.Child("cn", fmt.Sprintf("written %d", seq))
		as := []Attr{attr("objectClass", "person"), attr("cn", dn[0][0].Val), attr("sn", "x")}
		return writeReq{"add", func(c *Conn) (Result, error) { return c.Add(Entry{DN: dn.String(), Attrs: as}) }, func(m *Model) { m.Add(dn, as) }, dn.String()}
	case 1:
		dn := pick(r, leaves)
		return writeReq{"delete", func(c *Conn) (Result, error) { return c.Delete(dn.String()) }, func(m *Model) { m.Delete(dn) }, dn.String()}
	case 2:
		dn := pick(r, leaves)
		nr := DN{RDN{{"cn", fmt.Sprintf("renamed %d", seq)}}}
		return writeReq{"rename", func(c *Conn) (Result, error) { return c.ModDN(dn.String(), nr.String(), false, nil) }, func(m *Model) { m.Rename(dn, nr, false, false) }, dn.String()}
	case 3: // also attributes of a bound user's own entry
		dn := pick(r, leaves)
		ch := []Change{{2, "description", []string{fmt.Sprintf("text %d", seq)}}}
		return writeReq{"modify", func(c *Conn) (Result, error) { return c.Modify(dn.String(), ch) }, func(m *Model) { m.Modify(dn, ch) }, dn.String()}
	default:
		dn := pick(r, m.Ordered()).DN
		ch := []Change{{0, "title", []string{fmt.Sprintf("title %d", seq)}}}
		return writeReq{"modify", func(c *Conn) (Result, error) { return c.Modify(dn.String(), ch) }, func(m *Model) { m.Modify(dn, ch) }, dn.String()}
	}
}

// adminNames are different settings of the administrator option.
func adminNames(r *rand.Rand, m *Model) map[string]string {
	return map[string]string{
		"plain":   adminDN,
		"spelled": "UID= Admin , OU=SysUsers,dc=LG, DC=local",
		"escaped": strings.Replace(adminDN, "admin", "\\61dmin", 1),
		"none":    "",
		"missing": "uid=ghost,ou=sysusers," + baseDN,
		"comma":   m.Base.Child("ou", "people").Child("cn", "Boss, The").String(),
		"base":    baseDN,
	}
}

func checkC05(t *T) {
	rounds := t.N(7, 35)
	steps := t.N(260, 600)
	for round := 0; round < rounds; round++ {
		r := t.Sub(fmt.Sprintf("round%d", round))
		t.ResetTrace()
		m := baseModel()
		pw := map[string]string{mustDN(adminDN).Key(): adminPW}
		people := m.Base.Child("ou", "people")
		add := func(dn DN, p string) {
			as := []Attr{attr("objectClass", "person"), attr("sn", "x"), attr("userPassword", p)}
			for _, a := range dn[0] {
				as = append(as, attr(a.Type, a.Val))
			}
			if !m.Add(dn, as) {
				panic("fixture")
			}
			pw[dn.Key()] = p
		}
		// names that look like the administrator's in one way or another
		add(people.Child("uid", "alice"), "alicepw")
		add(people.Child("uid", "admin"), "peopleadmin")
		add(people.Child("cn", "Boss, The"), "bosspw")
		add(people.Child("cn", "Boss"), "bosspw2")
		add(m.Base.Child("ou", "sysusers").Child("uid", "admin2"), "admin2pw")
		add(m.Base.Child("ou", "sysusers").Child("uid", "admi"), "admipw")
		add(m.Base.Child("ou", "sysusers").Child("cn", "admin"), "cnadmin")
		add(m.Base.Child("ou", "sysusers").Child("uid", "admin,ou=sysusers"), "commaadmin")
		add(mustDN(adminDN).Child("cn", "below"), "belowpw")
		add(append(DN{RDN{{"cn", "x"}, {"uid", "admin"}}}, m.Base.Child("ou", "sysusers")...), "multi")
		m.Nodes[m.Base.Key()].Attrs = append(m.Nodes[m.Base.Key()].Attrs, attr("userPassword", "basepw"))
		pw[m.Base.Key()] = "basepw"
		names := adminNames(r, m)
		kinds := []string{"plain", "none", "spelled", "comma", "escaped", "missing", "base"}
		kind := kinds[round%len(kinds)]
		s := t.StartDB(m, func(o *ServerOpts) {
			o.Admin = names[kind]
			o.Anonymous = round%3 == 1
		})
		adminKey := "\x00none"
		if names[kind] != "" {
			d, err := parseDN(names[kind])
			t.Must(err, "admin name")
			adminKey = d.Key()
		}
		var keys []string
		for k := range pw {
			keys = append(keys, k)
		}
		sortStrings(keys)
		reader := s.DialAs(people.Child("uid", "alice").String(), "alicepw")
		c := s.Dial()
		who, how := "", "fresh"
		for i := 0; i < steps; i++ {
			switch x := r.Intn(10); {
			case x < 4: // bind as somebody
				k := pick(r, keys)
				if r.Intn(3) == 0 && pw[adminKey] != "" {
					k = adminKey
				}
				if m.Nodes[k] == nil { // deleted meanwhile
					break
				}
				name := m.Nodes[k].DN.String()
				if r.Intn(2) == 0 {
					name = m.Nodes[k].DN.Spell(r)
				}
				res, err := c.Bind(name, pw[k])
				t.netErr(err, "bind")
				if res.Code != rcSuccess {
					t.Fail("a bind with the right password was refused", name)
				}
				who, how = k, "bind"
			case x == 4: // failed bind as the administrator
				n := names[kind]
				if n == "" {
					n = adminDN
				}
				res, err := c.Bind(n, "wrong")
				t.netErr(err, "bind")
				if res.Code == rcSuccess {
					t.Fail("a bind with a wrong password succeeded", n)
				}
				who, how = "", "failed bind"
			case x == 5:
				c.Close()
				c = s.Dial()
				who, how = "", "fresh"
			case x == 6: // anonymous bind
				_, err := c.Bind("", "")
				t.netErr(err, "bind")
				who, how = "", "anonymous bind"
			}
			w := genWrite(r, m, adminKey, round*100000+i)
			if k := w.kind; (k == "delete" || k == "rename") && pw[mustDN(w.desc).Key()] != "" {
				// accounts stay; only try to remove them without permission
				if who == adminKey {
					continue
				}
			}
			want := who == adminKey
			t.Trace("%q (%s) %s %q", who, how, w.kind, w.desc)
			res, err := w.do(c)
			t.netErr(err, w.kind)
			ok := res.Code == rcSuccess
			if ok != want {
				d := fmt.Sprintf("administrator option %q, identity %q (%s), %s %q: %+v", names[kind], who, how, w.kind, w.desc, res)
				if ok {
					t.Fail("somebody else than the administrator changed the directory", d)
				}
				t.Fail("the administrator was refused a valid change", d)
			}
			if ok {
				w.ok(m)
			}
			cls := "user"
			switch who {
			case "":
				cls = "anonymous"
			case adminKey:
				cls = "admin"
			}
			t.Eval(fmt.Sprint("db", kind, cls, how, w.kind, ok, who), true)
			t.Count(fmt.Sprintf("db_%s_%s_%v", cls, w.kind, ok), 1)
			t.SampleEvery(i, func() interface{} {
				return map[string]interface{}{"administrator": names[kind], "identity": who, "how": how, "request": w.kind, "entry": w.desc, "accepted": ok}
			})
			if !ok && i%3 == 0 || i%40 == 39 {
				t.sameSnap(m.Snapshot(), t.Dump(reader, baseDN), "the directory changed although the request was refused")
			}
		}
		t.sameSnap(m.Snapshot(), t.Dump(reader, baseDN), "the directory differs from the accepted changes")
		s.Kill()
	}
	checkC05File(t)
}

func checkC05File(t *T) {
	for round, n := 0, t.N(2, 6); round < n; round++ {
		r := t.Sub(fmt.Sprintf("file%d", round))
		t.ResetTrace()
		m := baseModel()
		alice := m.Base.Child("ou", "people").Child("uid", "alice")
		m.Add(alice, personAttrs("alice", "A", "A", "", "alicepw"))
		bob := m.Base.Child("ou", "people").Child("uid", "bob")
		m.Add(bob, personAttrs("bob", "B", "B", "", "bobpw"))
		svc := "cn=svc,ou=sysusers," + baseDN
		cfg := ""
		if round%2 == 0 {
			cfg = "dn: " + svc + "\nobjectClass: account\ncn: svc\nuserPassword: svcpw\n"
		}
		s := t.StartLDIF(m.LDIF(), cfg, func(o *ServerOpts) { o.Admin = adminDN; o.Anonymous = round%2 == 0 })
		dump := func() map[string]string {
			c := s.DialAs(adminDN, adminPW)
			defer c.Close()
			return t.Dump(c, baseDN)
		}
		before := dump()
		ids := []struct{ kind, dn, pw string }{
			{"administrator", adminDN, adminPW}, {"administrator", strings.ToUpper(adminDN), adminPW},
			{"user", alice.String(), "alicepw"}, {"nobody", "", ""},
		}
		if cfg != "" {
			ids = append(ids, struct{ kind, dn, pw string }{"service", svc, "svcpw"})
		}
		for i, steps := 0, t.N(150, 500); i < steps; i++ {
			id := pick(r, ids)
			c := s.Dial()
			if id.dn != "" {
				res, err := c.Bind(id.dn, id.pw)
				t.netErr(err, "bind")
				if res.Code != rcSuccess {
					t.Fail("a bind with the right password was refused", id.dn)
				}
			}
			kind := ""
			var res Result
			var err error
			if r.Intn(3) == 0 {
				kind = "password change"
				var ident, old *string
				if r.Intn(2) == 0 {
					ident = sp(pick(r, []string{alice.String(), bob.String(), adminDN, svc}))
				}
				if r.Intn(2) == 0 && id.pw != "" {
					old = sp(id.pw)
				}
				np := sp("changed")
				if r.Intn(3) == 0 {
					np = nil
				}
				res, _, err = c.PwMod(ident, old, np)
			} else {
				w := genWrite(r, m, mustDN(adminDN).Key(), i)
				kind = w.kind
				res, err = w.do(c)
			}
			t.netErr(err, kind)
			if res.Code == rcSuccess {
				t.Fail("the file-backed directory accepted a change", fmt.Sprintf("%s by %s %q", kind, id.kind, id.dn))
			}
			c.Close()
			if i%10 == 9 {
				t.sameSnap(before, dump(), "the file-backed directory changed")
				for _, x := range ids {
					if x.dn == "" {
						continue
					}
					c := s.DialAs(x.dn, x.pw)
					c.Close()
				}
			}
			t.Eval(fmt.Sprint("file", id.kind, kind, cfg != ""), true)
			t.Count("file_"+strings.ReplaceAll(kind, " ", "_"), 1)
		}
		s.Kill()
	}
}
