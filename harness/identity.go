package main

import (
	"fmt"
	"math/rand"
	"strings"
)

// nearPW gives passwords that are close to, but different from, pw.
func nearPW(r *rand.Rand, pw string) (string, string) {
	flip := func(s string) string {
		b := []byte(s)
		i := r.Intn(len(b))
		b[i] ^= 1 << uint(r.Intn(7))
		return string(b)
	}
	switch r.Intn(14) {
	case 10:
		return pw + pick(r, []string{"\n", "\r\n", "\t", "\r", "\u00a0", "."}), "blank after"
	case 11:
		return pick(r, []string{" ", "\n", "\t", "."}) + pw, "blank before"
	case 12:
		if s := strings.TrimSpace(pw); s != pw {
			return s, "blanks removed"
		}
		return strings.ReplaceAll(pw, " ", "") + "-", "other"
	case 13:
		i := r.Intn(len(pw) + 1)
		return pw[:i] + pick(r, []string{"\x00", " ", "x"}) + pw[i:], "one byte inserted"
	case 0:
		return pw + " ", "space after"
	case 1:
		return pw + "\x00", "nul after"
	case 2:
		return pw[:len(pw)-1], "last byte missing"
	case 3:
		return pw[1:], "first byte missing"
	case 4:
		if s := strings.ToUpper(pw); s != pw {
			return s, "upper case"
		}
		return strings.ToLower(pw) + "x", "longer"
	case 5:
		return flip(pw), "one bit flipped"
	case 6:
		return pw + pw, "doubled"
	case 7:
		return "\x00" + pw, "nul before"
	case 8:
		return "", "empty"
	default:
		return genText(r, 12) + "?", "other"
	}
}

// idConn is a connection together with the identity it should have.
type idConn struct {
	c   *Conn
	who string // key of the bound entry, "" when anonymous
}

// idWorld tracks, for a database-backed server, which entries exist, which
// password each has and which identity each connection has.
type idWorld struct {
	t     *T
	r     *rand.Rand
	s     *Server
	m     *Model
	adm   *Conn // separate administrator connection used for setup and dumps
	pw    map[string]string
	admin string
	anon  bool
	conns []*idConn
	past  []pastBind
}

// pastBind is what a bind succeeded with at some time.
type pastBind struct {
	dn DN
	pw string
}

func (w *idWorld) remember(dn DN, pw string) {
	w.past = append(w.past, pastBind{dn, pw})
	if len(w.past) > 24 {
		w.past = w.past[len(w.past)-24:]
	}
}

func (w *idWorld) dn(key string) DN { return w.m.Nodes[key].DN }

// bindCase draws a bind attempt and what is expected of it.
func (w *idWorld) bindCase() (spelled, pw string, who string, ok bool, kind string) {
	r := w.r
	keys := w.m.Keys()
	key := keys[r.Intn(len(keys))]
	if r.Intn(4) == 0 {
		key = w.admin
	}
	dn := w.m.Nodes[key].DN
	spelled = dn.String()
	if r.Intn(3) == 0 {
		spelled = dn.Spell(r)
	}
	cur, has := w.pw[key]
	if len(w.past) > 0 && r.Intn(6) == 0 { // what succeeded once may be right or wrong by now
		b := pick(r, w.past)
		if p, near := nearPW(r, b.pw); r.Intn(2) == 0 && p != w.pw[b.dn.Key()] { // nor does it help those who almost know it
			return b.dn.Spell(r), p, "", false, "past near " + near
		}
		if w.pw[b.dn.Key()] == b.pw && w.m.Get(b.dn) != nil {
			return b.dn.Spell(r), b.pw, b.dn.Key(), true, "again"
		}
		return b.dn.Spell(r), b.pw, "", false, "outdated"
	}
	switch k := r.Intn(24); {
	case k >= 22: // a value of another attribute is no password
		a := pick(r, w.m.Nodes[key].Attrs)
		if v := pick(r, a.Vals); fold(a.Name) != "userpassword" && v != cur {
			return spelled, v, "", false, "other attribute"
		}
		return spelled, "", "", false, "empty"
	case k >= 20: // the password of an entry next to it
		d := dn.Parent()
		if c := w.m.Children(dn); len(c) > 0 && r.Intn(3) > 0 {
			d = pick(r, c).DN
		} else if c := w.m.Children(d); len(c) > 0 && r.Intn(2) == 0 {
			d = pick(r, c).DN
		}
		if p := w.pw[d.Key()]; p != "" && p != cur {
			return spelled, p, "", false, "relative's"
		}
		return spelled, "", "", false, "empty"
	case k < 9 && has:
		return spelled, cur, key, true, "right"
	case k < 13 && has:
		p, near := nearPW(r, cur)
		return spelled, p, "", p == cur, "near " + near
	case k == 13: // somebody else's password
		others := sortedKeys(w.pw)
		r.Shuffle(len(others), func(i, j int) { others[i], others[j] = others[j], others[i] })
		for _, o := range others {
			if p := w.pw[o]; o != key && p != cur {
				return spelled, p, "", false, "other's"
			}
		}
		return spelled, "", "", false, "empty"
	case k == 14:
		return "", "", "", w.anon, "anonymous"
	case k == 15:
		return "", "something", "", false, "no name"
	case k == 16: // unknown names, with a password that exists
		p := "x"
		if has {
			p = cur
		}
		d := pick(r, []DN{
			dn.Child("cn", "nobody"), dn.Parent(), append(DN{}, mustDN("uid=admin,ou=people,"+baseDN)...),
			append(append(DN{}, dn...), mustDN("dc=lg,dc=local")...),
		})
		if w.m.Get(d) != nil {
			return d.String(), "\x01wrong", "", false, "wrong"
		}
		return d.String(), p, "", false, "unknown"
	case k == 17:
		return pick(r, []string{"admin", "=", "uid", "uid=admin,,ou=sysusers", "\x00", "uid=\\zz"}), "x", "", false, "garbage name"
	case k == 18 && has: // the stored value itself is no password, unless it is the password
		st := getVals(w.m.Nodes[key].Attrs, "userPassword")
		if len(st) == 1 && st[0] != cur {
			return spelled, st[0], "", false, "stored value"
		}
		fallthrough
	default:
		return spelled, "", "", false, "empty"
	}
}

// sync reads the stored passwords back so the model knows them.
func (w *idWorld) learnPassword(key string) {
	res, err := w.adm.Search(SearchReq{Base: w.dn(key).String(), Scope: 0, Attrs: []string{"userPassword"}})
	w.t.netErr(err, "search")
	if len(res.Entries) != 1 {
		w.t.Fail("an entry with a changed password is not found", w.dn(key).String())
	}
	n := w.m.Nodes[key]
	n.Attrs = setVals(n.Attrs, "userPassword", res.Entries[0].Get("userPassword"))
}

func (w *idWorld) bind(i int) {
	ic := w.conns[i]
	spelled, pw, who, ok, kind := w.bindCase()
	w.t.Trace("conn%d bind %q pw=%q (%s)", i, spelled, pw, kind)
	before := ic.who
	res, err := ic.c.Bind(spelled, pw)
	w.t.netErr(err, "bind")
	if (res.Code == rcSuccess) != ok {
		if ok {
			w.t.Fail("a bind with the right password was refused", fmt.Sprintf("%q %q (%s): %+v", spelled, pw, kind, res))
		}
		w.t.Fail("a bind succeeded that must not", fmt.Sprintf("%q %q (%s)", spelled, pw, kind))
	}
	ic.who = who
	if ok && who != "" {
		w.remember(w.dn(who), pw)
	}
	w.t.Count("bind_"+kind, 1)
	w.t.Eval(fmt.Sprint("bind", kind, ok, w.class(before), spelled, len(pw)), true)
	w.t.SampleEvery(w.r.Intn(50), func() interface{} {
		return map[string]interface{}{"bind": spelled, "password": pw, "kind": kind, "accepted": ok}
	})
}

func (w *idWorld) class(who string) string {
	switch who {
	case "":
		return "anonymous"
	case w.admin:
		return "admin"
	}
	return "user"
}

// probe finds out whose identity the connection has and compares it with the
// expected one.
func (w *idWorld) probe(i int) {
	ic := w.conns[i]
	r := w.r
	k := r.Intn(12)
	cls := w.class(ic.who)
	switch {
	case k < 5: // may it write?
		v := fmt.Sprint("probe ", r.Int63())
		dn := w.m.Base.Child("ou", "probe")
		w.t.Trace("conn%d modify probe", i)
		res, err := ic.c.Modify(dn.String(), []Change{{2, "description", []string{v}}})
		w.t.netErr(err, "modify")
		if (res.Code == rcSuccess) != (ic.who == w.admin) {
			w.t.Fail("a connection has not the identity it last proved", fmt.Sprintf("conn%d should be %q (%s), write answered %+v", i, ic.who, cls, res))
		}
		if ic.who == w.admin {
			w.m.Modify(dn, []Change{{2, "description", []string{v}}})
		}
		w.t.Eval(fmt.Sprint("write", cls, i), true)
	case k < 9: // may it read?
		res, err := ic.c.Search(SearchReq{Base: baseDN, Scope: 0})
		if err == errClosed {
			w.t.netErr(err, "search")
		}
		w.t.netErr(err, "search")
		want := ic.who != "" || w.anon
		if (len(res.Entries) == 1) != want {
			w.t.Fail("a connection has not the identity it last proved", fmt.Sprintf("conn%d should be %q (%s), base search gave %d entries and %+v", i, ic.who, cls, len(res.Entries), res.Result))
		}
		if res.Result.Code != rcSuccess { // a refused search ends the connection
			ic.c.Close()
			w.conns[i] = &idConn{c: w.s.Dial()}
		}
		w.t.Eval(fmt.Sprint("read", cls, i), true)
	default: // whose password may it change?
		keys := w.m.Keys()
		key := keys[r.Intn(len(keys))]
		if r.Intn(2) == 0 && ic.who != "" {
			key = ic.who
		}
		if key == w.admin || w.pw[key] == "" {
			return
		}
		ident := sp(w.dn(key).Spell(r))
		if key == ic.who && r.Intn(2) == 0 {
			ident = nil
		}
		np := fmt.Sprintf("new-%d", r.Int63())
		w.t.Trace("conn%d pwmod %q %v -> %q", i, key, ident == nil, np)
		res, _, err := ic.c.PwMod(ident, nil, &np)
		w.t.netErr(err, "password change")
		want := ic.who == w.admin || (ic.who == key)
		if (res.Code == rcSuccess) != want {
			w.t.Fail("a connection has not the identity it last proved", fmt.Sprintf("conn%d should be %q (%s), changing the password of %q answered %+v", i, ic.who, cls, key, res))
		}
		if want {
			w.pw[key] = np
			w.learnPassword(key)
			if r.Intn(3) > 0 { // back to clear text, which is quick to check
				cp := fmt.Sprintf("clear-%d", r.Int63())
				res, err := w.adm.Modify(w.dn(key).String(), []Change{{2, "userPassword", []string{cp}}})
				w.t.netErr(err, "modify")
				if res.Code == rcSuccess {
					w.pw[key] = cp
					w.m.Modify(w.dn(key), []Change{{2, "userPassword", []string{cp}}})
				}
			}
		}
		w.t.Eval(fmt.Sprint("pw", cls, key == ic.who, ident == nil), true)
	}
}

// storedAs is one of the forms a password can be stored in.
func storedAs(r *rand.Rand, pw string) string {
	switch r.Intn(5) {
	case 0:
		return argonOf(r, pw, 64, 1, 1)
	case 1:
		return sshaOf(r, pw)
	}
	return pw
}

func (t *T) newIDWorld(r *rand.Rand, mod func(*ServerOpts)) *idWorld {
	m := baseModel()
	w := &idWorld{t: t, r: r, m: m, pw: map[string]string{}, admin: mustDN(adminDN).Key()}
	w.pw[w.admin] = adminPW
	m.Add(m.Base.Child("ou", "probe"), []Attr{attr("objectClass", "organizationalUnit"), attr("ou", "probe")})
	people := m.Base.Child("ou", "people")
	add := func(dn DN, pw string, extra ...Attr) {
		as := append([]Attr{attr("objectClass", "person"), attr(dn[0][0].Type, dn[0][0].Val), attr("sn", "x")}, extra...)
		if pw != "" {
			as = append(as, attr(pick(r, []string{"userPassword", "userpassword", "USERPASSWORD"}), storedAs(r, pw)))
			w.pw[dn.Key()] = pw
		}
		if !m.Add(dn, as) {
			panic("fixture")
		}
	}
	add(people.Child("uid", "alice"), "wonderland")
	add(people.Child("uid", "bob"), "Builder Bob")
	add(people.Child("uid", "admin"), "notthatadmin")
	add(people.Child("cn", "Smith, John+x=y"), "päß wörd")
	add(people.Child("uid", "nopw"), "")
	add(people.Child("uid", "long"), strings.Repeat("long password ", 20))
	add(people.Child("uid", "one"), "1")
	add(mustDN(adminDN).Child("cn", "below"), "belowadmin")
	add(m.Base.Child("ou", "sysusers").Child("uid", "admin2"), "second")
	add(people.Child("uid", "blanks"), "  both ends ")
	add(people.Child("uid", "nopw").Child("uid", "alice"), "wonderland below")
	add(people.Child("uid", "alice").Child("uid", "nopw"), "")
	add(people.Child("uid", "hints"), "", attr("password", "a hint"), attr("pwd", "a hint 2"), attr("userPKCS12", "a hint 3"), attr("userPasswordHint", "a hint 4"), attr("authPassword", "a hint 5"))
	m.Nodes[people.Child("uid", "nopw").Key()].Attrs = append(m.Nodes[people.Child("uid", "nopw").Key()].Attrs, attr("description", "no password here"))
	w.s = t.StartDB(m, func(o *ServerOpts) {
		if mod != nil {
			mod(o)
		}
		w.anon = o.Anonymous
		if o.Admin == "" {
			w.admin = "\x00none"
		}
	})
	w.adm = w.s.DialAs(adminDN, adminPW)
	for i := 0; i < 4; i++ {
		w.conns = append(w.conns, &idConn{c: w.s.Dial()})
	}
	return w
}

func (w *idWorld) close() {
	w.adm.Close()
	for _, ic := range w.conns {
		ic.c.Close()
	}
	w.s.Kill()
}
