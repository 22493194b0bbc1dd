package main

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"
)

func init() {
	register("C07", "exploration",
		"a password change counts as distinct by who asks, whose password, how the entry is named, the kinds of old and new password given and the outcome; a concurrent round by its number of successful changes and the password that won",
		checkC07)
}

// pwWorld is a database-backed server with known passwords.
type pwWorld struct {
	t     *T
	r     *rand.Rand
	s     *Server
	m     *Model
	adm   *Conn
	pw    map[string]string
	users []DN
	snap  map[string]string
}

func (t *T) newPWWorld(r *rand.Rand) *pwWorld {
	m := baseModel()
	people := m.Base.Child("ou", "people")
	w := &pwWorld{t: t, r: r, m: m, pw: map[string]string{mustDN(adminDN).Key(): adminPW}}
	for i, v := range []string{"alice", "Bob", "straße", "İstanbul", "comma, plus+", "ǅungla", "quote\"back\\", " lead", "Σίσυφος"} {
		dn := people.Child("uid", v)
		pw := fmt.Sprintf("initial %d", i)
		stored := w.storedForm(pw)
		m.Add(dn, []Attr{attr("objectClass", "person"), attr("uid", v), attr("sn", "x"), attr("description", "keep", "these"), attr(pick(r, []string{"userPassword", "USERPASSWORD"}), stored)})
		w.users = append(w.users, dn)
		w.pw[dn.Key()] = pw
	}
	// entries below, next to and with names like those of others
	for i, dn := range []DN{
		people.Child("uid", "alice").Child("uid", "below"), people.Child("uid", "alice").Child("uid", "below").Child("uid", "alice"),
		people.Child("uid", "xalice"), people.Child("cn", "alice"), mustDN(adminDN).Child("uid", "alice"),
	} {
		pw := fmt.Sprintf("near %d", i)
		mustAdd(m, dn, thing(dn, attr("userPassword", w.storedForm(pw)))...)
		w.users = append(w.users, dn)
		w.pw[dn.Key()] = pw
	}
	np := people.Child("uid", "nopassword")
	m.Add(np, []Attr{attr("objectClass", "person"), attr("uid", "nopassword"), attr("sn", "x")})
	w.s = t.StartDB(m, nil)
	w.adm = w.s.DialAs(adminDN, adminPW)
	w.snap = t.Dump(w.adm, baseDN)
	return w
}

// storedForm is one of the forms in which a password can be stored.
func (w *pwWorld) storedForm(pw string) string {
	switch w.r.Intn(5) {
	case 0:
		return sshaOf(w.r, pw)
	case 1:
		return argonOf(w.r, pw, 64, 1, 1)
	case 2:
		return cryptOf(w.r, pw, "6")
	}
	return pw
}

// relative is an entry that is close to another one in the directory.
func (w *pwWorld) relative(dn DN) DN {
	var out []DN
	for _, u := range append(append([]DN{}, w.users...), mustDN(adminDN)) {
		if u.Key() != dn.Key() && (u.Under(dn) || dn.Under(u) || fold(u[0][0].Val) == fold(dn[0][0].Val)) {
			out = append(out, u)
		}
	}
	if len(out) == 0 {
		return pick(w.r, w.users)
	}
	return pick(w.r, out)
}

// stored returns the stored passwords of an entry.
func (t *T) stored(c *Conn, dn string) []string {
	res, err := c.Search(SearchReq{Base: dn, Scope: 0, Attrs: []string{"userPassword"}})
	t.netErr(err, "search")
	if len(res.Entries) != 1 {
		t.Fail("an existing entry is not found", dn)
	}
	return res.Entries[0].Get("userPassword")
}

func genPassword(r *rand.Rand) string {
	switch r.Intn(8) {
	case 0:
		return genText(r, 40) + "x"
	case 3:
		return fmt.Sprintf("%s%d%s", pick(r, []string{" ", "\n", "\t", ""}), r.Intn(1e9), pick(r, []string{" ", "\n", "\r\n", "\t", "."}))
	case 1:
		return strings.Repeat("long ", 50+r.Intn(100))
	case 2:
		return pick(r, []string{"%s%d", "{ARGON2}x", "{SSHA}", "{CRYPT}ab", "a\x00b", " ", "\xff\xfe", "pä ß", "0", "{x", "a:b:c", "\"quoted\"", "$6$x$y", "line\nbreak"})
	default:
		return fmt.Sprintf("new pw %d", r.Int63n(1e9))
	}
}

func (w *pwWorld) canBind(dn, pw string) bool {
	c := w.s.Dial()
	defer c.Close()
	res, err := c.Bind(dn, pw)
	w.t.netErr(err, "bind")
	return res.Code == rcSuccess
}

func checkC07(t *T) {
	var fs []func()
	for round, n := 0, t.N(4, 12); round < n; round++ {
		round := round
		fs = append(fs, func() {
			r := t.Sub(fmt.Sprintf("round%d", round))
			w := t.newPWWorld(r)
			for i, steps := 0, t.N(110, 400); i < steps; i++ {
				w.change(i)
			}
			w.s.CheckAlive("after password changes")
			w.adm.Close()
			w.s.Kill()
		})
	}
	fs = append(fs, func() {
		for round, n := 0, t.N(10, 60); round < n; round++ {
			t.concurrentChanges(round)
		}
	})
	t.Go(fs...)
}

func (w *pwWorld) change(step int) {
	t, r := w.t, w.r
	admin := mustDN(adminDN)
	// who asks
	who, whoKind := pick(r, w.users), "user"
	switch x := r.Intn(10); {
	case x == 0:
		who, whoKind = nil, "anonymous"
	case x < 4:
		who, whoKind = admin, "admin"
	}
	// for whom
	var target DN
	ident := (*string)(nil)
	targetKind := ""
	switch x := r.Intn(12); {
	case x < 4 && who != nil:
		target, targetKind = who, "implicit own"
	case x < 7 && who != nil:
		target, targetKind = who, "own"
	case x == 7:
		target, targetKind = w.m.Base.Child("uid", "missing"), "missing"
	case x == 8:
		target, targetKind = w.m.Base.Child("ou", "people").Child("uid", "nopassword"), "no password yet"
	case x == 9:
		targetKind = "garbage"
	default:
		target, targetKind = pick(r, append(append([]DN{}, w.users...), admin)), "other"
		if who != nil && r.Intn(2) == 0 {
			target = w.relative(who)
		}
	}
	if targetKind == "other" && who != nil && target.Key() == who.Key() {
		targetKind = "own"
	}
	switch {
	case targetKind == "garbage":
		ident = sp(pick(r, []string{"alice", "=", "uid=\\zz," + baseDN, "uid=alice,,", "dn:uid=alice"}))
	case targetKind != "implicit own":
		s := target.String()
		if r.Intn(2) == 0 {
			s = target.Spell(r)
		}
		ident = &s
	}
	exists := target != nil && w.m.Get(target) != nil
	key := ""
	if target != nil {
		key = target.Key()
	}
	cur, hasPW := w.pw[key]
	// old password
	old := (*string)(nil)
	oldKind := "absent"
	oldOK := true
	if exists {
		switch x := r.Intn(6); {
		case x < 2 && hasPW:
			old, oldKind = sp(cur), "right"
		case x == 2:
			oldKind = "wrong"
			p := "no such password"
			if hasPW {
				p, oldKind = nearPW(r, cur)
			}
			if p == "" || p == cur {
				p = "no such password"
			}
			old, oldOK = sp(p), false
		case x == 3 && hasPW: // the stored value is not the password
			st := t.stored(w.adm, target.String())
			if len(st) == 1 && st[0] != cur && st[0] != "" {
				old, oldKind, oldOK = sp(st[0]), "stored value", false
			}
		}
	}
	// new password
	np, newKind := (*string)(nil), "generated"
	if r.Intn(3) > 0 {
		np, newKind = sp(genPassword(r)), "given"
		switch {
		case r.Intn(3) == 0 && old != nil && *old != "":
			np, newKind = old, "the given old one"
		case r.Intn(6) == 0 && hasPW && cur != "":
			np, newKind = sp(cur), "the current one"
		}
	}
	want := exists && who != nil && oldOK && (whoKind == "admin" || who.Key() == key)

	c := w.s.Dial()
	defer c.Close()
	if who != nil {
		name := who.String()
		if r.Intn(2) == 0 {
			name = who.Spell(r)
		}
		res, err := c.Bind(name, w.pw[who.Key()])
		t.netErr(err, "bind")
		if res.Code != rcSuccess {
			t.Fail("the current password does not bind", fmt.Sprintf("%q %q: %+v", name, w.pw[who.Key()], res))
		}
	}
	t.Trace("%s %v changes %s %s old=%s new=%s %s", whoKind, who, targetKind, strOr(ident), oldKind, newKind, strOr(np))
	res, gen, err := c.PwMod(ident, old, np)
	t.netErr(err, "password change")
	ok := res.Code == rcSuccess
	desc := fmt.Sprintf("asked by %s %q for %s %q (identity %s), old %s %s, new %s %s: %+v generated %s", whoKind, who.String(), targetKind, target.String(), strOr(ident), oldKind, strOr(old), newKind, strOr(np), res, strOr(gen))
	if ok != want {
		if want {
			t.Fail("a permitted password change was refused", desc)
		}
		t.Fail("a password change succeeded that must be refused", desc)
	}
	t.Eval(fmt.Sprint(whoKind, targetKind, oldKind, newKind, ok, key), true)
	t.Count(fmt.Sprintf("%s_%s_%v", whoKind, strings.ReplaceAll(targetKind, " ", "_"), ok), 1)
	t.SampleEvery(step, func() interface{} { return desc })

	after := t.Dump(w.adm, baseDN)
	if !ok {
		if gen != nil {
			t.Fail("a refused password change returned a password", desc)
		}
		t.sameSnap(w.snap, after, "a refused password change changed the directory: "+desc)
		return
	}
	now := ""
	switch {
	case np == nil:
		if gen == nil || *gen == "" {
			t.Fail("no password was given and none was returned", desc)
		}
		now = *gen
	case gen != nil:
		t.Fail("a password was given but the answer contains another one", desc)
	default:
		now = *np
	}
	// nothing else changed
	st := t.stored(w.adm, target.String())
	n := w.m.Get(target)
	n.Attrs = setVals(n.Attrs, "userPassword", st)
	t.sameSnap(w.m.Snapshot(), after, "a password change changed something else: "+desc)
	w.snap = after
	w.pw[key] = now
	if !w.canBind(target.String(), now) {
		t.Fail("the new password does not bind", desc, fmt.Sprintf("stored %q", st))
	}
	if hasPW && cur != now && w.canBind(target.String(), cur) {
		t.Fail("the previous password still binds after a change", desc)
	}
	if p, k := nearPW(r, now); p != now && p != "" && w.canBind(target.String(), p) {
		t.Fail("a password close to the new one binds ("+k+")", desc, fmt.Sprintf("%q", p))
	}
	// the connection that asked keeps its identity, and cheap passwords keep
	// the run short
	if r.Intn(3) > 0 && key != admin.Key() {
		plain := fmt.Sprintf("clear %d", r.Int63n(1e9))
		cp := w.storedForm(plain)
		res, err := w.adm.Modify(target.String(), []Change{{2, "userPassword", []string{cp}}})
		t.netErr(err, "modify")
		if res.Code != rcSuccess {
			t.Fail("the administrator cannot set a password", desc)
		}
		w.m.Modify(target, []Change{{2, "userPassword", []string{cp}}})
		w.pw[key] = plain
		w.snap = t.Dump(w.adm, baseDN)
	}
}

// concurrentChanges lets several connections of one user change the password
// from the same current one at the same time: only one can find it current.
func (t *T) concurrentChanges(round int) {
	r := t.Sub(fmt.Sprintf("conc%d", round))
	m := baseModel()
	dn := m.Base.Child("ou", "people").Child("uid", "alice")
	stored := "current one"
	if round%2 == 0 { // slow to verify, which widens the window
		stored = argonOf(r, stored, 65536, 1, 4)
	}
	m.Add(dn, personAttrs("alice", "A", "A", "", stored))
	s := t.StartDB(m, nil)
	defer s.Kill()
	n := 2 + r.Intn(4)
	oks := make([]bool, n)
	names := make([]string, n)
	conns := make([]*Conn, n)
	for i := range conns {
		who, pw := dn.String(), "current one"
		if r.Intn(3) == 0 {
			who, pw = adminDN, adminPW
		}
		conns[i] = s.DialAs(who, pw)
		names[i] = fmt.Sprintf("choice %d of round %d", i, round)
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	var fs []func()
	for i := range conns {
		i := i
		wg.Add(1)
		fs = append(fs, func() {
			wg.Done()
			<-start
			res, _, err := conns[i].PwMod(sp(dn.String()), sp("current one"), &names[i])
			t.netErr(err, "password change")
			oks[i] = res.Code == rcSuccess
		})
	}
	go func() { wg.Wait(); close(start) }()
	t.Go(fs...)
	won, count := -1, 0
	for i, ok := range oks {
		if ok {
			won, count = i, count+1
		}
	}
	if count != 1 {
		t.Fail("of several password changes from the same old password not exactly one succeeded", fmt.Sprintf("%d of %d succeeded", count, n))
	}
	for i := range oks {
		c := s.Dial()
		res, err := c.Bind(dn.String(), names[i])
		t.netErr(err, "bind")
		c.Close()
		if (res.Code == rcSuccess) != (i == won) {
			t.Fail("after concurrent password changes the wrong password binds", fmt.Sprintf("change %d succeeded, password of change %d answers %+v", won, i, res))
		}
	}
	for _, c := range conns {
		c.Close()
	}
	t.Eval(fmt.Sprint("concurrent", n, won), true)
	t.Count("concurrent_rounds", 1)
}
