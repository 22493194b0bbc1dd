package main

import (
	"fmt"
	"strings"

	ber "github.com/go-asn1-ber/asn1-ber"
)

func init() {
	register("C06", "exploration",
		"a bind counts as distinct by the kind of credentials, its outcome, the identity before it and the spelled name; a probe by its kind, the class of the expected identity and the connection",
		checkC06)
}

func checkC06(t *T) {
	rounds := t.N(4, 24)
	steps := t.N(350, 900)
	for round := 0; round < rounds; round++ {
		r := t.Sub(fmt.Sprintf("round%d", round))
		t.ResetTrace()
		w := t.newIDWorld(r, func(o *ServerOpts) { o.Anonymous = round%4 == 3 })
		w.sweep()
		for i := 0; i < steps; i++ {
			k := r.Intn(len(w.conns))
			switch x := r.Intn(25); {
			case x < 11:
				w.bind(k)
				w.probe(k)
			case x < 19:
				w.probe(k)
			case x == 19: // a new connection starts anonymous
				w.conns[k].c.Close()
				w.conns[k] = &idConn{c: w.s.Dial()}
				w.probe(k)
			case x == 20: // binds other than simple ones prove nothing
				w.oddBind(k)
				w.probe(k)
			case x == 21: // the administrator changes, removes and adds passwords
				w.adminPassword()
			case x == 22 || x == 24: // entries come and go
				w.comeAndGo()
			case x == 23: // two binds sent at once: the last one counts
				a, apw, _, aok, _ := w.bindCase()
				b, bpw, bwho, bok, _ := w.bindCase()
				ic := w.conns[k]
				t.Trace("conn%d two binds %q %q then %q %q", k, a, apw, b, bpw)
				id1, err := ic.c.Send(bindOp(a, apw))
				t.netErr(err, "send")
				id2, err := ic.c.Send(bindOp(b, bpw))
				t.netErr(err, "send")
				for j, id := range []int64{id1, id2} {
					m, err := ic.c.Recv()
					t.netErr(err, "bind")
					res, err := m.Result()
					t.netErr(err, "bind")
					if m.ID != id || (res.Code == rcSuccess) != []bool{aok, bok}[j] {
						t.Fail("one of two binds sent at once was answered wrongly", fmt.Sprintf("%+v", res))
					}
				}
				ic.who = bwho
				t.Eval(fmt.Sprint("two", aok, bok), true)
				w.probe(k)
			}
		}
		w.concurrent(t.N(40, 150))
		w.close()
	}
	checkC06File(t)
}

// sweep tries, for every entry, the values of its attributes and the passwords
// of all others.
func (w *idWorld) sweep() {
	c := w.s.Dial()
	for _, key := range w.m.Keys() {
		n := w.m.Nodes[key]
		var tries []string
		for _, a := range n.Attrs {
			tries = append(tries, a.Vals...)
		}
		for _, o := range sortedKeys(w.pw) {
			tries = append(tries, w.pw[o])
		}
		for _, p := range tries {
			w.t.Trace("sweep %q %q", n.DN.String(), p)
			res, err := c.Bind(n.DN.String(), p)
			w.t.netErr(err, "bind")
			if ok := p != "" && p == w.pw[key]; (res.Code == rcSuccess) != ok {
				w.t.Fail("a bind with a value of the entry or another entry's password was judged wrongly", fmt.Sprintf("%q %q: %+v, expected success %v", n.DN.String(), p, res, ok))
			}
			w.t.Eval(fmt.Sprint("sweep", key, p), true)
		}
	}
	c.Close()
}

// oddBind sends bind requests that are no acceptable simple bind, although
// they contain a right password.
func (w *idWorld) oddBind(k int) {
	ic := w.conns[k]
	key := w.admin
	op := appConstructed(tagBindReq)
	ver := int64(3)
	auth := ctxString(0, w.pw[key])
	kind := w.r.Intn(4)
	switch kind {
	case 0:
		ver = int64(pick(w.r, []int{0, 1, 2, 4, 127}))
	case 1:
		auth = ber.Encode(ber.ClassContext, ber.TypeConstructed, 3, nil, "")
		auth.AppendChild(octet("PLAIN"))
		auth.AppendChild(octet("\x00admin\x00" + w.pw[key]))
	case 2:
		auth = ctxString(pick(w.r, []int{1, 2, 5}), w.pw[key])
	case 3:
		auth = ber.Encode(ber.ClassContext, ber.TypeConstructed, 3, nil, "")
		auth.AppendChild(octet("EXTERNAL"))
	}
	op.AppendChild(integer(ver))
	op.AppendChild(octet(w.dn(key).String()))
	op.AppendChild(auth)
	w.t.Trace("conn%d odd bind kind %d version %d", k, kind, ver)
	res, _, err := ic.c.roundTrip(op, tagBindResp)
	if err == errClosed {
		w.conns[k] = &idConn{c: w.s.Dial()}
		return
	}
	w.t.netErr(err, "bind")
	if res.Code == rcSuccess {
		w.t.Fail("a bind that is not an acceptable simple bind succeeded", fmt.Sprintf("kind %d version %d", kind, ver))
	}
	ic.who = ""
	w.t.Eval(fmt.Sprint("odd", kind, ver), true)
}

func (w *idWorld) adminPassword() {
	keys := w.m.Keys()
	key := keys[w.r.Intn(len(keys))]
	if key == w.admin {
		return
	}
	dn := w.dn(key)
	var ch Change
	np := ""
	if _, has := w.pw[key]; has && w.r.Intn(3) == 0 {
		ch = Change{1, "userPassword", nil}
	} else {
		np = fmt.Sprintf("Set-%d", w.r.Int63n(1000000))
		ch = Change{2, "userpassword", []string{storedAs(w.r, np)}}
	}
	w.t.Trace("admin modifies password of %q to %q", dn.String(), np)
	res, err := w.adm.Modify(dn.Spell(w.r), []Change{ch})
	w.t.netErr(err, "modify")
	if res.Code != rcSuccess {
		w.t.Fail("the administrator cannot set a password", fmt.Sprintf("%q %+v", dn.String(), res))
	}
	w.m.Modify(dn, []Change{ch})
	if np == "" {
		delete(w.pw, key)
	} else {
		w.pw[key] = np
	}
	w.t.Eval(fmt.Sprint("adminpw", np == ""), true)
}

// comeAndGo deletes, renames or adds an entry nobody is bound as.
func (w *idWorld) comeAndGo() {
	people := w.m.Base.Child("ou", "people")
	used := map[string]bool{w.admin: true}
	for _, ic := range w.conns {
		used[ic.who] = true
	}
	var cand []DN
	for _, n := range w.m.Children(people) {
		if !used[n.DN.Key()] && len(w.m.Children(n.DN)) == 0 {
			cand = append(cand, n.DN)
		}
	}
	k := w.r.Intn(3)
	if len(cand) < 3 {
		k = 2
	}
	if k < 2 && w.r.Intn(2) == 0 { // make sure that somebody has bound just before
		for _, dn := range cand {
			if p := w.pw[dn.Key()]; p != "" {
				res, err := w.conns[0].c.Bind(dn.String(), p)
				w.t.netErr(err, "bind")
				if res.Code != rcSuccess {
					w.t.Fail("a bind with the right password was refused", fmt.Sprintf("%q %q: %+v", dn.String(), p, res))
				}
				w.remember(dn, p)
				w.conns[0].c.Close()
				w.conns[0] = &idConn{c: w.s.Dial()}
				cand = []DN{dn}
				break
			}
		}
	}
	switch k {
	case 0:
		dn := pick(w.r, cand)
		w.t.Trace("admin deletes %q", dn.String())
		res, err := w.adm.Delete(dn.String())
		w.t.netErr(err, "delete")
		if res.Code != rcSuccess || !w.m.Delete(dn) {
			w.t.Fail("a delete was refused", fmt.Sprintf("%q %+v", dn.String(), res))
		}
		old, had := w.pw[dn.Key()]
		delete(w.pw, dn.Key())
		if had {
			res, err := w.conns[0].c.Bind(dn.String(), old)
			w.t.netErr(err, "bind")
			if res.Code == rcSuccess {
				w.t.Fail("a deleted entry can bind", dn.String())
			}
			w.conns[0].who = ""
		}
	case 1:
		dn := pick(w.r, cand)
		nr := DN{RDN{{"uid", fmt.Sprintf("ren%d", w.r.Intn(100000))}}}
		nd := append(DN{nr[0]}, dn.Parent()...)
		if w.m.Get(nd) != nil {
			return
		}
		w.t.Trace("admin renames %q to %q", dn.String(), nd.String())
		res, err := w.adm.ModDN(dn.String(), nr.String(), false, nil)
		w.t.netErr(err, "rename")
		if res.Code != rcSuccess || !w.m.Rename(dn, nr, false, false) {
			w.t.Fail("a rename was refused", fmt.Sprintf("%q %+v", dn.String(), res))
		}
		if p, had := w.pw[dn.Key()]; had {
			delete(w.pw, dn.Key())
			w.pw[nd.Key()] = p
			res, err := w.conns[0].c.Bind(dn.String(), p)
			w.t.netErr(err, "bind")
			if res.Code == rcSuccess {
				w.t.Fail("the old name of a renamed entry can bind", dn.String())
			}
			w.conns[0].who = ""
		}
	case 2:
		dn := people.Child("uid", fmt.Sprintf("new%d", w.r.Intn(100000)))
		if len(w.past) > 0 && w.r.Intn(2) == 0 { // a name that was in use before
			dn = pick(w.r, w.past).dn
		}
		if w.m.Get(dn) != nil || dn.Parent().Key() != people.Key() {
			return
		}
		pw := fmt.Sprintf("fresh-%d", w.r.Intn(1000000))
		as := []Attr{attr("objectClass", "person"), attr(dn[0][0].Type, dn[0][0].Val), attr("userPassword", storedAs(w.r, pw))}
		w.t.Trace("admin adds %q", dn.String())
		res, err := w.adm.Add(Entry{DN: dn.String(), Attrs: as})
		w.t.netErr(err, "add")
		if res.Code != rcSuccess || !w.m.Add(dn, as) {
			w.t.Fail("an add was refused", fmt.Sprintf("%q %+v", dn.String(), res))
		}
		w.pw[dn.Key()] = pw
	}
	w.t.Eval(fmt.Sprint("comeandgo", k), true)
}

// concurrent lets connections bind back and forth at the same time; each
// must keep its own identity.
func (w *idWorld) concurrent(n int) {
	t := w.t
	var fs []func()
	var users []string
	for _, k := range w.m.Keys() {
		if p := w.pw[k]; p != "" && k != w.admin {
			users = append(users, k)
		}
	}
	for g := 0; g < 8; g++ {
		g := g
		r := t.Sub(fmt.Sprintf("conc%d", g))
		// everybody starts as somebody else
		key := users[g%len(users)]
		dn, pw := w.dn(key).String(), w.pw[key]
		isAdmin := g%4 == 0
		fs = append(fs, func() {
			c := w.s.Dial()
			defer c.Close()
			for i := 0; i < n; i++ {
				who := "user"
				var res Result
				var err error
				switch {
				case isAdmin && r.Intn(2) == 0:
					who = "admin"
					res, err = c.Bind(adminDN, adminPW)
				case r.Intn(3) == 0:
					who = "anonymous"
					res, err = c.Bind(adminDN, "wrong "+adminPW)
				default:
					res, err = c.Bind(dn, pw)
				}
				t.netErr(err, "bind")
				if (res.Code == rcSuccess) != (who != "anonymous") {
					t.Fail("concurrent binds are mixed up", fmt.Sprintf("%s %q: %+v", who, dn, res))
				}
				res, err = c.Modify(w.m.Base.Child("ou", "probe").String(), []Change{{2, "description", []string{fmt.Sprint(g, i)}}})
				t.netErr(err, "modify")
				if (res.Code == rcSuccess) != (who == "admin") {
					t.Fail("a concurrent bind changed the identity of another connection", fmt.Sprintf("%s %q: write answered %+v", who, dn, res))
				}
				t.Eval(fmt.Sprint("concurrent", g, who), true)
			}
		})
	}
	t.Go(fs...)
}

// checkC06File does the same for the file-backed directory and its bind-only
// file.
func checkC06File(t *T) {
	for round, n := 0, t.N(2, 8); round < n; round++ {
		r := t.Sub(fmt.Sprintf("file%d", round))
		t.ResetTrace()
		m := newModel(baseDN)
		m.Add(m.Base, []Attr{attr("objectClass", "organization"), attr("o", "x"), attr("dc", "lg")})
		pw := map[string]string{}
		add := func(dn DN, p string) {
			as := []Attr{attr("objectClass", "person"), attr(dn[0][0].Type, dn[0][0].Val)}
			if p != "" {
				as = append(as, attr("userPassword", storedAs(r, p)))
				pw[dn.Key()] = p
			}
			m.Nodes[dn.Key()] = &Node{DN: dn, Attrs: as}
		}
		add(m.Base.Child("uid", "alice"), "wonderland")
		add(m.Base.Child("uid", "Bob"), "Builder Bob")
		add(m.Base.Child("uid", "nopw"), "")
		add(m.Base.Child("cn", "with space"), "pä 1")
		add(m.Base.Child("uid", "blanks"), " both ends  ")
		add(m.Base.Child("uid", "nopw").Child("uid", "below"), "below nopw")
		add(m.Base.Child("uid", "Bob").Child("uid", "nopw"), "")
		hints := m.Base.Child("uid", "hints")
		add(hints, "")
		m.Get(hints).Attrs = append(m.Get(hints).Attrs, attr("password", "a hint"), attr("pwd", "a hint 2"), attr("authPassword", "a hint 3"), attr("userPasswordHint", "a hint 4"))
		inside := m.LDIF()
		// entries that are not inside the base although their names end alike
		outside := []string{"uid=eve,xdc=lg,dc=local", "uid=eve,dc=other", "uid=eve,o=a\\,dc=lg,dc=local", "xdc=lg,dc=local"}
		for _, d := range outside {
			inside += (&Node{DN: mustDN(d), Attrs: []Attr{attr("objectClass", "person"), attr("cn", "eve"), attr("userPassword", "eve pw")}}).LDIF()
		}
		svc := newModel(baseDN)
		svc.Nodes = map[string]*Node{}
		svcDN := mustDN("cn=Service,ou=sysusers," + baseDN)
		nopwDN := mustDN("cn=nopw,ou=sysusers," + baseDN)
		svc.Nodes[svcDN.Key()] = &Node{DN: svcDN, Attrs: []Attr{attr("objectClass", "account"), attr("cn", "Service"), attr("userPassword", "svc secret")}}
		svc.Nodes[nopwDN.Key()] = &Node{DN: nopwDN, Attrs: []Attr{attr("objectClass", "account"), attr("cn", "nopw")}}
		pw[svcDN.Key()] = "svc secret"
		all := map[string]DN{svcDN.Key(): svcDN, nopwDN.Key(): nopwDN}
		for k, nd := range m.Nodes {
			all[k] = nd.DN
		}
		var keys []string
		for _, k := range append(m.Keys(), svcDN.Key(), nopwDN.Key()) {
			keys = append(keys, k)
		}
		anon := round%2 == 1
		services := svc.LDIF()
		for _, d := range []string{"cn=svc,xdc=lg,dc=local", "cn=svc,dc=other"} {
			outside = append(outside, d)
			services += (&Node{DN: mustDN(d), Attrs: []Attr{attr("cn", "svc"), attr("userPassword", "eve pw")}}).LDIF()
		}
		s := t.StartLDIF(inside, services, func(o *ServerOpts) { o.Anonymous = anon })
		conns := []*idConn{{c: s.Dial()}, {c: s.Dial()}, {c: s.Dial()}}
		for _, key := range keys {
			var tries []string
			if n := m.Nodes[key]; n != nil {
				for _, a := range n.Attrs {
					tries = append(tries, a.Vals...)
				}
			}
			for _, o := range sortedKeys(pw) {
				tries = append(tries, pw[o])
			}
			for _, p := range tries {
				res, err := conns[0].c.Bind(all[key].String(), p)
				t.netErr(err, "bind")
				if ok := p != "" && p == pw[key]; (res.Code == rcSuccess) != ok {
					t.Fail("the file-backed directory judged a bind with a value of the entry or another entry's password wrongly", fmt.Sprintf("%q %q: %+v, expected success %v", all[key].String(), p, res, ok))
				}
				t.Eval(fmt.Sprint("file sweep", key, p), true)
			}
		}
		conns[0].c.Close()
		conns[0] = &idConn{c: s.Dial()}
		for i, steps := 0, t.N(500, 1500); i < steps; i++ {
			k := r.Intn(len(conns))
			ic := conns[k]
			if r.Intn(3) == 0 {
				ic.c.Close()
				conns[k] = &idConn{c: s.Dial()}
				ic = conns[k]
			}
			key := pick(r, keys)
			name := all[key].String()
			if r.Intn(2) == 0 {
				name = randCase(r, name)
			}
			cur := pw[key]
			p, ok, kind := "", false, "empty"
			switch x := r.Intn(12); {
			case x == 10:
				if n := m.Nodes[key]; n != nil {
					p, kind = pick(r, pick(r, n.Attrs).Vals), "other attribute"
					ok = p == cur
				}
			case x == 11:
				p, kind = pw[pick(r, sortedKeys(pw))], "other's"
				ok = p == cur && p != ""
			case x < 5 && cur != "":
				p, ok, kind = cur, true, "right"
			case x < 8 && cur != "":
				p, kind = nearPW(r, cur)
				ok = p == cur
			case x == 8:
				name, ok, kind = "", anon, "anonymous"
			case x == 9 && r.Intn(2) == 0:
				name, p, kind = randCase(r, pick(r, outside)), "eve pw", "outside"
			case x == 9:
				name = pick(r, []string{"uid=eve," + baseDN, "x" + baseDN, "uid=alice,x" + baseDN, "ou=sysusers," + baseDN, strings.Repeat("a", 300)})
				p, kind = pick(r, []string{"wonderland", "svc secret"}), "unknown"
			}
			t.Trace("file conn%d bind %q %q (%s)", k, name, p, kind)
			res, err := ic.c.Bind(name, p)
			t.netErr(err, "bind")
			if (res.Code == rcSuccess) != ok {
				t.Fail("the file-backed directory judged a bind wrongly", fmt.Sprintf("%q %q (%s): %+v, expected success %v", name, p, kind, res, ok))
			}
			ic.who = ""
			if ok && name != "" {
				ic.who = key
			}
			// the bind decides what later requests may see
			for pr := 0; pr < 1+r.Intn(2); pr++ {
				j := k
				if r.Intn(3) == 0 {
					j = r.Intn(len(conns))
				}
				sr, err := conns[j].c.Search(SearchReq{Base: baseDN, Scope: 0})
				t.netErr(err, "search")
				want := conns[j].who != "" || anon
				if (len(sr.Entries) == 1) != want {
					t.Fail("a connection to the file-backed directory has not the identity it last proved", fmt.Sprintf("conn%d %q: %d entries, %+v", j, conns[j].who, len(sr.Entries), sr.Result))
				}
				if sr.Result.Code != rcSuccess {
					conns[j].c.Close()
					conns[j] = &idConn{c: s.Dial()}
				}
			}
			t.Eval(fmt.Sprint("file", kind, ok, key, anon), true)
			t.Count("file_bind_"+kind, 1)
		}
		s.CheckAlive("after binds")
		s.Kill()
	}
}
