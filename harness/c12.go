package main

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"math/rand"
	"net"
	"sort"
	"sync/atomic"

	ber "github.com/go-asn1-ber/asn1-ber"
)

func init() {
	register("C12", "exploration",
		"a hostile input counts as distinct by back end, identity of the sender, kind of request, kind of damage and what the server did (answer codes or close); inputs whose damage left the request as it was count as trivial",
		checkC12)
}

// halfClose tells the server that nothing more will come.
func (c *Conn) halfClose() {
	if x, ok := c.c.(interface{ CloseWrite() error }); ok {
		x.CloseWrite()
	}
}

// drain reads until the server closes the connection.
func (c *Conn) drain() ([]*Msg, error) {
	var ms []*Msg
	for {
		m, err := c.Recv()
		if err != nil {
			if errors.Is(err, errTimeout) {
				return ms, err
			}
			if errors.Is(err, errClosed) {
				return ms, nil
			}
			return ms, err
		}
		ms = append(ms, m)
	}
}

type hostile struct {
	t     *T
	s     *Server
	what  string // back end
	m     *Model
	users int
}

func hostileUser(i int) (string, string) {
	return fmt.Sprintf("uid=m%d,ou=people,%s", i, baseDN), fmt.Sprintf("mallory-%d", i)
}

// send delivers bytes on a new connection and waits until the server is done
// with it.
func (h *hostile) send(who, pw string, b []byte, piece int) []*Msg {
	t := h.t
	c := h.s.Dial()
	defer c.Close()
	if who != "" {
		res, err := c.Bind(who, pw)
		t.netErr(err, "bind as "+who)
		if res.Code != rcSuccess {
			return nil
		}
	}
	if piece <= 0 {
		piece = len(b)
	}
	for rest := b; len(rest) > 0; {
		n := piece
		if n > len(rest) {
			n = len(rest)
		}
		if c.SendRaw(rest[:n]) != nil {
			break
		}
		rest = rest[n:]
	}
	c.halfClose()
	ms, err := c.drain()
	if err != nil {
		t.netErr(err, fmt.Sprintf("the connection should be answered or closed after %s", clip(hex.EncodeToString(b), 400)))
	}
	return ms
}

func codesOf(ms []*Msg) string {
	s := ""
	for _, m := range ms {
		if m.Tag == tagEntry {
			continue
		}
		r, err := m.Result()
		if err != nil {
			s += "?"
			continue
		}
		s += fmt.Sprint(m.Tag, ":", r.Code, " ")
	}
	if s == "" {
		return "closed"
	}
	return s
}

func (h *hostile) canary(c *Conn, r *rand.Rand, n int) {
	t := h.t
	q := SearchReq{Base: userDN("canary"), Scope: 0}
	res, err := c.Search(q)
	t.netErr(err, "well-formed search on another connection")
	want := h.m.expectSearch(mustDN(q.Base), q)
	if h.what == "boltdb" && len(res.Entries) == 1 {
		// description changes below
		want = map[string]string{}
		for k := range h.m.expectSearch(mustDN(q.Base), q) {
			want[k] = canonAttrs(res.Entries[0].Attrs)
		}
	}
	t.judgeSearch(q, want, res, "well-formed search on another connection")
	if h.what == "boltdb" {
		v := fmt.Sprint("tick ", n, r.Intn(1000))
		rr, err := c.Modify(userDN("canary"), []Change{{2, "description", []string{v}}})
		t.netErr(err, "well-formed modify on another connection")
		if rr.Code != rcSuccess {
			t.Fail("a well-formed modify on another connection was refused", fmt.Sprintf("%+v", rr))
		}
		res, err := c.Search(SearchReq{Base: userDN("canary"), Scope: 0, Attrs: []string{"description"}})
		t.netErr(err, "well-formed search on another connection")
		if len(res.Entries) != 1 || len(res.Entries[0].Get("description")) != 1 || res.Entries[0].Get("description")[0] != v {
			t.Fail("a well-formed modify on another connection had no effect", v, fmt.Sprintf("%+v", res.Entries))
		}
	}
	b := h.s.Dial()
	rr, err := b.Bind(userDN("canary"), "canarypw")
	t.netErr(err, "well-formed bind on another connection")
	if rr.Code != rcSuccess {
		t.Fail("a well-formed bind on another connection was refused", fmt.Sprintf("%+v", rr))
	}
	b.Close()
	t.Count("canary_rounds", 1)
}

// content is the directory without what legitimate requests change.
func (h *hostile) content(c *Conn) map[string]string {
	snap := map[string]string{}
	res, err := c.Search(SearchReq{Base: baseDN, Scope: 2})
	h.t.netErr(err, "reading the whole directory")
	if res.Result.Code != rcSuccess {
		h.t.Fail("reading the whole directory was refused", fmt.Sprintf("%+v", res.Result))
	}
	for _, e := range res.Entries {
		d, err := parseDN(e.DN)
		if err != nil {
			h.t.Fail("unreadable name in the directory", e.DN)
		}
		as := e.Attrs
		if d.Key() == mustDN(userDN("canary")).Key() {
			as = setVals(as, "description", nil)
		}
		if d[0][0].Val[0] == 'm' {
			as = setVals(as, "userPassword", nil)
		}
		snap[d.Key()] = canonAttrs(as)
	}
	return snap
}

func (t *T) newHostile(what string, tls bool) *hostile {
	m := baseModel()
	people := m.Base.Child("ou", "people")
	h := &hostile{t: t, what: what, m: m, users: 60}
	add := func(uid, pw string) {
		m.Add(people.Child("uid", uid), personAttrs(uid, "Person "+uid, "Sur", uid+"@example.org", pw))
	}
	add("canary", "canarypw")
	add("victim", "victimpw")
	add("leaf", "leafpw")
	for i := 0; i < h.users; i++ {
		dn, pw := hostileUser(i)
		add(mustDN(dn)[0][0].Val, pw)
	}
	if what == "boltdb" {
		h.s = t.StartDB(m, func(o *ServerOpts) { o.TLS = tls; o.Metrics = true })
	} else {
		h.s = t.StartLDIF(m.LDIF(), "dn: cn=service,"+baseDN+"\ncn: service\nuserPassword: servicepw\n", func(o *ServerOpts) { o.TLS = tls; o.LogLevel = "debug" })
		h.m = withoutSecrets(m)
	}
	return h
}

// requests of every kind, as a client would send them
func sampleRequests(r *rand.Rand, user string) map[string]*ber.Packet {
	victim := userDN("victim")
	f := genFilter(r, 3, searchAttrs, func(r *rand.Rand, a string) string { return searchValue(r) })
	return map[string]*ber.Packet{
		"bind":    bindOp(victim, "wrong"),
		"search":  searchOp(SearchReq{Base: baseDN, Scope: 2, Filter: f, Attrs: []string{"cn", "*"}, SizeLimit: r.Intn(3)}),
		"add":     addOp(Entry{DN: userDN("evil"), Attrs: []Attr{attr("uid", "evil"), attr("cn", "a", "b"), attr("userPassword", "x")}}),
		"modify":  modOp(victim, []Change{{0, "description", []string{"evil"}}, {2, "cn", []string{"evil"}}, {1, "sn", nil}}),
		"delete":  delOp(userDN("leaf")),
		"moddn":   modDNOp(userDN("leaf"), "cn=evil", true, nil),
		"moddn4":  modDNOp(userDN("leaf"), "cn=evil", true, sp("ou=groups,"+baseDN)),
		"pwmod":   pwModOp(sp(user), sp("old"), sp("new")),
		"pwother": pwModOp(sp(victim), nil, sp("new")),
		"compare": compareOp(victim, "cn", "x"),
		"abandon": abandonOp(1),
		"unbind":  unbindOp(),
	}
}

var requestKinds = []string{"bind", "search", "search", "search", "add", "modify", "modify", "delete", "moddn", "moddn4", "pwmod", "pwother", "compare", "abandon", "unbind"}

func sampleControls(r *rand.Rand) []*ber.Packet {
	ctl := func(oid string, val []byte) *ber.Packet {
		p := seq()
		p.AppendChild(octet(oid))
		if r.Intn(2) == 0 {
			p.AppendChild(boolean(r.Intn(2) == 0))
		}
		if val != nil {
			p.AppendChild(octet(string(val)))
		}
		return p
	}
	raw := make([]byte, r.Intn(12))
	r.Read(raw)
	oids := []string{pagingOID, "1.3.6.1.4.1.42.2.27.8.5.1", "2.16.840.1.113730.3.4.4", "2.16.840.1.113730.3.4.5", "2.16.840.1.113730.3.4.2",
		"1.2.840.113556.1.4.528", "1.2.840.113556.1.4.417", "1.2.840.113556.1.4.473", "1.2.840.113556.1.4.474", "1.2.840.113556.1.4.841", "1.3.6.1.4.1.4203.1.9.1.1", "1.3.6.1.4.1.4203.1.9.1.2", "1.3.6.1.4.1.4203.1.9.1.3", "1.3.6.1.4.1.4203.1.9.1.4",
		"2.16.840.1.113730.3.4.18", "1.3.6.1.1.12", "", "x"}
	vals := [][]byte{nil, {}, raw, seq().Bytes(), {0x30}, {0x30, 0x03, 0x02, 0x01, 0x05}, {0x02, 0x01, 0x05}, {0x30, 0x80}, {0xa0, 0x00}, {0x30, 0x02, 0xa0, 0x00}, {0x30, 0x04, 0xa1, 0x02, 0x30, 0x00}, []byte("text"),
		tlvOf(pagingControl(5, nil).Bytes()).Kids[1].Data, tlvOf(pagingControl(-1, []byte("c")).Bytes()).Kids[1].Data}
	var out []*ber.Packet
	for i := 0; i <= r.Intn(2); i++ {
		out = append(out, ctl(pick(r, oids), pick(r, vals)))
	}
	return out
}

// hostileInput makes one input; who may do the request it started from does
// not matter as it never has the right to.
func (h *hostile) hostileInput(r *rand.Rand, user string) (b []byte, kind, how string) {
	kind = pick(r, requestKinds)
	op := sampleRequests(r, user)[kind]
	var ctl []*ber.Packet
	if r.Intn(3) == 0 {
		ctl = sampleControls(r)
		kind += "+control"
	}
	b = envelope(int64(1+r.Intn(3)), op, ctl...).Bytes()
	orig := b
	switch k := r.Intn(20); {
	case k < 11:
		e := tlvOf(b)
		how = e.damage(r)
		for r.Intn(3) == 0 {
			how += "," + e.damage(r)
		}
		b = e.Bytes()
	case k < 14:
		how = "bytes"
		b = append([]byte{}, b...)
		for i := 0; i <= r.Intn(4); i++ {
			b[r.Intn(len(b))] = byte(r.Intn(256))
		}
	case k < 15:
		how = "truncated"
		b = b[:r.Intn(len(b))]
	case k < 16:
		how = "inserted"
		i := r.Intn(len(b))
		x := make([]byte, 1+r.Intn(5))
		r.Read(x)
		b = append(append(append([]byte{}, b[:i]...), x...), b[i:]...)
	case k < 17:
		how, kind = "noise", "noise"
		b = make([]byte, 1+r.Intn(200))
		r.Read(b)
		if r.Intn(2) == 0 {
			b[0] = 0x30
		}
	case k < 18:
		how, kind = "other protocol", "text"
		b = []byte(pick(r, []string{"GET / HTTP/1.1\r\nHost: x\r\n\r\n", "\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03", "SSH-2.0-x\r\n", "\x00\x00\x00\x00", "0", "00", "\x30\x00", "\x30\x80\x00\x00", "\x30\x02\x02\x00", "\x30\x03\x02\x01\x01", "\x30\x05\x02\x01\x01\x60\x00", "\x30\x05\x02\x01\x01\x63\x00", "\x30\x05\x02\x01\x01\x66\x00", "\x30\x05\x02\x01\x01\x68\x00", "\x30\x05\x02\x01\x01\x4a\x00", "\x30\x05\x02\x01\x01\x6c\x00", "\x30\x05\x02\x01\x01\x77\x00", "\x30\x05\x02\x01\x01\x42\x00", "\x30\x05\x02\x01\x01\x6e\x00", "\x30\x05\x02\x01\x01\x50\x00", "\x30\x05\x02\x01\x01\x7f\x00"}))
	case k < 19:
		how = "after a good one"
		e := tlvOf(b)
		how += " " + e.damage(r)
		b = append(envelope(7, searchOp(SearchReq{Base: baseDN, Scope: 0})).Bytes(), e.Bytes()...)
	default:
		how = "as it is"
	}
	if how != "as it is" && bytes.Equal(orig, b) {
		how = "as it is"
	}
	return b, kind, how
}

// definitelyBad are requests with parts missing or of the wrong kind, which
// would change the directory if they were carried out all the same.
func definitelyBad(admin bool) []struct {
	name string
	b    []byte
} {
	var out []struct {
		name string
		b    []byte
	}
	put := func(name string, op *TLV) {
		out = append(out, struct {
			name string
			b    []byte
		}{name, cons(0x30, prim(0x02, "\x05"), op).Bytes()})
	}
	raw := func(name string, b []byte) {
		out = append(out, struct {
			name string
			b    []byte
		}{name, b})
	}
	victim := userDN("victim")
	add := func() *TLV {
		return tlvOf(addOp(Entry{DN: userDN("evil"), Attrs: []Attr{attr("uid", "evil"), attr("cn", "a")}}).Bytes())
	}
	mod := func() *TLV { return tlvOf(modOp(victim, []Change{{2, "description", []string{"evil"}}}).Bytes()) }
	del := func() *TLV { return tlvOf(delOp(userDN("leaf")).Bytes()) }
	ren := func() *TLV { return tlvOf(modDNOp(userDN("leaf"), "cn=evil", true, nil).Bytes()) }
	longMod := func() *TLV {
		return tlvOf(modOp(victim, []Change{{2, "description", []string{"evil"}}, {0, "title", []string{"evil", "more"}}, {2, "sn", []string{"evil"}}}).Bytes())
	}
	integerTLV := func() *TLV { return prim(0x02, "\x01") }
	if !admin {
		ext := func(body *TLV) *TLV { return cons(0x77, prim(0x80, pwModOID), body) }
		for _, g := range []string{"\xff\xff", "garbage", "\x30", "\x30\x05\x80\x01", "\x30\x85", "\x30\x80\x82\x01x", "\x04\x03abc", "\x01\x01\xff", "\x30\x03\x04\x01x", "\x30\x03\x85\x01x", "\x30\x0c\x80\x01a\x81\x01a\x82\x01a\x82\x01b", "\x00\x00"} {
			put(fmt.Sprintf("password change with body %q", g), ext(prim(0x81, g)))
		}
		put("password change with name of wrong class", cons(0x77, prim(0x04, pwModOID)))
		put("password change with extra part", cons(0x77, prim(0x80, pwModOID), prim(0x81, "\x30\x00"), prim(0x82, "x")))
		put("password change with body of wrong tag", cons(0x77, prim(0x80, pwModOID), prim(0x83, "\x30\x00")))
		return out
	}
	for _, o := range []struct {
		n string
		f func() *TLV
	}{{"add", add}, {"modify", mod}, {"rename", ren}} {
		e := o.f()
		put(o.n+" without last part", e.drop(len(e.Kids)-1))
		put(o.n+" without name", o.f().drop(0))
		put(o.n+" with integer as name", o.f().put(0, integerTLV()))
		put(o.n+" with null as name", o.f().put(0, prim(0x05, "")))
		put(o.n+" with sequence as name", o.f().put(0, cons(0x30, prim(0x04, victim))))
		put(o.n+" without parts", cons(o.f().Tag))
		for _, bad := range []string{"nonsense", "uid", "uid=leaf,,dc=lg,dc=local", "=x," + baseDN, userDN("leaf") + "\\", "uid=\\zz," + baseDN, ",", "+"} {
			put(fmt.Sprintf("%s with name %q", o.n, bad), o.f().put(0, prim(0x04, bad)))
		}
		put(o.n+" as primitive", &TLV{Tag: o.f().Tag &^ 0x20, Data: bytes.TrimPrefix(o.f().Bytes(), o.f().Bytes()[:2])})
		x := o.f()
		x.Tag = x.Tag&^0xc0 | 0x80
		put(o.n+" of wrong class", x)
		b := cons(0x30, prim(0x02, "\x05"), o.f()).Bytes()
		for i := 1; i < len(b); i++ {
			raw(fmt.Sprintf("%s cut after %d bytes", o.n, i), b[:i])
		}
		e = o.f()
		e.Len = berLen(len(e.Bytes()) - 2 + 1)
		put(o.n+" longer than its message", e)
		e = o.f()
		e.Len = berLen(len(e.Bytes()) - 2 - 1)
		put(o.n+" shorter than its parts", e)
		raw(o.n+" with text as number", cons(0x30, prim(0x04, "5"), o.f()).Bytes())
		raw(o.n+" with boolean as number", cons(0x30, prim(0x01, "\x01"), o.f()).Bytes())
		raw(o.n+" without number", cons(0x30, o.f()).Bytes())
		raw(o.n+" before its number", cons(0x30, o.f(), prim(0x02, "\x05")).Bytes())
	}
	put("add with extra part", add().push(prim(0x04, "x")))
	put("modify with extra part", mod().push(prim(0x04, "x")))
	put("rename with extra parts", ren().push(prim(0x80, baseDN)).push(prim(0x04, "x")))
	put("add with text as attributes", add().put(1, prim(0x04, "x")))
	put("add with attributes of wrong tag", add().put(1, cons(0x31, add().at(1).Kids...)))
	put("modify with text as changes", mod().put(1, prim(0x04, "x")))
	shapes := map[string]func(*TLV){
		"attribute without values":        func(a *TLV) { a.drop(1) },
		"attribute with three parts":      func(a *TLV) { a.push(prim(0x04, "x")) },
		"attribute name is integer":       func(a *TLV) { a.put(0, integerTLV()) },
		"attribute values is text":        func(a *TLV) { a.put(1, prim(0x04, "x")) },
		"attribute values is sequence":    func(a *TLV) { a.put(1, cons(0x30, prim(0x04, "x"))) },
		"attribute value is integer":      func(a *TLV) { a.at(1).push(integerTLV()) },
		"attribute value is sequence":     func(a *TLV) { a.at(1).push(cons(0x30, prim(0x04, "x"))) },
		"attribute name is a constructed": func(a *TLV) { a.put(0, cons(0x24, prim(0x04, "cn"))) },
		"attribute is empty":              func(a *TLV) { a.Kids = nil },
	}
	for _, name := range sortedKeys(shapes) {
		f := shapes[name]
		e := add()
		f(e.at(1, 1))
		put("add: "+name, e)
		if name != "attribute without values" { // allowed in a modify
			e = mod()
			f(e.at(1, 0, 1))
			put("modify: "+name, e)
		}
		// in the middle and at the end of a longer request
		for _, k := range []int{1, 2} {
			e = longMod()
			if name != "attribute without values" {
				f(e.at(1, k, 1))
				put(fmt.Sprintf("modify: part %d: %s", k+1, name), e)
			}
			e = add()
			e.at(1).push(e.at(1, 1).clone())
			e.at(1, 2).put(0, prim(0x04, "sn"))
			f(e.at(1, k))
			put(fmt.Sprintf("add: part %d: %s", k+1, name), e)
		}
	}
	shapes = map[string]func(*TLV){
		"change is empty":               func(c *TLV) { c.Kids = nil },
		"change without attribute":      func(c *TLV) { c.drop(1) },
		"change without kind":           func(c *TLV) { c.drop(0) },
		"change kind is empty":          func(c *TLV) { c.put(0, prim(0x0a, "")) },
		"change kind is 3":              func(c *TLV) { c.put(0, prim(0x0a, "\x03")) },
		"change kind is 255":            func(c *TLV) { c.put(0, prim(0x0a, "\x00\xff")) },
		"change kind is 513":            func(c *TLV) { c.put(0, prim(0x0a, "\x02\x01")) },
		"change kind is 256":            func(c *TLV) { c.put(0, prim(0x0a, "\x01\x00")) },
		"change kind is -1":             func(c *TLV) { c.put(0, prim(0x0a, "\xff")) },
		"change is text":                func(c *TLV) { c.Tag, c.Kids, c.Data = 0x04, nil, []byte("x") },
		"change kind is constructed":    func(c *TLV) { c.put(0, cons(0x30)) },
		"change attribute is text":      func(c *TLV) { c.put(1, prim(0x04, "description")) },
		"change attribute before kind":  func(c *TLV) { c.Kids[0], c.Kids[1] = c.Kids[1], c.Kids[0] },
		"second change is empty":        nil,
		"second change of unknown kind": nil,
	}
	for _, name := range sortedKeys(shapes) {
		f := shapes[name]
		e := mod()
		switch {
		case f != nil:
			f(e.at(1, 0))
			for _, k := range []int{1, 2} {
				e := longMod()
				f(e.at(1, k))
				put(fmt.Sprintf("modify: part %d: %s", k+1, name), e)
			}
		case name == "second change is empty":
			e.at(1).push(cons(0x30))
		default:
			k := e.at(1, 0).clone()
			k.put(0, prim(0x0a, "\x07"))
			e.at(1).push(k)
		}
		put("modify: "+name, e)
	}
	put("rename with text as flag", ren().put(2, prim(0x04, "x")))
	put("rename with integer as flag", ren().put(2, integerTLV()))
	put("rename with integer as new name", ren().put(1, integerTLV()))
	for _, bad := range []string{"nonsense", "=x", "cn=\\zz", "cn=x\\"} {
		put(fmt.Sprintf("rename to %q", bad), ren().put(1, prim(0x04, bad)))
	}
	put("delete of unreadable name", &TLV{Tag: del().Tag, Data: []byte("nonsense")})
	put("delete with parts", &TLV{Tag: del().Tag | 0x20, Kids: []*TLV{prim(0x04, userDN("leaf"))}})
	x := del()
	x.Tag = 0x8a
	put("delete of wrong class", x)
	b := cons(0x30, prim(0x02, "\x05"), del()).Bytes()
	for i := 1; i < len(b); i++ {
		raw(fmt.Sprintf("delete cut after %d bytes", i), b[:i])
	}
	ext := func(body *TLV) *TLV { return cons(0x77, prim(0x80, pwModOID), body) }
	put("password change of another with universal tags", ext(prim(0x81, string(cons(0x30, prim(0x04, victim), prim(0x04, "new")).Bytes()))))
	put("password change of another with unknown part", ext(prim(0x81, string(cons(0x30, prim(0x80, victim), prim(0x82, "new"), prim(0x87, "x")).Bytes()))))
	body := cons(0x30, prim(0x80, victim), prim(0x82, "new")).Bytes()
	for i := 1; i < len(body); i++ {
		put(fmt.Sprintf("password change cut after %d bytes", i), ext(prim(0x81, string(body[:i]))))
	}
	return out
}

func nestIndef(n int, tag byte) []byte {
	b := make([]byte, 2*n)
	for i := range b {
		if i%2 == 0 {
			b[i] = tag
		} else {
			b[i] = 0x80
		}
	}
	return b
}

// nestDef nests elements of known length around a core.
func nestDef(n int, tag byte, core []byte) []byte {
	var hdrs [][]byte
	size := len(core)
	for i := 0; i < n; i++ {
		h := append([]byte{tag}, berLen(size)...)
		hdrs = append(hdrs, h)
		size += len(h)
	}
	out := make([]byte, 0, size)
	for i := n - 1; i >= 0; i-- {
		out = append(out, hdrs[i]...)
	}
	return append(out, core...)
}

func checkC12(t *T) {
	for _, what := range []string{"boltdb", "ldif"} {
		t.ResetTrace()
		h := t.newHostile(what, true)
		admin := h.s.DialAs(adminDN, adminPW)
		start := h.content(admin)
		unchanged := func(after string) {
			if d := diffSnap(start, h.content(admin)); d != "" {
				t.Fail("a malformed request changed the directory", after, d)
			}
		}
		h.canary(admin, t.Rng, 0)
		unchanged("nothing")

		// 1. requests that are certainly malformed, from the administrator
		bad := definitelyBad(true)
		for i, x := range bad {
			ms := h.send(adminDN, adminPW, x.b, 0)
			for _, m := range ms {
				if m.Tag == tagBindResp {
					continue
				}
				if r, err := m.Result(); err == nil && r.Code == rcSuccess {
					t.Fail("a malformed request was answered with success", x.name, x.b)
				}
			}
			if i%20 == 19 || len(bad)-i < 2 || len(ms) > 0 {
				unchanged(x.name)
			}
			t.Eval(what+" malformed "+x.name+codesOf(ms), true)
			t.SampleEvery(i, func() interface{} { return what + " administrator sends " + x.name + " -> " + codesOf(ms) })
		}
		unchanged("malformed requests of the administrator")
		t.Count("certainly_malformed", len(bad))
		// ... and password changes of the sender itself
		for i, x := range definitelyBad(false) {
			ms := h.send(userDN("victim"), "victimpw", x.b, 0)
			for _, m := range ms {
				if r, err := m.Result(); err == nil && r.Code == rcSuccess && m.Tag != tagBindResp {
					t.Fail("a malformed request was answered with success", x.name, x.b)
				}
			}
			unchanged(x.name)
			t.Eval(what+" malformed own "+x.name+codesOf(ms), true)
			t.Count("certainly_malformed", 1)
			t.SampleEvery(i, func() interface{} { return what + " user sends " + x.name + " -> " + codesOf(ms) })
		}

		// 2. nesting, as far as a few megabytes go
		deep := t.N(3000000, 5000000)
		search := func(f []byte) []byte {
			e := tlvOf(searchOp(SearchReq{Base: baseDN, Scope: 2}).Bytes())
			var body []byte
			for i, k := range e.Kids {
				if i == 6 {
					body = append(body, f...)
				} else {
					body = append(body, k.Bytes()...)
				}
			}
			op := append(append([]byte{e.Tag}, berLen(len(body))...), body...)
			return append(append([]byte{0x30}, berLen(len(op)+3)...), append([]byte{2, 1, 9}, op...)...)
		}
		ctl := func(val []byte) []byte {
			c := cons(0x30, prim(0x04, pagingOID), &TLV{Tag: 0x04, Data: val})
			return cons(0x30, prim(0x02, "\x09"), tlvOf(searchOp(SearchReq{Base: baseDN, Scope: 0}).Bytes()), cons(0xa0, c)).Bytes()
		}
		pres := Present("cn").Encode().Bytes()
		for _, n := range []struct {
			name string
			who  bool
			b    []byte
		}{
			{"open elements", false, nestIndef(deep, 0x30)},
			{"open context elements", false, nestIndef(deep, 0xa2)},
			{"elements of known length", false, nestDef(deep/2, 0x30, []byte{0x02, 0x01, 0x01})},
			{"negations", false, search(nestDef(deep/2, 0xa2, pres))},
			{"ands", true, search(nestDef(deep/2, 0xa0, pres))},
			{"control value", false, ctl(nestIndef(deep, 0x30))},
			{"control value of known length", true, ctl(nestDef(deep/2, 0x30, []byte{0x02, 0x01, 0x01}))},
			{"password change body", true, cons(0x30, prim(0x02, "\x09"), cons(0x77, prim(0x80, pwModOID), &TLV{Tag: 0x81, Data: nestIndef(deep, 0x30)})).Bytes()},
			{"password change body of known length", true, cons(0x30, prim(0x02, "\x09"), cons(0x77, prim(0x80, pwModOID), &TLV{Tag: 0x81, Data: nestDef(deep/2, 0x30, []byte{0x80, 0x01, 0x01})})).Bytes()},
			{"some negations", true, search(nestDef(900, 0xa2, pres))},
			{"many ands", true, search(nestDef(5000, 0xa0, pres))},
			{"wide filter", true, search(cons(0xa1, func() (ks []*TLV) {
				for i := 0; i < 20000; i++ {
					ks = append(ks, tlvOf(Eq("cn", fmt.Sprint(i)).Encode().Bytes()))
				}
				return
			}()...).Bytes())},
			{"large value", false, cons(0x30, prim(0x02, "\x09"), cons(0x60, prim(0x02, "\x03"), prim(0x04, userDN("victim")), &TLV{Tag: 0x80, Data: bytes.Repeat([]byte("x"), 20<<20)})).Bytes()},
			{"large name", false, cons(0x30, prim(0x02, "\x09"), cons(0x60, prim(0x02, "\x03"), &TLV{Tag: 0x04, Data: bytes.Repeat([]byte("cn=x,"), 1<<18)}, prim(0x80, "x"))).Bytes()},
		} {
			t.Trace("nested or large input: %s (%d bytes)", n.name, len(n.b))
			who, pw := "", ""
			if n.who {
				who, pw = hostileUser(h.users - 1)
			}
			ms := h.send(who, pw, n.b, 0)
			h.s.CheckAlive("after input: " + n.name)
			h.canary(admin, t.Rng, 1)
			t.Eval(what+" "+n.name+codesOf(ms), true)
			t.Count("large_or_nested", 1)
		}
		unchanged("nested input")

		// 3. random damage, from several connections at once
		n := t.N(2500, 20000)
		var running int32 = 1
		var fs []func()
		var left int32 = 4
		for k := 0; k < 4; k++ {
			k := k
			fs = append(fs, func() {
				defer func() {
					if atomic.AddInt32(&left, -1) == 0 {
						atomic.StoreInt32(&running, 0)
					}
				}()
				r := t.Sub(fmt.Sprintf("%s attacker %d", what, k))
				for i := 0; i < n; i++ {
					who, pw, id := "", "", "anonymous"
					if r.Intn(2) == 0 {
						who, pw = hostileUser(r.Intn(h.users))
						id = "user"
					}
					b, kind, how := h.hostileInput(r, who)
					t.Trace("%s sends %s (%s): %x", id, kind, how, b)
					piece := 0
					if r.Intn(10) == 0 {
						piece = 1 + r.Intn(7)
					}
					ms := h.send(who, pw, b, piece)
					t.Eval(fmt.Sprint(what, id, kind, how, codesOf(ms)), how != "as it is")
					t.Count("random_inputs", 1)
					t.SampleEvery(i, func() interface{} { return fmt.Sprintf("%s %s sends %s (%s) -> %s", what, id, kind, how, codesOf(ms)) })
				}
			})
		}
		fs = append(fs, func() {
			r := t.Sub(what + " canary")
			c := h.s.DialAs(adminDN, adminPW)
			for i := 2; atomic.LoadInt32(&running) == 1; i++ {
				h.canary(c, r, i)
			}
			c.Close()
		})
		t.Go(fs...)
		h.s.CheckAlive("after hostile input")
		unchanged("random damage by users without rights")

		// 4. the same kinds of noise on the TLS port
		r := t.Sub(what + " tls")
		for i := 0; i < t.N(150, 1500); i++ {
			b, kind, how := h.hostileInput(r, "")
			raw := r.Intn(2) == 0
			if raw {
				c, err := net.Dial("tcp", h.s.TLSAddr)
				if err != nil {
					h.s.CheckAlive("while connecting")
					t.Fail("the TLS port does not accept connections any more", err.Error())
				}
				c.Write(b)
				c.Close()
			} else {
				c, err := dialTLS(h.s.TLSAddr)
				if err != nil {
					h.s.CheckAlive("while connecting")
					t.Fail("the TLS port does not accept connections any more", err.Error())
				}
				c.SendRaw(b)
				c.halfClose()
				_, err = c.drain()
				if err != nil {
					t.netErr(err, "TLS connection after "+hex.EncodeToString(b))
				}
				c.Close()
			}
			t.Eval(fmt.Sprint(what, "tls", raw, kind, how), true)
		}
		h.canary(admin, r, 99)
		unchanged("damage on the TLS port")
		admin.Close()
		h.s.Kill()
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
