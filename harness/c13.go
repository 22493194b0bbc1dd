package main

import (
	"errors"
	"fmt"
	"math/rand"
	"net"
	"strings"
	"time"

	ber "github.com/go-asn1-ber/asn1-ber"
)

func init() {
	register("C13", "exploration",
		"one evaluation per request whose answer was matched by number, type, position and content; distinct by kind, way of sending, transport and outcome; non-trivial when it was sent without waiting for the answers to earlier requests or arrived in pieces",
		runC13)
}

// pReq is a request of a pipeline and what may answer it.
type pReq struct {
	id    int64
	raw   []byte
	kind  string
	tag   int                               // of the final answer, -1 for none
	ends  bool                              // the server may close the connection instead of, or after, answering
	judge func(es []Entry, r Result) string // "" when the answer fits
}

var answerTags = map[int]int{tagBindReq: tagBindResp, tagSearchReq: tagSearchDone, tagModReq: tagModResp, tagAddReq: tagAddResp,
	tagDelReq: tagDelResp, tagModDNReq: tagModDNResp, tagCmpReq: tagCmpResp, tagExtReq: tagExtResp, tagUnbind: -1, tagAbandon: -1}

type pSession struct {
	t     *T
	r     *rand.Rand
	s     *Server
	file  bool // file-backed
	tls   bool
	mine  *Model // what this session alone changes (or the whole file)
	root  DN
	admin bool // bound as the administrator
	seen  map[int64]bool
	n     int
}

func (p *pSession) newID() int64 {
	for {
		var id int64
		switch p.r.Intn(4) {
		case 0:
			id = pick(p.r, []int64{1, 2, 127, 128, 255, 256, 32767, 32768, 65535, 8388607, 8388608, 2147483647, 2147483646})
		case 1:
			id = p.r.Int63n(1 << 31)
		default:
			id = 1 + p.r.Int63n(200)
		}
		if id > 0 && !p.seen[id] {
			p.seen[id] = true
			return id
		}
	}
}

func (p *pSession) req(kind string, op *ber.Packet, ctl ...*ber.Packet) *pReq {
	q := &pReq{id: p.newID(), kind: kind, tag: answerTags[int(op.Tag)]}
	q.raw = envelope(q.id, op, ctl...).Bytes()
	return q
}

func wantCode(ok bool) func([]Entry, Result) string {
	return func(es []Entry, r Result) string {
		if (r.Code == rcSuccess) != ok {
			return fmt.Sprintf("result %d %q, expected success=%v", r.Code, r.Text, ok)
		}
		return ""
	}
}

// gen makes the next request of a session; none of them makes the server
// close the connection.
func (p *pSession) gen() *pReq {
	r := p.r
	p.n++
	tok := fmt.Sprintf("tok%d", p.n)
	names := p.mine.Keys()
	d := p.mine.Nodes[pick(r, names)].DN
	x := r.Intn(16)
	// the root itself is only an ordinary entry for the server
	if r.Intn(4) == 0 || x < 6 && d.Key() == p.root.Key() {
		d = d.Child("cn", pick(r, plainVals))
	}
	change := func(kind string, op *ber.Packet, f func() bool) *pReq {
		q := p.req(kind, op)
		ok := false
		if p.admin && !p.file {
			ok = f()
		}
		q.judge = wantCode(ok)
		return q
	}
	switch {
	case x < 2:
		as := thing(d, attr("description", tok))
		return change("add", addOp(Entry{DN: d.Spell(r), Attrs: as}), func() bool { return p.mine.Add(d, as) })
	case x < 3:
		return change("delete", delOp(d.Spell(r)), func() bool { return p.mine.Delete(d) })
	case x < 5:
		chs := []Change{{r.Intn(3), "description", []string{tok}}, {0, "x", []string{tok}}}
		return change("modify", modOp(d.Spell(r), chs), func() bool { return p.mine.Modify(d, chs) })
	case x < 6:
		nr := DN{RDN{{"cn", pick(r, plainVals)}}}
		return change("rename", modDNOp(d.Spell(r), nr.String(), false, nil), func() bool { return p.mine.Rename(d, nr, false, false) })
	case x < 8: // password change that is refused: no such entry, or not one's own
		a, b := userDN("nobody"), "a new Password 1"
		q := p.req("pwmod", pwModOp(&a, nil, &b))
		q.judge = wantCode(false)
		return q
	case x < 9:
		op := appConstructed(tagExtReq)
		op.AppendChild(ctxString(0, pick(r, []string{"1.3.6.1.4.1.1466.20037", "1.3.6.1.4.1.4203.1.11.3", "1.2.3.4", ""})))
		q := p.req("extended", op)
		q.judge = wantCode(false)
		return q
	case x < 11:
		// a bind; a wrong one leaves the connection without identity
		if r.Intn(3) == 0 && p.admin {
			dn, pw := userDN("plain"), "plain-pw"
			p.admin = false
			q := p.req("bind", bindOp(dn, pw))
			q.judge = wantCode(true)
			return q
		}
		p.admin = !p.file
		dn, pw := adminDN, adminPW
		if p.file {
			dn, pw = userDN("plain"), "plain-pw"
		}
		q := p.req("bind", bindOp(dn, pw))
		q.judge = wantCode(true)
		return q
	default:
		return p.search(d)
	}
}

func (p *pSession) search(d DN) *pReq {
	r := p.r
	sr := SearchReq{Base: d.String(), Scope: r.Intn(3), TypesOnly: false}
	if r.Intn(3) == 0 {
		d, sr.Base, sr.Scope = p.root, p.root.String(), 2
	}
	if r.Intn(3) == 0 {
		sr.Filter = genFilter(r, 2, []string{"cn", "description", "objectClass", "x"}, func(r *rand.Rand, a string) string {
			return pick(r, append([]string{"top", "thing", fmt.Sprintf("tok%d", r.Intn(p.n+1))}, plainVals...))
		})
	}
	var ctl []*ber.Packet
	if p.file && r.Intn(4) == 0 {
		ctl = append(ctl, pagingControl(100000, nil))
	}
	q := p.req("search", searchOp(sr), ctl...)
	f := sr.Filter
	if f == nil {
		f = Present("objectClass")
	}
	want := map[string]string{}
	for _, n := range p.mine.InScope(d, sr.Scope) {
		if f.Match(n.entry()) {
			want[n.DN.Key()] = canonAttrs(n.Attrs)
		}
	}
	exists := p.mine.Get(d) != nil
	q.judge = func(es []Entry, res Result) string {
		snap, err := snapshotOf(es)
		if err != nil {
			return err.Error()
		}
		if diff := diffSnap(want, snap); diff != "" {
			return "entries of another search or moment:\n" + diff
		}
		if exists && res.Code != rcSuccess {
			return fmt.Sprintf("result %+v", res)
		}
		return ""
	}
	if !exists {
		q.ends = p.file // refused, which ends the connection
	}
	return q
}

// ender makes a request after which the server may close the connection.
func (p *pSession) ender() *pReq {
	r := p.r
	var q *pReq
	switch r.Intn(7) {
	case 0:
		q = p.req("compare", compareOp(p.root.String(), "cn", "x"))
		q.judge = func(es []Entry, res Result) string {
			if len(es) > 0 {
				return "entries in answer to a compare"
			}
			return ""
		}
	case 1:
		q = p.req("abandon", abandonOp(1))
	case 2:
		op := appConstructed(pick(r, []int{11, 17, 18, 20, 22, 26, 30}))
		op.AppendChild(octet("x"))
		q = p.req("unknown", op)
		q.tag = -1
	case 3:
		q = p.req("search-refused", searchOp(SearchReq{Base: "dc=elsewhere", Scope: 2}))
		q.judge = func(es []Entry, res Result) string {
			if len(es) > 0 {
				return "entries from outside of the base"
			}
			return ""
		}
	case 4:
		q = p.req("search-limit", searchOp(SearchReq{Base: p.root.String(), Scope: 2, SizeLimit: 1}))
		q.judge = func(es []Entry, res Result) string {
			if len(es) > 1 {
				return "more entries than asked for"
			}
			return ""
		}
	case 5:
		q = p.req("unbind", unbindOp())
	default:
		// a damaged request of a known kind
		kinds := []string{}
		ops := sampleRequests(r, "plain")
		for _, k := range sortedKeys(ops) {
			if k != "unbind" && k != "abandon" {
				kinds = append(kinds, k)
			}
		}
		k := pick(r, kinds)
		op := ops[k]
		q = p.req("damaged-"+k, op)
		tree := tlvOf(q.raw)
		inner := tree.at(1)
		tag := inner.Tag
		inner.damage(r)
		inner.Tag = tag
		q.raw = tree.Bytes()
		q.judge = func(es []Entry, res Result) string { return "" }
	}
	q.ends = true
	if q.judge == nil {
		q.judge = func([]Entry, Result) string { return "" }
	}
	return q
}

// answers reads the answers to the requests and checks them; with open ends it
// returns the number of requests that were answered before the connection was
// closed.
func (p *pSession) answers(c *Conn, qs []*pReq, how string) int {
	fail := func(i int, what string, details ...interface{}) {
		var l []string
		for j, q := range qs {
			mark := ""
			if j == i {
				mark = "   <---"
			}
			l = append(l, fmt.Sprintf("%d %s #%d%s", j, q.kind, q.id, mark))
		}
		p.t.Fail(what, append(details, how, strings.Join(l, "\n"), fmt.Sprintf("%x", qs[min(i, len(qs)-1)].raw))...)
	}
	mayEnd := false
	for i, q := range qs {
		mayEnd = mayEnd || q.ends
		if q.tag < 0 {
			continue
		}
		var es []Entry
		for {
			m, err := c.Recv()
			if err != nil {
				if mayEnd && errors.Is(err, errClosed) {
					return i
				}
				if errors.Is(err, errClosed) || errors.Is(err, errTimeout) {
					p.t.netErr(err, fmt.Sprintf("%s: waiting for the answer to %d %s #%d", how, i, q.kind, q.id))
				}
				fail(i, "an answer cannot be read", err.Error())
			}
			if m.ID == 0 && m.Tag == tagExtResp && mayEnd {
				return i // notice of disconnection
			}
			if m.ID != q.id {
				fail(i, "an answer carries the number of another request", fmt.Sprintf("number %d, tag %d", m.ID, m.Tag))
			}
			if m.Tag == tagEntry && q.tag == tagSearchDone {
				e, err := m.Entry()
				if err != nil {
					fail(i, "a result entry cannot be read", err.Error())
				}
				es = append(es, e)
				continue
			}
			if m.Tag != q.tag {
				fail(i, "an answer has the wrong type for its request", fmt.Sprintf("%s answered with tag %d instead of %d", q.kind, m.Tag, q.tag))
			}
			res, err := m.Result()
			if err != nil {
				fail(i, "an answer is malformed", err.Error())
			}
			if why := q.judge(es, res); why != "" {
				fail(i, "an answer does not fit its request", why)
			}
			transport := "plain"
			if p.tls {
				transport = "tls"
			}
			p.t.Eval(fmt.Sprint(q.kind, how, transport, p.file, res.Code, len(es) > 0, q.id > 127, i == 0), how != "one at a time" || q.ends)
			p.t.Count("answers_"+strings.SplitN(q.kind, "-", 2)[0], 1)
			p.t.Count("entries", len(es))
			break
		}
	}
	return len(qs)
}

var sendModes = []string{"one at a time", "one write", "separate writes", "pieces", "bytes", "read late"}

// transmit sends the requests in the given way.
func (p *pSession) transmit(c *Conn, qs []*pReq, how string, r *rand.Rand) error {
	var all []byte
	for _, q := range qs {
		all = append(all, q.raw...)
	}
	switch how {
	case "one write", "read late":
		return c.SendRaw(all)
	case "separate writes":
		for _, q := range qs {
			if err := c.SendRaw(q.raw); err != nil {
				return err
			}
		}
		return nil
	case "pieces":
		for len(all) > 0 {
			n := 1 + r.Intn(min(len(all), 200))
			if err := c.SendRaw(all[:n]); err != nil {
				return err
			}
			all = all[n:]
			if r.Intn(3) == 0 {
				time.Sleep(time.Duration(r.Intn(1500)) * time.Microsecond)
			}
		}
		return nil
	case "bytes":
		for i := range all {
			if err := c.SendRaw(all[i : i+1]); err != nil {
				return err
			}
			if i%16 == 0 {
				time.Sleep(200 * time.Microsecond)
			}
		}
		return nil
	}
	panic(how)
}

func (p *pSession) dial() *Conn {
	if p.tls {
		c, err := dialTLS(p.s.TLSAddr)
		p.t.Must(err, "tls connect")
		return c
	}
	c := p.s.Dial()
	if tc, ok := c.c.(*net.TCPConn); ok {
		tc.SetNoDelay(true)
	}
	return c
}

// talk runs one connection: a pipeline, and at its end unbind or a request
// that ends it.
func (p *pSession) talk() {
	r, t := p.r, p.t
	p.seen = map[int64]bool{}
	p.admin = false
	c := p.dial()
	defer c.Close()
	how := pick(r, sendModes)
	n := 3 + r.Intn(25)
	if how == "bytes" {
		n = 2 + r.Intn(4)
	}
	// the first request is the bind
	var qs []*pReq
	dn, pw := adminDN, adminPW
	if p.file || r.Intn(5) == 0 {
		dn, pw = userDN("plain"), "plain-pw"
	} else {
		p.admin = true
	}
	q := p.req("bind", bindOp(dn, pw))
	q.judge = wantCode(true)
	qs = append(qs, q)
	if r.Intn(3) == 0 { // wrong password first
		q := p.req("bind-wrong", bindOp(dn, pw+"x"))
		q.judge = wantCode(false)
		qs = append([]*pReq{q}, qs...)
	}
	for len(qs) < n {
		q := p.gen()
		if q.ends {
			continue
		}
		qs = append(qs, q)
	}
	if how == "one at a time" {
		for i := range qs {
			t.netErr(c.SendRaw(qs[i].raw), "send")
			p.answers(c, qs[i:i+1], how)
		}
	} else {
		seed := r.Int63()
		var fs []func()
		sent := make(chan struct{})
		fs = append(fs, func() {
			defer close(sent)
			t.netErr(p.transmit(c, qs, how, rand.New(rand.NewSource(seed))), "sending requests")
		}, func() {
			if how == "read late" {
				<-sent
				time.Sleep(5 * time.Millisecond)
			}
			p.answers(c, qs, how)
		})
		t.Go(fs...)
	}
	// the end
	e := p.ender()
	tail := []*pReq{e}
	if strings.HasPrefix(e.kind, "damaged") || e.kind == "unbind" && r.Intn(2) == 0 {
		// nobody knows what a damaged request asks for: send it without identity
		q := p.req("bind-wrong", bindOp(userDN("plain"), "wrong"))
		q.judge = wantCode(false)
		t.netErr(c.SendRaw(q.raw), "send")
		p.answers(c, []*pReq{q}, "one at a time")
	}
	switch r.Intn(3) {
	case 0: // more requests behind it: answered in order, or the connection is closed
		was := p.admin
		p.admin = false // nothing behind it may be known to be executed
		for k := r.Intn(4); k >= 0; k-- {
			q := p.req("behind", searchOp(SearchReq{Base: p.root.String(), Scope: 0}))
			q.judge = func([]Entry, Result) string { return "" }
			tail = append(tail, q)
		}
		p.admin = was
	}
	var all []byte
	for _, q := range tail {
		all = append(all, q.raw...)
	}
	if err := c.SendRaw(all); err != nil && !errors.Is(err, errClosed) {
		t.netErr(err, "sending the last request")
	}
	c.halfClose()
	got := p.answers(c, tail, "last")
	if e.kind == "unbind" && got > 1 {
		// (answers skips requests without an answer)
		for _, q := range tail[1:got] {
			t.Fail("a request behind an unbind was answered", fmt.Sprint(q.kind, q.id))
		}
	}
	ms, err := c.drain()
	if errors.Is(err, errTimeout) {
		// the server keeps the connection open although the client ended it
		t.netErr(err, "waiting for the end of the connection after "+e.kind)
	}
	for _, m := range ms {
		if m.ID == 0 && m.Tag == tagExtResp {
			continue
		}
		ok := false
		for _, q := range tail[min(got, len(tail)-1):] {
			ok = ok || m.ID == q.id && q.tag >= 0
		}
		if !ok || e.kind == "unbind" || e.kind == "abandon" && len(tail) == 1 {
			t.Fail("the server sent something that answers no request", fmt.Sprintf("after %s: number %d tag %d %x", e.kind, m.ID, m.Tag, m.Raw))
		}
	}
	t.Count("ended_by_"+strings.SplitN(e.kind, "-", 2)[0], 1)
	t.Eval(fmt.Sprint("end", e.kind, len(tail), got, p.file, p.tls), true)
	t.Count("connections_"+strings.ReplaceAll(how, " ", "_"), 1)
}

func runC13(t *T) {
	t.Assume("answers are read from loopback TCP and TLS connections; the server may close a connection after a refused search, a compare, an abandon or an unknown request")
	const clients = 6
	rounds := t.N(70, 700)
	mk := func() *Model {
		m := baseModel()
		mustAdd(m, mustDN(userDN("plain")), personAttrs("plain", "Plain", "P", "", "plain-pw")...)
		return m
	}
	db := func() {
		m := mk()
		roots := make([]DN, clients)
		for i := range roots {
			roots[i] = m.Base.Child("ou", fmt.Sprintf("c%d", i))
			mustAdd(m, roots[i], thing(roots[i])...)
		}
		s := t.StartDB(m, func(o *ServerOpts) { o.TLS = true })
		var fs []func()
		for i := 0; i < clients; i++ {
			root := roots[i]
			r := t.Sub(fmt.Sprintf("db%d", i))
			i := i
			fs = append(fs, func() {
				mine := &Model{Base: root, Nodes: map[string]*Node{}}
				mustAdd(mine, root, thing(root)...)
				for k := 0; k < rounds; k++ {
					p := &pSession{t: t, r: r, s: s, tls: (k+i)%3 == 0, mine: mine, root: root, n: k * 100}
					p.talk()
				}
				c := s.DialAs(adminDN, adminPW)
				t.sameSnap(mine.Snapshot(), t.Dump(c, root.String()), "the directory does not show what the answers said")
				c.Close()
			})
		}
		t.Go(fs...)
		s.CheckAlive("after the pipelines")
		s.Kill()
	}
	file := func() {
		r := t.Sub("file")
		m := mk()
		ou := m.Base.Child("ou", "data")
		mustAdd(m, ou, thing(ou)...)
		for i := 0; i < 60; i++ {
			d := ou.Child("cn", fmt.Sprintf("%s %d", pick(r, plainVals), i))
			mustAdd(m, d, thing(d, attr("description", fmt.Sprintf("tok%d", i)), attr("x", genText(r, 40)))...)
		}
		s := t.StartLDIF(m.LDIF(), "", func(o *ServerOpts) { o.TLS = true })
		seen := withoutSecrets(m)
		var fs []func()
		for i := 0; i < clients; i++ {
			i, r := i, t.Sub(fmt.Sprintf("file%d", i))
			fs = append(fs, func() {
				for k := 0; k < rounds; k++ {
					p := &pSession{t: t, r: r, s: s, file: true, tls: (k+i)%3 == 0, mine: seen, root: ou, n: 60}
					p.talk()
				}
			})
		}
		t.Go(fs...)
		s.CheckAlive("after the pipelines")
		s.Kill()
	}
	big := func() { c13Big(t) }
	t.Go(db, file, big)
}

// c13Big: large results are asked for several times before any is read.
func c13Big(t *T) {
	r := t.Sub("big")
	m := baseModel()
	ou := m.Base.Child("ou", "big")
	mustAdd(m, ou, thing(ou)...)
	for i := 0; i < 1200; i++ {
		d := ou.Child("cn", fmt.Sprintf("big%d", i))
		size := 1 + r.Intn(900)
		if r.Intn(12) == 0 {
			size = 3000 + r.Intn(20000)
		}
		mustAdd(m, d, thing(d, attr("description", strings.Repeat(string(rune('a'+i%26)), size)))...)
	}
	want := map[string]string{}
	for _, n := range m.InScope(ou, 2) {
		want[n.DN.Key()] = canonAttrs(n.Attrs)
	}
	s := t.StartDB(m, func(o *ServerOpts) { o.TLS = true })
	for round := 0; round < t.N(3, 20); round++ {
		var fs []func()
		for k := 0; k < 3; k++ {
			p := &pSession{t: t, r: t.Sub(fmt.Sprint("big", round, k)), s: s, tls: k == 2, seen: map[int64]bool{}}
			fs = append(fs, func() {
				c := p.dial()
				defer c.Close()
				q := p.req("bind", bindOp(adminDN, adminPW))
				q.judge = wantCode(true)
				qs := []*pReq{q}
				for i := 0; i < 6; i++ {
					q := p.req("search-big", searchOp(SearchReq{Base: ou.String(), Scope: 2}))
					q.judge = func(es []Entry, res Result) string {
						snap, err := snapshotOf(es)
						if err != nil {
							return err.Error()
						}
						if diff := diffSnap(want, snap); diff != "" {
							return clip(diff, 2000)
						}
						return wantCode(true)(es, res)
					}
					qs = append(qs, q)
					b := p.req("bind", bindOp(adminDN, adminPW))
					b.judge = wantCode(true)
					qs = append(qs, b)
				}
				t.netErr(p.transmit(c, qs, "one write", p.r), "send")
				// the server gets stuck in the middle of a result
				time.Sleep(time.Duration(100+p.r.Intn(200)) * time.Millisecond)
				p.answers(c, qs, "read late")
				t.Count("big_pipelines", 1)
			})
		}
		t.Go(fs...)
	}
	// nothing answers an unbind, also when nobody has bound
	for i := 0; i < 24; i++ {
		p := &pSession{t: t, r: r, s: s, tls: i%3 == 0, seen: map[int64]bool{}}
		c := p.dial()
		switch i % 4 {
		case 1:
			_, err := c.Bind(adminDN, "wrong")
			t.netErr(err, "bind")
		case 2:
			_, err := c.Bind(adminDN, adminPW)
			t.netErr(err, "bind")
		case 3:
			_, err := c.Bind("", "")
			t.netErr(err, "bind")
		}
		q := p.req("unbind", unbindOp())
		t.netErr(c.SendRaw(q.raw), "unbind")
		ms, err := c.drain()
		if errors.Is(err, errTimeout) {
			t.netErr(err, "waiting for the end of the connection after unbind")
		}
		if len(ms) > 0 {
			t.Fail("the server sent something that answers no request", fmt.Sprintf("after unbind: number %d tag %d %x", ms[0].ID, ms[0].Tag, ms[0].Raw))
		}
		t.Eval(fmt.Sprint("unbind", i%12), true)
		c.Close()
	}
	s.CheckAlive("after the large results")
	s.Kill()
}
