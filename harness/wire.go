package main

import (
	"bufio"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"sort"
	"strings"
	"time"

	ber "github.com/go-asn1-ber/asn1-ber"
)

// LDAP application tags.
const (
	tagBindReq    = 0
	tagBindResp   = 1
	tagUnbind     = 2
	tagSearchReq  = 3
	tagEntry      = 4
	tagSearchDone = 5
	tagModReq     = 6
	tagModResp    = 7
	tagAddReq     = 8
	tagAddResp    = 9
	tagDelReq     = 10
	tagDelResp    = 11
	tagModDNReq   = 12
	tagModDNResp  = 13
	tagCmpReq     = 14
	tagCmpResp    = 15
	tagAbandon    = 16
	tagExtReq     = 23
	tagExtResp    = 24
)

const pwModOID = "1.3.6.1.4.1.4203.1.11.1"

const (
	rcSuccess         = 0
	rcOperationsError = 1
	rcProtocolError   = 2
	rcSizeLimit       = 4
	rcNoSuchObject    = 32
	rcInvalidCreds    = 49
	rcInsufficient    = 50
	rcUnwilling       = 53
	rcNotAllowedOnRDN = 67
	rcAlreadyExists   = 68
)

// answerLimit is how long a client waits before it calls an answer missing.
const answerLimit = 45 * time.Second

var errTimeout = errors.New("no answer")
var errClosed = errors.New("connection closed")

// Conn is a deliberately simple LDAP client connection.
type Conn struct {
	c      net.Conn
	br     *bufio.Reader
	nextID int64
	limit  time.Duration
}

// Msg is one decoded server message.
type Msg struct {
	ID   int64
	Tag  int
	Op   *ber.Packet
	Ctrl *ber.Packet
	Raw  []byte
}

type Result struct {
	Code    int
	Matched string
	Text    string
}

func dial(addr string) (*Conn, error) {
	var c net.Conn
	var err error
	for i := 0; i < 50; i++ {
		c, err = net.DialTimeout("tcp", addr, 20*time.Second)
		if err == nil || !strings.Contains(err.Error(), "cannot assign") {
			break
		}
		time.Sleep(100 * time.Millisecond)
	}
	if err != nil {
		return nil, err
	}
	return newConn(c), nil
}

func newConn(c net.Conn) *Conn {
	return &Conn{c: c, br: bufio.NewReaderSize(c, 1<<15), nextID: 1, limit: answerLimit}
}

func dialTLS(addr string) (*Conn, error) {
	d := &net.Dialer{Timeout: 20 * time.Second}
	c, err := tls.DialWithDialer(d, "tcp", addr, &tls.Config{InsecureSkipVerify: true})
	if err != nil {
		return nil, err
	}
	return newConn(c), nil
}

func (s *Server) Dial() *Conn {
	c, err := dial(s.Addr)
	if err != nil {
		s.CheckAlive("while connecting")
		s.t.Inconclusive("connect: %v", err)
	}
	return c
}

// DialAs connects and binds.
func (s *Server) DialAs(dn, pw string) *Conn {
	c := s.Dial()
	r, err := c.Bind(dn, pw)
	if err != nil || r.Code != rcSuccess {
		s.CheckAlive("while binding")
		s.t.Fail("a bind with the right password was refused", fmt.Sprintf("dn=%q pw=%q result=%+v err=%v", dn, pw, r, err))
	}
	return c
}

func (c *Conn) Close() { c.c.Close() }

func mapNetErr(err error) error {
	if err == nil {
		return nil
	}
	var ne net.Error
	if errors.As(err, &ne) && ne.Timeout() || errors.Is(err, os.ErrDeadlineExceeded) {
		return errTimeout
	}
	return fmt.Errorf("%w: %v", errClosed, err)
}

func (c *Conn) SendRaw(b []byte) error {
	c.c.SetWriteDeadline(time.Now().Add(c.limit))
	_, err := c.c.Write(b)
	return mapNetErr(err)
}

func envelope(id int64, op *ber.Packet, controls ...*ber.Packet) *ber.Packet {
	p := ber.Encode(ber.ClassUniversal, ber.TypeConstructed, ber.TagSequence, nil, "")
	p.AppendChild(ber.NewInteger(ber.ClassUniversal, ber.TypePrimitive, ber.TagInteger, id, ""))
	p.AppendChild(op)
	if len(controls) > 0 {
		cs := ber.Encode(ber.ClassContext, ber.TypeConstructed, 0, nil, "")
		for _, k := range controls {
			cs.AppendChild(k)
		}
		p.AppendChild(cs)
	}
	return p
}

func (c *Conn) Send(op *ber.Packet, controls ...*ber.Packet) (int64, error) {
	id := c.nextID
	c.nextID++
	return id, c.SendRaw(envelope(id, op, controls...).Bytes())
}

// readTLV reads one complete BER element from the stream.
func readTLV(br *bufio.Reader) ([]byte, error) {
	h, err := br.ReadByte()
	if err != nil {
		return nil, err
	}
	l, err := br.ReadByte()
	if err != nil {
		return nil, err
	}
	buf := []byte{h, l}
	n := int(l)
	if l&0x80 != 0 {
		k := int(l & 0x7f)
		if k == 0 || k > 4 {
			return nil, fmt.Errorf("bad length byte %#x from server", l)
		}
		n = 0
		for i := 0; i < k; i++ {
			b, err := br.ReadByte()
			if err != nil {
				return nil, err
			}
			buf = append(buf, b)
			n = n<<8 | int(b)
		}
	}
	body := make([]byte, n)
	if _, err := io.ReadFull(br, body); err != nil {
		return nil, err
	}
	return append(buf, body...), nil
}

func (c *Conn) Recv() (*Msg, error) {
	c.c.SetReadDeadline(time.Now().Add(c.limit))
	raw, err := readTLV(c.br)
	if err != nil {
		return nil, mapNetErr(err)
	}
	m, err := decodeMsg(raw)
	if err != nil {
		return nil, err
	}
	return m, nil
}

func decodeMsg(raw []byte) (*Msg, error) {
	p, err := ber.DecodePacketErr(raw)
	if err != nil {
		return nil, fmt.Errorf("undecodable server message %x: %v", raw, err)
	}
	if len(p.Children) < 2 {
		return nil, fmt.Errorf("server message with %d parts: %x", len(p.Children), raw)
	}
	id, ok := p.Children[0].Value.(int64)
	if !ok {
		return nil, fmt.Errorf("server message without number: %x", raw)
	}
	m := &Msg{ID: id, Tag: int(p.Children[1].Tag), Op: p.Children[1], Raw: raw}
	if p.Children[1].ClassType != ber.ClassApplication {
		return nil, fmt.Errorf("server message of class %d: %x", p.Children[1].ClassType, raw)
	}
	if len(p.Children) > 2 {
		m.Ctrl = p.Children[2]
	}
	return m, nil
}

func (m *Msg) Result() (Result, error) {
	if len(m.Op.Children) < 3 {
		return Result{}, fmt.Errorf("short result: %x", m.Raw)
	}
	code, ok := m.Op.Children[0].Value.(int64)
	if !ok {
		return Result{}, fmt.Errorf("result without code: %x", m.Raw)
	}
	a, _ := m.Op.Children[1].Value.(string)
	b, _ := m.Op.Children[2].Value.(string)
	return Result{int(code), a, b}, nil
}

// Entry is a search result entry or a directory entry of the harness.
type Attr struct {
	Name string
	Vals []string
}

type Entry struct {
	DN    string
	Attrs []Attr
}

func (e *Entry) Get(name string) []string {
	var out []string
	for _, a := range e.Attrs {
		if strings.EqualFold(a.Name, name) {
			out = append(out, a.Vals...)
		}
	}
	return out
}

func (e *Entry) Has(name string) bool {
	for _, a := range e.Attrs {
		if strings.EqualFold(a.Name, name) {
			return true
		}
	}
	return false
}

// Canon is a canonical text of the content (not the name) of an entry.
func (e *Entry) Canon() string {
	return canonAttrs(e.Attrs)
}

func canonAttrs(as []Attr) string {
	var lines []string
	for _, a := range as {
		vs := append([]string{}, a.Vals...)
		sort.Strings(vs)
		for i := range vs {
			vs[i] = fmt.Sprintf("%q", vs[i])
		}
		lines = append(lines, strings.ToLower(a.Name)+"="+strings.Join(vs, "|"))
	}
	sort.Strings(lines)
	return strings.Join(lines, ";")
}

func (m *Msg) Entry() (Entry, error) {
	var e Entry
	if len(m.Op.Children) != 2 {
		return e, fmt.Errorf("bad entry: %x", m.Raw)
	}
	dn, ok := m.Op.Children[0].Value.(string)
	if !ok {
		return e, fmt.Errorf("bad entry name: %x", m.Raw)
	}
	e.DN = dn
	for _, a := range m.Op.Children[1].Children {
		if len(a.Children) != 2 {
			return e, fmt.Errorf("bad attribute: %x", m.Raw)
		}
		at := Attr{}
		at.Name, _ = a.Children[0].Value.(string)
		for _, v := range a.Children[1].Children {
			at.Vals = append(at.Vals, string(v.ByteValue))
		}
		e.Attrs = append(e.Attrs, at)
	}
	return e, nil
}

// roundTrip sends one request and expects one answer of the given tag.
func (c *Conn) roundTrip(op *ber.Packet, want int) (Result, *Msg, error) {
	id, err := c.Send(op)
	if err != nil {
		return Result{}, nil, err
	}
	m, err := c.Recv()
	if err != nil {
		return Result{}, nil, err
	}
	if m.ID != id || m.Tag != want {
		return Result{}, m, fmt.Errorf("answer to request %d has number %d and tag %d (want tag %d)", id, m.ID, m.Tag, want)
	}
	r, err := m.Result()
	return r, m, err
}

func octet(s string) *ber.Packet {
	return ber.NewString(ber.ClassUniversal, ber.TypePrimitive, ber.TagOctetString, s, "")
}

func appConstructed(tag int) *ber.Packet {
	return ber.Encode(ber.ClassApplication, ber.TypeConstructed, ber.Tag(tag), nil, "")
}

func seq() *ber.Packet {
	return ber.Encode(ber.ClassUniversal, ber.TypeConstructed, ber.TagSequence, nil, "")
}

func set() *ber.Packet {
	return ber.Encode(ber.ClassUniversal, ber.TypeConstructed, ber.TagSet, nil, "")
}

func integer(v int64) *ber.Packet {
	return ber.NewInteger(ber.ClassUniversal, ber.TypePrimitive, ber.TagInteger, v, "")
}

func enumerated(v int64) *ber.Packet {
	return ber.NewInteger(ber.ClassUniversal, ber.TypePrimitive, ber.TagEnumerated, v, "")
}

func boolean(v bool) *ber.Packet {
	return ber.NewLDAPBoolean(ber.ClassUniversal, ber.TypePrimitive, ber.TagBoolean, v, "")
}

func ctxString(tag int, s string) *ber.Packet {
	return ber.NewString(ber.ClassContext, ber.TypePrimitive, ber.Tag(tag), s, "")
}

func bindOp(dn, pw string) *ber.Packet {
	op := appConstructed(tagBindReq)
	op.AppendChild(integer(3))
	op.AppendChild(octet(dn))
	op.AppendChild(ctxString(0, pw))
	return op
}

func unbindOp() *ber.Packet {
	return ber.Encode(ber.ClassApplication, ber.TypePrimitive, tagUnbind, nil, "")
}

func addOp(e Entry) *ber.Packet {
	op := appConstructed(tagAddReq)
	op.AppendChild(octet(e.DN))
	l := seq()
	for _, a := range e.Attrs {
		s := seq()
		s.AppendChild(octet(a.Name))
		vs := set()
		for _, v := range a.Vals {
			vs.AppendChild(octet(v))
		}
		s.AppendChild(vs)
		l.AppendChild(s)
	}
	op.AppendChild(l)
	return op
}

func delOp(dn string) *ber.Packet {
	return ber.NewString(ber.ClassApplication, ber.TypePrimitive, tagDelReq, dn, "")
}

// Change is one modification.
type Change struct {
	Op   int // 0 add, 1 delete, 2 replace
	Type string
	Vals []string
}

func modOp(dn string, changes []Change) *ber.Packet {
	op := appConstructed(tagModReq)
	op.AppendChild(octet(dn))
	l := seq()
	for _, ch := range changes {
		s := seq()
		s.AppendChild(enumerated(int64(ch.Op)))
		a := seq()
		a.AppendChild(octet(ch.Type))
		vs := set()
		for _, v := range ch.Vals {
			vs.AppendChild(octet(v))
		}
		a.AppendChild(vs)
		s.AppendChild(a)
		l.AppendChild(s)
	}
	op.AppendChild(l)
	return op
}

func modDNOp(dn, newRDN string, deleteOld bool, newSuperior *string) *ber.Packet {
	op := appConstructed(tagModDNReq)
	op.AppendChild(octet(dn))
	op.AppendChild(octet(newRDN))
	op.AppendChild(boolean(deleteOld))
	if newSuperior != nil {
		op.AppendChild(ctxString(0, *newSuperior))
	}
	return op
}

func pwModOp(identity, old, new *string) *ber.Packet {
	op := appConstructed(tagExtReq)
	op.AppendChild(ctxString(0, pwModOID))
	if identity != nil || old != nil || new != nil {
		inner := seq()
		if identity != nil {
			inner.AppendChild(ctxString(0, *identity))
		}
		if old != nil {
			inner.AppendChild(ctxString(1, *old))
		}
		if new != nil {
			inner.AppendChild(ctxString(2, *new))
		}
		v := ber.Encode(ber.ClassContext, ber.TypePrimitive, 1, nil, "")
		v.AppendChild(inner)
		op.AppendChild(v)
	}
	return op
}

func compareOp(dn, attr, val string) *ber.Packet {
	op := appConstructed(tagCmpReq)
	op.AppendChild(octet(dn))
	ava := seq()
	ava.AppendChild(octet(attr))
	ava.AppendChild(octet(val))
	op.AppendChild(ava)
	return op
}

func abandonOp(id int64) *ber.Packet {
	return ber.NewInteger(ber.ClassApplication, ber.TypePrimitive, tagAbandon, id, "")
}

// SearchReq describes a search.
type SearchReq struct {
	Base      string
	Scope     int // 0 base, 1 one, 2 sub
	Filter    *Filter
	Attrs     []string
	SizeLimit int
	TypesOnly bool
}

func searchOp(r SearchReq) *ber.Packet {
	op := appConstructed(tagSearchReq)
	op.AppendChild(octet(r.Base))
	op.AppendChild(enumerated(int64(r.Scope)))
	op.AppendChild(enumerated(0))
	op.AppendChild(integer(int64(r.SizeLimit)))
	op.AppendChild(integer(0))
	op.AppendChild(boolean(r.TypesOnly))
	f := r.Filter
	if f == nil {
		f = Present("objectClass")
	}
	op.AppendChild(f.Encode())
	as := seq()
	for _, a := range r.Attrs {
		as.AppendChild(octet(a))
	}
	op.AppendChild(as)
	return op
}

const pagingOID = "1.2.840.113556.1.4.319"

func pagingControl(size int64, cookie []byte) *ber.Packet {
	p := seq()
	p.AppendChild(octet(pagingOID))
	v := octet("")
	v = ber.Encode(ber.ClassUniversal, ber.TypePrimitive, ber.TagOctetString, nil, "")
	s := seq()
	s.AppendChild(integer(size))
	s.AppendChild(octet(string(cookie)))
	v.AppendChild(s)
	p.AppendChild(v)
	return p
}

// pagingCookie finds the cookie of a paging control in a response.
func (m *Msg) pagingCookie() ([]byte, bool) {
	if m.Ctrl == nil {
		return nil, false
	}
	for _, k := range m.Ctrl.Children {
		if len(k.Children) >= 2 {
			if oid, _ := k.Children[0].Value.(string); oid == pagingOID {
				v := k.Children[len(k.Children)-1]
				inner, err := ber.DecodePacketErr(v.ByteValue)
				if err != nil || len(inner.Children) < 2 {
					return nil, false
				}
				return inner.Children[1].ByteValue, true
			}
		}
	}
	return nil, false
}

func (c *Conn) Bind(dn, pw string) (Result, error) {
	r, _, err := c.roundTrip(bindOp(dn, pw), tagBindResp)
	return r, err
}

func (c *Conn) Add(e Entry) (Result, error) {
	r, _, err := c.roundTrip(addOp(e), tagAddResp)
	return r, err
}

func (c *Conn) Delete(dn string) (Result, error) {
	r, _, err := c.roundTrip(delOp(dn), tagDelResp)
	return r, err
}

func (c *Conn) Modify(dn string, ch []Change) (Result, error) {
	r, _, err := c.roundTrip(modOp(dn, ch), tagModResp)
	return r, err
}

func (c *Conn) ModDN(dn, newRDN string, del bool, sup *string) (Result, error) {
	r, _, err := c.roundTrip(modDNOp(dn, newRDN, del, sup), tagModDNResp)
	return r, err
}

// PwMod returns the generated password, if one was returned.
func (c *Conn) PwMod(identity, old, new *string) (Result, *string, error) {
	r, m, err := c.roundTrip(pwModOp(identity, old, new), tagExtResp)
	if err != nil {
		return r, nil, err
	}
	for _, k := range m.Op.Children {
		if k.ClassType == ber.ClassContext && k.Tag == 11 {
			data := k.Data.Bytes()
			if len(data) == 0 && len(k.Children) > 0 {
				data = k.Children[0].Bytes()
			}
			inner, err := ber.DecodePacketErr(data)
			if err == nil && len(inner.Children) > 0 && inner.Children[0].Tag == 0 {
				s := inner.Children[0].Data.String()
				return r, &s, nil
			}
		}
	}
	return r, nil, nil
}

// SearchResult is the complete answer to a search.
type SearchResult struct {
	Entries []Entry
	Result  Result
	Cookie  []byte
	Paged   bool
}

func (c *Conn) Search(r SearchReq, controls ...*ber.Packet) (*SearchResult, error) {
	id, err := c.Send(searchOp(r), controls...)
	if err != nil {
		return nil, err
	}
	return c.recvSearch(id)
}

func (c *Conn) recvSearch(id int64) (*SearchResult, error) {
	res := &SearchResult{}
	for {
		m, err := c.Recv()
		if err != nil {
			return res, err
		}
		if m.ID != id {
			return res, fmt.Errorf("answer to search %d has number %d", id, m.ID)
		}
		switch m.Tag {
		case tagEntry:
			e, err := m.Entry()
			if err != nil {
				return res, err
			}
			res.Entries = append(res.Entries, e)
		case tagSearchDone:
			res.Result, err = m.Result()
			res.Cookie, res.Paged = m.pagingCookie()
			return res, err
		default:
			return res, fmt.Errorf("answer to search has tag %d", m.Tag)
		}
	}
}
