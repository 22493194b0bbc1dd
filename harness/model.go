package main

import (
	"encoding/hex"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"unicode/utf8"
)

// ---- names ----------------------------------------------------------------

type AVA struct{ Type, Val string }
type RDN []AVA
type DN []RDN

// parseDN is an independent reader of RFC 4514 names.
func parseDN(s string) (DN, error) {
	var dn DN
	if strings.TrimSpace(s) == "" {
		return dn, nil
	}
	var rdn RDN
	// token = decoded bytes plus, per byte, whether it was escaped
	type tok struct {
		b   []byte
		esc []bool
	}
	var cur tok
	var typ *string
	trim := func(t tok) string {
		b, e := t.b, t.esc
		for len(b) > 0 && b[0] == ' ' && !e[0] {
			b, e = b[1:], e[1:]
		}
		for len(b) > 0 && b[len(b)-1] == ' ' && !e[len(e)-1] {
			b, e = b[:len(b)-1], e[:len(e)-1]
		}
		return string(b)
	}
	flush := func() error {
		if typ == nil {
			return fmt.Errorf("no type in %q", s)
		}
		rdn = append(rdn, AVA{*typ, trim(cur)})
		typ, cur = nil, tok{}
		return nil
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '\\':
			if i+1 >= len(s) {
				return nil, fmt.Errorf("trailing backslash in %q", s)
			}
			if i+2 < len(s) {
				if b, err := hex.DecodeString(s[i+1 : i+3]); err == nil {
					cur.b, cur.esc = append(cur.b, b[0]), append(cur.esc, true)
					i += 2
					continue
				}
			}
			cur.b, cur.esc = append(cur.b, s[i+1]), append(cur.esc, true)
			i++
		case c == '=' && typ == nil:
			t := trim(cur)
			typ, cur = &t, tok{}
		case c == ',' || c == ';' || c == '+':
			if err := flush(); err != nil {
				return nil, err
			}
			if c != '+' {
				dn = append(dn, rdn)
				rdn = nil
			}
		default:
			cur.b, cur.esc = append(cur.b, c), append(cur.esc, false)
		}
	}
	if err := flush(); err != nil {
		return nil, err
	}
	return append(dn, rdn), nil
}

func mustDN(s string) DN {
	d, err := parseDN(s)
	if err != nil {
		panic(err)
	}
	return d
}

// Key identifies the entry that a name denotes.
func (r RDN) Key() string {
	var parts []string
	for _, a := range r {
		parts = append(parts, fmt.Sprintf("%q=%q", fold(a.Type), fold(a.Val)))
	}
	sort.Strings(parts)
	return strings.Join(parts, "+")
}

func (d DN) Key() string {
	var parts []string
	for _, r := range d {
		parts = append(parts, r.Key())
	}
	return strings.Join(parts, ",")
}

func (d DN) Parent() DN { return d[1:] }

func (d DN) Child(t, v string) DN {
	return append(DN{RDN{{t, v}}}, d...)
}

// Under says whether d is base or below it.
func (d DN) Under(base DN) bool {
	if len(d) < len(base) {
		return false
	}
	return d[len(d)-len(base):].Key() == base.Key()
}

const dnSpecial = ",+\"\\<>;="

func escPlain(s string, isType bool) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c >= 0x80 && !utf8.ValidString(s):
			// names are UTF-8 text: other bytes are only sent escaped
			fmt.Fprintf(&b, "\\%02x", c)
		case c == 0 || c < ' ' || c == 0x7f:
			fmt.Fprintf(&b, "\\%02x", c)
		case strings.IndexByte(",+\"\\<>;", c) >= 0 || (c == '=' && isType) || (i == 0 && (c == ' ' || c == '#')) || (i == len(s)-1 && c == ' '):
			b.WriteByte('\\')
			b.WriteByte(c)
		default:
			b.WriteByte(c)
		}
	}
	return b.String()
}

func (r RDN) String() string {
	var ps []string
	for _, a := range r {
		ps = append(ps, escPlain(a.Type, true)+"="+escPlain(a.Val, false))
	}
	return strings.Join(ps, "+")
}

func (d DN) String() string {
	var ps []string
	for _, r := range d {
		ps = append(ps, r.String())
	}
	return strings.Join(ps, ",")
}

// letters whose case variants agree under every folding in use
var caseLetters = map[rune]rune{}

func init() {
	for _, p := range []string{"äÄ", "öÖ", "üÜ", "éÉ", "ñÑ", "çÇ", "žŽ", "λΛ", "жЖ", "яЯ"} {
		rs := []rune(p)
		caseLetters[rs[0]] = rs[1]
		caseLetters[rs[1]] = rs[0]
	}
	for c := 'a'; c <= 'z'; c++ {
		caseLetters[c] = c - 32
		caseLetters[c-32] = c
	}
	// k and s have further case variants (Kelvin sign, long s) that are not used here.
}

// randCaseU changes letter case of every letter with simple variants.
func randCaseU(r *rand.Rand, s string) string {
	rs := []rune(s)
	for i, c := range rs {
		if o, ok := caseLetters[c]; ok && r.Intn(3) == 0 {
			rs[i] = o
		}
	}
	return string(rs)
}

func validRunes(s string) bool { return strings.ToValidUTF8(s, "\x00bad\x00") == s }

// Spell writes the name in one of its many equivalent spellings.
func (d DN) Spell(r *rand.Rand) string {
	var ps []string
	for _, rdn := range d {
		ps = append(ps, rdn.Spell(r))
	}
	var b strings.Builder
	for i, p := range ps {
		if i > 0 {
			// A space before the separator is only safe when the value does
			// not end in a backslash; see DESIGN.md on the DN parser in use.
			prev := d[i-1]
			last := prev[len(prev)-1].Val
			if r.Intn(6) == 0 && !strings.HasSuffix(last, "\\") && last != "" {
				b.WriteString(" ")
			}
			b.WriteByte(',')
			if r.Intn(4) == 0 {
				b.WriteString(strings.Repeat(" ", 1+r.Intn(2)))
			}
		}
		b.WriteString(p)
	}
	return b.String()
}

func (rdn RDN) Spell(r *rand.Rand) string {
	var ps []string
	for _, a := range rdn {
		t := randCase(r, a.Type)
		v := a.Val
		if validRunes(v) {
			v = randCaseU(r, v)
		}
		eq := "="
		if r.Intn(8) == 0 {
			eq = " ="
		}
		if r.Intn(8) == 0 && a.Val != "" {
			eq += " "
		}
		ps = append(ps, escPlain(t, true)+eq+spellValue(r, v))
	}
	return strings.Join(ps, "+")
}

func spellValue(r *rand.Rand, v string) string {
	heavy := r.Intn(8) == 0
	var b strings.Builder
	rs := []byte(v)
	valid := validRunes(v)
	for i := 0; i < len(rs); i++ {
		c := rs[i]
		special := strings.IndexByte(",+\"\\<>;", c) >= 0
		edge := (c == ' ' && (i == 0 || i == len(rs)-1)) || (c == '#' && i == 0)
		ctl := c < ' ' || c == 0x7f || !valid && c >= 0x80
		hexIt := heavy || r.Intn(12) == 0
		if c >= 0x80 && valid {
			// escape whole characters or none of their bytes
			n := 1
			for i+n < len(rs) && rs[i+n]&0xc0 == 0x80 {
				n++
			}
			for k := 0; k < n; k++ {
				if hexIt {
					b.WriteString(hexEsc(r, rs[i+k]))
				} else {
					b.WriteByte(rs[i+k])
				}
			}
			i += n - 1
			continue
		}
		switch {
		case ctl || hexIt:
			b.WriteString(hexEsc(r, c))
		case special || edge:
			b.WriteByte('\\')
			b.WriteByte(c)
		case (c == '=' || c == ' ' || c == '#') && r.Intn(3) == 0:
			b.WriteByte('\\')
			b.WriteByte(c)
		default:
			b.WriteByte(c)
		}
	}
	return b.String()
}

func hexEsc(r *rand.Rand, c byte) string {
	if r.Intn(2) == 0 {
		return fmt.Sprintf("\\%02x", c)
	}
	return fmt.Sprintf("\\%02X", c)
}

// ---- the directory model ----------------------------------------------------

type Node struct {
	DN    DN
	Attrs []Attr
}

func (n *Node) entry() *Entry { return &Entry{DN: n.DN.String(), Attrs: n.Attrs} }

func (n *Node) clone() *Node {
	c := &Node{DN: n.DN}
	for _, a := range n.Attrs {
		c.Attrs = append(c.Attrs, Attr{a.Name, append([]string{}, a.Vals...)})
	}
	return c
}

// Model is the expected content of a directory.
type Model struct {
	Base  DN
	Nodes map[string]*Node
}

func newModel(base string) *Model {
	return &Model{Base: mustDN(base), Nodes: map[string]*Node{}}
}

func (m *Model) Clone() *Model {
	c := &Model{Base: m.Base, Nodes: map[string]*Node{}}
	for k, n := range m.Nodes {
		c.Nodes[k] = n
	}
	return c
}

func (m *Model) Keys() []string {
	var ks []string
	for k := range m.Nodes {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (m *Model) Get(d DN) *Node { return m.Nodes[d.Key()] }

func (m *Model) Children(d DN) []*Node {
	k := d.Key()
	var out []*Node
	for _, key := range m.Keys() {
		n := m.Nodes[key]
		if len(n.DN) == len(d)+1 && n.DN.Parent().Key() == k {
			out = append(out, n)
		}
	}
	return out
}

// mergeAttrs joins repeated attribute types of an entry as written.
func mergeAttrs(as []Attr) []Attr {
	var out []Attr
next:
	for _, a := range as {
		for i := range out {
			if fold(out[i].Name) == fold(a.Name) {
				out[i].Vals = append(append([]string{}, out[i].Vals...), a.Vals...)
				continue next
			}
		}
		out = append(out, Attr{a.Name, append([]string{}, a.Vals...)})
	}
	return out
}

// Add returns whether the add has to be accepted.
func (m *Model) Add(d DN, attrs []Attr) bool {
	if len(d) == 0 || !d.Under(m.Base) {
		return false
	}
	if m.Get(d) != nil {
		return false
	}
	if d.Key() != m.Base.Key() && m.Get(d.Parent()) == nil {
		return false
	}
	m.Nodes[d.Key()] = &Node{DN: d, Attrs: mergeAttrs(attrs)}
	return true
}

func (m *Model) Delete(d DN) bool {
	n := m.Get(d)
	if n == nil || len(m.Children(d)) > 0 || d.Key() == m.Base.Key() {
		return false
	}
	delete(m.Nodes, d.Key())
	return true
}

func getVals(as []Attr, name string) []string {
	for _, a := range as {
		if fold(a.Name) == fold(name) {
			return a.Vals
		}
	}
	return nil
}

func setVals(as []Attr, name string, vals []string) []Attr {
	var out []Attr
	done := false
	for _, a := range as {
		if fold(a.Name) == fold(name) {
			done = true
			if len(vals) > 0 {
				out = append(out, Attr{a.Name, vals})
			}
			continue
		}
		out = append(out, a)
	}
	if !done && len(vals) > 0 {
		out = append(out, Attr{name, vals})
	}
	return out
}

func hasFold(vs []string, v string) bool {
	for _, x := range vs {
		if fold(x) == fold(v) {
			return true
		}
	}
	return false
}

func applyAdd(cur, add []string) []string {
	out := append([]string{}, cur...)
	for _, v := range add {
		if !hasFold(cur, v) {
			out = append(out, v)
		}
	}
	return out
}

func applyDel(cur, del []string) []string {
	if len(del) == 0 {
		return nil
	}
	var out []string
	for _, v := range cur {
		if !hasFold(del, v) {
			out = append(out, v)
		}
	}
	return out
}

// applyChanges computes the result of a modify; ok is false if it has to be
// refused because it would remove a naming value.
func applyChanges(n *Node, chs []Change) ([]Attr, bool) {
	as := n.clone().Attrs
	for _, ch := range chs {
		switch ch.Op {
		case 0:
			as = setVals(as, ch.Type, applyAdd(getVals(as, ch.Type), ch.Vals))
		case 1:
			for _, ava := range n.DN[0] {
				if fold(ava.Type) == fold(ch.Type) && (len(ch.Vals) == 0 || hasFold(ch.Vals, ava.Val)) {
					return nil, false
				}
			}
			as = setVals(as, ch.Type, applyDel(getVals(as, ch.Type), ch.Vals))
		case 2:
			for _, ava := range n.DN[0] {
				if fold(ava.Type) == fold(ch.Type) && !hasFold(ch.Vals, ava.Val) {
					return nil, false
				}
			}
			as = setVals(as, ch.Type, append([]string{}, ch.Vals...))
		default:
			return nil, false
		}
	}
	return as, true
}

func (m *Model) Modify(d DN, chs []Change) bool {
	n := m.Get(d)
	if n == nil {
		return false
	}
	as, ok := applyChanges(n, chs)
	if !ok {
		return false
	}
	m.Nodes[d.Key()] = &Node{DN: n.DN, Attrs: as}
	return true
}

// Rename returns whether the rename has to be accepted.
func (m *Model) Rename(d DN, newRDN DN, deleteOld bool, otherParent bool) bool {
	n := m.Get(d)
	if n == nil || len(newRDN) != 1 || otherParent || len(m.Children(d)) > 0 || d.Key() == m.Base.Key() {
		return false
	}
	nd := append(DN{newRDN[0]}, d.Parent()...)
	if m.Get(nd) != nil {
		return false
	}
	as := n.clone().Attrs
	if deleteOld {
		for _, ava := range n.DN[0] {
			keep := false
			for _, nv := range newRDN[0] {
				if fold(nv.Type) == fold(ava.Type) && fold(nv.Val) == fold(ava.Val) {
					keep = true
				}
			}
			if !keep {
				as = setVals(as, ava.Type, applyDel(getVals(as, ava.Type), []string{ava.Val}))
			}
		}
	}
	for _, ava := range newRDN[0] {
		as = setVals(as, ava.Type, applyAdd(getVals(as, ava.Type), []string{ava.Val}))
	}
	delete(m.Nodes, d.Key())
	m.Nodes[nd.Key()] = &Node{DN: nd, Attrs: as}
	return true
}

// InScope lists the nodes in the scope of a search.
func (m *Model) InScope(base DN, scope int) []*Node {
	if m.Get(base) == nil {
		return nil
	}
	var out []*Node
	for _, k := range m.Keys() {
		n := m.Nodes[k]
		switch scope {
		case 0:
			if k == base.Key() {
				out = append(out, n)
			}
		case 1:
			if len(n.DN) == len(base)+1 && n.DN.Under(base) {
				out = append(out, n)
			}
		case 2:
			if n.DN.Under(base) {
				out = append(out, n)
			}
		}
	}
	return out
}

// Project gives the attributes a search with this list has to return.
func project(as []Attr, want []string) []Attr {
	if len(want) == 0 || len(want) == 1 && want[0] == "" {
		return as
	}
	var out []Attr
	for _, a := range as {
		for _, w := range want {
			if w == "*" || fold(w) == fold(a.Name) {
				out = append(out, a)
				break
			}
		}
	}
	return out
}

// Snapshot is a canonical form of a set of entries: one line per entry.
func (m *Model) Snapshot() map[string]string {
	out := map[string]string{}
	for k, n := range m.Nodes {
		out[k] = canonAttrs(n.Attrs)
	}
	return out
}

// snapshotOf turns search results into the same form; an entry that appears
// twice or has an unreadable name is an error.
func snapshotOf(es []Entry) (map[string]string, error) {
	out := map[string]string{}
	for _, e := range es {
		d, err := parseDN(e.DN)
		if err != nil {
			return nil, fmt.Errorf("the returned name %q cannot be read: %v", e.DN, err)
		}
		k := d.Key()
		if _, dup := out[k]; dup {
			return nil, fmt.Errorf("entry %q is returned twice", e.DN)
		}
		out[k] = e.Canon()
	}
	return out, nil
}

func diffSnap(want, got map[string]string) string {
	var lines []string
	for k, v := range want {
		g, ok := got[k]
		if !ok {
			lines = append(lines, fmt.Sprintf("missing: %s", k))
		} else if g != v {
			lines = append(lines, fmt.Sprintf("differs: %s\n   want %s\n   got  %s", k, clip(v, 600), clip(g, 600)))
		}
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			lines = append(lines, fmt.Sprintf("unexpected: %s", k))
		}
	}
	sort.Strings(lines)
	return clip(strings.Join(lines, "\n"), 6000)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// ---- LDIF output ------------------------------------------------------------

func ldifLine(name, v string) string {
	safe := true
	for i := 0; i < len(v); i++ {
		c := v[i]
		if c < 0x20 || c > 0x7e {
			safe = false
		}
	}
	if v != "" && (strings.ContainsAny(v[:1], " :<") || strings.HasSuffix(v, " ")) {
		safe = false
	}
	if safe {
		return name + ": " + v + "\n"
	}
	return name + ":: " + b64(v) + "\n"
}

func (n *Node) LDIF() string {
	var b strings.Builder
	b.WriteString(ldifLine("dn", n.DN.String()))
	for _, a := range n.Attrs {
		for _, v := range a.Vals {
			b.WriteString(ldifLine(a.Name, v))
		}
	}
	b.WriteString("\n")
	return b.String()
}

// LDIF writes all nodes, parents before children.
func (m *Model) LDIF() string {
	var b strings.Builder
	for _, n := range m.Ordered() {
		b.WriteString(n.LDIF())
	}
	return b.String()
}

func (m *Model) Ordered() []*Node {
	ks := m.Keys()
	sort.SliceStable(ks, func(i, j int) bool { return len(m.Nodes[ks[i]].DN) < len(m.Nodes[ks[j]].DN) })
	var out []*Node
	for _, k := range ks {
		out = append(out, m.Nodes[k])
	}
	return out
}
