package main

import (
	"fmt"
	"math/rand"
	"strings"
	"unicode"
	"unicode/utf8"

	ber "github.com/go-asn1-ber/asn1-ber"
)

// Filter is the harness' own filter representation and evaluator.
type Filter struct {
	Kind  string // and or not eq pres sub
	Subs  []*Filter
	Attr  string
	Val   string
	Parts []SubPart
}

type SubPart struct {
	Pos int // 0 initial, 1 any, 2 final
	Val string
}

func Present(a string) *Filter  { return &Filter{Kind: "pres", Attr: a} }
func Eq(a, v string) *Filter    { return &Filter{Kind: "eq", Attr: a, Val: v} }
func And(fs ...*Filter) *Filter { return &Filter{Kind: "and", Subs: fs} }
func Or(fs ...*Filter) *Filter  { return &Filter{Kind: "or", Subs: fs} }
func Not(f *Filter) *Filter     { return &Filter{Kind: "not", Subs: []*Filter{f}} }
func Sub(a string, parts ...SubPart) *Filter {
	return &Filter{Kind: "sub", Attr: a, Parts: parts}
}

func (f *Filter) String() string {
	switch f.Kind {
	case "and", "or", "not":
		s := map[string]string{"and": "&", "or": "|", "not": "!"}[f.Kind]
		for _, k := range f.Subs {
			s += k.String()
		}
		return "(" + s + ")"
	case "eq":
		return fmt.Sprintf("(%s=%q)", f.Attr, f.Val)
	case "pres":
		return "(" + f.Attr + "=*)"
	case "sub":
		s := "(" + f.Attr + "="
		for i, p := range f.Parts {
			if p.Pos != 0 && i == 0 || p.Pos == 1 && i > 0 && f.Parts[i-1].Pos != 1 && false {
				s += "*"
			}
			s += fmt.Sprintf("%q", p.Val)
			if p.Pos != 2 {
				s += "*"
			}
		}
		return s + ")"
	}
	return "?"
}

func (f *Filter) Encode() *ber.Packet {
	ctx := func(tag int) *ber.Packet {
		return ber.Encode(ber.ClassContext, ber.TypeConstructed, ber.Tag(tag), nil, "")
	}
	switch f.Kind {
	case "and", "or", "not":
		p := ctx(map[string]int{"and": 0, "or": 1, "not": 2}[f.Kind])
		for _, k := range f.Subs {
			p.AppendChild(k.Encode())
		}
		return p
	case "eq":
		p := ctx(3)
		p.AppendChild(octet(f.Attr))
		p.AppendChild(octet(f.Val))
		return p
	case "pres":
		return ctxString(7, f.Attr)
	case "sub":
		p := ctx(4)
		p.AppendChild(octet(f.Attr))
		s := seq()
		for _, k := range f.Parts {
			s.AppendChild(ctxString(k.Pos, k.Val))
		}
		p.AppendChild(s)
		return p
	}
	panic("filter kind " + f.Kind)
}

// fold lowers the case of letters and leaves bytes that are no text alone.
func fold(s string) string {
	if utf8.ValidString(s) {
		return strings.ToLower(s)
	}
	var b strings.Builder
	for len(s) > 0 {
		c, n := utf8.DecodeRuneInString(s)
		if c == utf8.RuneError && n == 1 {
			b.WriteByte(s[0])
		} else {
			b.WriteRune(unicode.ToLower(c))
		}
		s = s[n:]
	}
	return b.String()
}

// Match evaluates the filter on an entry.
func (f *Filter) Match(e *Entry) bool {
	switch f.Kind {
	case "and":
		for _, k := range f.Subs {
			if !k.Match(e) {
				return false
			}
		}
		return true
	case "or":
		for _, k := range f.Subs {
			if k.Match(e) {
				return true
			}
		}
		return false
	case "not":
		return !f.Subs[0].Match(e)
	case "pres":
		return e.Has(f.Attr)
	case "eq":
		for _, v := range e.Get(f.Attr) {
			if fold(v) == fold(f.Val) {
				return true
			}
		}
		return false
	case "sub":
		for _, v := range e.Get(f.Attr) {
			if matchSub(fold(v), f.Parts) {
				return true
			}
		}
		return false
	}
	return false
}

func matchSub(v string, parts []SubPart) bool {
	end := len(v)
	rest := v
	for i, p := range parts {
		w := fold(p.Val)
		switch p.Pos {
		case 0:
			if i != 0 || !strings.HasPrefix(rest, w) {
				return false
			}
			rest = rest[len(w):]
		case 1:
			j := strings.Index(rest, w)
			if j < 0 {
				return false
			}
			rest = rest[j+len(w):]
		case 2:
			if !strings.HasSuffix(rest, w) {
				return false
			}
			rest = rest[len(rest):]
		}
	}
	_ = end
	return true
}

// randCase changes the letter case of ASCII letters at random.
func randCase(r *rand.Rand, s string) string {
	b := []byte(s)
	for i, c := range b {
		switch {
		case c >= 'a' && c <= 'z' && r.Intn(3) == 0:
			b[i] = c - 32
		case c >= 'A' && c <= 'Z' && r.Intn(3) == 0:
			b[i] = c + 32
		}
	}
	return string(b)
}

// genFilter makes a random filter over the given attributes and value pool.
func genFilter(r *rand.Rand, depth int, attrs []string, vals func(r *rand.Rand, attr string) string) *Filter {
	attr := func() string { return attrs[r.Intn(len(attrs))] }
	if depth > 0 && r.Intn(15) == 0 { // many operands
		f := And()
		if r.Intn(3) > 0 {
			f = Or()
		}
		n := 4 + r.Intn(10)
		if r.Intn(6) == 0 {
			n = pick(r, []int{0, 33, 65, 129, 200})
		}
		for i := n; i > 0; i-- {
			g := genFilter(r, 0, attrs, vals)
			if f.Kind == "and" && r.Intn(3) > 0 {
				g = Not(g)
			}
			f.Subs = append(f.Subs, g)
		}
		return f
	}
	if depth > 0 && r.Intn(10) < 6 {
		switch r.Intn(5) {
		case 0, 1:
			f := And()
			for i := 1 + r.Intn(3); i > 0; i-- {
				f.Subs = append(f.Subs, genFilter(r, depth-1, attrs, vals))
			}
			return f
		case 2, 3:
			f := Or()
			for i := 1 + r.Intn(3); i > 0; i-- {
				f.Subs = append(f.Subs, genFilter(r, depth-1, attrs, vals))
			}
			return f
		default:
			return Not(genFilter(r, depth-1, attrs, vals))
		}
	}
	a := attr()
	name := randCase(r, a)
	switch r.Intn(6) {
	case 0:
		return Present(name)
	case 1, 2:
		return Eq(name, randCase(r, vals(r, a)))
	default:
		v := randCase(r, vals(r, a))
		return Sub(name, genParts(r, v)...)
	}
}

// genParts cuts a value into substring parts, sometimes spoiled.
func genParts(r *rand.Rand, v string) []SubPart {
	rs := []rune(v)
	if len(rs) == 0 {
		rs = []rune("x")
	}
	piece := func(lo, hi int) (string, int, int) {
		if hi <= lo {
			return "", lo, lo
		}
		a := lo + r.Intn(hi-lo)
		b := a + 1 + r.Intn(hi-a)
		return string(rs[a:b]), a, b
	}
	var parts []SubPart
	lo, hi := 0, len(rs)
	mode := r.Intn(8)
	if mode&1 != 0 {
		n := 1 + r.Intn((hi+1)/2)
		parts = append(parts, SubPart{0, string(rs[:n])})
		lo = n
	}
	var final *SubPart
	if mode&2 != 0 && hi > lo {
		n := 1 + r.Intn((hi-lo+1)/2)
		final = &SubPart{2, string(rs[hi-n:])}
		hi -= n
	}
	nAny := 0
	if mode&4 != 0 || (len(parts) == 0 && final == nil) {
		nAny = 1 + r.Intn(2)
	}
	for i := 0; i < nAny; i++ {
		p, _, b := piece(lo, hi)
		if p == "" {
			break
		}
		parts = append(parts, SubPart{1, p})
		lo = b
	}
	if final != nil {
		parts = append(parts, *final)
	}
	if len(parts) == 0 {
		parts = append(parts, SubPart{1, string(rs[:1])})
	}
	switch r.Intn(6) {
	case 0: // spoil one part
		parts[r.Intn(len(parts))].Val += "q"
	case 1: // swap the values of two parts
		if len(parts) > 1 {
			i, j := r.Intn(len(parts)), r.Intn(len(parts))
			parts[i].Val, parts[j].Val = parts[j].Val, parts[i].Val
		}
	}
	return parts
}
