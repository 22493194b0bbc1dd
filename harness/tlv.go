package main

import "math/rand"

// TLV is a BER element that can be damaged in controlled ways.
type TLV struct {
	Tag     byte
	Kids    []*TLV
	Data    []byte
	Len     []byte // overrides the length octets
	Trailer []byte // bytes written after the content
}

func (e *TLV) constructed() bool { return e.Tag&0x20 != 0 }

// parseTLV reads one element made by a correct encoder with short tags.
func parseTLV(b []byte) (*TLV, int) {
	if len(b) < 2 {
		return nil, 0
	}
	e := &TLV{Tag: b[0]}
	n := int(b[1])
	p := 2
	if n >= 0x80 {
		k := n & 0x7f
		n = 0
		for i := 0; i < k; i++ {
			n = n<<8 | int(b[p])
			p++
		}
	}
	body := b[p : p+n]
	if e.constructed() {
		for len(body) > 0 {
			k, used := parseTLV(body)
			if k == nil {
				return nil, 0
			}
			e.Kids = append(e.Kids, k)
			body = body[used:]
		}
	} else {
		e.Data = append([]byte{}, body...)
	}
	return e, p + n
}

func berLen(n int) []byte {
	switch {
	case n < 0x80:
		return []byte{byte(n)}
	case n < 0x100:
		return []byte{0x81, byte(n)}
	case n < 0x10000:
		return []byte{0x82, byte(n >> 8), byte(n)}
	case n < 0x1000000:
		return []byte{0x83, byte(n >> 16), byte(n >> 8), byte(n)}
	}
	return []byte{0x84, byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}
}

func (e *TLV) Bytes() []byte {
	var body []byte
	if e.constructed() || len(e.Kids) > 0 {
		for _, k := range e.Kids {
			body = append(body, k.Bytes()...)
		}
		body = append(body, e.Data...)
	} else {
		body = e.Data
	}
	out := []byte{e.Tag}
	if e.Len != nil {
		out = append(out, e.Len...)
	} else {
		out = append(out, berLen(len(body))...)
	}
	out = append(out, body...)
	return append(out, e.Trailer...)
}

func (e *TLV) clone() *TLV {
	c := &TLV{Tag: e.Tag, Data: append([]byte{}, e.Data...), Len: e.Len, Trailer: e.Trailer}
	for _, k := range e.Kids {
		c.Kids = append(c.Kids, k.clone())
	}
	return c
}

func (e *TLV) all(out []*TLV) []*TLV {
	out = append(out, e)
	for _, k := range e.Kids {
		out = k.all(out)
	}
	return out
}

func tlvOf(b []byte) *TLV {
	e, n := parseTLV(b)
	if e == nil || n != len(b) {
		panic("tlvOf: not one element")
	}
	return e
}

func prim(tag byte, s string) *TLV     { return &TLV{Tag: tag, Data: []byte(s)} }
func cons(tag byte, kids ...*TLV) *TLV { return &TLV{Tag: tag | 0x20, Kids: kids} }
func (e *TLV) put(i int, k *TLV) *TLV  { e.Kids[i] = k; return e }
func (e *TLV) drop(i int) *TLV         { e.Kids = append(e.Kids[:i:i], e.Kids[i+1:]...); return e }
func (e *TLV) push(k *TLV) *TLV        { e.Kids = append(e.Kids, k); return e }
func (e *TLV) at(path ...int) *TLV {
	for _, i := range path {
		e = e.Kids[i]
	}
	return e
}

var oddLens = [][]byte{
	{0}, {1}, {0x7f}, {0x80}, {0x81, 0}, {0x81, 0xff}, {0x82, 0xff, 0xff}, {0x84, 0x7f, 0xff, 0xff, 0xff}, {0x84, 0xff, 0xff, 0xff, 0xff},
	{0x85, 1, 0, 0, 0, 0}, {0x88, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {0x88, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {0x89, 1, 1, 1, 1, 1, 1, 1, 1, 1}, {0xff}, {0x82, 0, 1}, {0x84, 0x80, 0, 0, 0},
}

var oddTags = []byte{0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x08, 0x09, 0x0a, 0x0c, 0x0d, 0x13, 0x16, 0x17, 0x18, 0x1f, 0x20, 0x24, 0x30, 0x31, 0x3f, 0x40, 0x42, 0x4a, 0x50, 0x60, 0x63, 0x6e, 0x77, 0x80, 0x81, 0x82, 0x83, 0x85, 0x87, 0x8a, 0x8b, 0xa0, 0xa1, 0xa2, 0xa3, 0xa4, 0xa9, 0xbf, 0xff}

// damage changes an element tree somewhere; it returns the kind of damage.
func (e *TLV) damage(r *rand.Rand) string {
	all := e.all(nil)
	x := all[r.Intn(len(all))]
	switch r.Intn(13) {
	case 0:
		x.Tag = oddTags[r.Intn(len(oddTags))]
		return "tag"
	case 1:
		x.Len = oddLens[r.Intn(len(oddLens))]
		return "length"
	case 2:
		if len(x.Kids) > 0 {
			x.drop(r.Intn(len(x.Kids)))
			return "drop child"
		}
		x.Data = nil
		return "empty"
	case 3:
		x.Kids, x.Data = nil, nil
		return "empty"
	case 4:
		if len(x.Kids) > 0 {
			x.push(x.Kids[r.Intn(len(x.Kids))].clone())
			return "duplicate child"
		}
		x.Data = append(x.Data, x.Data...)
		return "double"
	case 5:
		if len(x.Kids) > 1 {
			i, j := r.Intn(len(x.Kids)), r.Intn(len(x.Kids))
			x.Kids[i], x.Kids[j] = x.Kids[j], x.Kids[i]
		}
		return "swap"
	case 6:
		b := make([]byte, r.Intn(20))
		r.Read(b)
		x.Kids, x.Data = nil, b
		return "random content"
	case 7:
		y := all[r.Intn(len(all))].clone()
		if len(x.Kids) > 0 {
			x.put(r.Intn(len(x.Kids)), y)
		}
		return "graft"
	case 8:
		x.Tag ^= 0x20
		return "flip constructed"
	case 9:
		x.Trailer = []byte{byte(r.Intn(256))}
		return "trailing byte"
	case 10:
		if len(x.Data) > 0 {
			x.Data[r.Intn(len(x.Data))] = pick(r, []byte{0, 0xff, '\\', ',', '=', '+', '(', '*', '"', 0x80, '#'})
		}
		return "content byte"
	case 11:
		x.push(&TLV{Tag: oddTags[r.Intn(len(oddTags))], Data: []byte("zz")})
		return "odd child"
	default:
		w := &TLV{Tag: x.Tag, Kids: x.Kids, Data: x.Data}
		x.Tag |= 0x20
		x.Kids, x.Data = []*TLV{w}, nil
		return "nest"
	}
}
