package main

import (
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"math/rand"
	"strings"
)

func init() {
	register("C08", "exploration",
		"a verification counts as distinct by the scheme and shape of the stored value, the kind of password tried, the back end and the outcome; trials of two different stored values of one kind count once",
		checkC08)
}

type storedPW struct {
	dn     DN
	value  string
	pw     string // "" when nothing may be accepted
	kind   string
	tries  []string // further passwords that must be refused
	noTail bool     // DES crypt: only the first eight characters count
}

func genSecret(r *rand.Rand) string {
	s := genPassword(r)
	if strings.HasPrefix(s, "{") && strings.Contains(s, "}") {
		s = "x" + s
	}
	return s
}

func genStored(r *rand.Rand) storedPW {
	pw := genSecret(r)
	var s storedPW
	switch r.Intn(7) {
	case 0, 1:
		s = storedPW{value: pw, pw: pw, kind: "clear"}
	case 2, 3:
		s = storedPW{value: sshaOf(r, pw), pw: pw, kind: "ssha"}
		if r.Intn(4) == 0 {
			s.value = pick(r, []string{"{ssha}", "{Ssha}"}) + s.value[6:]
		}
	case 4:
		id := pick(r, []string{"1", "5", "6"})
		pw = strings.ReplaceAll(pw, "\x00", "0")
		if len(pw) > 200 {
			pw = pw[:200]
		}
		s = storedPW{value: cryptOf(r, pw, id), pw: pw, kind: "crypt$" + id}
	case 5:
		pw = ""
		for i, n := 0, 1+r.Intn(8); i < n; i++ {
			pw += string(rune(33 + r.Intn(94)))
		}
		s = storedPW{value: cryptOf(r, pw, ""), pw: pw, kind: "crypt-des", noTail: true}
	default:
		s = storedPW{value: argonOf(r, pw, uint32(8+r.Intn(200)), uint32(1+r.Intn(2)), uint8(1+r.Intn(4))), pw: pw, kind: "argon2"}
	}
	return s
}

// damagedStored adds a little to a valid stored password.
func damagedStored(r *rand.Rand) storedPW {
	s := genStored(r)
	for s.kind == "clear" {
		s = genStored(r)
	}
	end := strings.Index(s.value, "}") + 1
	scheme, rest := s.value[1:end-1], s.value[end:]
	hows := []string{"space behind", "space in scheme", "tab behind", "byte behind", "letter behind", "value twice"}
	if s.kind != "argon2" { // where what is in front of the first $ does not count
		hows = append(hows, "space in front", "scheme twice", "brace")
	}
	if strings.HasPrefix(s.kind, "ssha") {
		hows = append(hows, "longer", "no padding", "more padding", "other alphabet")
	}
	how := pick(r, hows)
	v := ""
	switch how {
	case "space in front":
		v = s.value[:end] + " " + rest
	case "space behind":
		v = s.value + " "
	case "space in scheme":
		v = pick(r, []string{"{" + scheme + " }", "{ " + scheme + "}", "{ " + scheme + " }"}) + rest
	case "tab behind":
		v = s.value + "\t"
	case "byte behind":
		v = s.value + "\x00"
	case "letter behind":
		v = s.value + "A"
	case "value twice":
		v = s.value + rest
	case "scheme twice":
		v = s.value[:end] + s.value
	case "brace":
		v = s.value[:end] + "}" + rest
	case "longer":
		b, err := base64.StdEncoding.DecodeString(rest)
		if err != nil {
			panic(err)
		}
		v = s.value[:end] + base64.StdEncoding.EncodeToString(append(b, randBytes(r, 1+r.Intn(6))...))
	case "no padding":
		v = strings.TrimRight(s.value, "=")
	case "more padding":
		v = s.value + "="
	case "other alphabet":
		v = s.value[:end] + strings.NewReplacer("+", "-", "/", "_").Replace(rest)
	}
	if v == s.value { // nothing to change
		v += "="
	}
	return storedPW{value: v, kind: how + " " + s.kind, tries: []string{s.pw, v, v[end:], s.value}}
}

func malformedStored(r *rand.Rand) storedPW {
	if r.Intn(3) == 0 {
		return damagedStored(r)
	}
	if r.Intn(3) > 0 { // truncated or damaged valid ones
		s := genStored(r)
		for s.kind == "clear" {
			s = genStored(r)
		}
		orig := s.pw
		end := strings.Index(s.value, "}") + 1
		cut := end + r.Intn(len(s.value)-end)
		if strings.HasPrefix(s.kind, "argon2") {
			// a key of a few bytes would match by chance
			if k := strings.LastIndex(s.value, "$") + 1; cut > k && cut < k+12 {
				cut = k
			}
		}
		s.kind = "truncated " + s.kind
		s.tries = []string{orig, s.value[:cut], s.value[end:cut]}
		s.value, s.pw = s.value[:cut], ""
		return s
	}
	secret := "the secret"
	enc := base64.RawStdEncoding
	key := enc.EncodeToString([]byte("0123456789abcdef0123456789abcdef"))
	salt := enc.EncodeToString([]byte("saltsaltsaltsalt"))
	vals := []string{
		"", "{}", "{}" + secret, "{SSHA}", "{SSHA}!!!!", "{SSHA}AAAA", "{SSHA}AAA=", "{SSHA}" + b64("abc"), "{SSHA}" + b64("abcd"),
		"{SSHA}" + b64(strings.Repeat("x", 20)), "{SSHA}" + b64(strings.Repeat("x", 24)), "{SSHA}" + secret,
		"{CRYPT}", "{CRYPT}x", "{CRYPT}*", "{CRYPT}*0", "{CRYPT}*1", "{CRYPT}!", "{CRYPT}!!", "{CRYPT}$", "{CRYPT}$$", "{CRYPT}$$$", "{CRYPT}$$$$", "{CRYPT}$6", "{CRYPT}$6$", "{CRYPT}$6$$", "{CRYPT}$6$salt$",
		"{CRYPT}$9$x$y", "{CRYPT}ab", "{CRYPT}\xff\xfe", "{CRYPT}" + secret, "{CRYPT}\x00\x00",
		"{MD5}" + b64(secret), "{SHA}" + b64(secret), "{SMD5}x", "{CLEARTEXT}" + secret, "{PLAIN}" + secret, "{ SSHA }x", "{ARGON2I}x", "{unknown}" + secret, "{x}", "{SASL}user@realm",
		"{ARGON2}", "{ARGON2}$", "{ARGON2}$argon2id$v=19$m=64,t=1,p=1$$", "{ARGON2}$argon2id$v=19$m=64,t=1,p=1$" + salt + "$",
		"{ARGON2}$argon2id$v=19$m=64,t=0,p=1$" + salt + "$" + key, "{ARGON2}$argon2id$v=19$m=64,t=1,p=0$" + salt + "$" + key,
		"{ARGON2}$argon2id$v=19$m=0,t=1,p=1$" + salt + "$" + key, "{ARGON2}$argon2id$v=16$m=64,t=1,p=1$" + salt + "$" + key,
		"{ARGON2}$argon2i$v=19$m=64,t=1,p=1$" + salt + "$" + key, "{ARGON2}$argon2d$v=19$m=64,t=1,p=1$" + salt + "$" + key,
		"{ARGON2}$argon2id$v=19$m=-1,t=1,p=1$" + salt + "$" + key, "{ARGON2}$argon2id$v=19$m=64,t=1,p=300$" + salt + "$" + key,
		"{ARGON2}$argon2id$v=19$m=64,t=1,p=1$$" + key, "{ARGON2}$argon2id$v=19$m=64,t=1,p=1$***$***", "{ARGON2}" + secret, "{ARGON2}$argon2id$v=19$t=1$" + salt + "$" + key,
		"{argon2}$a$b$c$d$e", "{ARGON2}$$$$$", "{ARGON2}$argon2id$v=19$m=64,t=0,p=0$" + salt + "$",
	}
	i := r.Intn(len(vals))
	v := vals[i]
	tries := []string{secret, v, "x"}
	if k := strings.Index(v, "}"); k >= 0 {
		tries = append(tries, v[k+1:], v[:k+1])
	}
	return storedPW{value: v, kind: fmt.Sprintf("malformed%d", i), tries: tries}
}

// tryList lists passwords that must not be accepted.
func (s storedPW) tryList(r *rand.Rand) []string {
	out := append([]string{}, s.tries...)
	if s.pw != "" {
		if s.noTail {
			b := []byte(s.pw)
			b[r.Intn(len(b))] ^= byte(1 << uint(r.Intn(7)))
			out = append(out, string(b), s.pw[1:])
			if len(s.pw) > 1 {
				out = append(out, s.pw[:len(s.pw)-1])
			}
			if len(s.pw) < 8 {
				out = append(out, s.pw+"x")
			}
			out = append(out, s.pw+"\x00", s.pw+"\x00tail")
		} else {
			for i := 0; i < 3; i++ {
				p, _ := nearPW(r, s.pw)
				out = append(out, p)
			}
			out = append(out, s.pw+"\x00", s.pw+"\x00tail", s.pw+"\n", s.pw+"\r\n", s.pw+" ", " "+s.pw, "\n"+s.pw, strings.TrimSpace(s.pw))
		}
		out = append(out, s.value)
	}
	var res []string
	for _, p := range out {
		if p != s.pw && p != "" {
			res = append(res, p)
		}
	}
	return append(res, "")
}

func checkC08(t *T) {
	rounds := t.N(3, 20)
	for round := 0; round < rounds; round++ {
		r := t.Sub(fmt.Sprintf("round%d", round))
		t.ResetTrace()
		m := baseModel()
		fm := newModel(baseDN)
		fm.Add(fm.Base, []Attr{attr("objectClass", "organization"), attr("o", "x"), attr("dc", "lg")})
		var all []storedPW
		n := t.N(130, 250)
		for i := 0; i < n; i++ {
			s := genStored(r)
			if i%2 == 1 {
				s = malformedStored(r)
			}
			s.dn = m.Base.Child("ou", "people").Child("uid", fmt.Sprintf("user%d", i))
			as := []Attr{attr("objectClass", "person"), attr("uid", fmt.Sprintf("user%d", i)), attr("sn", "x")}
			if i == 1 {
				s = storedPW{dn: s.dn, kind: "none", tries: []string{"x", "the secret"}}
			} else {
				as = append(as, attr("userPassword", s.value))
			}
			m.Add(s.dn, as)
			fm.Nodes[s.dn.Key()] = &Node{DN: s.dn, Attrs: as}
			all = append(all, s)
		}
		db := t.StartDB(m, nil)
		file := t.StartLDIF(fm.LDIF(), "", nil)
		adm := db.DialAs(adminDN, adminPW)
		for _, srv := range []struct {
			name string
			s    *Server
		}{{"database", db}, {"file", file}} {
			c := srv.s.Dial()
			for i, s := range all {
				if s.pw != "" {
					t.verify(c, srv.name, s, s.pw, true)
				}
				for _, p := range s.tryList(r) {
					t.verify(c, srv.name, s, p, false)
				}
				t.SampleEvery(i, func() interface{} {
					return map[string]interface{}{"backend": srv.name, "kind": s.kind, "stored": s.value, "password": s.pw}
				})
			}
			c.Close()
			srv.s.CheckAlive("after verifying stored passwords")
		}
		// The same judgement is made of the old password of a change.
		for i, s := range all {
			if i%4 > 1 {
				continue
			}
			tl := s.tryList(r)
			p := tl[r.Intn(len(tl))]
			if s.pw != "" && i%8 == 0 {
				p = s.pw
			}
			if p == "" {
				continue
			}
			np := genSecret(r)
			res, _, err := adm.PwMod(sp(s.dn.String()), &p, &np)
			t.Trace("pwmod %q stored %q old %q", s.dn.String(), s.value, p)
			t.netErr(err, fmt.Sprintf("password change of stored value %q", s.value))
			ok := res.Code == rcSuccess
			if ok != (s.pw != "" && p == s.pw) {
				t.Fail("an old password was judged wrongly", fmt.Sprintf("stored %q made from %q, given %q: %+v", s.value, s.pw, p, res))
			}
			if ok {
				t.checkNewStored(adm, s.dn.String(), np)
				res, _, err = adm.PwMod(sp(s.dn.String()), &np, &np)
				t.netErr(err, "password change")
				first := t.stored(adm, s.dn.String())
				res2, _, err := adm.PwMod(sp(s.dn.String()), nil, &np)
				t.netErr(err, "password change")
				if res.Code != rcSuccess || res2.Code != rcSuccess {
					t.Fail("setting the same password again was refused", fmt.Sprintf("%+v %+v", res, res2))
				}
				second := t.stored(adm, s.dn.String())
				if strings.Join(first, "|") == strings.Join(second, "|") {
					t.Fail("setting the same password twice gives the same stored value", fmt.Sprintf("%q", first))
				}
				t.checkNewStored(adm, s.dn.String(), np)
				c := db.Dial()
				ns := storedPW{dn: s.dn, value: second[0], pw: np, kind: "set by server"}
				t.verify(c, "database", ns, np, true)
				pp, _ := nearPW(r, np)
				if pp != np {
					t.verify(c, "database", ns, pp, false)
				}
				t.verify(c, "database", ns, second[0], false)
				c.Close()
			}
			t.Eval(fmt.Sprint("old", s.kind, ok), true)
		}
		db.CheckAlive("after password changes")
		adm.Close()
		db.Kill()
		file.Kill()
	}
}

func (t *T) verify(c *Conn, backend string, s storedPW, pw string, want bool) {
	res, err := c.Bind(s.dn.String(), pw)
	t.netErr(err, fmt.Sprintf("bind with stored value %q", s.value))
	got := res.Code == rcSuccess
	if got != want {
		d := fmt.Sprintf("%s back end, %s, stored %q, made from %q, tried %q: %+v", backend, s.kind, s.value, s.pw, pw, res)
		if want {
			t.Fail("a stored password does not accept the password it was made from", d)
		}
		t.Fail("a stored password accepts another password", d)
	}
	t.Count(fmt.Sprintf("%s_accepted_%v", backend, want), 1)
	rel := "same"
	switch {
	case want:
	case pw == "":
		rel = "empty"
	case strings.HasPrefix(pw, s.pw):
		rel = "longer"
	case strings.HasPrefix(s.pw, pw):
		rel = "shorter"
	case len(pw) == len(s.pw):
		rel = "same length"
	default:
		rel = "other"
	}
	t.Eval(fmt.Sprint(backend, s.kind, len(s.value), rel, want), true)
}

func (t *T) checkNewStored(c *Conn, dn, pw string) {
	st := t.stored(c, dn)
	if len(st) != 1 {
		t.Fail("after a password change there is not exactly one stored value", fmt.Sprintf("%q", st))
	}
	if len(pw) < 4 {
		return
	}
	for _, form := range []string{pw, b64(pw), hex.EncodeToString([]byte(pw))} {
		if strings.Contains(strings.ToLower(st[0]), strings.ToLower(form)) {
			t.Fail("a newly stored value contains the password", fmt.Sprintf("%q contains %q", st[0], form))
		}
	}
}
