package main

import (
	"encoding/base64"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

func init() {
	register("C22", "exploration",
		"a secret counts as distinct by scheme, the way it was given and the kinds of characters in it; a user list by the kinds of names, numbers, full names, addresses and passwords in it; refused input by kind and position; secrets and lists with only letters and digits count as trivial",
		checkC22)
}

func checkC22(t *T) {
	t.Assume("secrets have no line break; given user names, addresses and paths have no {{ in them; user names are unique within a list; a user line without a password is not covered")
	t.Go(
		func() { c22Secrets(t) },
		func() { c22Generated(t) },
		func() { c22Users(t) },
		func() { c22BadSecrets(t) },
		func() { c22BadUsers(t) },
		func() { c22ManyUsers(t) },
	)
}

func crashed(stderr string) bool {
	return strings.Contains(stderr, "goroutine ") || strings.Contains(stderr, "panic:") || strings.Contains(stderr, "fatal error:")
}

var c22Runes = map[string][]rune{
	"plain":   []rune("abcdefghijkmnopqrstuvwxyzABCDEFGHIJKLMNPQRSTUVWXYZ23456789"),
	"percent": []rune("%%%sdvxqT!0123456789-+# "),
	"brace":   []rune("{}{}{}ABCabc"),
	"quote":   []rune("\"'`\\$&|;<>()*?[]~!#"),
	"space":   []rune(" \t"),
	"sign":    []rune(",.:=@/_+-^"),
	"wide":    []rune("äöüßéñ日本語Ωж€😀"),
}

// c22Secret returns a strong secret without line breaks and the kinds of
// characters in it. No colon if it has to fit into a user line.
func c22Secret(r *rand.Rand, line bool) (string, string) {
	kinds := []string{"percent", "brace", "quote", "space", "sign", "wide"}
	use := map[string]bool{"plain": true}
	for _, k := range kinds {
		if r.Intn(3) == 0 {
			use[k] = true
		}
	}
	names := sortedKeys(use)
	n := 14 + r.Intn(20)
	if r.Intn(12) == 0 {
		n = 60 + r.Intn(60)
	}
	var out []rune
	for len(out) < n {
		k := "plain"
		if r.Intn(2) == 0 {
			k = pick(r, names)
		}
		c := pick(r, c22Runes[k])
		if line && c == ':' {
			continue
		}
		out = append(out, c)
	}
	// The first characters decide about schemes, spaces and flags.
	if use["space"] && r.Intn(3) == 0 {
		out[0] = ' '
		names = append(names, "leading")
	}
	if use["space"] && r.Intn(3) == 0 {
		out[len(out)-1] = ' '
		names = append(names, "trailing")
	}
	if use["brace"] && r.Intn(3) == 0 {
		out = append([]rune(pick(r, []string{"{", "{{", "{}", "{x}", "{SSHA}", "{CLEARTEXT}", "{argon2}", "}", "{{x}}", "{crypt}$1$"})), out...)
		names = append(names, "bracefirst")
	}
	return string(out), strings.Join(names, "+")
}

func ascii(s string) bool {
	return strings.IndexFunc(s, func(c rune) bool { return c >= 0x80 }) < 0
}

// schemeLike tells if a stored value in plain text would be read as hashed.
func schemeLike(s string) bool {
	return strings.HasPrefix(s, "{") && strings.Contains(s, "}")
}

type c22Stored struct {
	secret, value, how string
}

// c22Accepts stores the values and binds with the secrets and with others
// that are close to them.
func c22Accepts(t *T, r *rand.Rand, all []c22Stored) {
	if len(all) == 0 {
		return
	}
	m := baseModel()
	var users []string
	for i, s := range all {
		n := &Node{DN: mustDN(baseDN).Child("uid", fmt.Sprintf("gen%d", i)), Attrs: []Attr{attr("objectClass", "top"), attr("uid", fmt.Sprintf("gen%d", i)), attr("userPassword", s.value)}}
		m.Add(n.DN, n.Attrs)
		users = append(users, n.DN.String())
	}
	s := t.StartLDIF(c22LDIF(m), "", nil)
	c := s.Dial()
	for i, st := range all {
		res, err := c.Bind(users[i], st.secret)
		t.netErr(err, "bind with a generated password")
		if res.Code != rcSuccess {
			t.Fail("a stored password from the password command does not accept the secret", st.how, fmt.Sprintf("secret %q", st.secret), fmt.Sprintf("stored %q", st.value), fmt.Sprintf("%+v", res))
		}
		for k := 0; k < 2; k++ {
			near, what := nearPW(r, st.secret)
			if near == st.secret || near == "" {
				continue
			}
			res, err := c.Bind(users[i], near)
			t.netErr(err, "bind with another password")
			if res.Code == rcSuccess {
				t.Fail("a stored password from the password command accepts another secret", st.how, what, fmt.Sprintf("secret %q, accepted %q", st.secret, near), fmt.Sprintf("stored %q", st.value))
			}
			t.Count("wrong_secrets_tried", 1)
		}
		t.Count("secrets_bound", 1)
	}
	c.Close()
	s.CheckAlive("after the binds")
	s.Kill()
}

// c22LDIF writes all values in base64, nothing in them is interpreted.
func c22LDIF(m *Model) string {
	var b strings.Builder
	for _, n := range m.Ordered() {
		fmt.Fprintf(&b, "dn: %s\n", n.DN.String())
		for _, a := range n.Attrs {
			for _, v := range a.Vals {
				fmt.Fprintf(&b, "%s:: %s\n", a.Name, base64.StdEncoding.EncodeToString([]byte(v)))
			}
		}
		b.WriteString("\n")
	}
	return b.String()
}

var cheapArgon = []string{"--argon2-memory", "64"}

func c22Secrets(t *T) {
	r := t.Sub("secrets")
	var all []c22Stored
	for i := 0; i < t.N(350, 1200); i++ {
		secret, kinds := c22Secret(r, false)
		args := []string{"gen", "passwd"}
		scheme := pick(r, []string{"{ARGON2}", "{CLEARTEXT}", "{CLEARTEXT}", "", "default"})
		switch scheme {
		case "default":
			if r.Intn(8) > 0 {
				args = append(args, cheapArgon...)
			}
		case "{ARGON2}":
			args = append(args, "--password-scheme", scheme)
			args = append(args, "--argon2-memory", pick(r, []string{"8", "16", "64", "1024"}), "--argon2-iterations", pick(r, []string{"1", "2", "3"}), "--argon2-lanes", pick(r, []string{"1", "2", "4"}))
		default:
			args = append(args, "--password-scheme="+scheme)
		}
		way := pick(r, []string{"-s", "--secret", "file"})
		switch way {
		case "file":
			if r.Intn(5) == 0 && scheme != "{CLEARTEXT}" && scheme != "" {
				secret += string([]byte{0, 0xff, 0x80, 1, 0xc3})
				kinds += "+binary"
			}
			f := filepath.Join(t.Dir("secret"), "my secret%d")
			t.Must(os.WriteFile(f, []byte(secret), 0o600), "write")
			args = append(args, "-T", f)
		case "-s":
			args = append(args, "-s", secret)
		default:
			args = append(args, "--secret="+secret)
		}
		bare := r.Intn(3) == 0
		if bare {
			args = append(args, "-n")
		}
		if !ascii(secret) {
			// The estimate is off for other characters.
			args = append(args, "--min-password-strength", "0")
		} else if r.Intn(4) == 0 {
			args = append(args, "--min-password-strength", pick(r, []string{"0", "1", "2"}))
		}
		out, serr, code := t.Command("", nil, args...)
		how := fmt.Sprintf("idmd %q", args)
		if crashed(serr) {
			t.Fail("the password command crashes", how, clip(serr, 3000))
		}
		clear := scheme == "{CLEARTEXT}" || scheme == ""
		key := fmt.Sprintf("secret %s %s %s", scheme, way, kinds)
		if code != 0 {
			if clear && schemeLike(secret) {
				// Cannot be stored in plain text.
				t.Count("secrets_refused", 1)
				t.Eval("refused "+key, true)
				continue
			}
			t.Fail("the password command refuses a strong secret", how, fmt.Sprintf("exit %d", code), clip(serr, 2000))
		}
		if !bare {
			if !strings.HasSuffix(out, "\n") {
				t.Fail("the output of the password command does not end with a line break", how, fmt.Sprintf("%q", out))
			}
			out = out[:len(out)-1]
		}
		all = append(all, c22Stored{secret, out, how})
		t.Eval(key, kinds != "plain" || !clear)
		t.SampleEvery(i, func() interface{} { return fmt.Sprintf("%s -> %q", how, clip(out, 120)) })
		if len(all) == 50 {
			c22Accepts(t, r, all)
			all = nil
		}
	}
	c22Accepts(t, r, all)
}

// c22Generated: random secrets are printed as they are.
func c22Generated(t *T) {
	r := t.Sub("generated")
	seen := map[string]bool{}
	n := t.N(120, 1500)
	var all []c22Stored
	for i := 0; i < n; i++ {
		args := []string{"gen", "passwd", "-g"}
		if r.Intn(2) == 0 {
			args = append(args, "--password-scheme", "{ARGON2}")
		}
		out, serr, code := t.Command("", nil, args...)
		if crashed(serr) {
			t.Fail("the password command crashes", fmt.Sprint(args), clip(serr, 3000))
		}
		if code != 0 {
			t.Count("generated_refused", 1)
			continue
		}
		v := strings.TrimSuffix(out, "\n")
		if len(v) != 12 || seen[v] {
			t.Fail("the password command does not generate a new secret of the given length", fmt.Sprint(args), fmt.Sprintf("%q", out), fmt.Sprintf("seen before: %v", seen[v]))
		}
		seen[v] = true
		all = append(all, c22Stored{v, v, "idmd gen passwd -g"})
		kind := "generated"
		if strings.ContainsAny(v, "%") {
			kind += " percent"
		}
		t.Eval(kind, true)
	}
	if len(all) < n/2 {
		t.Fail("the password command mostly refuses its own random secrets", fmt.Sprintf("%d of %d", n-len(all), n))
	}
	c22Accepts(t, r, all)
}

func c22BadSecrets(t *T) {
	r := t.Sub("badsecrets")
	d := t.Dir("bad")
	empty := filepath.Join(d, "empty")
	t.Must(os.WriteFile(empty, nil, 0o600), "write")
	blank := filepath.Join(d, "blank")
	t.Must(os.WriteFile(blank, []byte(" \t\n"), 0o600), "write")
	weakf := filepath.Join(d, "weak")
	t.Must(os.WriteFile(weakf, []byte("letmein"), 0o600), "write")
	strong := "kU8#wq0Zr!mP4tLx"
	cases := []struct {
		what string
		args []string
	}{
		{"empty secret", []string{"-s", ""}},
		{"empty secret file", []string{"-T", empty}},
		{"blank secret", []string{"-s", "   "}},
		{"blank secret file", []string{"-T", blank}},
		{"empty secret at any strength", []string{"-s", "", "--min-password-strength", "0"}},
		{"weak secret", []string{"-s", "password"}},
		{"weak secret", []string{"-s", "123456"}},
		{"weak secret", []string{"-s", "aaaaaaaaaaaa"}},
		{"weak secret", []string{"-s", "qwertyuiop"}},
		{"weak secret", []string{"-s", "abc"}},
		{"weak secret file", []string{"-T", weakf}},
		{"weak plain text secret", []string{"-s", "password1", "--password-scheme", "{CLEARTEXT}"}},
		{"strength out of reach", []string{"-s", strong, "--min-password-strength", "5"}},
		{"missing secret file", []string{"-T", filepath.Join(d, "missing")}},
		{"folder as secret file", []string{"-T", d}},
		{"two secrets", []string{"-s", strong, "-T", weakf}},
		{"two secrets", []string{"-s", strong, "-g"}},
		{"unknown scheme", []string{"-s", strong, "--password-scheme", "{MD5}"}},
		{"unknown scheme", []string{"-s", strong, "--password-scheme", "ARGON2"}},
		{"verify-only scheme", []string{"-s", strong, "--password-scheme", "{SSHA}"}},
		{"verify-only scheme", []string{"-s", strong, "--password-scheme", "{CRYPT}"}},
		{"no rounds", []string{"-s", strong, "--argon2-iterations", "0"}},
		{"no lanes", []string{"-s", strong, "--argon2-lanes", "0"}},
		{"too many lanes", []string{"-s", strong, "--argon2-lanes", "256"}},
		{"negative memory", []string{"-s", strong, "--argon2-memory", "-1"}},
		{"extra argument", []string{strong}},
		{"no secret", nil},
	}
	for _, c := range cases {
		args := append([]string{"gen", "passwd"}, c.args...)
		if r.Intn(2) == 0 {
			args = append(args, "-n")
		}
		out, serr, code := t.Command("", []byte{}, args...)
		how := fmt.Sprintf("idmd %q", args)
		if crashed(serr) {
			t.Fail("the password command crashes on bad input", c.what, how, clip(serr, 3000))
		}
		if code == 0 {
			t.Fail("the password command accepts bad input", c.what, how, fmt.Sprintf("output %q", out), clip(serr, 1000))
		}
		if strings.TrimSpace(serr) == "" {
			t.Fail("the password command says nothing about bad input", c.what, how)
		}
		t.Count("bad_input", 1)
		t.Eval("bad "+c.what, true)
	}
}

// --- users

type c22User struct {
	name, pw, uid, gid, full string
	mails                    []string // valid ones in order
	fields                   []string // fields after the full name as written
	line                     string
}

func c22Name(r *rand.Rand, i int, feats map[string]bool) string {
	base := strings.ToLower(string(pick(r, c22Runes["plain"][:24]))) + genWord(r)
	switch r.Intn(12) {
	case 0:
		feats["name-mixed"] = true
		base = strings.ToUpper(base[:1]) + base[1:]
	case 1:
		feats["name-dot"] = true
		base += pick(r, []string{".", "-", "_", "$"}) + "x"
	case 2:
		feats["name-wide"] = true
		base += pick(r, []string{"ä", "é", "日", "ß", "ñ"})
	case 3:
		feats["name-space"] = true
		base += " " + genWord(r)
	case 4, 5:
		feats["name-special"] = true
		base += pick(r, []string{",", "+", "=", ";", "<", ">", "\"", "\\", "#", "/", ",ou=x", "+cn=y"}) + genWord(r)
	case 6:
		feats["name-percent"] = true
		base += "%" + pick(r, []string{"s", "d", "20", "!"})
	}
	return fmt.Sprintf("%s%d", base, i)
}

func genWord(r *rand.Rand) string {
	n := 2 + r.Intn(6)
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcdefghijklmnoprstuvwz"[r.Intn(23)]
	}
	return string(b)
}

func c22Mail(r *rand.Rand, feats map[string]bool) string {
	l := genWord(r)
	for k := r.Intn(3); k > 0; k-- {
		l += string("!#$%&'*+/=?^_`|~-.{}"[r.Intn(20)]) + genWord(r)
		feats["mail-sign"] = true
	}
	if r.Intn(4) == 0 {
		feats["mail-default-domain"] = true
		return l + "@lg.local"
	}
	return l + "@" + genWord(r) + pick(r, []string{".example", ".example.org", "", "-x.test", "lg.local", ".lg.local", "-lg.local", ".lg.local.example"})
}

func c22Users1(r *rand.Rand, n int, clear, strong bool, feats map[string]bool) []*c22User {
	var us []*c22User
	near := r.Intn(2) == 0 // given numbers only where the generated ones are
	for i := 0; i < n; i++ {
		u := &c22User{name: c22Name(r, i, feats)}
		for {
			var kinds string
			u.pw, kinds = c22Secret(r, true)
			if strong && !ascii(u.pw) {
				continue
			}
			// Names and passwords must survive the line format and, in plain
			// text, cannot look like a hash.
			if clear && schemeLike(u.pw) || !utf8.ValidString(u.pw) {
				continue
			}
			for _, k := range strings.Split(kinds, "+") {
				feats["pw-"+k] = true
			}
			break
		}
		num := func(what string) string {
			if near {
				feats[what+"-close"] = true
				if r.Intn(3) > 0 {
					return ""
				}
				return strconv.Itoa(998 + r.Intn(2+n))
			}
			switch r.Intn(7) {
			case 0, 1:
				feats[what+"-none"] = true
				return ""
			case 2:
				feats[what+"-zero"] = true
				return "0"
			case 3:
				feats[what+"-large"] = true
				return strconv.FormatInt(1<<31+r.Int63n(1<<31), 10)
			case 4:
				feats[what+"-near"] = true
				return strconv.Itoa(999 + r.Intn(8))
			case 5:
				return "0" + strconv.Itoa(2000+r.Intn(500))
			default:
				return strconv.Itoa(1 + r.Intn(60000))
			}
		}
		u.uid, u.gid = num("uid"), num("gid")
		gecos := ""
		switch r.Intn(7) {
		case 0:
			feats["full-none"] = true
		case 1:
			feats["full-one-word"] = true
			gecos = genWord(r)
		case 2:
			feats["full-wide"] = true
			gecos = pick(r, []string{"Jürgen Müller", "日本 太郎", "Ægir Øster", "Ünal"})
		case 3:
			feats["full-sign"] = true
			gecos = pick(r, []string{"<b>Bold</b> One", "#1 Fan", "O'Neil \"Q\" Pat", "50% Off", "{x} Y", "a {{b}} c", "{{.BaseDN}} Smith", "Back\\slash", "<<x>> y", "x}}", "&amp; Co"})
		case 4:
			feats["full-space"] = true
			gecos = pick(r, []string{" Lead Space", "Trail Space ", "Two  Spaces", "Tab\tName", "A B C D E"})
		default:
			gecos = genWord(r) + " " + genWord(r)
		}
		u.full = gecos
		if gecos != "" {
			for k := r.Intn(5); k > 0; k-- {
				switch r.Intn(4) {
				case 0:
					gecos += "," + pick(r, []string{"Room 12", "", "555-1234", "not@a@mail", "@none", "spaced out@x.example", "Büro"})
				default:
					m := c22Mail(r, feats)
					if !hasFold(u.mails, m) {
						u.mails = append(u.mails, m)
						gecos += "," + m
						feats["mail"] = true
					}
				}
			}
		} else {
			u.full = u.name
		}
		u.line = strings.Join([]string{u.name, u.pw, u.uid, u.gid, gecos, "/home/" + genWord(r), "/bin/sh"}, ":")
		if r.Intn(10) == 0 {
			u.line += ":more"
			feats["fields-more"] = true
		}
		us = append(us, u)
	}
	return us
}

// c22List writes the lines with comments and gaps between them.
func c22List(r *rand.Rand, us []*c22User, feats map[string]bool) string {
	var b strings.Builder
	end := "\n"
	if r.Intn(4) == 0 {
		end = "\r\n"
		feats["crlf"] = true
	}
	for i, u := range us {
		switch r.Intn(8) {
		case 0:
			b.WriteString("# a comment: with:colons" + end)
		case 1:
			b.WriteString(end)
		case 2:
			b.WriteString("  \t" + end)
		}
		l := u.line
		if r.Intn(8) == 0 {
			l = "  " + l
		}
		b.WriteString(l)
		if i < len(us)-1 || r.Intn(3) > 0 {
			b.WriteString(end)
		} else {
			feats["no-line-end"] = true
		}
	}
	return b.String()
}

// c22Serve loads the output and compares it with the list.
func c22Serve(t *T, r *rand.Rand, us []*c22User, in, out string, binds int) {
	domain := "lg.local"
	var extra []string
	if r.Intn(2) == 0 {
		domain = "mail.example.net"
		extra = append(extra, "--ldif-template-default-mail-domain", domain)
	}
	company := "Some Company"
	extra = append(extra, "--ldif-template-default-company", company)
	s, err := t.TryStart(ServerOpts{Handler: "ldif", Main: c22File(t, out), Anonymous: true, Extra: extra})
	if err != nil {
		t.Fail("the server does not load the output of the user command", err.Error(), clip(in, 8000), clip(out, 16000))
	}
	c := s.Dial()
	sr, serr := c.Search(SearchReq{Base: baseDN, Scope: 2, Filter: Present("objectClass")})
	t.netErr(serr, "search all users")
	if sr.Result.Code != rcSuccess {
		t.Fail("the users cannot be searched", fmt.Sprintf("%+v", sr.Result), clip(in, 8000), clip(out, 16000))
	}
	byUID := map[string]Entry{}
	for _, e := range sr.Entries {
		v := getVals(e.Attrs, "uid")
		if len(v) != 1 {
			t.Fail("an entry has not exactly one user name", fmt.Sprintf("%+v", e), clip(in, 8000), clip(out, 16000))
		}
		byUID[v[0]] = e
	}
	if len(sr.Entries) != len(us) || len(byUID) != len(us) {
		t.Fail("the server does not serve one entry for each input line", fmt.Sprintf("%d lines, %d entries, %d names", len(us), len(sr.Entries), len(byUID)), clip(in, 8000), clip(out, 16000))
	}
	bad := func(u *c22User, e Entry, what string, want, got interface{}) {
		t.Fail("a user entry is not as given", fmt.Sprintf("%s: given %q, served %q", what, want, got), u.line, fmt.Sprintf("%+v", e), clip(out, 16000))
	}
	uids, gids := map[int64][]*c22User{}, map[int64][]*c22User{}
	parent := mustDN("ou=Users,ou=" + company + "," + baseDN)
	for i, u := range us {
		e, ok := byUID[u.name]
		if !ok {
			t.Fail("a user is missing", u.line, clip(in, 8000), clip(out, 16000))
		}
		want := parent.Child("uid", u.name)
		if d, err := parseDN(e.DN); err != nil || d.Key() != want.Key() {
			bad(u, e, "name", want.String(), e.DN)
		}
		for _, x := range []struct {
			what, given string
			seen        map[int64][]*c22User
		}{{"uidNumber", u.uid, uids}, {"gidNumber", u.gid, gids}} {
			vs := getVals(e.Attrs, x.what)
			if len(vs) != 1 {
				bad(u, e, x.what, x.given, vs)
			}
			n, err := strconv.ParseInt(vs[0], 10, 64)
			if err != nil {
				bad(u, e, x.what, x.given, vs)
			}
			if x.given != "" {
				if g, _ := strconv.ParseInt(x.given, 10, 64); g != n {
					bad(u, e, x.what, x.given, vs)
				}
			}
			x.seen[n] = append(x.seen[n], u)
		}
		if v := getVals(e.Attrs, "cn"); len(v) != 1 || v[0] != u.full {
			bad(u, e, "full name", u.full, v)
		}
		if f, l := getVals(e.Attrs, "givenName"), getVals(e.Attrs, "sn"); len(f) == 1 && len(l) == 1 && f[0]+" "+l[0] != u.full && u.full != u.name {
			bad(u, e, "first and last name", u.full, f[0]+" "+l[0])
		}
		if v := getVals(e.Attrs, "mail"); len(v) != 1 || v[0] != u.name+"@"+domain {
			bad(u, e, "mail", u.name+"@"+domain, v)
		}
		var mails []string
		for _, m := range u.mails {
			if strings.HasSuffix(m, "@lg.local") {
				m = strings.TrimSuffix(m, "lg.local") + domain
			}
			mails = append(mails, m)
		}
		got := append([]string(nil), getVals(e.Attrs, "mailAlternateAddress")...)
		sort.Strings(mails)
		sort.Strings(got)
		if strings.Join(mails, "\n") != strings.Join(got, "\n") {
			bad(u, e, "mail addresses", mails, got)
		}
		if i < binds {
			bc := s.Dial()
			res, err := bc.Bind(e.DN, u.pw)
			t.netErr(err, "bind of a generated user")
			if res.Code != rcSuccess {
				bad(u, e, "password", u.pw, fmt.Sprintf("%+v", res))
			}
			near, what := nearPW(r, u.pw)
			if near != u.pw && near != "" {
				res, err := bc.Bind(e.DN, near)
				t.netErr(err, "bind of a generated user")
				if res.Code == rcSuccess {
					bad(u, e, "password ("+what+")", u.pw, near)
				}
			}
			bc.Close()
			t.Count("users_bound", 1)
		}
		t.Count("users_served", 1)
	}
	for what, seen := range map[string]map[int64][]*c22User{"user": uids, "group": gids} {
		for n, l := range seen {
			if len(l) < 2 {
				continue
			}
			for _, u := range l {
				if what == "user" && u.uid == "" || what == "group" && u.gid == "" {
					t.Fail("a generated number is used twice", fmt.Sprintf("%s number %d", what, n), l[0].line, l[1].line, clip(out, 16000))
				}
			}
		}
	}
	c.Close()
	s.CheckAlive("after the binds")
	s.Kill()
}

func c22File(t *T, text string) string {
	f := filepath.Join(t.Dir("users"), "users.ldif")
	t.Must(os.WriteFile(f, []byte(text), 0o644), "write")
	return f
}

// c22Generate runs the command on a list by file or standard input.
func c22Generate(t *T, r *rand.Rand, in string, args ...string) (string, string, int, string) {
	args = append([]string{"gen", "newusers"}, args...)
	var stdin []byte
	if r.Intn(2) == 0 {
		args = append(args, "-")
		stdin = []byte(in)
	} else {
		f := filepath.Join(t.Dir("list"), "users.txt")
		t.Must(os.WriteFile(f, []byte(in), 0o644), "write")
		args = append(args, f)
	}
	out, serr, code := t.Command("", stdin, args...)
	if crashed(serr) {
		t.Fail("the user command crashes", fmt.Sprintf("idmd %q", args), clip(in, 8000), clip(serr, 3000))
	}
	return out, serr, code, fmt.Sprintf("idmd %q", args)
}

func c22Users(t *T) {
	r := t.Sub("users")
	for i := 0; i < t.N(80, 400); i++ {
		feats := map[string]bool{}
		clear := r.Intn(2) == 0
		us := c22Users1(r, 1+r.Intn(12), clear, r.Intn(3) == 0, feats)
		in := c22List(r, us, feats)
		args := cheapArgon
		if clear {
			args = []string{"--password-scheme", "{CLEARTEXT}"}
			feats["cleartext"] = true
		} else if i%20 == 0 {
			args = nil
		}
		for _, u := range us {
			if !ascii(u.pw) {
				args = append(append([]string(nil), args...), "--min-password-strength", "0")
				break
			}
		}
		out, serr, code, how := c22Generate(t, r, in, args...)
		if code != 0 {
			t.Fail("the user command refuses a proper list", how, fmt.Sprintf("exit %d", code), clip(serr, 2000), clip(in, 8000))
		}
		c22Serve(t, r, us, in, out, len(us))
		t.Count("lists", 1)
		t.Eval("users "+featKey(feats), len(feats) > 0)
		t.SampleEvery(i, func() interface{} { return clip(in, 300) })
	}
}

// c22ManyUsers: a long list is complete.
func c22ManyUsers(t *T) {
	r := t.Sub("many")
	for i := 0; i < t.N(1, 3); i++ {
		feats := map[string]bool{}
		us := c22Users1(r, t.N(500, 2000), true, false, feats)
		in := c22List(r, us, feats)
		out, serr, code, how := c22Generate(t, r, in, "--password-scheme", "{CLEARTEXT}", "--min-password-strength", "0")
		if code != 0 {
			t.Fail("the user command refuses a proper list", how, fmt.Sprintf("exit %d", code), clip(serr, 2000))
		}
		c22Serve(t, r, us, in, out, 20)
		t.Eval("users many", true)
	}
}

func c22BadUsers(t *T) {
	r := t.Sub("badusers")
	ok := func(n int) []string {
		var out []string
		for _, u := range c22Users1(r, n, false, true, map[string]bool{}) {
			out = append(out, u.line)
		}
		return out
	}
	strong := "kU8#wq0Zr!mP4tLx"
	lines := []struct {
		what, line string
		either     bool // may also be taken over completely
	}{
		{"one field", "carol", false},
		{"two fields", "carol:" + strong, false},
		{"three fields", "carol:" + strong + ":7", false},
		{"four fields", "carol:" + strong + ":7:8", false},
		{"five fields", "carol:" + strong + ":7:8:Carol C", true},
		{"six fields", "carol:" + strong + ":7:8:Carol C:/home", true},
		{"letters in the user number", "carol:" + strong + ":7x:8:Carol C:/home:/bin/sh", false},
		{"letters in the group number", "carol:" + strong + ":7:eight:Carol C:/home:/bin/sh", false},
		{"space in the user number", "carol:" + strong + ": 7:8:Carol C:/home:/bin/sh", false},
		{"fraction as number", "carol:" + strong + ":7.5:8:Carol C:/home:/bin/sh", false},
		{"number out of range", "carol:" + strong + ":99999999999999999999:8:Carol C:/home:/bin/sh", false},
		{"group number out of range", "carol:" + strong + ":7:99999999999999999999:Carol C:/home:/bin/sh", false},
		{"weak password", "carol:password:7:8:Carol C:/home:/bin/sh", false},
		{"weak password", "carol:carol1:7:8:Carol C:/home:/bin/sh", false},
		{"no user name", ":" + strong + ":7:8:Carol C:/home:/bin/sh", false},
		{"over-long line", "carol:" + strong + ":7:8:Carol " + strings.Repeat("C", 70000) + ":/home:/bin/sh", true},
		{"very long line", "carol:" + strong + ":7:8:Carol C:/home:" + strings.Repeat("/x", 3000000), true},
	}
	for _, l := range lines {
		for pos := 0; pos < 3; pos++ {
			good := ok(4)
			at := []int{0, 2, 4}[pos]
			all := append(append(append([]string(nil), good[:at]...), l.line), good[at:]...)
			in := strings.Join(all, "\n") + "\n"
			out, serr, code, how := c22Generate(t, r, in, cheapArgon...)
			place := []string{"first", "middle", "last"}[pos]
			if code == 0 {
				n := strings.Count("\n"+out, "\ndn:")
				if !l.either {
					t.Fail("the user command accepts a bad list", l.what, place, how, clip(in, 4000), clip(out, 8000))
				}
				if n != len(all) {
					t.Fail("the user command leaves out users without an error", l.what, place, how, fmt.Sprintf("%d lines, %d entries", len(all), n), clip(in, 1000), clip(out, 4000))
				}
			} else if strings.TrimSpace(serr) == "" {
				t.Fail("the user command says nothing about a bad list", l.what, place, how, clip(in, 4000))
			}
			t.Count("bad_input", 1)
			t.Eval("bad users "+l.what+" "+place, true)
		}
	}
	d := t.Dir("badusers")
	good := filepath.Join(d, "good")
	t.Must(os.WriteFile(good, []byte(strings.Join(ok(3), "\n")+"\n"), 0o644), "write")
	for _, c := range []struct {
		what string
		args []string
	}{
		{"missing file", []string{filepath.Join(d, "missing")}},
		{"folder as file", []string{d}},
		{"no file", nil},
		{"two files", []string{good, good}},
		{"unknown scheme", []string{"--password-scheme", "{MD5}", good}},
		{"verify-only scheme", []string{"--password-scheme", "{SSHA}", good}},
		{"unknown format", []string{"--format", "csv", good}},
		{"no rounds", []string{"--argon2-iterations", "0", good}},
		{"no lanes", []string{"--argon2-lanes", "0", good}},
		{"strength out of reach", []string{"--min-password-strength", "9", good}},
	} {
		args := append([]string{"gen", "newusers"}, c.args...)
		out, serr, code := t.Command("", []byte{}, args...)
		how := fmt.Sprintf("idmd %q", args)
		if crashed(serr) {
			t.Fail("the user command crashes on bad input", c.what, how, clip(serr, 3000))
		}
		if code == 0 {
			t.Fail("the user command accepts bad input", c.what, how, clip(out, 2000), clip(serr, 1000))
		}
		t.Count("bad_input", 1)
		t.Eval("bad users "+c.what, true)
	}
}
