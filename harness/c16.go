package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
)

func init() {
	register("C16", "exploration",
		"a start counts as distinct by the set of writing features used (folding, base64, comments, line ends, long lines, template parts, number of files) or, for broken input, by kind of breakage, where it is (file, folder, bind-only file) and its position; a file without any feature counts as trivial",
		checkC16)
}

// fileText writes entries as LDIF in many equivalent ways.
type fileText struct {
	r     *rand.Rand
	eol   string
	feats map[string]bool
	b     strings.Builder
	fold  int // percent of lines that are folded
	note  int // percent of lines preceded by a comment

	noTemplates bool
}

func newFileText(r *rand.Rand, feats map[string]bool) *fileText {
	f := &fileText{r: r, eol: "\n", feats: feats}
	if r.Intn(4) == 0 {
		f.eol = "\r\n"
		feats["crlf"] = true
	}
	f.fold = pick(r, []int{0, 20, 80})
	f.note = pick(r, []int{0, 10, 40})
	return f
}

func (f *fileText) raw(line string) {
	f.b.WriteString(line)
	f.b.WriteString(f.eol)
}

var commentTexts = []string{"#", "# a comment", "#dn: uid=ghost,ou=people,dc=lg,dc=local", "# {{ not a template", "# }} {{.Company", "#uid: ghost", "# mäh \xff", "#  ", "# changetype: add"}

func (f *fileText) comment() {
	f.feats["comment"] = true
	c := pick(f.r, commentTexts)
	f.raw(c)
	switch f.r.Intn(4) {
	case 0:
		f.feats["folded-comment"] = true
		for i := 0; i <= f.r.Intn(2); i++ {
			f.raw(" " + pick(f.r, []string{"more of the comment", "uid: ghost", "x", "", "{{ nope", "#"}))
		}
	case 1:
		f.raw("#" + genText(f.r, 60))
	}
}

// line writes one logical line, maybe folded and maybe after a comment.
func (f *fileText) line(s string) {
	r := f.r
	if r.Intn(100) < f.note {
		f.comment()
	}
	if r.Intn(100) >= f.fold || strings.Contains(s, "{{") && !f.noTemplates {
		f.raw(s)
		return
	}
	f.feats["folded"] = true
	for first := true; s != ""; first = false {
		n := pick(r, []int{1, 2, 7, 30, 76, 76, 2000})
		if len(s) > 5000 {
			n = 900 + r.Intn(3000)
		}
		if !first {
			f.b.WriteString(" ")
			if r.Intn(12) == 0 {
				n = 0
			}
		}
		if i := strings.IndexAny(s[1:], "#- :"); i >= 0 && r.Intn(3) == 0 {
			n = i + 1 // the next line begins with what would mean something at the start of a line
		}
		if n >= len(s) {
			f.raw(s)
			return
		}
		f.raw(s[:n])
		s = s[n:]
	}
}

// plain says whether a value may stand in a line as it is.
func plain(v string) bool {
	if strings.Contains(v, "{{") || strings.ContainsAny(v, "\r\n") {
		return false
	}
	return v == "" || !strings.ContainsAny(v[:1], " :<")
}

func (f *fileText) attr(name, v string) {
	r := f.r
	sep := pick(r, []string{": ", ": ", ": ", ":", ":   "})
	if v == "" {
		sep = pick(r, []string{": ", ":  "})
	}
	if (plain(v) || f.noTemplates && plain(strings.ReplaceAll(v, "{{", "x"))) && r.Intn(5) > 0 {
		if v != "" && (v[len(v)-1] == ' ' || strings.IndexFunc(v, func(c rune) bool { return c > 126 }) >= 0) {
			f.feats["raw-nonascii"] = true
		}
		f.line(name + sep + v)
		return
	}
	f.feats["base64"] = true
	if v != "" && len(v) < 400 && r.Intn(6) == 0 && validRunes(v) && !f.noTemplates {
		f.feats["formatAsBase64"] = true
		f.line(fmt.Sprintf("%s:: {{formatAsBase64 %q}}", name, v))
		return
	}
	f.line(name + ":" + pick(r, []string{": ", ":", ":  "}) + b64(v))
}

func (f *fileText) gap() {
	for i := 0; i <= f.r.Intn(3)*f.r.Intn(2); i++ {
		f.raw("")
	}
	if f.r.Intn(100) < f.note {
		f.comment()
		f.raw("")
	}
}

func (f *fileText) entry(n *Node) {
	r := f.r
	d := n.DN.String()
	if r.Intn(3) == 0 {
		d = randCase(r, d)
		f.feats["case"] = true
	}
	f.entryAs(n, d)
}

// entryAs writes an entry under a name spelled in some way.
func (f *fileText) entryAs(n *Node, d string) {
	r := f.r
	f.attr("dn", d)
	type nv struct{ n, v string }
	var xs []nv
	for _, a := range n.Attrs {
		for _, v := range a.Vals {
			xs = append(xs, nv{a.Name, v})
		}
	}
	if r.Intn(2) == 0 {
		f.feats["mixed-order"] = true
		r.Shuffle(len(xs), func(i, j int) { xs[i], xs[j] = xs[j], xs[i] })
	}
	for _, x := range xs {
		f.attr(x.n, x.v)
	}
	f.gap()
}

func fileText16(r *rand.Rand, long int) string {
	switch r.Intn(14) {
	case 0:
		n := pick(r, []int{4095, 4096, 4097, 65519, 65535, 65536, 65537, 70000, 131072, 200000})
		if long <= 0 {
			n = 1000
		}
		return strings.Repeat(pick(r, []string{"x", "ab ", "0123456789"}), n)[:n]
	case 1:
		return ""
	case 2:
		b := make([]byte, 1+r.Intn(300))
		r.Read(b)
		return string(b)
	case 3:
		return pick(r, []string{"# no comment", "{{.Company}}", "}}", "{{", "dn: x", "-", "a\nb", "a\r\nb\r", "\x00", " ", "  lead", "trail  ", ":x", "<x", "\tx", "changetype: add", "$&%s%d"})
	case 4:
		return genText(r, 400)
	}
	return searchValue(r)
}

var fileAttrNames = []string{"description", "cn", "sn", "mail", "1.2.3.4", "cn;lang-de", "jpegPhoto", "x-a-1", "objectClass", "telephoneNumber"}

// c16Model makes up a directory.
func c16Model(r *rand.Rand, base DN) *Model {
	m := newModel(base.String())
	m.Add(base, []Attr{attr("objectClass", "top"), attr("dc", "lg")})
	long := 3
	for i, n := 0, 2+r.Intn(12); i < n; i++ {
		ks := m.Keys()
		d := m.Nodes[pick(r, ks)].DN.Child(pick(r, []string{"uid", "cn", "ou"}), fmt.Sprintf("%s%d", pick(r, []string{"n", "Xy", "with space ", "ä", "a,b", "a+b=c", "日本"}), i))
		as := []Attr{attr("objectClass", "top")}
		for j := 0; j < r.Intn(7); j++ {
			name := pick(r, fileAttrNames)
			v := fileText16(r, long)
			if len(v) > 4000 {
				long--
			}
			dup := false
			for _, x := range getVals(as, name) {
				dup = dup || x == v
			}
			if !dup {
				as = setVals(as, name, append(append([]string{}, getVals(as, name)...), v))
			}
		}
		m.Add(d, as)
	}
	return m
}

func featKey(f map[string]bool) string { return strings.Join(sortedKeys(f), "+") }

type c16World struct {
	base    string
	model   *Model
	files   []string // contents
	feats   map[string]bool
	secrets map[string]string // name → password
	extra   []string
	include map[string]string // files to be included
	company string
	domain  string
}

// c16Make makes up files and what they have to look like when served.
func c16Make(r *rand.Rand, nfiles int) *c16World {
	w := &c16World{feats: map[string]bool{}, base: baseDN, secrets: map[string]string{}, include: map[string]string{}, company: "Default"}
	if r.Intn(4) == 0 {
		w.base = "dc=Example,dc=org"
		w.feats["other-base"] = true
	}
	if r.Intn(2) == 0 {
		w.company = pick(r, []string{"ACME GmbH", "Müller & Co", "x", "The Very Long Named Company of Makers of Things & Sons, Ltd.", strings.Repeat("Long ", 60) + "AG", "# 1", "-", "a:b", "\"q\""})
		w.extra = append(w.extra, "--ldif-template-default-company", w.company)
	}
	if r.Intn(2) == 0 {
		w.domain = pick(r, []string{"mail.example", "a.b", strings.Repeat("sub.", 30) + "example.org", "x"})
		w.extra = append(w.extra, "--ldif-template-default-mail-domain", w.domain)
	}
	if r.Intn(3) == 0 { // not given is as given empty
		w.company, w.domain, w.extra = "Default", "lg.local", []string{"--ldif-template-default-company", "", "--ldif-template-default-mail-domain", ""}
	}
	base := mustDN(w.base)
	m := c16Model(r, base)
	w.model = m
	texts := make([]*fileText, nfiles)
	for i := range texts {
		texts[i] = newFileText(r, w.feats)
		if i > 0 {
			w.feats["many-files"] = true
		}
	}
	if r.Intn(4) == 0 {
		w.feats["version"] = true
		texts[0].raw("version: 1")
		if r.Intn(2) == 0 {
			texts[0].raw("")
		}
	}
	for _, n := range m.Ordered() {
		f := pick(r, texts)
		if r.Intn(5) == 0 {
			pw := "pw " + genText(r, 20) + "!"
			w.secrets[n.DN.String()] = pw
			n.Attrs = append(n.Attrs, attr(pick(r, []string{"userPassword", "userpassword"}), pw))
		}
		f.entry(n)
	}
	// entries written with template parts
	for i, f := range texts {
		company, domain, bdn := w.company, w.domain, w.base
		auto := 1000
		for j, n := 0, r.Intn(6); j < n; j++ {
			if r.Intn(3) == 0 {
				w.feats["With"] = true
				switch r.Intn(3) {
				case 0:
					company = genText(r, 10)
					f.raw(fmt.Sprintf("{{WithCompany %q}}", company))
				case 1:
					domain = "d" + fmt.Sprint(r.Intn(100)) + ".example"
					f.raw(fmt.Sprintf("{{ WithMailDomain `%s` }}", domain))
				case 2:
					bdn = fmt.Sprintf("ou=t%d,%s", r.Intn(3), w.base)
					f.raw(fmt.Sprintf("{{WithBaseDN %q -}}", bdn))
				}
				f.raw("")
			}
			uid := fmt.Sprintf("tpl%d-%d", i, j)
			f.raw("dn: uid=" + uid + ",{{.BaseDN}}")
			as := []Attr{attr("uid", uid), attr("objectClass", "top")}
			f.line("uid: " + uid)
			f.line("objectClass: top")
			add := func(name, v, text string) {
				w.feats["template"] = true
				as = setVals(as, name, append(append([]string{}, getVals(as, name)...), v))
				f.line(name + text)
			}
			for k := 0; k < 1+r.Intn(4); k++ {
				switch r.Intn(8) {
				case 0:
					if company != "" && company[0] != ' ' {
						add("o", company+fmt.Sprint(k), ": {{.Company}}"+fmt.Sprint(k))
					}
				case 1:
					if domain != "" {
						add("mail", fmt.Sprintf("%s%d@%s", uid, k, domain), fmt.Sprintf(": %s%d@{{ .MailDomain }}", uid, k))
					}
				case 2:
					w.feats["AutoIncrement"] = true
					if r.Intn(3) == 0 {
						auto = r.Intn(1 << 20)
						if r.Intn(3) == 0 {
							auto = 0
						}
						add("uidNumber", fmt.Sprint(auto), fmt.Sprintf(": {{AutoIncrement %d}}", auto))
					} else {
						auto++
						add("uidNumber", fmt.Sprint(auto), ": {{AutoIncrement}}")
					}
				case 3:
					add("seeAlso", fmt.Sprintf("cn=x%d,%s", k, bdn), fmt.Sprintf(": cn=x%d,{{.BaseDN}}", k))
				case 4:
					w.feats["include"] = true
					name := fmt.Sprintf("blob%d-%d-%d", i, j, k)
					if r.Intn(3) == 0 {
						name = "sub/" + name
					}
					n := pick(r, []int{1, 2, 3, 4, 5, 57, 1000, 1001, 1002, 65536, r.Intn(300000)})
					if r.Intn(12) == 0 {
						n = 1024*1024 - r.Intn(2)
						w.feats["include-limit"] = true
					}
					b := make([]byte, n)
					r.Read(b)
					w.include[name] = string(b)
					add("jpegPhoto", string(b), fmt.Sprintf(":: {{formatAsFileBase64 %q}}", pick(r, []string{name, "./" + name, "sub/../" + name})))
				case 5:
					v := genText(r, 30)
					add("description", "r"+v+fmt.Sprint(k), fmt.Sprintf(": r{{ %q }}%d", v, k))
				case 6:
					// lines out of blocks
					w.feats["blocks"] = true
					f.raw(fmt.Sprintf("{{with $x := \"l%d\"}}title: {{$x}}-0", k))
					f.raw("{{if eq $x \"nope\"}}title: ghost{{else}}title: {{$x}}-1{{end}}{{end}}")
					as = setVals(as, "title", append(append([]string{}, getVals(as, "title")...), fmt.Sprintf("l%d-0", k), fmt.Sprintf("l%d-1", k)))
				case 7:
					add("st", "a"+"b"+fmt.Sprint(k), ": a{{/* nothing */}}b"+fmt.Sprint(k))
				}
			}
			f.gap()
			m.Nodes[mustDN("uid="+uid+","+bdn).Key()] = &Node{DN: mustDN("uid=" + uid + "," + bdn), Attrs: as}
		}
		s := f.b.String()
		if r.Intn(4) == 0 {
			s = strings.TrimRight(s, "\r\n")
			w.feats["no-final-newline"] = true
		}
		w.files = append(w.files, s)
	}
	return w
}

// write puts the files into a fresh directory and gives the path to serve.
func (w *c16World) write(t *T, r *rand.Rand, folder bool) string {
	d := filepath.Join(t.Dir("files"), pick(r, []string{"data", "data.d", "da ta", "dätä", "data[1]", "da*a", "d?"}))
	if filepath.Base(d) != "data" {
		w.feats["odd-path"] = true
	}
	t.Must(os.MkdirAll(filepath.Join(d, "sub"), 0o755), "mkdir")
	for n, b := range w.include {
		t.Must(os.WriteFile(filepath.Join(d, n), []byte(b), 0o644), "write")
	}
	if !folder {
		p := filepath.Join(d, pick(r, []string{"main.ldif", "main", "x.txt"}))
		t.Must(os.WriteFile(p, []byte(w.files[0]), 0o644), "write")
		return p
	}
	w.feats["folder"] = true
	names := []string{"00-first.ldif", "10.ldif", "2.ldif", "A.ldif", "b b.ldif", "ü.ldif", "z.z.ldif"}
	if r.Intn(3) == 0 {
		names[0], names[1], names[2] = ".00.ldif", ".10.ldif", "Z.ldif"
	}
	for i, s := range w.files {
		t.Must(os.WriteFile(filepath.Join(d, names[i]), []byte(s), 0o644), "write")
	}
	if r.Intn(2) == 0 {
		t.Must(os.WriteFile(filepath.Join(d, "notes.txt"), []byte("this is no LDIF {{\n"), 0o644), "write")
		t.Must(os.WriteFile(filepath.Join(d, "old.ldif.bak"), []byte("this is no LDIF {{\n"), 0o644), "write")
		t.Must(os.WriteFile(filepath.Join(d, "sub", "x.ldif"), []byte("this is no LDIF {{\n"), 0o644), "write")
	}
	return d
}

func (w *c16World) opts(main string) ServerOpts {
	return ServerOpts{Handler: "ldif", Main: main, Base: w.base, Anonymous: true, Extra: w.extra}
}

// verify compares what is served with what was written.
func (w *c16World) verify(t *T, s *Server, what string) {
	c := s.Dial()
	defer c.Close()
	got := t.Dump(c, strings.ToLower(w.base))
	want := withoutSecrets(w.model).Snapshot()
	if d := diffSnap(want, got); d != "" {
		var txt string
		for i, f := range w.files {
			txt += fmt.Sprintf("---- file %d\n%s\n", i, clip(f, 20000))
		}
		t.Fail("what is served is not what was written", what, featKey(w.feats), d, txt)
	}
	for dn, pw := range w.secrets {
		for _, p := range []string{pw, pw + "x"} {
			res, err := c.Bind(dn, p)
			t.netErr(err, what)
			if (res.Code == rcSuccess) != (p == pw) {
				t.Fail("a password written in the files does not decide about binds", what, dn, fmt.Sprintf("%q written, bind with %q: %+v", pw, p, res))
			}
		}
	}
}

func checkC16(t *T) {
	t.Assume("names are written without optional spaces and with one escaping style; attribute names of one entry are spelled in one way; names in other files of the same kind do not depend on each other")
	n := t.N(300, 3000)
	var jobs []func()
	const lanes = 4
	for l := 0; l < lanes; l++ {
		l := l
		jobs = append(jobs, func() {
			for i := l; i < n; i += lanes {
				c16Good(t, t.Sub(fmt.Sprintf("good%d", i)), i)
			}
		})
		jobs = append(jobs, func() {
			reps := t.N(1, 4)
			for i := l; i < reps*len(c16Breaks); i += lanes {
				c16Bad(t, t.Sub(fmt.Sprintf("bad%d", i)), c16Breaks[i%len(c16Breaks)])
			}
		})
	}
	t.Go(jobs...)
	c16Relative(t)
	c16BindOnly(t)
}

func c16Good(t *T, r *rand.Rand, i int) {
	folder := r.Intn(2) == 0
	nf := 1
	if folder {
		nf = 1 + r.Intn(5)
	}
	w := c16Make(r, nf)
	main := w.write(t, r, folder)
	s, err := t.TryStart(w.opts(main))
	if err != nil {
		var txt string
		for i, f := range w.files {
			txt += fmt.Sprintf("---- file %d\n%s\n", i, clip(f, 20000))
		}
		t.Fail("the server refuses to serve proper files", main, featKey(w.feats), clip(err.Error(), 3000), txt)
	}
	w.verify(t, s, main)
	s.Kill()
	os.RemoveAll(filepath.Dir(main))
	t.Count("starts_good", 1)
	t.Count("entries_compared", len(w.model.Nodes))
	t.Eval("good "+featKey(w.feats), len(w.feats) > 0)
	t.SampleEvery(29, func() interface{} {
		return map[string]interface{}{"features": featKey(w.feats), "files": len(w.files), "entries": len(w.model.Nodes), "text": clip(w.files[0], 300)}
	})
}

// c16Break is one way of breaking the input.
type c16Break struct {
	name string
	text string // record to put between others
	mod  func(t *T, dir, main string, folder bool)
	only string // folder, file
}

func brokenLine(s string) string {
	return "dn: uid=broken,dc=lg,dc=local\nobjectClass: top\n" + s + "\nuid: broken\n"
}

var c16Breaks = []c16Break{
	{name: "line without colon", text: brokenLine("nonsense")},
	{name: "no name", text: "uid: x\nobjectClass: top\n"},
	{name: "name not first", text: "objectClass: top\ndn: uid=x,dc=lg,dc=local\nuid: x\n"},
	{name: "only a name", text: "dn: uid=x,dc=lg,dc=local\n"},
	{name: "bad base64", text: brokenLine("description:: a$b")},
	{name: "cut base64", text: brokenLine("description:: YWJ")},
	{name: "bad base64 name", text: "dn:: ???\nuid: x\n"},
	{name: "empty attribute name", text: brokenLine(": x")},
	{name: "space in attribute name", text: brokenLine("a b: x")},
	{name: "bad attribute name", text: brokenLine("-a: x")},
	{name: "non-ASCII attribute name", text: brokenLine("ä: x")},
	{name: "duplicate", text: "dn: ou=twice,dc=lg,dc=local\nou: twice\n\ndn: ou=twice,dc=lg,dc=local\nou: twice\ndescription: 2\n"},
	{name: "duplicate in other case", text: "dn: ou=twice,dc=lg,dc=local\nou: twice\n\ndn: OU=Twice,DC=lg,dc=LOCAL\nou: twice\n"},
	{name: "duplicate of the base", text: "dn: dc=lg,dc=local\ndc: lg\n"},
	{name: "template unclosed", text: brokenLine("description: {{.Company")},
	{name: "template without function", text: brokenLine("description: {{NoSuchThing}}")},
	{name: "template with wrong argument", text: brokenLine("uidNumber: {{AutoIncrement \"x\"}}")},
	{name: "template with negative argument", text: brokenLine("uidNumber: {{AutoIncrement -1}}")},
	{name: "template with missing block", text: brokenLine("description: {{template \"nope\"}}")},
	{name: "template failing late", text: brokenLine("description: {{index .Company 99999}}")},
	{name: "template unfinished if", text: brokenLine("description: {{if .Company}}x")},
	{name: "included file missing", text: brokenLine("jpegPhoto:: {{formatAsFileBase64 \"nosuch\"}}")},
	{name: "included file is a folder", text: brokenLine("jpegPhoto:: {{formatAsFileBase64 \"sub\"}}")},
	{name: "included file too large", text: brokenLine("jpegPhoto:: {{formatAsFileBase64 \"toolarge\"}}"), mod: func(t *T, dir, main string, folder bool) {
		t.Must(os.WriteFile(filepath.Join(dir, "toolarge"), make([]byte, 1024*1024+1), 0o644), "write")
	}},
	{name: "included file much too large", text: brokenLine("jpegPhoto:: {{formatAsFileBase64 \"toolarge\"}}"), mod: func(t *T, dir, main string, folder bool) {
		t.Must(os.WriteFile(filepath.Join(dir, "toolarge"), make([]byte, 5*1024*1024), 0o644), "write")
	}},
	{name: "included file above", text: brokenLine("jpegPhoto:: {{formatAsFileBase64 \"../secret\"}}")},
	{name: "included file above, roundabout", text: brokenLine("jpegPhoto:: {{formatAsFileBase64 \"sub/../../secret\"}}")},
	{name: "included file above, from the top", text: brokenLine("jpegPhoto:: {{formatAsFileBase64 \"@UP@/secret\"}}")},
	{name: "included file above, absolute and roundabout", text: brokenLine("jpegPhoto:: {{formatAsFileBase64 \"@DIR@/../secret\"}}")},
	{name: "included file beside with the same beginning", text: brokenLine("jpegPhoto:: {{formatAsFileBase64 \"@DIR@-2/secret\"}}")},
	{name: "included file beside with the same beginning, relative", text: brokenLine("jpegPhoto:: {{formatAsFileBase64 \"../@NAME@-2/secret\"}}")},
	{name: "included file is the folder itself", text: brokenLine("jpegPhoto:: {{formatAsFileBase64 \".\"}}")},
	{name: "included without name", text: brokenLine("jpegPhoto:: {{formatAsFileBase64 \"\"}}")},
	{name: "change record", text: "dn: ou=changed,dc=lg,dc=local\nchangetype: modify\nreplace: ou\nou: x\n-\n"},
	{name: "delete record", text: "dn: ou=changed,dc=lg,dc=local\nchangetype: delete\n"},
	{name: "rename record", text: "dn: ou=changed,dc=lg,dc=local\nchangetype: modrdn\nnewrdn: ou=y\ndeleteoldrdn: 1\n"},
	{name: "unknown change record", text: "dn: ou=changed,dc=lg,dc=local\nchangetype: explode\n"},
	{name: "name without value", text: "dn: uid,ou=people,dc=lg,dc=local\nuid: x\n"},
	{name: "name cut off", text: "dn: uid=a\\,dc=lg,dc=local\\\nuid: x\n"},
	{name: "name with open quoting", text: "dn: uid=a\\zz,dc=lg,dc=local\nuid: x\n"},
	{name: "name with empty part", text: "dn: uid=a,,dc=lg,dc=local\nuid: x\n"},
	{name: "value from a missing file", text: brokenLine("description:< file:///nonexistent/file")},
	{name: "value from elsewhere", text: brokenLine("description:< http://192.0.2.1/x")},
	{name: "second version line", text: "version: 1\n\ndn: uid=x,dc=lg,dc=local\nuid: x\n"},
	{name: "link to nowhere", only: "folder", mod: func(t *T, dir, main string, folder bool) {
		t.Must(os.Symlink(filepath.Join(dir, "nosuch"), filepath.Join(dir, "x.ldif")), "symlink")
	}},
	{name: "folder in place of a file", only: "folder", mod: func(t *T, dir, main string, folder bool) {
		t.Must(os.Mkdir(filepath.Join(dir, "x.ldif"), 0o755), "mkdir")
	}},
	{name: "file missing", only: "file", mod: func(t *T, dir, main string, folder bool) {
		t.Must(os.Remove(main), "remove")
	}},
	{name: "folder missing", only: "folder", mod: func(t *T, dir, main string, folder bool) {
		t.Must(os.Rename(main, main+".away"), "rename")
	}},
}

// c16Bad breaks one thing in otherwise proper files.
func c16Bad(t *T, r *rand.Rand, b c16Break) {
	for _, place := range []string{"file", "folder", "bind-only"} {
		if b.only != "" && b.only != place {
			continue
		}
		if place == "bind-only" && (b.name == "duplicate of the base" || b.mod != nil && b.text == "") {
			continue
		}
		for _, pos := range []string{"first", "middle", "last"} {
			if b.text == "" && pos != "last" || b.name == "second version line" && pos == "first" {
				continue
			}
			top := t.Dir("bad")
			d := filepath.Join(top, "data")
			t.Must(os.MkdirAll(filepath.Join(d, "sub"), 0o755), "mkdir")
			t.Must(os.MkdirAll(d+"-2", 0o755), "mkdir")
			t.Must(os.WriteFile(filepath.Join(top, "secret"), []byte("secret"), 0o644), "write")
			t.Must(os.WriteFile(filepath.Join(d+"-2", "secret"), []byte("secret"), 0o644), "write")
			var recs []string
			for _, n := range baseModel().Ordered() {
				recs = append(recs, n.LDIF())
			}
			good := strings.Join(recs, "")
			text := strings.NewReplacer("@DIR@", d, "@UP@", top, "@NAME@", "data").Replace(b.text)
			at := map[string]int{"first": 0, "middle": 1 + r.Intn(len(recs)-1), "last": len(recs)}[pos]
			bad := strings.Join(recs[:at], "") + text + "\n" + strings.Join(recs[at:], "")
			o := ServerOpts{Handler: "ldif", Anonymous: true, Main: filepath.Join(d, "main.ldif")}
			switch place {
			case "file":
				t.Must(os.WriteFile(o.Main, []byte(bad), 0o644), "write")
			case "folder":
				at := map[string]int{"first": 0, "middle": 1, "last": 2}[pos]
				other := "dn: ou=z%d,dc=lg,dc=local\nou: z%d\n"
				for k := 0; k < 3; k++ {
					s := fmt.Sprintf(other, k, k)
					if k == at {
						s = bad
					}
					t.Must(os.WriteFile(filepath.Join(d, fmt.Sprintf("%d.ldif", k)), []byte(s), 0o644), "write")
				}
				o.Main = d
			case "bind-only":
				t.Must(os.WriteFile(o.Main, []byte(good), 0o644), "write")
				o.Config = filepath.Join(d, "config.ldif")
				t.Must(os.WriteFile(o.Config, []byte(bad), 0o644), "write")
			}
			if b.mod != nil {
				b.mod(t, d, o.Main, place == "folder")
			}
			what := b.name + " in " + place + ", " + pos
			s, err := t.TryStart(o)
			if err == nil {
				c := s.Dial()
				got := t.Dump(c, baseDN)
				t.Fail("the server serves files it cannot have understood", what, text, fmt.Sprintf("%d entries are served: %v", len(got), sortedKeys(got)))
			}
			if strings.Contains(s.Log(), "panic:") || strings.Contains(s.Log(), "goroutine ") {
				t.Fail("the server crashes on broken files", what, text, s.LogTail(2000))
			}
			if s.ExitCode() == 0 {
				t.Fail("the server refuses broken files but reports success", what, text)
			}
			t.Count("starts_broken", 1)
			t.Eval("bad "+what, true)
			os.RemoveAll(top)
		}
	}
}

// c16Relative starts with paths relative to the working directory.
func c16Relative(t *T) {
	r := t.Sub("relative")
	for i := 0; i < t.N(4, 12); i++ {
		folder := i%2 == 0
		w := c16Make(r, 1)
		main := w.write(t, r, folder)
		o := w.opts(main)
		cwd := filepath.Dir(main)
		o.Main = "./" + filepath.Base(main)
		if r.Intn(2) == 0 {
			o.Main = filepath.Base(cwd) + "/x/../" + filepath.Base(main)
			cwd = filepath.Dir(cwd)
			t.Must(os.MkdirAll(filepath.Join(filepath.Dir(main), "x"), 0o755), "mkdir")
		}
		o.Prefix = []string{"/bin/sh", "-c", `cd "$0" && exec "$@"`, cwd}
		s, err := t.TryStart(o)
		if err != nil {
			t.Fail("the server refuses proper files named by a relative path", o.Main, cwd, clip(err.Error(), 2000))
		}
		w.verify(t, s, "relative path "+o.Main)
		s.Kill()
		t.Count("starts_good", 1)
		t.Eval(fmt.Sprintf("relative folder=%v %s", folder, featKey(w.feats)), true)
	}
}

// c16BindOnly compares who can bind with what a bind-only file says.
func c16BindOnly(t *T) {
	r := t.Sub("bindonly")
	for i := 0; i < t.N(6, 40); i++ {
		feats := map[string]bool{}
		f := newFileText(r, feats)
		users := map[string]string{}
		for j := 0; j < 8; j++ {
			d := mustDN(baseDN).Child("cn", fmt.Sprintf("svc%d", j))
			pw := "p" + strings.Map(func(c rune) rune {
				if c == '{' || c == 0 {
					return 'x'
				}
				return c
			}, searchValue(r)) + fmt.Sprint(j)
			n := &Node{DN: d, Attrs: []Attr{attr("objectClass", "top"), attr("description", fileText16(r, 1)), attr("userPassword", pw), attr("cn", fmt.Sprintf("svc%d", j))}}
			users[d.String()] = pw
			f.entry(n)
		}
		main := baseModel()
		s := t.StartLDIF(main.LDIF(), f.b.String(), nil)
		c := s.Dial()
		for dn, pw := range users {
			for _, p := range []string{pw, pw + " ", pw[:len(pw)-1]} {
				res, err := c.Bind(dn, p)
				t.netErr(err, "bind with a bind-only entry")
				if (res.Code == rcSuccess) != (p == pw) {
					t.Fail("a bind-only file is not served as written", dn, fmt.Sprintf("%q written, bind with %q: %+v", pw, p, res), clip(f.b.String(), 20000))
				}
			}
		}
		c.Close()
		s.Kill()
		t.Count("starts_good", 1)
		t.Eval("bind-only "+featKey(feats), len(feats) > 0)
	}
}
