package main

import (
	"crypto/sha256"
	"encoding/base64"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"time"
)

func init() {
	register("C17", "exploration",
		"a directory counts as distinct by the kinds of values and names in it (plain, leading or trailing space, empty, control characters, binary, long, non-ASCII, colon or less-than first) and how it came about (import, requests); a refused file by kind of breakage and position; a directory with only plain values counts as trivial",
		checkC17)
}

// readLDIF is an independent reader for exported text.
func readLDIF(s string) ([]Entry, error) {
	var lines []string
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSuffix(l, "\r")
		if strings.HasPrefix(l, " ") && len(lines) > 0 {
			lines[len(lines)-1] += l[1:]
			continue
		}
		lines = append(lines, l)
	}
	var out []Entry
	var cur *Entry
	first := true
	for i, l := range lines {
		if l == "" {
			cur = nil
			continue
		}
		if l[0] == '#' {
			continue
		}
		if first && strings.HasPrefix(l, "version:") {
			first = false
			continue
		}
		first = false
		k := strings.IndexByte(l, ':')
		if k <= 0 {
			return nil, fmt.Errorf("line %d has no name: %q", i+1, clip(l, 200))
		}
		name, v := l[:k], l[k+1:]
		switch {
		case strings.HasPrefix(v, ":"):
			b, err := base64.StdEncoding.DecodeString(strings.TrimLeft(v[1:], " "))
			if err != nil {
				return nil, fmt.Errorf("line %d: %v: %q", i+1, err, clip(l, 200))
			}
			v = string(b)
		case strings.HasPrefix(v, "<"):
			return nil, fmt.Errorf("line %d refers to a file: %q", i+1, clip(l, 200))
		default:
			v = strings.TrimLeft(v, " ")
		}
		if cur == nil {
			if name != "dn" {
				return nil, fmt.Errorf("line %d: entry does not begin with its name: %q", i+1, clip(l, 200))
			}
			out = append(out, Entry{DN: v})
			cur = &out[len(out)-1]
			continue
		}
		if name == "dn" {
			return nil, fmt.Errorf("line %d: a second name in an entry: %q", i+1, clip(l, 200))
		}
		found := false
		for j := range cur.Attrs {
			if cur.Attrs[j].Name == name {
				cur.Attrs[j].Vals = append(cur.Attrs[j].Vals, v)
				found = true
			}
		}
		if !found {
			cur.Attrs = append(cur.Attrs, attr(name, v))
		}
	}
	return out, nil
}

func valueKind(v string) string {
	switch {
	case v == "":
		return "empty"
	case len(v) > 60000:
		return "huge"
	case v[0] == ' ':
		return "leadspace"
	case v[len(v)-1] == ' ':
		return "trailspace"
	case v[0] == ':' || v[0] == '<':
		return "colon"
	case !validRunes(v):
		return "binary"
	}
	for _, c := range v {
		if c < ' ' || c == 0x7f {
			return "control"
		}
		if c > 0x7f {
			return "nonascii"
		}
	}
	if len(v) > 60 {
		return "long"
	}
	return "plain"
}

func c17Value(r *rand.Rand) string {
	switch r.Intn(7) {
	case 0:
		return fileText16(r, 1)
	case 1:
		return pick(r, []string{" ", "  two", " :x", ":", "::", ": x", "<", "<file:///x", "\n", "a\n b", "\n dn: x", "\r", "x\r\n", "#", "# x", "-", "\x00", "\x7f", "\xff", "a ", " a ", "\t", "\u00a0x", "dn: x"})
	case 2:
		n := 60 + r.Intn(40) // around the length of a line
		return strings.Repeat("0123456789", 12)[:n]
	case 3:
		n := 60 + r.Intn(40)
		return strings.Repeat("abcd ", 30)[:n]
	case 4:
		return genText(r, 120)
	}
	return searchValue(r)
}

func c17Attrs(r *rand.Rand, rdn RDN, kinds map[string]bool) []Attr {
	as := []Attr{attr("objectClass", "top", "thing")}
	for _, a := range rdn {
		as = append(as, attr(a.Type, a.Val))
	}
	as = mergeAttrs(as)
	for i := 0; i < r.Intn(5); i++ {
		name := pick(r, []string{"description", "jpegPhoto", "title", "x;lang-de", "2.5.4.20", "dnX", "versionNo", "changetypeX"})
		v := c17Value(r)
		vals := getVals(as, name)
		if hasFold(vals, v) {
			continue
		}
		kinds[valueKind(v)] = true
		as = setVals(as, name, append(append([]string{}, vals...), v))
	}
	return as
}

func sha(t *T, p string) string {
	b, err := os.ReadFile(p)
	t.Must(err, "read database")
	return fmt.Sprintf("%x", sha256.Sum256(b))
}

// c17Export exports a database and checks what can be checked right away.
func c17Export(t *T, db string, m *Model, what string) string {
	before := sha(t, db)
	base := m.Base.String()
	if strings.HasSuffix(before, "0") || strings.HasSuffix(before, "8") {
		base = "DC=Lg , dc=\\4cOCAL" // the same name
	}
	so, se, code := t.Command("", nil, "boltdb", "export", "--boltdb-file", db, "--ldap-base-dn", base)
	if code != 0 {
		t.Fail("export fails", what, fmt.Sprintf("exit %d: %s", code, clip(se, 2000)))
	}
	if sha(t, db) != before {
		t.Fail("export changed the database", what)
	}
	es, err := readLDIF(so)
	if err != nil {
		t.Fail("the exported text cannot be read", what, err.Error(), clip(so, 5000))
	}
	got, err := snapshotOf(es)
	if err != nil {
		t.Fail("the exported text is impossible", what, err.Error(), clip(so, 5000))
	}
	if d := diffSnap(m.Snapshot(), got); d != "" {
		t.Fail("the exported text is not the content of the database", what, d, clip(so, 8000))
	}
	return so
}

// c17Import imports text into a database.
func c17Import(t *T, db, text, base string) (string, int) {
	f := filepath.Join(t.Dir("imp"), "in.ldif")
	t.Must(os.WriteFile(f, []byte(text), 0o644), "write")
	so, se, code := t.Command("", nil, "boltdb", "load", "--boltdb-file", db, "--input-file", f, "--ldap-base-dn", base)
	os.RemoveAll(filepath.Dir(f))
	return so + se, code
}

func (t *T) newDBFile() string { return filepath.Join(t.Dir("db"), "idm.db") }

// c17Serve compares what a server shows of a database.
func c17Serve(t *T, db string, m *Model, what string) {
	s := t.Start(ServerOpts{Handler: "boltdb", DB: db, Admin: adminDN, Base: m.Base.String()})
	c := s.DialAs(adminDN, adminPW)
	t.sameSnap(m.Snapshot(), t.Dump(c, m.Base.String()), what)
	c.Close()
	s.Kill()
}

// c17Cycle exports, imports, exports and serves.
func c17Cycle(t *T, db string, m *Model, what string) {
	one := c17Export(t, db, m, what)
	db2 := t.newDBFile()
	if out, code := c17Import(t, db2, one, m.Base.String()); code != 0 {
		t.Fail("exported text cannot be imported", what, clip(out, 2000), clip(one, 8000))
	}
	c17Export(t, db2, m, what+", exported, imported and exported again")
	c17Serve(t, db2, m, "a directory is not the same after export and import")
	os.RemoveAll(filepath.Dir(db2))
}

func checkC17(t *T) {
	t.Assume("attribute names of one entry are spelled in one way; every entry has an attribute; names have single-valued parts; one process uses the database at a time")
	lanes := 4
	var fs []func()
	for l := 0; l < lanes; l++ {
		l := l
		fs = append(fs, func() {
			for i := l; i < t.N(120, 1200); i += lanes {
				c17Files(t, t.Sub(fmt.Sprintf("files%d", i)), i)
			}
			for i := l; i < t.N(24, 200); i += lanes {
				c17History(t, t.Sub(fmt.Sprintf("history%d", i)), i)
			}
			for i := l; i < t.N(8, 40); i += lanes {
				c17Adds(t, t.Sub(fmt.Sprintf("adds%d", i)), i)
			}
			for i := l; i < len(c17Breaks); i += lanes {
				c17Bad(t, t.Sub(fmt.Sprintf("bad%d", i)), c17Breaks[i])
			}
		})
	}
	t.Go(fs...)
	c17Large(t)
}

func kindKey(k map[string]bool) string { return strings.Join(sortedKeys(k), "+") }

func nontrivialKinds(k map[string]bool) bool { return len(k) > 1 || len(k) == 1 && !k["plain"] }

// c17Files imports files written in many ways.
func c17Files(t *T, r *rand.Rand, i int) {
	m := baseModel()
	kinds := map[string]bool{}
	for j := 0; j < 3+r.Intn(25); j++ {
		d := newChildDN(r, m, true)
		m.Add(d, c17Attrs(r, d[0], kinds))
		kinds["name:"+valueKind(d[0][0].Val)] = true
	}
	feats := map[string]bool{}
	f := newFileText(r, feats)
	if r.Intn(3) == 0 {
		f.raw("version: 1")
		feats["version"] = true
		if r.Intn(2) == 0 {
			f.raw("")
			feats["version alone"] = true
		}
	}
	rest := &fileText{r: r, eol: f.eol, feats: feats, fold: f.fold, note: f.note}
	cut := -1
	if r.Intn(4) == 0 { // import in two steps
		cut = r.Intn(len(m.Nodes))
		feats["two steps"] = true
	}
	for j, n := range m.Ordered() {
		w := f
		if cut >= 0 && j > cut {
			w = rest
		}
		w.noTemplates = true
		// names in every way they can be written
		x := *n
		w.entryAs(&x, n.DN.Spell(r))
	}
	db := t.newDBFile()
	text := f.b.String()
	for _, s := range []string{text, rest.b.String()} {
		if s == "" {
			continue
		}
		if out, code := c17Import(t, db, s, m.Base.String()); code != 0 {
			t.Fail("a proper file is refused", featKey(feats), clip(out, 2000), clip(s, 8000))
		}
	}
	c17Serve(t, db, m, "the directory is not what was imported")
	c17Cycle(t, db, m, "imported")
	os.RemoveAll(filepath.Dir(db))
	t.Count("imported", 1)
	t.Count("entries", len(m.Nodes))
	t.Eval("files "+kindKey(kinds)+" "+featKey(feats), nontrivialKinds(kinds) || len(feats) > 0)
	t.SampleEvery(13, func() interface{} {
		return map[string]interface{}{"values": kindKey(kinds), "features": featKey(feats), "entries": len(m.Nodes), "text": clip(text, 200)}
	})
}

// c17History changes a directory through a server and exports it then.
func c17History(t *T, r *rand.Rand, i int) {
	var opts ServerOpts
	d := t.NewDB(baseModel(), r, func(o *ServerOpts) { opts = *o })
	kinds := map[string]bool{}
	steps := 40 + r.Intn(100)
	for j := 0; j < steps; j++ {
		dn := someDN(r, d.m, 50, true)
		if dn.Under(mustDN("ou=sysusers," + baseDN)) {
			continue
		}
		switch k := r.Intn(10); {
		case k < 5:
			d.Add(dn, dn.Spell(r), c17Attrs(r, dn[0], kinds))
		case k < 6:
			d.Delete(dn, dn.Spell(r))
		case k < 8:
			v := c17Value(r)
			kinds[valueKind(v)] = true
			d.Modify(dn, dn.Spell(r), []Change{{pick(r, []int{0, 2}), "title", []string{v}}})
		default:
			nr := DN{genRDN(r, true)}
			d.Rename(dn, dn.Spell(r), nr, nr[0].Spell(r), r.Intn(2) == 0, nil)
		}
		if j == steps/2 {
			// look in between as well
			d.c.Close()
			if !d.s.Stop(60 * time.Second) {
				t.Inconclusive("the server does not stop")
			}
			c17Export(t, opts.DB, d.m, "in the middle of a history")
			d.s = t.Start(opts)
			d.c = d.s.DialAs(adminDN, adminPW)
		}
	}
	d.c.Close()
	if r.Intn(2) == 0 {
		d.s.Kill()
	} else if !d.s.Stop(60 * time.Second) {
		t.Inconclusive("the server does not stop")
	}
	c17Cycle(t, opts.DB, d.m, "after a history of requests")
	t.Count("histories", 1)
	t.Count("entries", len(d.m.Nodes))
	t.Eval(fmt.Sprintf("history %s size %d", kindKey(kinds), len(d.m.Nodes)/5), true)
}

func c17Large(t *T) {
	r := t.Sub("large")
	m := baseModel()
	kinds := map[string]bool{}
	for i := 0; i < t.N(300, 1500); i++ {
		d := mustDN("ou=people,"+baseDN).Child("uid", fmt.Sprintf("%s%d", pick(r, plainVals), i))
		m.Add(d, c17Attrs(r, d[0], kinds))
	}
	// a deep row of entries
	d := m.Base
	for i := 0; i < 40; i++ {
		d = d.Child("ou", fmt.Sprintf("level %d", i))
		m.Add(d, []Attr{attr("objectClass", "top"), attr("ou", fmt.Sprintf("level %d", i))})
	}
	db := t.LoadDB(m)
	c17Cycle(t, db, m, "large directory")
	t.Count("entries", len(m.Nodes))
	t.Eval("large", true)
}

type c17Break struct {
	name string
	text string
}

var c17Breaks = []c17Break{
	{"missing parent", "dn: uid=x,ou=nowhere,dc=lg,dc=local\nuid: x\n"},
	{"missing parent of a container", "dn: ou=x,ou=y,ou=nowhere,dc=lg,dc=local\nou: x\n"},
	{"child before parent", "dn: uid=x,ou=later,dc=lg,dc=local\nuid: x\n\ndn: ou=later,dc=lg,dc=local\nou: later\n"},
	{"outside", "dn: uid=x,dc=other,dc=local\nuid: x\n"},
	{"above", "dn: dc=local\ndc: local\n"},
	{"outside with the same ending", "dn: xdc=lg,dc=local\nxdc: lg\n"},
	{"outside, base as value", "dn: cn=x\\,dc=lg,dc=local\ncn: x\n"},
	{"duplicate", "dn: ou=twice,dc=lg,dc=local\nou: twice\n\ndn: ou=twice,dc=lg,dc=local\nou: twice\n"},
	{"duplicate in other case", "dn: ou=twice,dc=lg,dc=local\nou: twice\n\ndn: OU=TWICE,DC=LG,dc=local\nou: twice\n"},
	{"duplicate in other spelling", "dn: cn=a\\,b,dc=lg,dc=local\ncn: a,b\n\ndn: cn = a\\2Cb , dc=lg,dc=local\ncn: a,b\n"},
	{"duplicate of the base", "dn: dc=lg,dc=local\ndc: lg\n"},
	{"invalid name", "dn: nonsense\nuid: x\n"},
	{"invalid name inside", "dn: uid,dc=lg,dc=local\nuid: x\n"},
	{"invalid escape", "dn: uid=\\zz,dc=lg,dc=local\nuid: x\n"},
	{"empty name part", "dn: uid=x,,dc=lg,dc=local\nuid: x\n"},
	{"empty name", "dn: \nuid: x\n"},
	{"line without colon", "dn: uid=x,dc=lg,dc=local\nuid: x\nnonsense\n"},
	{"no name", "uid: x\n"},
	{"only a name", "dn: uid=x,dc=lg,dc=local\n"},
	{"bad base64", "dn: uid=x,dc=lg,dc=local\nuid:: $$\n"},
	{"bad base64 name", "dn:: $$\nuid: x\n"},
	{"bad attribute name", "dn: uid=x,dc=lg,dc=local\n-: x\n"},
	{"missing file", "dn: uid=x,dc=lg,dc=local\nuid:< file:///nonexistent/x\n"},
	{"change record", "dn: ou=people,dc=lg,dc=local\nchangetype: modify\nreplace: ou\nou: x\n-\n"},
	{"delete record", "dn: ou=people,dc=lg,dc=local\nchangetype: delete\n"},
	{"rename record", "dn: ou=people,dc=lg,dc=local\nchangetype: modrdn\nnewrdn: ou=y\ndeleteoldrdn: 1\n"},
	{"unknown change", "dn: ou=people,dc=lg,dc=local\nchangetype: explode\n"},
	{"second version", "version: 2\n\n"},
}

// c17Adds imports files whose entries are, in part, written as additions:
// either the file is refused or all of it is there.
func c17Adds(t *T, r *rand.Rand, i int) {
	m := baseModel()
	people := m.Base.Child("ou", "people")
	for k := 0; k < 4; k++ {
		uid := fmt.Sprint("a", k)
		m.Add(people.Child("uid", uid), []Attr{attr("objectClass", "top", "thing"), attr("uid", uid), attr("description", genText(r, 30))})
	}
	text, marked := "", 0
	for _, n := range m.Ordered() {
		rec := n.LDIF()
		if r.Intn(3) == 0 || i == 0 {
			l := strings.IndexByte(rec, '\n')
			rec = rec[:l+1] + "changetype: add\n" + rec[l+1:]
			marked++
		}
		text += rec
	}
	db := t.newDBFile()
	out, code := c17Import(t, db, text, baseDN)
	if strings.Contains(out, "panic:") {
		t.Fail("import crashes", "additions", text, clip(out, 3000))
	}
	if code == 0 {
		c17Serve(t, db, m, fmt.Sprintf("file with %d entries written as additions, imported without complaint", marked))
	}
	os.RemoveAll(filepath.Dir(db))
	t.Count("additions", 1)
	t.Eval(fmt.Sprint("additions", marked), marked > 0)
}

func c17Bad(t *T, r *rand.Rand, b c17Break) {
	m := baseModel()
	recs := []string{}
	for _, n := range m.Ordered() {
		recs = append(recs, n.LDIF())
	}
	for _, at := range []int{0, 1, 1 + r.Intn(len(recs)-1), len(recs)} {
		text := strings.Join(recs[:at], "") + b.text + "\n" + strings.Join(recs[at:], "")
		db := t.newDBFile()
		out, code := c17Import(t, db, text, baseDN)
		what := fmt.Sprintf("%s at %d", b.name, at)
		if code == 0 {
			t.Fail("a file that breaks the rules is imported without complaint", what, b.text, clip(out, 1000))
		}
		if strings.Contains(out, "panic:") || strings.Contains(out, "goroutine 1 [") {
			t.Fail("import crashes", what, b.text, clip(out, 3000))
		}
		if strings.TrimSpace(out) == "" {
			t.Fail("import fails without saying why", what, b.text)
		}
		os.RemoveAll(filepath.Dir(db))
		t.Count("refused", 1)
		t.Eval("bad "+what, true)
	}
	// on top of an existing directory the rest has to stay as it is
	db := t.LoadDB(m)
	out, code := c17Import(t, db, b.text, baseDN)
	if code == 0 && b.name != "child before parent" {
		t.Fail("a file that breaks the rules is imported without complaint", b.name, b.text, clip(out, 1000))
	}
	if strings.Contains(out, "panic:") {
		t.Fail("import crashes", b.name, b.text, clip(out, 3000))
	}
	so, _, code := t.Command("", nil, "boltdb", "export", "--boltdb-file", db, "--ldap-base-dn", baseDN)
	es, err := readLDIF(so)
	if code != 0 || err != nil {
		t.Fail("a directory is damaged by a refused import", b.name, fmt.Sprint(code, err))
	}
	got, err := snapshotOf(es)
	t.Must(err, "snapshot")
	for k, v := range m.Snapshot() {
		if got[k] != v {
			t.Fail("a refused import changed existing entries", b.name, k)
		}
	}
	os.RemoveAll(filepath.Dir(db))
	t.Eval("bad on top "+b.name, true)
}
