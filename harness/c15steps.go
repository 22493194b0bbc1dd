package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"syscall"
	"time"
)

// c15Steps changes the files in small ways that a server could take for no
// change at all: the same length and time of the files, only passwords, only
// letter case, back to an earlier content, another file with the same entries.
func c15Steps(t *T, label, layout string, steps int) {
	r := t.Sub(label)
	dir := t.Dir("small")
	people := mustDN("ou=people," + baseDN)
	files := map[string]map[string]*Node{} // file -> name -> entry
	conf := map[string]*Node{}
	pws := map[string]string{}
	where := []string{"main.ldif"}
	if layout == "folder" {
		where = []string{"a.ldif", "b.ldif", "c.ldif"}
	}
	for _, f := range where {
		files[f] = map[string]*Node{}
	}
	serial := 100000
	next := func() string { serial++; return fmt.Sprint(serial) }
	base := baseModel()
	for _, n := range base.Ordered() {
		files[where[0]][n.DN.Key()] = n
	}
	add := func(f string) {
		uid := "p" + next()
		d := people.Child("uid", uid)
		files[f][d.Key()] = &Node{DN: d, Attrs: append(personAttrs(uid, "Cn "+uid, "Sn", uid+"@x.example", "pw"+next()), attr("description", "d"+next()))}
	}
	for i := 0; i < 6; i++ {
		add(pick(r, where))
	}
	for i := 0; i < 3; i++ {
		d := people.Child("uid", fmt.Sprint("svc", i))
		conf[d.Key()] = &Node{DN: d, Attrs: []Attr{attr("objectClass", "top"), attr("uid", fmt.Sprint("svc", i)), attr("userPassword", "pw"+next())}}
	}
	when := time.Unix(1600000000, 0)
	text := func(m map[string]*Node) string {
		var keys []string
		for k := range m {
			keys = append(keys, k)
		}
		sort.Slice(keys, func(i, j int) bool {
			return len(keys[i]) < len(keys[j]) || len(keys[i]) == len(keys[j]) && keys[i] < keys[j]
		})
		s := ""
		for _, k := range keys {
			s += m[k].LDIF()
		}
		return s
	}
	put := func(p, s string) {
		if b, err := os.ReadFile(p); err == nil && string(b) == s {
			return
		}
		inPlace := r.Intn(2) == 0
		q := p
		if !inPlace {
			q = p + ".tmp"
		}
		t.Must(os.WriteFile(q, []byte(s), 0o644), "write")
		t.Must(os.Chtimes(q, when, when), "time")
		if !inPlace {
			t.Must(os.Rename(q, p), "rename")
		}
	}
	data := filepath.Join(dir, "data")
	write := func() {
		t.Must(os.MkdirAll(data, 0o755), "mkdir")
		old, err := os.ReadDir(data)
		t.Must(err, "list")
		for _, o := range old {
			if files[o.Name()] == nil {
				t.Must(os.Remove(filepath.Join(data, o.Name())), "remove")
			}
		}
		for f, m := range files {
			put(filepath.Join(data, f), text(m))
		}
		if layout != "single" {
			put(filepath.Join(dir, "config.ldif"), text(conf))
		}
		t.Must(os.Chtimes(data, when, when), "time")
	}
	write()
	o := ServerOpts{Handler: "ldif", Main: filepath.Join(data, "main.ldif"), Anonymous: true}
	if layout == "folder" {
		o.Main = data
	}
	if layout != "single" {
		o.Config = filepath.Join(dir, "config.ldif")
	}
	s := t.Start(o)
	defer s.Kill()
	t.Must(s.WaitSignals(), "wait")
	state := func() string {
		m := &Model{Base: base.Base, Nodes: map[string]*Node{}}
		for _, f := range files {
			for k, n := range f {
				m.Nodes[k] = n
			}
		}
		c := s.Dial()
		defer c.Close()
		if d := diffSnap(withoutSecrets(m).Snapshot(), t.Dump(c, baseDN)); d != "" {
			return d
		}
		for _, set := range []map[string]*Node{m.Nodes, conf} {
			if layout == "single" && len(set) == len(conf) {
				continue
			}
			for k, n := range set {
				pw := getVals(n.Attrs, "userPassword")
				if len(pw) != 1 {
					continue
				}
				res, err := c.Bind(n.DN.String(), pw[0])
				t.netErr(err, "bind")
				if res.Code != rcSuccess {
					return n.DN.String() + " is refused with the new password"
				}
				if old := pws[k]; old != "" && old != pw[0] {
					res, err := c.Bind(n.DN.String(), old)
					t.netErr(err, "bind")
					if res.Code == rcSuccess {
						return n.DN.String() + " is accepted with the old password"
					}
				}
			}
		}
		return ""
	}
	t.Must(func() error {
		if d := state(); d != "" {
			return fmt.Errorf("not as started: %s", d)
		}
		return nil
	}(), "start")
	// person picks an entry with a password out of the files
	person := func(m map[string]*Node) (string, *Node) {
		var keys []string
		for k, n := range m {
			if len(getVals(n.Attrs, "userPassword")) == 1 && len(getVals(n.Attrs, "description")) == 1 {
				keys = append(keys, k)
			}
		}
		if len(keys) == 0 {
			return "", nil
		}
		sort.Strings(keys)
		k := pick(r, keys)
		return k, m[k]
	}
	swap := func(s string) string { // other letter case, same length
		b := []byte(s)
		for i, c := range b {
			if c >= 'a' && c <= 'z' {
				b[i] = c - 32
			} else if c >= 'A' && c <= 'Z' {
				b[i] = c + 32
			}
		}
		return string(b)
	}
	kinds := []string{"value", "password", "letter case", "gone", "new", "other name", "all gone", "back"}
	if layout != "single" {
		kinds = append(kinds, "bind-only password", "bind-only name")
	}
	if layout == "folder" {
		kinds = append(kinds, "moved to another file", "new file", "file gone", "file renamed")
	}
	type saved struct {
		f map[string]map[string]*Node
		c map[string]*Node
	}
	keep := func() saved {
		x := saved{map[string]map[string]*Node{}, map[string]*Node{}}
		for f, m := range files {
			x.f[f] = map[string]*Node{}
			for k, n := range m {
				x.f[f][k] = n
			}
		}
		for k, n := range conf {
			x.c[k] = n
		}
		return x
	}
	first := keep()
	fileNames := func() []string {
		var out []string
		for f := range files {
			out = append(out, f)
		}
		sort.Strings(out)
		return out
	}
	for i := 0; i < steps; i++ {
		kind := kinds[i%len(kinds)]
		f := pick(r, fileNames())
		k, n := person(files[f])
		change := func(name, v string) {
			x := n.clone()
			x.Attrs = setVals(x.Attrs, name, []string{v})
			files[f][k] = x
		}
		before := map[string]string{}
		for _, m := range files {
			for k, n := range m {
				if pw := getVals(n.Attrs, "userPassword"); len(pw) == 1 {
					before[k] = pw[0]
				}
			}
		}
		for k, n := range conf {
			before[k] = getVals(n.Attrs, "userPassword")[0]
		}
		current := keep()
		if n == nil && kind != "new" && kind != "back" && kind != "all gone" && kind != "new file" && kind != "bind-only password" && kind != "bind-only name" {
			kind = "new"
		}
		switch kind {
		case "value":
			change("description", "d"+next())
		case "password":
			change("userPassword", "pw"+next())
		case "letter case":
			change("cn", swap(getVals(n.Attrs, "cn")[0]))
		case "gone":
			delete(files[f], k)
		case "new":
			add(f)
		case "other name":
			delete(files[f], k)
			add(f)
		case "all gone":
			if r.Intn(2) == 0 {
				first = current
			}
			for _, f := range fileNames() {
				files[f] = map[string]*Node{}
			}
		case "back":
			files, conf = first.f, first.c
			if kinds[(i+len(kinds)-1)%len(kinds)] != "all gone" {
				first = current
			}
		case "bind-only password", "bind-only name":
			var keys []string
			for k := range conf {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			k := pick(r, keys)
			x := conf[k].clone()
			if kind == "bind-only name" {
				delete(conf, k)
				uid := "s" + next()
				x.DN = people.Child("uid", uid)
				x.Attrs = setVals(x.Attrs, "uid", []string{uid})
			}
			x.Attrs = setVals(x.Attrs, "userPassword", []string{"pw" + next()})
			conf[x.DN.Key()] = x
		case "moved to another file":
			g := pick(r, fileNames())
			delete(files[f], k)
			files[g][k] = n
			// nothing visible changes by the move alone
			x := n.clone()
			x.Attrs = setVals(x.Attrs, "description", []string{"d" + next()})
			files[g][k] = x
		case "new file":
			g := "n" + next() + ".ldif"
			files[g] = map[string]*Node{}
			add(g)
		case "file gone":
			for _, g := range fileNames() {
				if g[0] == 'n' {
					delete(files, g)
					break
				}
			}
			add(pick(r, fileNames()))
		case "file renamed":
			change("description", "d"+next())
			files["r"+next()+".ldif"] = files[f]
			delete(files, f)
		}
		pws = before
		write()
		s.Signal(syscall.SIGHUP)
		t.Count("small_changes", 1)
		deadline := time.Now().Add(20 * time.Second)
		d := ""
		for {
			if d = state(); d == "" || time.Now().After(deadline) {
				break
			}
			time.Sleep(3 * time.Millisecond)
		}
		if d != "" {
			a := s.cpuTicks()
			time.Sleep(5 * time.Second)
			if s.cpuTicks()-a > 50 {
				t.Inconclusive("reload takes too long")
			}
			if d = state(); d != "" {
				t.Fail("a reload of proper files never takes effect", layout+": "+kind, d)
			}
		}
		t.Eval(layout+" small change: "+kind, true)
	}
	s.CheckAlive("after small changes")
	os.RemoveAll(dir)
}
