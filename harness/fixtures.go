package main

import (
	"encoding/base64"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"time"
)

func b64(s string) string { return base64.StdEncoding.EncodeToString([]byte(s)) }

func attr(name string, vals ...string) Attr { return Attr{name, vals} }

func personAttrs(uid, cn, sn, mail, pw string) []Attr {
	as := []Attr{
		attr("objectClass", "top", "person", "inetOrgPerson"),
		attr("uid", uid), attr("cn", cn), attr("sn", sn),
	}
	if mail != "" {
		as = append(as, attr("mail", mail))
	}
	if pw != "" {
		as = append(as, attr("userPassword", pw))
	}
	return as
}

// baseModel is the small directory most database checks start from.
func baseModel() *Model {
	m := newModel(baseDN)
	add := func(d DN, as ...Attr) {
		if !m.Add(d, as) {
			panic("fixture " + d.String())
		}
	}
	add(m.Base, attr("objectClass", "top", "dcObject", "organization"), attr("dc", "lg"), attr("o", "Test"))
	sys := m.Base.Child("ou", "sysusers")
	add(sys, attr("objectClass", "top", "organizationalUnit"), attr("ou", "sysusers"))
	add(sys.Child("uid", "admin"), attr("objectClass", "top", "account"), attr("uid", "admin"), attr("userPassword", adminPW))
	people := m.Base.Child("ou", "people")
	add(people, attr("objectClass", "top", "organizationalUnit"), attr("ou", "people"))
	add(m.Base.Child("ou", "groups"), attr("objectClass", "top", "organizationalUnit"), attr("ou", "groups"))
	return m
}

func userDN(uid string) string { return "uid=" + uid + ",ou=people," + baseDN }

// LoadDB creates a database with the content of the model, using the import
// command.
func (t *T) LoadDB(m *Model) string {
	d := t.Dir("db")
	l := filepath.Join(d, "in.ldif")
	t.Must(os.WriteFile(l, []byte(m.LDIF()), 0o644), "write")
	db := filepath.Join(d, "idm.db")
	so, se, code := t.Command("", nil, "boltdb", "load", "--boltdb-file", db, "--input-file", l, "--ldap-base-dn", m.Base.String())
	if code != 0 {
		t.Fail("importing a valid LDIF file failed", fmt.Sprintf("exit %d\n%s\n%s", code, so, se), m.LDIF())
	}
	return db
}

// StartDB starts a database-backed server on the model's content.
func (t *T) StartDB(m *Model, mod func(*ServerOpts)) *Server {
	o := ServerOpts{Handler: "boltdb", DB: t.LoadDB(m), Admin: adminDN, Base: m.Base.String()}
	if mod != nil {
		mod(&o)
	}
	return t.Start(o)
}

// StartLDIF starts a file-backed server on a data file and an optional config.
func (t *T) StartLDIF(main, config string, mod func(*ServerOpts)) *Server {
	d := t.Dir("ldif")
	o := ServerOpts{Handler: "ldif", Main: filepath.Join(d, "main.ldif")}
	t.Must(os.WriteFile(o.Main, []byte(main), 0o644), "write")
	if config != "" {
		o.Config = filepath.Join(d, "config.ldif")
		t.Must(os.WriteFile(o.Config, []byte(config), 0o644), "write")
	}
	if mod != nil {
		mod(&o)
	}
	return t.Start(o)
}

// Dump reads the whole directory through an administrator connection.
func (t *T) Dump(c *Conn, base string) map[string]string {
	r, err := c.Search(SearchReq{Base: base, Scope: 2})
	if err != nil {
		t.checkServers("while reading the directory")
		t.Fail("reading the whole directory failed", err.Error())
	}
	if r.Result.Code != rcSuccess {
		t.Fail("reading the whole directory was refused", fmt.Sprintf("%+v", r.Result))
	}
	snap, err := snapshotOf(r.Entries)
	if err != nil {
		t.Fail("a subtree search returned an impossible result", err.Error())
	}
	return snap
}

func (t *T) checkServers(context string) {
	t.mu.Lock()
	ss := append([]*Server{}, t.servers...)
	t.mu.Unlock()
	for _, s := range ss {
		if !s.expectDead {
			s.CheckAlive(context)
		}
	}
}

// netErr reports a failed exchange as a violation of the server (no answer,
// connection lost, wrong answer).
func (t *T) netErr(err error, what string) {
	if err == nil {
		return
	}
	time.Sleep(300 * time.Millisecond) // let a dying process be noticed
	t.checkServers(what)
	if errors.Is(err, errTimeout) {
		t.judgeSilence(what)
	}
	t.Fail("no proper answer: "+what, err.Error())
}

// judgeSilence decides what a missing answer means: if every server is still
// busy and answers nobody the machine may just be slow, and the run says
// nothing; a server that answers others or does nothing at all is stuck.
func (t *T) judgeSilence(what string) {
	t.mu.Lock()
	ss := append([]*Server{}, t.servers...)
	t.mu.Unlock()
	for _, s := range ss {
		if s.expectDead || !s.Alive() {
			continue
		}
		if c, err := dial(s.Addr); err == nil {
			_, err = c.Bind("cn=nobody,"+baseDN, "x")
			c.Close()
			if err == nil {
				continue
			}
		}
		before := s.cpuTicks()
		time.Sleep(3 * time.Second)
		if s.cpuTicks()-before > 20 {
			t.Inconclusive("no answer from a busy server: %s", what)
		}
	}
}

func (t *T) sameSnap(want, got map[string]string, what string) {
	if d := diffSnap(want, got); d != "" {
		t.Fail(what, d)
	}
}

func sp(s string) *string { return &s }

func sortStrings(xs []string) { sort.Strings(xs) }
