package main

import (
	"crypto/tls"
	bin "encoding/binary"
	"fmt"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	ber "github.com/go-asn1-ber/asn1-ber"
)

func init() {
	register("C24", "exploration",
		"evaluations are repetitions of a workload; distinct are the workloads (way of ending a connection, kind of request and outcome) per back end and listener for which the counts of tasks, descriptors, connections and memory were compared before and after",
		checkC24)
}

// A workload is repeated many times on one server.
type c24Work struct {
	name string
	reps int                             // quick
	f    func(w *c24World, r *rand.Rand) // one repetition
	only string                          // back end
}

type c24World struct {
	t    *T
	s    *Server
	file bool
	main string
	db   string
	c    *Conn // kept for workloads that need no new connection
	n    int
}

func (w *c24World) dial() *Conn {
	c, err := dial(w.s.Addr)
	w.t.netErr(mapDial(err), "connect")
	return c
}

func (w *c24World) bind(c *Conn, admin bool) *Conn {
	dn, pw := userDN("u1"), "pw-u1"
	if admin && !w.file {
		dn, pw = adminDN, adminPW
	}
	res, err := c.Bind(dn, pw)
	w.t.netErr(err, "bind")
	if res.Code != rcSuccess {
		w.t.Fail("a bind is refused", fmt.Sprintf("%s: %+v", dn, res))
	}
	return c
}

// keep returns a connection that is bound and used again.
func (w *c24World) keep() *Conn {
	if w.c == nil {
		w.c = w.bind(w.dial(), true)
	}
	return w.c
}

// lost is called when a request may have ended the connection.
func (w *c24World) lost() {
	if w.c != nil {
		reset(w.c)
		w.c = nil
	}
}

func c24Works() []c24Work {
	var ws []c24Work
	add := func(name string, reps int, f func(w *c24World, r *rand.Rand)) {
		ws = append(ws, c24Work{name: name, reps: reps, f: f})
	}
	only := func(back string) { ws[len(ws)-1].only = back }

	big := SearchReq{Base: "ou=big," + baseDN, Scope: 2}
	req := envelope(5, searchOp(SearchReq{Base: baseDN, Scope: 2})).Bytes()
	closed := func(w *c24World, c *Conn) {
		c.halfClose()
		c.drain()
		c.Close()
	}

	// Ways of ending a connection.
	ends := map[string]func(w *c24World, r *rand.Rand, c *Conn){
		"close":              func(w *c24World, r *rand.Rand, c *Conn) { c.Close() },
		"reset":              func(w *c24World, r *rand.Rand, c *Conn) { reset(c) },
		"unbind":             func(w *c24World, r *rand.Rand, c *Conn) { c.Send(unbindOp()); closed(w, c) },
		"unbind and reset":   func(w *c24World, r *rand.Rand, c *Conn) { c.Send(unbindOp()); reset(c) },
		"half closed":        func(w *c24World, r *rand.Rand, c *Conn) { closed(w, c) },
		"reset in request":   func(w *c24World, r *rand.Rand, c *Conn) { c.SendRaw(req[:1+r.Intn(len(req)-1)]); reset(c) },
		"close in request":   func(w *c24World, r *rand.Rand, c *Conn) { c.SendRaw(req[:1+r.Intn(len(req)-1)]); c.Close() },
		"reset in result":    func(w *c24World, r *rand.Rand, c *Conn) { c.Send(searchOp(big)); c.Recv(); reset(c) },
		"close in result":    func(w *c24World, r *rand.Rand, c *Conn) { c.Send(searchOp(big)); c.Recv(); c.Close() },
		"reset after search": func(w *c24World, r *rand.Rand, c *Conn) { c.Send(searchOp(big)); reset(c) },
		"reset in pipeline": func(w *c24World, r *rand.Rand, c *Conn) {
			for i := 0; i < 6; i++ {
				c.Send(searchOp(big))
			}
			c.Recv()
			reset(c)
		},
		"compare": func(w *c24World, r *rand.Rand, c *Conn) { c.Send(compareOp(baseDN, "dc", "lg")); closed(w, c) },
		"abandon": func(w *c24World, r *rand.Rand, c *Conn) { c.Send(abandonOp(1)); closed(w, c) },
		"garbage": func(w *c24World, r *rand.Rand, c *Conn) {
			b := make([]byte, 300)
			r.Read(b)
			c.SendRaw(b)
			closed(w, c)
		},
		"long announced": func(w *c24World, r *rand.Rand, c *Conn) {
			c.SendRaw(append([]byte{0x30, 0x83, 0x0f, 0xff, 0xff}, make([]byte, 3000)...))
			reset(c)
		},
		"too long announced": func(w *c24World, r *rand.Rand, c *Conn) {
			c.SendRaw([]byte{0x30, 0x84, 0x7f, 0xff, 0xff, 0xff, 2, 1, 1})
			closed(w, c)
		},
		"refused search": func(w *c24World, r *rand.Rand, c *Conn) {
			c.Send(searchOp(SearchReq{Base: "dc=elsewhere", Scope: 2}))
			closed(w, c)
		},
		"reset in bind": func(w *c24World, r *rand.Rand, c *Conn) { c.Send(bindOp(userDN("u2"), "pw-u2")); reset(c) },
		"reset in paged search": func(w *c24World, r *rand.Rand, c *Conn) {
			c.Send(searchOp(SearchReq{Base: baseDN, Scope: 2}), pagingControl(3, nil))
			reset(c)
		},
		"close after first page": func(w *c24World, r *rand.Rand, c *Conn) {
			c.Search(SearchReq{Base: baseDN, Scope: 2}, pagingControl(3, nil))
			c.Close()
		},
	}
	for _, name := range sortedKeys(ends) {
		f := ends[name]
		reps := 600
		if name == "close" || name == "unbind" { // a little for each connection adds up
			reps = 3000
		}
		add(name, reps, func(w *c24World, r *rand.Rand) { f(w, r, w.bind(w.dial(), false)) })
		if !strings.Contains(name, "unbind") {
			add("anonymous "+name, reps, func(w *c24World, r *rand.Rand) { f(w, r, w.dial()) })
		}
		add("tls "+name, 120, func(w *c24World, r *rand.Rand) {
			c, err := dialTLS(w.s.TLSAddr)
			w.t.netErr(mapDial(err), "TLS connect")
			f(w, r, w.bind(c, false))
		})
	}

	// TLS negotiations that come to nothing.
	tlsConn := func(w *c24World) net.Conn {
		c, err := net.DialTimeout("tcp", w.s.TLSAddr, 20*time.Second)
		w.t.netErr(mapDial(err), "connect to the TLS listener")
		return c
	}
	linger := func(c net.Conn) {
		c.(*net.TCPConn).SetLinger(0)
		c.Close()
	}
	add("tls silent reset", 300, func(w *c24World, r *rand.Rand) { linger(tlsConn(w)) })
	add("tls silent close", 300, func(w *c24World, r *rand.Rand) { tlsConn(w).Close() })
	add("tls half hello", 300, func(w *c24World, r *rand.Rand) {
		c := tlsConn(w)
		c.Write([]byte("\x16\x03\x01\x00\xc8\x01\x00\x00\xc4\x03\x03")[:1+r.Intn(10)])
		linger(c)
	})
	add("tls not tls", 300, func(w *c24World, r *rand.Rand) {
		c := tlsConn(w)
		c.Write(req)
		buf := make([]byte, 100)
		c.SetReadDeadline(time.Now().Add(answerLimit))
		c.Read(buf)
		linger(c)
	})
	add("tls wrong versions", 200, func(w *c24World, r *rand.Rand) {
		c := tlsConn(w)
		x := tls.Client(c, &tls.Config{InsecureSkipVerify: true, CipherSuites: []uint16{tls.TLS_ECDHE_ECDSA_WITH_RC4_128_SHA}, MaxVersion: tls.VersionTLS11, MinVersion: tls.VersionTLS10})
		c.SetDeadline(time.Now().Add(answerLimit))
		x.Handshake()
		linger(c)
	})
	add("tls refused certificate", 200, func(w *c24World, r *rand.Rand) {
		c := tlsConn(w)
		x := tls.Client(c, &tls.Config{ServerName: "other.example"})
		c.SetDeadline(time.Now().Add(answerLimit))
		x.Handshake()
		linger(c)
	})

	// Requests on a connection that stays.
	ask := func(name string, reps int, f func(w *c24World, r *rand.Rand, c *Conn) error) {
		add("request "+name, reps, func(w *c24World, r *rand.Rand) {
			if err := f(w, r, w.keep()); err != nil {
				w.t.netErr(err, name)
			}
		})
	}
	// last requests end the connection
	last := func(name string, reps int, f func(w *c24World, r *rand.Rand, c *Conn)) {
		add("request "+name, 2*reps, func(w *c24World, r *rand.Rand) {
			f(w, r, w.keep())
			w.lost()
		})
	}
	search := func(q SearchReq) func(w *c24World, r *rand.Rand, c *Conn) error {
		return func(w *c24World, r *rand.Rand, c *Conn) error { _, err := c.Search(q); return err }
	}
	ask("search one", 1500, search(SearchReq{Base: baseDN, Scope: 2, Filter: Eq("uid", "u3")}))
	ask("search none", 1500, search(SearchReq{Base: baseDN, Scope: 2, Filter: Eq("uid", "nobody")}))
	ask("search all", 150, search(SearchReq{Base: baseDN, Scope: 2}))
	ask("search base", 1500, search(SearchReq{Base: baseDN, Scope: 0}))
	ask("search without index", 400, search(SearchReq{Base: baseDN, Scope: 2, Filter: Eq("description", "x")}))
	ask("search missing", 1500, search(SearchReq{Base: "ou=missing," + baseDN, Scope: 2}))
	last("search limited", 300, func(w *c24World, r *rand.Rand, c *Conn) {
		c.Search(SearchReq{Base: baseDN, Scope: 2, SizeLimit: 1 + r.Intn(5)})
	})
	last("search outside", 300, func(w *c24World, r *rand.Rand, c *Conn) { c.Search(SearchReq{Base: "dc=other", Scope: 2}) })
	last("search odd filter", 300, func(w *c24World, r *rand.Rand, c *Conn) {
		c.Search(SearchReq{Base: baseDN, Scope: 2, Filter: &Filter{Kind: "eq", Attr: "", Val: "("}})
	})
	paged := func(pages int, wrong bool) func(w *c24World, r *rand.Rand, c *Conn) {
		return func(w *c24World, r *rand.Rand, c *Conn) {
			var cookie []byte
			for i := 0; i < pages; i++ {
				sr, err := c.Search(SearchReq{Base: baseDN, Scope: 2}, pagingControl(int64(20+r.Intn(20)), cookie))
				if err != nil || sr.Result.Code != rcSuccess || len(sr.Cookie) == 0 {
					return
				}
				cookie = sr.Cookie
			}
			if wrong {
				c.Search(SearchReq{Base: baseDN, Scope: 2}, pagingControl(5, append([]byte("no"), cookie...)))
			} else {
				c.Search(SearchReq{Base: baseDN, Scope: 2}, pagingControl(0, cookie))
			}
		}
	}
	last("paged complete", 30, paged(1000, false))
	last("paged abandoned", 300, paged(1, false))
	last("paged abandoned later", 200, paged(3, false))
	last("paged wrong cookie", 300, paged(1, true))
	ask("paged never continued", 400, func(w *c24World, r *rand.Rand, c *Conn) error {
		_, err := c.Search(SearchReq{Base: baseDN, Scope: 2}, pagingControl(3, nil))
		return err
	})
	last("unknown cookie", 300, func(w *c24World, r *rand.Rand, c *Conn) {
		c.Search(SearchReq{Base: baseDN, Scope: 2}, pagingControl(3, []byte(fmt.Sprint("c", r.Int63()))))
	})
	last("unknown operation", 300, func(w *c24World, r *rand.Rand, c *Conn) {
		op := appConstructed(20)
		op.AppendChild(octet("x"))
		c.Send(op)
		closed(w, c)
	})
	ask("bind wrong", 1500, func(w *c24World, r *rand.Rand, c *Conn) error { _, err := c.Bind(userDN("u1"), "wrong"); return err })
	ask("bind missing", 1500, func(w *c24World, r *rand.Rand, c *Conn) error {
		_, err := c.Bind(fmt.Sprintf("uid=x%d,%s", r.Int63(), baseDN), "wrong")
		return err
	})
	ask("bind right", 1500, func(w *c24World, r *rand.Rand, c *Conn) error { w.bind(c, true); return nil })
	ask("add refused", 1500, func(w *c24World, r *rand.Rand, c *Conn) error {
		_, err := c.Add(Entry{DN: fmt.Sprintf("cn=x%d,ou=missing,%s", r.Int63(), baseDN), Attrs: []Attr{attr("objectClass", "top"), attr("cn", "x")}})
		return err
	})
	ask("modify refused", 1500, func(w *c24World, r *rand.Rand, c *Conn) error {
		_, err := c.Modify(fmt.Sprintf("cn=x%d,%s", r.Int63(), baseDN), []Change{{2, "description", []string{"x"}}})
		return err
	})
	ask("delete refused", 1500, func(w *c24World, r *rand.Rand, c *Conn) error {
		_, err := c.Delete(fmt.Sprintf("cn=x%d,%s", r.Int63(), baseDN))
		return err
	})
	ask("rename refused", 1500, func(w *c24World, r *rand.Rand, c *Conn) error {
		_, err := c.ModDN(userDN("u4"), "uid=u5", true, nil)
		return err
	})
	ask("password refused", 1500, func(w *c24World, r *rand.Rand, c *Conn) error {
		_, _, err := c.PwMod(sp(fmt.Sprintf("cn=x%d,%s", r.Int63(), baseDN)), nil, sp("pw"))
		return err
	})
	ask("add and delete", 500, func(w *c24World, r *rand.Rand, c *Conn) error {
		d := fmt.Sprintf("cn=y%d,%s", r.Int63(), baseDN)
		if _, err := c.Add(Entry{DN: d, Attrs: []Attr{attr("objectClass", "top"), attr("cn", "y"), attr("description", strings.Repeat("v", r.Intn(5000)))}}); err != nil {
			return err
		}
		_, err := c.Delete(d)
		return err
	})
	ask("modify", 600, func(w *c24World, r *rand.Rand, c *Conn) error {
		_, err := c.Modify(userDN("u6"), []Change{{2, "description", []string{fmt.Sprint(r.Int63()), strings.Repeat("v", r.Intn(3000))}}})
		return err
	})
	ask("rename there and back", 300, func(w *c24World, r *rand.Rand, c *Conn) error {
		if _, err := c.ModDN(userDN("u7"), "uid=u7x", true, nil); err != nil {
			return err
		}
		_, err := c.ModDN(userDN("u7x"), "uid=u7", true, nil)
		return err
	})
	ask("password", 20, func(w *c24World, r *rand.Rand, c *Conn) error {
		_, _, err := c.PwMod(sp(userDN("u8")), nil, sp("other"))
		return err
	})
	ask("modify while others read", 300, func(w *c24World, r *rand.Rand, c *Conn) error {
		x := w.bind(w.dial(), false)
		x.Send(searchOp(big))
		x.Recv()
		_, err := c.Modify(userDN("u6"), []Change{{2, "description", []string{fmt.Sprint(r.Int63()), strings.Repeat("v", r.Intn(3000))}}})
		reset(x)
		return err
	})
	only("db")

	ask("only child", 250, func(w *c24World, r *rand.Rand, c *Conn) error {
		p := fmt.Sprintf("ou=p%d,%s", r.Int63(), baseDN)
		d := fmt.Sprintf("cn=y%d,%s", r.Int63(), p)
		for _, x := range []string{p, d} {
			if _, err := c.Add(Entry{DN: x, Attrs: []Attr{attr("objectClass", "top"), attr("cn", "y"), attr("description", strings.Repeat("v", 3000+r.Intn(5000)))}}); err != nil {
				return err
			}
		}
		if _, err := c.Delete(d); err != nil {
			return err
		}
		_, err := c.Delete(p)
		return err
	})
	only("db")
	ask("row of entries", 100, func(w *c24World, r *rand.Rand, c *Conn) error {
		d := baseDN
		var ds []string
		for i := 0; i < 6; i++ {
			d = fmt.Sprintf("ou=r%d,%s", r.Int63(), d)
			ds = append(ds, d)
			if _, err := c.Add(Entry{DN: d, Attrs: []Attr{attr("objectClass", "top"), attr("ou", "y"), attr("description", strings.Repeat("v", 3000))}}); err != nil {
				return err
			}
		}
		for i := range ds {
			if _, err := c.Delete(ds[len(ds)-1-i]); err != nil {
				return err
			}
		}
		return nil
	})
	only("db")
	ask("renamed to new names", 300, func(w *c24World, r *rand.Rand, c *Conn) error {
		a, b := userDN("u9"), fmt.Sprintf("uid=n%d%s", r.Int63(), strings.Repeat("n", 400))
		if _, err := c.ModDN(a, b, true, nil); err != nil {
			return err
		}
		_, err := c.ModDN(strings.Replace(a, "uid=u9", b, 1), "uid=u9", true, nil)
		return err
	})
	only("db")
	ask("new attributes", 300, func(w *c24World, r *rand.Rand, c *Conn) error {
		name := fmt.Sprintf("x-%d-%s", r.Int63(), strings.Repeat("a", 500))
		if _, err := c.Modify(userDN("u6"), []Change{{0, name, []string{longText(r, 1000)}}}); err != nil {
			return err
		}
		_, err := c.Modify(userDN("u6"), []Change{{1, name, nil}})
		return err
	})
	only("db")
	// No request is like another.
	ask("different filters", 1000, func(w *c24World, r *rand.Rand, c *Conn) error {
		v := longText(r, 1500)
		f := pick(r, []*Filter{Eq("uid", v), Eq("description", v), Sub("cn", SubPart{0, v}), Sub("mail", SubPart{2, v}), Sub("cn", SubPart{1, v}), Present("x-" + v), Eq("x-"+v, "y"), Not(Not(Eq("cn", v)))})
		_, err := c.Search(SearchReq{Base: "ou=people," + baseDN, Scope: 1, Filter: f})
		return err
	})
	ask("different bases", 1000, func(w *c24World, r *rand.Rand, c *Conn) error {
		_, err := c.Search(SearchReq{Base: "cn=" + longText(r, 1500) + "," + baseDN, Scope: r.Intn(3)})
		return err
	})
	ask("different attributes asked for", 800, func(w *c24World, r *rand.Rand, c *Conn) error {
		_, err := c.Search(SearchReq{Base: userDN("u3"), Scope: 0, Attrs: []string{"cn", "x-" + longText(r, 1500)}})
		return err
	})
	ask("different names in binds", 1000, func(w *c24World, r *rand.Rand, c *Conn) error {
		_, err := c.Bind("uid="+longText(r, 1500)+","+baseDN, longText(r, 1500))
		return err
	})
	ask("different passwords in binds", 1000, func(w *c24World, r *rand.Rand, c *Conn) error {
		_, err := c.Bind(userDN("u1"), longText(r, 1500))
		return err
	})
	last("different operations", 300, func(w *c24World, r *rand.Rand, c *Conn) {
		op := appConstructed(23)
		op.AppendChild(ctxString(0, "1.2.3."+longText(r, 1500)))
		c.Send(op)
		c.Recv()
	})
	// Requests that are refused before they reach the back end.
	sends := func(name string, b func(r *rand.Rand) *ber.Packet, controls ...*ber.Packet) {
		last(name, 250, func(w *c24World, r *rand.Rand, c *Conn) {
			c.Send(b(r), controls...)
			closed(w, c)
		})
	}
	anyBind := func(version int64, auth *ber.Packet) func(r *rand.Rand) *ber.Packet {
		return func(r *rand.Rand) *ber.Packet {
			op := appConstructed(tagBindReq)
			op.AppendChild(integer(version))
			op.AppendChild(octet(userDN("u1")))
			op.AppendChild(auth)
			return op
		}
	}
	sasl := ber.Encode(ber.ClassContext, ber.TypeConstructed, 3, nil, "")
	sasl.AppendChild(octet("PLAIN"))
	sasl.AppendChild(octet("\x00u1\x00pw-u1"))
	sends("sasl bind", anyBind(3, sasl))
	sends("version 2 bind", anyBind(2, ctxString(0, "pw-u1")))
	sends("bind with other authentication", anyBind(3, ctxString(5, "x")))
	badControl := seq()
	badControl.AppendChild(octet(pagingOID))
	badControl.AppendChild(octet("no such thing"))
	sends("bad control", func(r *rand.Rand) *ber.Packet { return searchOp(SearchReq{Base: baseDN}) }, badControl)
	sends("short bind", func(r *rand.Rand) *ber.Packet { return appConstructed(tagBindReq) })
	sends("short search", func(r *rand.Rand) *ber.Packet { return appConstructed(tagSearchReq) })
	sends("short add", func(r *rand.Rand) *ber.Packet { return appConstructed(tagAddReq) })
	sends("short modify", func(r *rand.Rand) *ber.Packet { return appConstructed(tagModReq) })
	sends("short rename", func(r *rand.Rand) *ber.Packet { return appConstructed(tagModDNReq) })
	sends("short extended", func(r *rand.Rand) *ber.Packet { return appConstructed(tagExtReq) })
	sends("empty delete", func(r *rand.Rand) *ber.Packet {
		return ber.NewString(ber.ClassApplication, ber.TypePrimitive, 10, "", "")
	})
	last("message without request", 250, func(w *c24World, r *rand.Rand, c *Conn) {
		c.SendRaw([]byte{0x30, 0x03, 0x02, 0x01, 0x05})
		closed(w, c)
	})
	ask("password generated", 16, func(w *c24World, r *rand.Rand, c *Conn) error {
		_, _, err := c.PwMod(sp(userDN("u8")), nil, nil)
		return err
	})
	ask("password with wrong old one", 400, func(w *c24World, r *rand.Rand, c *Conn) error {
		_, _, err := c.PwMod(sp(userDN("u8")), sp(longText(r, 600)), sp("x"))
		return err
	})
	ask("password for others", 400, func(w *c24World, r *rand.Rand, c *Conn) error {
		_, _, err := c.PwMod(sp(longText(r, 600)), nil, sp("x"))
		return err
	})
	ask("add again", 400, func(w *c24World, r *rand.Rand, c *Conn) error {
		_, err := c.Add(Entry{DN: userDN("u3"), Attrs: []Attr{attr("objectClass", "top"), attr("description", longText(r, 600))}})
		return err
	})
	ask("add outside", 400, func(w *c24World, r *rand.Rand, c *Conn) error {
		_, err := c.Add(Entry{DN: "cn=" + longText(r, 600), Attrs: []Attr{attr("objectClass", "top")}})
		return err
	})
	ask("delete with entries below", 400, func(w *c24World, r *rand.Rand, c *Conn) error {
		_, err := c.Delete("ou=big," + baseDN)
		return err
	})
	ask("names that are none", 400, func(w *c24World, r *rand.Rand, c *Conn) error {
		n := longText(r, 600)
		if _, err := c.Add(Entry{DN: n, Attrs: []Attr{attr("objectClass", "top")}}); err != nil {
			return err
		}
		if _, err := c.Delete(n); err != nil {
			return err
		}
		if _, err := c.Modify(n, []Change{{2, "description", []string{n}}}); err != nil {
			return err
		}
		_, err := c.ModDN(userDN("u3"), n, true, nil)
		return err
	})
	ask("modify that is refused", 400, func(w *c24World, r *rand.Rand, c *Conn) error {
		_, err := c.Modify(userDN("u3"), []Change{{1, "title", []string{longText(r, 600)}}})
		return err
	})

	// Many connections at the same time, each for the first time.
	add("many at once", 12, func(w *c24World, r *rand.Rand) {
		var cs []*Conn
		for i := 0; i < 60; i++ {
			cs = append(cs, w.dial())
		}
		for _, c := range cs {
			w.bind(c, false)
			c.Send(searchOp(SearchReq{Base: "ou=people," + baseDN, Scope: 2}))
		}
		for _, c := range cs {
			if r.Intn(2) == 0 {
				reset(c)
			} else {
				closed(w, c)
			}
		}
	})

	// Not from LDAP clients.
	add("metrics", 200, func(w *c24World, r *rand.Rand) { w.s.MetricValues() })
	add("reload", 60, func(w *c24World, r *rand.Rand) {
		if w.file && r.Intn(2) == 0 {
			w.t.Must(os.WriteFile(filepath.Join(filepath.Dir(w.main), "note"), []byte(fmt.Sprint(r.Int())), 0o644), "write")
		}
		w.s.Signal(syscall.SIGHUP)
		time.Sleep(10 * time.Millisecond)
	})
	add("reload refused", 60, func(w *c24World, r *rand.Rand) {
		good, err := os.ReadFile(w.main)
		w.t.Must(err, "read")
		w.t.Must(os.WriteFile(w.main, append(append([]byte{}, good...), "\ndn broken\n"...), 0o644), "write")
		w.s.Signal(syscall.SIGHUP)
		time.Sleep(10 * time.Millisecond)
		w.t.Must(os.WriteFile(w.main, good, 0o644), "write")
	})
	only("file")
	return ws
}

func c24Start(t *T, file bool, mods ...func(*ServerOpts)) *c24World {
	m := baseModel()
	for i := 0; i < 10; i++ {
		uid := fmt.Sprintf("u%d", i)
		mustAdd(m, mustDN(userDN(uid)), personAttrs(uid, "U", "S", "", "pw-"+uid)...)
	}
	big := m.Base.Child("ou", "big")
	mustAdd(m, big, thing(big)...)
	for i := 0; i < 150; i++ {
		d := big.Child("cn", fmt.Sprintf("b%d", i))
		mustAdd(m, d, thing(d, attr("description", strings.Repeat("z", 1000)))...)
	}
	w := &c24World{t: t, file: file}
	mod := func(o *ServerOpts) {
		o.Pprof, o.Metrics, o.TLS, o.Anonymous = true, true, true, true
		o.Extra = append(o.Extra, "--log-level", "panic")
		w.main, w.db = o.Main, o.DB
		for _, m := range mods {
			m(o)
		}
	}
	if file {
		w.s = t.StartLDIF(m.LDIF(), "", mod)
	} else {
		w.s = t.StartDB(m, mod)
	}
	t.Must(w.s.WaitSignals(), "signals")
	return w
}

type c24Held struct {
	tasks, fds, conns int
	heap, file        int64
	stacks            string
}

func (h c24Held) String() string {
	return fmt.Sprintf("%d tasks, %d descriptors, %d connections, %d bytes of memory, %d bytes of database", h.tasks, h.fds, h.conns, h.heap, h.file)
}

// dbInUse gives the bytes of a database file that are in use, by the free list
// it contains; the file itself grows in large steps.
func dbInUse(p string) int64 {
	b, err := os.ReadFile(p)
	if err != nil {
		return 0
	}
	le := bin.LittleEndian
	var page, free, high, best uint64
	for _, at := range []int{0, 4096, 8192, 16384, 65536} {
		if len(b) < at+16+64 {
			break
		}
		m := b[at+16:]
		if le.Uint32(m) != 0xED0CDAED || le.Uint64(m[48:]) < best {
			continue
		}
		page, free, high, best = uint64(le.Uint32(m[8:])), le.Uint64(m[32:]), le.Uint64(m[40:]), le.Uint64(m[48:])
	}
	if page == 0 || high*page > uint64(len(b)) || free >= high {
		return int64(len(b))
	}
	f := b[free*page:]
	n := uint64(le.Uint16(f[10:]))
	if n == 0xffff {
		n = le.Uint64(f[16:])
	}
	if n > high {
		return int64(len(b))
	}
	return int64((high - n) * page)
}

func longText(r *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcdefghijklmnopqrstuvwxyz0123456789"[r.Intn(36)]
	}
	return string(b)
}

func (w *c24World) held() c24Held {
	var h c24Held
	h.tasks, h.stacks = w.s.Goroutines()
	h.heap = w.s.HeapInUse()
	h.fds = w.s.FDs()
	if v, err := w.s.MetricValues(); err == nil {
		h.conns = int(v["connections_current"])
	} else {
		h.conns = -1
	}
	if w.db != "" {
		h.file = dbInUse(w.db)
	}
	return h
}

// settle waits until as few tasks, descriptors and connections are held as
// before.
func (w *c24World) settle(before *c24Held) c24Held {
	w.lost()
	start := time.Now()
	for {
		h := w.held()
		if h.tasks < 0 || h.heap < 0 || h.conns < 0 {
			w.s.CheckAlive("while counting what it holds")
			w.t.Inconclusive("cannot read what the server holds: %s", h.stacks)
		}
		// search producers end after a minute
		if h.conns <= 0 && (before == nil || h.tasks <= before.tasks && h.fds <= before.fds) || time.Since(start) > 150*time.Second {
			// Pools are given back by the second collection.
			h.heap = w.s.HeapInUse()
			return h
		}
		time.Sleep(50 * time.Millisecond)
	}
}

const (
	c24Rounds    = 12       // a multiple of three
	c24Slope     = 10 << 10 // in each round
	c24SlackOnce = 4 << 20  // for those with one round
)

// rests tells whether a value did not grow by much for each round.
func rests(v []int64) bool {
	n := len(v) - 1
	return n > 0 && v[n]-v[0] <= int64(n)*c24Slope
}

// grows tells whether the values keep growing, and not only at one time.
func grows(v []int64) bool {
	third := len(v) / 3
	for k := 0; k < 3; k++ {
		if v[(k+1)*third]-v[k*third] < int64(third)*c24Slope {
			return false
		}
	}
	return true
}

func (w *c24World) run(k c24Work, slow bool) {
	t := w.t
	back := "db"
	if w.file {
		back = "file"
	}
	r := t.Sub(back + " " + k.name)
	w.bind(w.dial(), false).Close()
	before := w.settle(nil)
	// Something may still be ending when the connection is.
	for i := 0; i < 3; i++ {
		time.Sleep(50 * time.Millisecond)
		if h := w.settle(nil); h.tasks < before.tasks || h.fds < before.fds {
			before = h
		}
	}
	hist := []string{"before " + before.String()}
	done := 0
	round := func(n int) c24Held {
		for i := 0; i < n; i++ {
			k.f(w, r)
			t.Eval(back+" "+k.name, true)
		}
		done += n
		h := w.settle(&before)
		hist = append(hist, fmt.Sprintf("after %d repetitions %s", done, h))
		what := ""
		switch {
		case h.tasks > before.tasks:
			what = "tasks"
		case h.fds > before.fds:
			what = "descriptors"
		case h.conns > 0:
			what = "connections"
		}
		if what != "" {
			t.Fail("finished work leaves "+what+" behind", back+", "+k.name, strings.Join(hist, "; "), clip(h.stacks, 12000))
		}
		return h
	}
	n := t.N(k.reps, 3*k.reps)
	if slow && w.file {
		h := round(n)
		if h.heap > before.heap+c24SlackOnce {
			t.Fail("finished work leaves memory behind", back+", "+k.name, strings.Join(hist, "; "))
		}
	} else {
		// Memory and disk space only count when they keep growing, as some
		// is taken once and for all.
		var heap, file []int64
		for len(heap) <= c24Rounds {
			h := round(n / 2)
			heap, file = append(heap, h.heap), append(file, h.file)
			if rests(heap) && rests(file) {
				break
			}
		}
		if len(heap) > c24Rounds && (grows(heap) || grows(file)) {
			t.Fail("finished work leaves memory or disk space behind", back+", "+k.name, strings.Join(hist, "; "))
		}
	}
	t.SampleEvery(w.n, func() interface{} { return back + ", " + k.name + ": " + strings.Join(hist, "; ") })
	t.Count("workloads", 1)
}

// c24Slow tells the workloads after which tasks of the LDIF back end remain
// for up to a minute.
func c24Slow(name string) bool {
	for _, p := range []string{"page", "limited", "odd"} {
		if strings.Contains(name, p) {
			return true
		}
	}
	return false
}

func checkC24(t *T) {
	t.Assume("LDIF search producers may outlive their consumer by up to a minute; tasks, descriptors and connections must return exactly, memory must not keep growing by more than 10 KiB in a round in all thirds of twelve rounds")
	var fs []func()
	var names []string
	for _, k := range c24Works() {
		for _, file := range []bool{true, false} {
			k, file := k, file
			if k.only == "db" && file || k.only == "file" && !file {
				continue
			}
			n := len(fs)
			fs = append(fs, func() {
				w := c24Start(t, file)
				w.n = n
				w.run(k, c24Slow(k.name))
				w.s.CheckAlive("after " + k.name)
				w.s.Kill()
			})
			names = append(names, k.name)
		}
	}
	// The ones that have to wait do not use the processor.
	jobs := make(chan func())
	var ws []func()
	for i := 0; i < 40; i++ {
		ws = append(ws, func() {
			for f := range jobs {
				if !t.failed() {
					f()
				}
			}
		})
	}
	ws = append(ws, func() {
		// paged and limited searches first, they take longest
		for pass := 0; pass < 2; pass++ {
			for i, f := range fs {
				slow := c24Slow(names[i])
				if slow == (pass == 0) {
					jobs <- f
				}
			}
		}
		close(jobs)
	})
	t.Go(ws...)
}
