package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	ber "github.com/go-asn1-ber/asn1-ber"
)

func init() {
	register("C20", "exploration",
		"one evaluation per reading of the metrics that was compared with what clients had done until then, and per request answered alike with and without metrics; distinct by kind of request, way of ending a connection, number of open connections and back end",
		runC20)
}

var metricNames = []string{"connections_total", "connections_current", "connections_max", "binds_total", "unbinds_total", "searches_total"}

// c20Count is what clients did so far.
type c20Count struct {
	t    *T
	s    *Server
	want map[string]float64
}

func (w *c20Count) read() map[string]float64 {
	v, err := w.s.MetricValues()
	if err != nil {
		w.s.CheckAlive("while reading metrics")
		w.t.Fail("the metrics cannot be read", err.Error())
	}
	for _, n := range metricNames {
		if _, ok := v[n]; !ok {
			w.t.Fail("a metric is missing", n, fmt.Sprint(v))
		}
	}
	return v
}

func newC20(t *T, s *Server) *c20Count {
	w := &c20Count{t: t, s: s, want: map[string]float64{}}
	// connections are accepted in order: once these are answered, the ones that
	// found out whether the server is up have been counted, and are over soon
	c := s.Dial()
	_, err := c.Bind("", "")
	t.netErr(err, "bind")
	c.Close()
	if s.TLSAddr != "" {
		c, err := dialTLS(s.TLSAddr)
		t.Must(err, "tls connect")
		_, err = c.Bind("", "")
		t.netErr(err, "bind")
		c.Close()
	}
	for i := 0; i < 400; i++ {
		v := w.read()
		if v["connections_current"] == 0 {
			for _, n := range metricNames {
				w.want[n] = v[n]
			}
			if v["connections_max"] == 0 && v["connections_total"] > 0 {
				t.Fail("the reported maximum of open connections is below the largest number open at the same time", fmt.Sprint(v))
			}
			return w
		}
		time.Sleep(50 * time.Millisecond)
	}
	t.Fail("the current number of connections does not go back to zero", fmt.Sprint(w.read()))
	return nil
}

func (w *c20Count) opened() {
	w.want["connections_total"]++
	w.want["connections_current"]++
	if w.want["connections_current"] > w.want["connections_max"] {
		w.want["connections_max"] = w.want["connections_current"]
	}
}

// settle waits until the ends of connections are noticed and compares.
func (w *c20Count) settle(what string) {
	var v map[string]float64
	for i := 0; i < 1500; i++ {
		v = w.read()
		if v["connections_current"] == w.want["connections_current"] {
			break
		}
		time.Sleep(10 * time.Millisecond)
	}
	for _, n := range metricNames {
		if v[n] != w.want[n] {
			w.t.Fail("the metrics do not show what clients did", fmt.Sprintf("after %s: %s is %v, should be %v", what, n, v[n], w.want[n]), fmt.Sprint(v), fmt.Sprint(w.want))
		}
	}
	w.t.Count("readings", 1)
}

func c20Server(t *T, file bool, mod func(*ServerOpts)) *Server {
	m := baseModel()
	for i := 0; i < 30; i++ {
		uid := fmt.Sprintf("u%d", i)
		mustAdd(m, mustDN(userDN(uid)), personAttrs(uid, "U", "S", "", "pw-"+uid)...)
	}
	big := m.Base.Child("ou", "big")
	mustAdd(m, big, thing(big)...)
	for i := 0; i < 600; i++ {
		d := big.Child("cn", fmt.Sprintf("b%d", i))
		mustAdd(m, d, thing(d, attr("description", strings.Repeat("z", 2000)))...)
	}
	if file {
		return t.StartLDIF(m.LDIF(), "", mod)
	}
	return t.StartDB(m, mod)
}

func reset(c *Conn) {
	if tc, ok := c.c.(*net.TCPConn); ok {
		tc.SetLinger(0)
	}
	c.c.Close()
}

var c20Ends = []string{"unbind", "close", "reset", "half", "mid-request", "mid-result", "compare", "abandon", "unknown", "garbage", "refused-search", "malformed-length", "close-unread"}

// end ends a connection in the given way.
func (w *c20Count) end(c *Conn, how string) {
	t := w.t
	w.want["connections_current"]--
	waitClosed := func() {
		c.halfClose()
		_, err := c.drain()
		if errors.Is(err, errTimeout) {
			t.netErr(err, "waiting for the end of the connection after "+how)
		}
		c.Close()
	}
	switch how {
	case "unbind":
		c.Send(unbindOp())
		w.want["unbinds_total"]++
		waitClosed()
	case "close":
		c.Close()
	case "reset":
		reset(c)
	case "half":
		waitClosed()
	case "mid-request":
		b := envelope(5, searchOp(SearchReq{Base: baseDN, Scope: 2})).Bytes()
		c.SendRaw(b[:len(b)/2])
		c.Close()
	case "mid-result", "close-unread":
		// the search is counted as soon as its first entry arrives
		c.Send(searchOp(SearchReq{Base: "ou=big," + baseDN, Scope: 2}))
		w.want["searches_total"]++
		c.Recv()
		if how == "mid-result" {
			reset(c)
		} else {
			c.Close()
		}
	case "compare":
		c.Send(compareOp(baseDN, "dc", "lg"))
		waitClosed()
	case "abandon":
		c.Send(abandonOp(1))
		waitClosed()
	case "unknown":
		op := appConstructed(20)
		op.AppendChild(octet("x"))
		c.Send(op)
		waitClosed()
	case "garbage":
		c.SendRaw([]byte("GET / HTTP/1.0\r\n\r\n"))
		waitClosed()
	case "malformed-length":
		c.SendRaw([]byte{0x30, 0x84, 0xff, 0xff, 0xff, 0xff, 0x02})
		waitClosed()
	case "refused-search":
		c.Send(searchOp(SearchReq{Base: "dc=elsewhere", Scope: 2}))
		w.want["searches_total"]++
		waitClosed()
	}
}

func runC20(t *T) {
	t.Assume("the end of a connection is counted once the server has noticed it; the readings wait for that, and for nothing else")
	t.Go(
		func() { c20Exact(t, false) },
		func() { c20Exact(t, true) },
		func() { c20Together(t, false) },
		func() { c20Together(t, true) },
		func() { c20Same(t, false) },
		func() { c20Same(t, true) },
	)
}

// c20Exact: one thing after the other, read after each.
func c20Exact(t *T, file bool) {
	r := t.Sub(fmt.Sprint("exact", file))
	s := c20Server(t, file, func(o *ServerOpts) { o.Metrics, o.TLS = true, true })
	w := newC20(t, s)
	var open []*Conn
	var isTLS []bool
	limit := 1
	for i := 0; i < t.N(2000, 9000); i++ {
		if i%60 == 0 {
			limit = 1 + r.Intn(4+i/20)
		}
		what := ""
		switch x := r.Intn(10); {
		case len(open) == 0 || x < 3 && len(open) < limit:
			tls := r.Intn(4) == 0
			var c *Conn
			if tls {
				var err error
				c, err = dialTLS(s.TLSAddr)
				t.Must(err, "tls connect")
			} else {
				c = s.Dial()
			}
			w.opened()
			res, err := c.Bind(userDN("u1"), "pw-u1")
			t.netErr(err, "bind")
			if res.Code != rcSuccess {
				t.Fail("a bind with the right password was refused")
			}
			w.want["binds_total"]++
			open, isTLS = append(open, c), append(isTLS, tls)
			what = "connect"
		case x < 5 || len(open) > limit:
			k := r.Intn(len(open))
			how := pick(r, c20Ends)
			w.end(open[k], how)
			open, isTLS = append(open[:k], open[k+1:]...), append(isTLS[:k], isTLS[k+1:]...)
			what = "end-" + how
		case x < 6:
			k := r.Intn(len(open))
			res, err := open[k].Bind(userDN("u1"), "wrong")
			t.netErr(err, "bind")
			_ = res
			_, err = open[k].Bind(userDN("u2"), "pw-u2")
			t.netErr(err, "bind")
			w.want["binds_total"] += 2
			what = "bind"
		case x < 8:
			k := r.Intn(len(open))
			n := 1 + r.Intn(3)
			for j := 0; j < n; j++ {
				sr, err := open[k].Search(SearchReq{Base: "ou=people," + baseDN, Scope: r.Intn(3)})
				t.netErr(err, "search")
				if sr.Result.Code != rcSuccess {
					t.Fail("a valid search was refused", fmt.Sprintf("%+v", sr.Result))
				}
			}
			w.want["searches_total"] += float64(n)
			what = "search"
		case x < 9: // requests that are not counted
			k := r.Intn(len(open))
			c := open[k]
			var err error
			switch r.Intn(5) {
			case 0:
				_, err = c.Add(Entry{DN: userDN("new"), Attrs: personAttrs("new", "n", "n", "", "")})
				what = "add"
			case 1:
				_, err = c.Modify(userDN("u3"), []Change{{2, "description", []string{"x"}}})
				what = "modify"
			case 2:
				_, err = c.Delete(userDN("none"))
				what = "delete"
			case 3:
				_, err = c.ModDN(userDN("u3"), "uid=u4", true, nil)
				what = "rename"
			default:
				_, _, err = c.PwMod(sp(userDN("u9")), sp("x"), sp("Some new password 77"))
				what = "pwmod"
			}
			t.netErr(err, what)
		default:
			// TLS that never gets to a request
			x, err := net.Dial("tcp", s.TLSAddr)
			t.Must(err, "connect")
			x.Write([]byte("not a TLS hello at all\r\n\r\n"))
			b := make([]byte, 100)
			x.SetReadDeadline(time.Now().Add(answerLimit))
			for {
				if _, err := x.Read(b); err != nil {
					break
				}
			}
			x.Close()
			w.opened()
			w.want["connections_current"]--
			what = "bad-tls"
		}
		w.settle(what)
		t.Eval(fmt.Sprint("exact", file, what, len(open)), true)
		t.SampleEvery(i, func() interface{} {
			return map[string]interface{}{"file": file, "after": what, "open": len(open), "metrics": fmt.Sprint(w.want)}
		})
	}
	for _, c := range open {
		c.Close()
		w.want["connections_current"]--
	}
	w.settle("closing all")
	s.CheckAlive("after the readings")
	s.Kill()
}

// c20Together: many clients at once; totals are exact in the end and never go
// backwards meanwhile.
func c20Together(t *T, file bool) {
	r := t.Sub(fmt.Sprint("together", file))
	s := c20Server(t, file, func(o *ServerOpts) { o.Metrics = true })
	w := newC20(t, s)
	for round := 0; round < t.N(9, 60); round++ {
		clients := 4 + r.Intn(28)
		if round%3 == 2 {
			clients = 60 + r.Intn(80)
		}
		var mu sync.Mutex
		var stop atomic.Bool
		var fs []func()
		start := w.want["connections_total"]
		sub := make([]*c20Count, clients)
		done := make(chan struct{}, clients)
		hold := make(chan struct{})
		var ready sync.WaitGroup
		ready.Add(clients)
		for k := 0; k < clients; k++ {
			k, rr := k, rand.New(rand.NewSource(r.Int63()))
			sub[k] = &c20Count{t: t, s: s, want: map[string]float64{}}
			my := sub[k]
			fs = append(fs, func() {
				defer func() { done <- struct{}{} }()
				for n := 0; n < 12; n++ {
					c := s.Dial()
					my.opened()
					_, err := c.Bind(userDN("u1"), pick(rr, []string{"pw-u1", "pw-u1", "pw-u1", "wrong"}))
					t.netErr(err, "bind")
					my.want["binds_total"]++
					if n == 0 { // all hold a connection at the same time
						ready.Done()
						<-hold
					}
					for j := rr.Intn(4); j > 0; j-- {
						sr, err := c.Search(SearchReq{Base: "ou=people," + baseDN, Scope: 1})
						t.netErr(err, "search")
						my.want["searches_total"]++
						if sr.Result.Code != rcSuccess {
							break
						}
						if !file && rr.Intn(3) == 0 {
							_, err := c.Add(Entry{DN: userDN("new"), Attrs: personAttrs("new", "n", "n", "", "")})
							t.netErr(err, "add")
						}
					}
					// a refused search has closed the connection already
					c.Close()
					c = s.Dial()
					my.opened()
					_, err = c.Bind(userDN("u2"), "pw-u2")
					t.netErr(err, "bind")
					my.want["binds_total"]++
					my.end(c, pick(rr, c20Ends))
					my.want["connections_current"]--
				}
			})
		}
		fs = append(fs, func() {
			ready.Wait()
			// now at least this many are open at the same moment
			v := w.read()
			if v["connections_max"] < float64(clients) || v["connections_current"] != float64(clients) {
				t.Fail("the metrics do not show the connections open at the same time", fmt.Sprintf("%d connections are open: %v", clients, v))
			}
			t.Eval(fmt.Sprint("held", file, clients), true)
			close(hold)
			for i := 0; i < clients; i++ {
				<-done
			}
			stop.Store(true)
		})
		for k := 0; k < 2; k++ {
			fs = append(fs, func() {
				prev := map[string]float64{}
				for !stop.Load() {
					v := w.read()
					for _, n := range metricNames {
						if n != "connections_current" && v[n] < prev[n] {
							t.Fail("a counter went backwards", fmt.Sprintf("%s from %v to %v", n, prev[n], v[n]))
						}
					}
					if v["connections_current"] < 0 || v["connections_current"] > v["connections_total"]-start || v["connections_current"] > v["connections_max"] {
						t.Fail("the current number of connections is impossible", fmt.Sprint(v))
					}
					prev = v
					mu.Lock()
					t.Count("readings_meanwhile", 1)
					mu.Unlock()
				}
			})
		}
		t.Go(fs...)
		for _, my := range sub {
			for _, n := range []string{"connections_total", "binds_total", "unbinds_total", "searches_total"} {
				w.want[n] += my.want[n]
			}
		}
		v := w.read()
		// how many ends overlapped with new connections is not known exactly
		if v["connections_max"] < w.want["connections_max"] || v["connections_max"] < float64(clients) || v["connections_max"] > max(w.want["connections_max"], 24*float64(clients)) {
			t.Fail("the reported maximum of open connections is impossible", fmt.Sprintf("%d clients, before %v: %v", clients, w.want["connections_max"], v))
		}
		w.want["connections_max"] = v["connections_max"]
		w.settle(fmt.Sprintf("%d clients at once", clients))
		t.Eval(fmt.Sprint("together", file, clients), true)
	}
	s.CheckAlive("after the clients")
	s.Kill()
}

// c20Same: the same requests get the same answers with and without metrics,
// while metrics are read all the time.
func c20Same(t *T, file bool) {
	r := t.Sub(fmt.Sprint("same", file))
	with := c20Server(t, file, func(o *ServerOpts) { o.Metrics = true })
	without := c20Server(t, file, nil)
	var stop atomic.Bool
	reader := func() {
		for !stop.Load() {
			if _, err := with.MetricValues(); err != nil {
				with.CheckAlive("while reading metrics")
				t.Fail("the metrics cannot be read", err.Error())
			}
		}
	}
	run := func() {
		defer stop.Store(true)
		a, b := with.DialAs(adminDN, adminPW), without.DialAs(adminDN, adminPW)
		for i := 0; i < t.N(3000, 15000); i++ {
			user := fmt.Sprintf("u%d", r.Intn(30))
			tok := fmt.Sprintf("t%d", i)
			kind := pick(r, []string{"add", "add", "modify", "delete", "rename", "bind", "badbind", "search", "search", "extended", "pwmod", "compare", "unbind", "refused"})
			var op *ber.Packet
			switch kind {
			case "add":
				op = addOp(Entry{DN: userDN("n" + user), Attrs: personAttrs("n"+user, tok, tok, "", "")})
			case "modify":
				op = modOp(userDN(user), []Change{{r.Intn(3), "description", []string{tok}}})
			case "delete":
				op = delOp(userDN("n" + user))
			case "rename":
				op = modDNOp(userDN("n"+user), "uid=n"+fmt.Sprintf("u%d", r.Intn(30)), r.Intn(2) == 0, nil)
			case "bind":
				op = bindOp(adminDN, adminPW)
			case "badbind":
				op = bindOp(userDN(user), tok)
			case "search":
				op = searchOp(SearchReq{Base: "ou=people," + baseDN, Scope: r.Intn(3), Filter: Or(Eq("uid", user), Present("description"))})
			case "extended":
				op = appConstructed(tagExtReq)
				op.AppendChild(ctxString(0, "1.2.3."+fmt.Sprint(i)))
			case "pwmod":
				op = pwModOp(sp(userDN("no"+user)), nil, sp("Quite a new password 5"))
			case "compare":
				op = compareOp(userDN(user), "uid", user)
			case "unbind":
				op = unbindOp()
			case "refused":
				op = searchOp(SearchReq{Base: "dc=elsewhere", Scope: 2})
			}
			raw := envelope(int64(i+1), op).Bytes()
			get := func(c *Conn) ([]byte, bool) {
				t.netErr(c.SendRaw(raw), kind)
				var all bytes.Buffer
				for {
					m, err := c.Recv()
					if errors.Is(err, errClosed) {
						return all.Bytes(), true
					}
					t.netErr(err, kind+" with metrics enabled")
					all.Write(m.Raw)
					if m.Tag != tagEntry {
						return all.Bytes(), kind == "compare" || kind == "refused"
					}
				}
			}
			x, endA := get(a)
			y, endB := get(b)
			if !bytes.Equal(x, y) || endA != endB {
				t.Fail("a request is answered differently with metrics enabled", fmt.Sprintf("%s %x", kind, raw), fmt.Sprintf("with: %q", x), fmt.Sprintf("without: %q", y))
			}
			if endA || kind == "badbind" {
				a.Close()
				b.Close()
				a, b = with.DialAs(adminDN, adminPW), without.DialAs(adminDN, adminPW)
			}
			t.Eval(fmt.Sprint("same", file, kind, len(x) > 40), true)
			t.Count("same_"+kind, 1)
		}
	}
	t.Go(run, reader, reader)
	with.CheckAlive("after the requests")
	with.Kill()
	without.Kill()
}
