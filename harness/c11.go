package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sync/atomic"
	"syscall"
	"time"
)

func init() {
	register("C11", "exploration",
		"a paged search counts as distinct by number of matching entries, sequence of page sizes (first, whether varied), what happened in between (reload, other pages, abandon, bad cookie) and filter kind; results that fit in one page without anything else happening count as trivial",
		checkC11)
}

// pagedSearch is one paged search in progress.
type pagedSearch struct {
	t      *T
	c      *Conn
	q      SearchReq
	want   map[string]string
	got    map[string]string
	cookie []byte
	pages  int
	done   bool
	sizes  []int
	desc   string
}

func (p *pagedSearch) page(size int) {
	t := p.t
	p.sizes = append(p.sizes, size)
	d := fmt.Sprintf("%s: page %d of size %d", p.desc, p.pages+1, size)
	res, err := p.c.Search(p.q, pagingControl(int64(size), p.cookie))
	t.netErr(err, d)
	if res.Result.Code != rcSuccess {
		t.Fail("a page of a paged search was not answered with success", d, fmt.Sprintf("%+v after %d of %d entries, sizes %v", res.Result, len(p.got), len(p.want), p.sizes))
	}
	if len(res.Entries) > size {
		t.Fail("a page is larger than asked for", d, fmt.Sprintf("%d entries", len(res.Entries)))
	}
	if !res.Paged {
		t.Fail("a page was answered without a cookie", d)
	}
	for _, e := range res.Entries {
		x, err := parseDN(e.DN)
		if err != nil {
			t.Fail("a page contains an unreadable name", d, e.DN)
		}
		k := x.Key()
		if _, dup := p.got[k]; dup {
			t.Fail("a paged search delivered an entry twice", d, e.DN)
		}
		p.got[k] = canonAttrs(e.Attrs)
	}
	p.pages++
	p.cookie = append([]byte{}, res.Cookie...)
	if len(p.cookie) == 0 {
		p.done = true
		if diff := diffSnap(p.want, p.got); diff != "" {
			t.Fail("the pages of a search put together are not the result of the search", d, fmt.Sprint("sizes ", p.sizes), diff)
		}
	} else if p.pages > 3*len(p.want)+60 {
		t.Fail("a paged search does not end", d, fmt.Sprintf("%d pages, %d of %d entries", p.pages, len(p.got), len(p.want)))
	}
}

// pagedWorld is a file-backed server whose content is replaced now and then.
type pagedWorld struct {
	t    *T
	r    *rand.Rand
	s    *Server
	file string
	gen  int
	vis  *Model
}

func (w *pagedWorld) makeContent(n int) {
	r := w.r
	w.gen++
	m := baseModel()
	m.Add(m.Base.Child("ou", fmt.Sprintf("gen%d", w.gen)), []Attr{attr("objectClass", "top"), attr("ou", fmt.Sprintf("gen%d", w.gen))})
	people := m.Base.Child("ou", "people")
	for i := 0; i < n; i++ {
		uid := fmt.Sprintf("u%d", i)
		if r.Intn(4) == 0 {
			uid = fmt.Sprintf("u%d-%d", w.gen, i)
		}
		as := []Attr{attr("objectClass", "top", "person"), attr("uid", uid), attr("cn", "Common "+genText(r, 4)), attr("description", pick(r, []string{"red", "green", "blue"}))}
		if r.Intn(2) == 0 {
			as = append(as, attr("sn", pick(r, []string{"alpha", "beta"})))
		}
		m.Add(people.Child("uid", uid), as)
	}
	w.vis = withoutSecrets(m)
	tmp := w.file + ".new"
	w.t.Must(os.WriteFile(tmp, []byte(m.LDIF()), 0o644), "write")
	w.t.Must(os.Rename(tmp, w.file), "rename")
	w.t.Trace("content %d:\n%s", w.gen, m.LDIF())
}

// reload makes the server read its file again and waits until it has.
func (w *pagedWorld) reload(n int) {
	w.makeContent(n)
	w.s.Signal(syscall.SIGHUP)
	c := w.s.DialAs(adminDN, adminPW)
	defer c.Close()
	f := Eq("ou", fmt.Sprintf("gen%d", w.gen))
	for i := 0; ; i++ {
		res, err := c.Search(SearchReq{Base: baseDN, Scope: 1, Filter: f})
		w.t.netErr(err, "search during reload")
		if len(res.Entries) == 1 {
			return
		}
		if i > 6000 {
			w.t.Inconclusive("reload not seen")
		}
		time.Sleep(5 * time.Millisecond)
	}
}

var pagedFilters = []struct {
	name string
	f    *Filter
}{
	{"all", nil},
	{"indexed", Eq("sn", "alpha")},
	{"presence", Present("sn")},
	{"walk", Eq("description", "red")},
	{"not", Not(Eq("description", "red"))},
	{"or", Or(Eq("sn", "beta"), Eq("objectClass", "organizationalUnit"))},
	{"none", Eq("cn", "nobody")},
	{"sub", Sub("cn", SubPart{0, "common"})},
	{"people", Eq("objectClass", "person")},
}

func (w *pagedWorld) begin(c *Conn, r *rand.Rand) (*pagedSearch, string) {
	k := pick(r, pagedFilters)
	q := SearchReq{Base: pick(r, []string{baseDN, "ou=people," + baseDN}), Scope: pick(r, []int{1, 2, 2}), Filter: k.f}
	if r.Intn(2) == 0 {
		q.Attrs = []string{"uid", "description"}
	}
	if q.Filter == nil {
		q.Filter = Present("objectClass")
	}
	want := w.vis.expectSearch(mustDN(q.Base), q)
	return &pagedSearch{t: w.t, c: c, q: q, want: want, got: map[string]string{}, desc: describeSearch(q)}, k.name
}

func pageSize(r *rand.Rand, n int) int {
	switch r.Intn(8) {
	case 0:
		return 1
	case 1:
		return n + 1
	case 2:
		if n > 0 {
			return n
		}
	case 3:
		if n > 1 && n%2 == 0 {
			return n / 2
		}
	case 4:
		if n > 2 {
			return n - 1
		}
	case 5:
		return pick(r, []int{100, 1000, 1 << 20, 1<<31 - 1})
	}
	return 1 + r.Intn(n+2)
}

func (t *T) newPagedWorld(r *rand.Rand, n int) *pagedWorld {
	w := &pagedWorld{t: t, r: r, file: filepath.Join(t.Dir("ldif"), "main.ldif")}
	w.makeContent(n)
	w.s = t.Start(ServerOpts{Handler: "ldif", Main: w.file})
	return w
}

func checkC11(t *T) {
	// one client at a time, with things happening between the pages
	for round := 0; round < t.N(14, 60); round++ {
		r := t.Sub(fmt.Sprintf("round%d", round))
		t.ResetTrace()
		w := t.newPagedWorld(r, pick(r, []int{0, 1, 2, 7, 12, 20, 33}))
		var old [][]byte // cookies that are no longer good
		other := w.s.DialAs(adminDN, adminPW)
		for i := 0; i < t.N(120, 250); i++ {
			c := w.s.DialAs(adminDN, adminPW)
			p, kind := w.begin(c, r)
			size := pageSize(r, len(p.want))
			vary := r.Intn(3) == 0
			reloads, inter, abandoned := 0, 0, false
			var side *pagedSearch
			var last []byte
			t.Trace("paged search %s first size %d", p.desc, size)
			for !p.done {
				if vary {
					size = pageSize(r, len(p.want))
				}
				p.page(size)
				if len(p.cookie) > 0 {
					last = append([]byte{}, p.cookie...)
				}
				if p.done {
					break
				}
				switch r.Intn(12) {
				case 0:
					if reloads == 0 {
						w.reload(pick(r, []int{0, 3, 12, 25}))
						reloads++
						t.Count("reloads_between_pages", 1)
					}
				case 1, 2:
					if side == nil || side.done {
						side, _ = w.begin(pick(r, []*Conn{c, other}), r)
					}
					side.page(pageSize(r, len(side.want)))
					inter++
					t.Count("pages_of_other_searches_between", 1)
				case 3:
					if p.pages > 0 && r.Intn(2) == 0 {
						// giving up: the cookie with page size zero
						res, err := c.Search(p.q, pagingControl(0, p.cookie))
						t.netErr(err, "giving up a paged search: "+p.desc)
						if len(res.Entries) > 0 {
							t.Fail("giving up a paged search returned entries", p.desc)
						}
						if len(res.Cookie) > 0 {
							t.Fail("giving up a paged search returned a cookie to continue", p.desc)
						}
						abandoned = true
						old = append(old, append([]byte{}, p.cookie...))
						t.Count("abandoned", 1)
						if res.Result.Code != rcSuccess {
							c.Close()
							c = w.s.DialAs(adminDN, adminPW)
						}
						// the connection still works
						q2, _ := w.begin(c, r)
						res, err = c.Search(q2.q)
						t.netErr(err, "search after giving up a paged search")
						t.judgeSearch(q2.q, q2.want, res, "after giving up: "+q2.desc)
					}
				case 4, 5:
					// a bad cookie, on a connection of its own
					bad := []byte(genText(r, 11))
					bk := "made up"
					if len(old) > 0 && r.Intn(2) == 0 {
						bad = pick(r, old)
						bk = "used up"
					} else if r.Intn(2) == 0 {
						bad = append([]byte{}, p.cookie...)
						bad[r.Intn(len(bad))] ^= 1
						bk = "altered"
					}
					b := w.s.DialAs(adminDN, adminPW)
					res, err := b.Search(p.q, pagingControl(int64(pick(r, []int{0, 1, 5})), bad))
					t.netErr(err, "search with a "+bk+" cookie")
					if res.Result.Code == rcSuccess || len(res.Entries) > 0 {
						t.Fail("a "+bk+" cookie was accepted", p.desc, fmt.Sprintf("%q %+v, %d entries", bad, res.Result, len(res.Entries)))
					}
					b.Close()
					t.Count("bad_cookies_"+bk, 1)
				}
				if abandoned {
					break
				}
			}
			if p.done && last != nil {
				old = append(old, last)
			}
			if side != nil {
				for !side.done {
					side.page(pageSize(r, len(side.want)))
				}
			}
			if other != nil && r.Intn(4) == 0 {
				q2, _ := w.begin(other, r)
				res, err := other.Search(q2.q)
				t.netErr(err, "search without paging")
				t.judgeSearch(q2.q, q2.want, res, q2.desc)
			}
			c.Close()
			t.Count("pages", p.pages)
			t.Eval(fmt.Sprint(len(p.want), p.sizes[0], vary, reloads, inter > 0, abandoned, kind, p.q.Scope), p.pages > 1 || reloads > 0)
			t.SampleEvery(i, func() interface{} {
				return fmt.Sprintf("%s: %d entries in pages %v, reloads %d, other pages %d, given up %v", p.desc, len(p.got), p.sizes, reloads, inter, abandoned)
			})
		}
		other.Close()
		w.s.Kill()
	}
	// many entries and large pages
	for round := 0; round < t.N(1, 4); round++ {
		r := t.Sub(fmt.Sprintf("large%d", round))
		t.ResetTrace()
		w := t.newPagedWorld(r, 2000+r.Intn(1200))
		c := w.s.DialAs(adminDN, adminPW)
		for i := 0; i < t.N(40, 100); i++ {
			p, kind := w.begin(c, r)
			for !p.done {
				p.page(pick(r, []int{100, 255, 256, 257, 500, 999, 1000, 1001, 1024, 1500, max2(len(p.want)-1, 1), max2(len(p.want), 1), len(p.want) + 1, 65536}))
			}
			t.Count("pages", p.pages)
			t.Eval(fmt.Sprint("large", len(p.want), p.sizes[0], kind, p.q.Scope), p.pages > 1)
		}
		c.Close()
		w.s.Kill()
	}
	// many clients at once, reloads in between that keep the content
	r := t.Sub("concurrent")
	t.ResetTrace()
	w := t.newPagedWorld(r, 40)
	var running int32 = 1
	var fs []func()
	for k := 0; k < 8; k++ {
		k := k
		fs = append(fs, func() {
			r := t.Sub(fmt.Sprintf("client%d", k))
			c := w.s.DialAs(adminDN, adminPW)
			for i := 0; i < t.N(200, 800); i++ {
				p, kind := w.begin(c, r)
				size := pageSize(r, len(p.want))
				for !p.done {
					p.page(size)
					if !p.done && r.Intn(15) == 0 {
						res, err := c.Search(p.q, pagingControl(0, p.cookie))
						t.netErr(err, "giving up a paged search")
						if res.Result.Code != rcSuccess {
							c.Close()
							c = w.s.DialAs(adminDN, adminPW)
						}
						break
					}
				}
				t.Count("concurrent_pages", p.pages)
				t.Eval(fmt.Sprint("conc", len(p.want), size, kind), p.pages > 1)
			}
			c.Close()
		})
	}
	go func() {
		for atomic.LoadInt32(&running) == 1 {
			w.s.Signal(syscall.SIGHUP)
			time.Sleep(20 * time.Millisecond)
		}
	}()
	t.Go(fs...)
	atomic.StoreInt32(&running, 0)
	w.s.CheckAlive("after concurrent paged searches")
	w.s.Kill()
}
