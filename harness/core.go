package main

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// T is the context of one check run: it owns the random source, counts what
// was covered and records violations.
type T struct {
	ID      string
	Tier    string
	Seed    int64
	Level   string
	Rule    string
	Scratch string
	Rng     *rand.Rand

	mu          sync.Mutex
	evaluations int
	distinct    map[string]struct{}
	extra       map[string]interface{}
	samples     []interface{}
	keys        []interface{} // some distinct cases, if there are no samples
	assumptions []string
	violations  int
	knownHits   map[string]int
	start       time.Time
	servers     []*Server
	traceLog    []string
}

type stopRun struct {
	code int
	msg  string
}

func verifRoot() string {
	if v := os.Getenv("VERIF_ROOT"); v != "" {
		return v
	}
	return "/verif"
}

func newT(id string) *T {
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = v
		} else {
			h := sha256.Sum256([]byte(s))
			for _, b := range h[:7] {
				seed = seed<<8 | int64(b)
			}
		}
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	scratch, err := os.MkdirTemp("", "verif-"+id+"-")
	if err != nil {
		fmt.Println("cannot create scratch directory:", err)
		os.Exit(2)
	}
	t := &T{
		ID: id, Tier: tier, Seed: seed, Level: "exploration", Scratch: scratch,
		distinct: map[string]struct{}{}, extra: map[string]interface{}{}, knownHits: map[string]int{},
		start: time.Now(),
	}
	t.Rng = t.Sub("main")
	return t
}

// Sub gives an independent random source derived from the seed and a label.
func (t *T) Sub(label string) *rand.Rand {
	h := sha256.Sum256([]byte(fmt.Sprintf("%d/%s/%s", t.Seed, t.ID, label)))
	var s int64
	for _, b := range h[:8] {
		s = s<<8 | int64(b)
	}
	return rand.New(rand.NewSource(s))
}

// Thorough picks a bound by tier.
func (t *T) N(quick, thorough int) int {
	if t.Tier == "thorough" {
		return thorough
	}
	return quick
}

// Eval counts one evaluated case; key identifies it, nontrivial says whether it
// counts as a distinct non-trivial one.
func (t *T) Eval(key string, nontrivial bool) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.evaluations++
	if nontrivial {
		h := sha256.Sum256([]byte(key))
		k := string(h[:12])
		if _, ok := t.distinct[k]; !ok && len(t.keys) < 8 && len(t.distinct)%5 == 0 {
			t.keys = append(t.keys, "case: "+clip(key, 300))
		}
		t.distinct[k] = struct{}{}
	}
}

func (t *T) Count(name string, delta int) {
	t.mu.Lock()
	defer t.mu.Unlock()
	v, _ := t.extra[name].(int)
	t.extra[name] = v + delta
}

func (t *T) Set(name string, v interface{}) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.extra[name] = v
}

func (t *T) Sample(v interface{}) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.samples) < 8 {
		t.samples = append(t.samples, v)
	}
}

func (t *T) SampleEvery(n int, f func() interface{}) {
	t.mu.Lock()
	take := len(t.samples) < 8 && n%7 == 0
	t.mu.Unlock()
	if take {
		t.Sample(f())
	}
}

func (t *T) Assume(s string) { t.assumptions = append(t.assumptions, s) }

// Trace keeps the recent actions of the run for the replay file.
func (t *T) Trace(format string, a ...interface{}) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.traceLog = append(t.traceLog, fmt.Sprintf(format, a...))
	if len(t.traceLog) > 400 {
		t.traceLog = t.traceLog[len(t.traceLog)-300:]
	}
}

func (t *T) ResetTrace() {
	t.mu.Lock()
	t.traceLog = nil
	t.mu.Unlock()
}

func asText(v interface{}) interface{} {
	switch x := v.(type) {
	case []byte:
		return hex.EncodeToString(x)
	case error:
		return x.Error()
	}
	return v
}

// Fail reports a violation and ends the run.
func (t *T) Fail(what string, details ...interface{}) {
	if t.known(what, details...) {
		return
	}
	t.mu.Lock()
	t.violations++
	if t.violations > 1 { // another worker has reported already
		t.mu.Unlock()
		panic(stopRun{1, what})
	}
	rec := map[string]interface{}{
		"property": t.ID, "tier": t.Tier, "seed": t.Seed, "what": what,
		"trace": t.traceLog,
		"how":   fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s bash run.sh %s", t.Seed, t.Tier, t.ID),
	}
	var ds []interface{}
	for _, d := range details {
		ds = append(ds, asText(d))
	}
	rec["details"] = ds
	var logs []map[string]interface{}
	for _, s := range t.servers {
		logs = append(logs, map[string]interface{}{"args": s.Args, "alive": s.Alive(), "log_tail": s.LogTail(12000)})
	}
	rec["servers"] = logs
	t.mu.Unlock()

	dir := filepath.Join(verifRoot(), "evidence")
	os.MkdirAll(dir, 0o755)
	fn := filepath.Join(dir, fmt.Sprintf("replay-%s-%s-%d.json", t.ID, t.Tier, t.Seed))
	b, err := json.MarshalIndent(rec, "", " ")
	if err != nil {
		b = []byte(fmt.Sprintf("%q", fmt.Sprint(rec)))
	}
	os.WriteFile(fn, b, 0o644)
	fmt.Printf("# %s: %s\n", t.ID, what)
	for _, d := range ds {
		s := fmt.Sprint(d)
		if len(s) > 2000 {
			s = s[:2000] + "..."
		}
		fmt.Printf("#   %s\n", strings.ReplaceAll(s, "\n", "\n#   "))
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", t.ID, fn)
	// other workers may be stuck in something that depends on this one
	time.AfterFunc(10*time.Second, func() { t.abort(1) })
	panic(stopRun{1, what})
}

// Inconclusive ends the run as an error of the check itself.
func (t *T) Inconclusive(format string, a ...interface{}) {
	panic(stopRun{2, fmt.Sprintf(format, a...)})
}

func (t *T) Must(err error, what string) {
	if err != nil {
		t.Inconclusive("%s: %v", what, err)
	}
}

// ---- known findings -------------------------------------------------------

type knownFinding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
	Status   string `json:"status"`
}

func loadKnown() []knownFinding {
	var out []knownFinding
	b, err := os.ReadFile(filepath.Join(verifRoot(), "known_findings.json"))
	if err != nil {
		return nil
	}
	var doc struct {
		Findings []knownFinding `json:"findings"`
	}
	if json.Unmarshal(b, &doc) == nil {
		out = doc.Findings
	}
	return out
}

// knownKey marks a detail that identifies a specific defect.
type knownKey string

func (t *T) known(what string, details ...interface{}) bool {
	for _, d := range details {
		k, ok := d.(knownKey)
		if !ok {
			continue
		}
		for _, f := range loadKnown() {
			if f.Property == t.ID && f.Key == string(k) && f.Status == "open" {
				t.mu.Lock()
				t.knownHits[f.Key]++
				first := t.knownHits[f.Key] == 1
				t.mu.Unlock()
				if first {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", t.ID, f.What)
				}
				return true
			}
		}
	}
	return false
}

// ---- running --------------------------------------------------------------

func (t *T) writeEvidence() {
	cov := map[string]interface{}{}
	keys := []string{}
	for k := range t.extra {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		cov[k] = t.extra[k]
	}
	cov["evaluations"] = t.evaluations
	cov["distinct_nontrivial"] = len(t.distinct)
	cov["rule"] = t.Rule
	if t.samples == nil {
		t.samples = append([]interface{}{}, t.keys...)
	}
	cov["samples"] = t.samples
	if len(t.knownHits) > 0 {
		cov["known_finding_hits"] = t.knownHits
	}
	ev := map[string]interface{}{
		"property": t.ID, "tier": t.Tier, "seed": t.Seed, "level": t.Level,
		"coverage": cov, "wall_s": time.Since(t.start).Seconds(), "violations": t.violations,
	}
	if len(t.assumptions) > 0 {
		ev["assumptions"] = t.assumptions
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Println("evidence:", err)
		return
	}
	dir := filepath.Join(verifRoot(), "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, t.ID+".json"), b, 0o644); err != nil {
		fmt.Println("evidence:", err)
	}
}

// abort ends the process without waiting for anything.
func (t *T) abort(code int) {
	t.mu.Lock() // never released: nothing may be counted or reported any more
	if t.violations > 0 {
		code = 1
	}
	for _, s := range t.servers {
		s.cmd.Process.Kill()
	}
	os.RemoveAll(t.Scratch)
	t.writeEvidence()
	os.Exit(code)
}

func (t *T) run(f func(*T)) (code int) {
	defer func() {
		r := recover()
		for _, s := range t.servers {
			s.Kill()
		}
		os.RemoveAll(t.Scratch)
		if r != nil {
			if t.violations > 0 {
				code = 1
			} else if st, ok := r.(stopRun); ok {
				code = st.code
				if code != 1 {
					fmt.Printf("# %s inconclusive: %s\n", t.ID, st.msg)
				}
			} else {
				fmt.Printf("# %s: internal error of the check: %v\n%s\n", t.ID, r, debug.Stack())
				code = 3
			}
		}
		t.writeEvidence()
		if code == 0 {
			fmt.Printf("OK property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs\n", t.ID, t.Tier, t.Seed, t.evaluations, len(t.distinct), time.Since(t.start).Seconds())
		}
	}()
	f(t)
	return 0
}

// Go runs functions concurrently and re-raises the first stop request.
func (t *T) Go(fs ...func()) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	var first interface{}
	for _, f := range fs {
		wg.Add(1)
		go func(f func()) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					mu.Lock()
					if first == nil {
						if _, ok := r.(stopRun); !ok {
							r = fmt.Sprintf("%v\n%s", r, debug.Stack())
						}
						first = r
					}
					mu.Unlock()
				}
			}()
			f()
		}(f)
	}
	wg.Wait()
	if first != nil {
		panic(first)
	}
}

type checkFn struct {
	level string
	rule  string
	run   func(*T)
}

var checks = map[string]checkFn{}

func register(id, level, rule string, f func(*T)) { checks[id] = checkFn{level, rule, f} }

// Also counts another distinct key for the case at hand.
func (t *T) Also(key string) {
	t.mu.Lock()
	defer t.mu.Unlock()
	h := sha256.Sum256([]byte(key))
	t.distinct[string(h[:12])] = struct{}{}
}

func (t *T) failed() bool {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.violations > 0
}
