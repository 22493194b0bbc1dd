package main

import (
	"bufio"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

const (
	baseDN  = "dc=lg,dc=local"
	adminDN = "uid=admin,ou=sysusers,dc=lg,dc=local"
	adminPW = "admin-Secret1"
)

func binary(kind string) string {
	env := map[string]string{"": "IDMD", "race": "IDMD_RACE", "trace": "IDMD_TRACE"}[kind]
	return os.Getenv(env)
}

// Server is one running idmd process.
type Server struct {
	t          *T
	Kind       string
	Args       []string
	Addr       string
	TLSAddr    string
	Pprof      string
	Metrics    string
	Dir        string
	logFile    string
	cmd        *exec.Cmd
	done       chan struct{}
	waitErr    error
	expectDead bool
	mu         sync.Mutex
}

type ServerOpts struct {
	Kind      string // "", "race", "trace"
	Handler   string // boltdb or ldif
	DB        string
	Main      string
	Config    string
	Base      string // "" means default
	Admin     string // "" means none
	Anonymous bool
	Metrics   bool
	Pprof     bool
	TLS       bool
	AnyAddr   bool // listen on all addresses
	Env       []string
	Extra     []string
	LogLevel  string
	Prefix    []string // command prefix, for example a ulimit wrapper
}

var (
	portMu   sync.Mutex
	portUsed = map[int]bool{}
)

func freePort(t *T) int {
	portMu.Lock()
	defer portMu.Unlock()
	for i := 0; i < 200; i++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			continue
		}
		p := l.Addr().(*net.TCPAddr).Port
		l.Close()
		if !portUsed[p] {
			portUsed[p] = true
			return p
		}
	}
	t.Inconclusive("no free port")
	return 0
}

var dirCount int
var dirMu sync.Mutex

func (t *T) Dir(name string) string {
	dirMu.Lock()
	dirCount++
	n := dirCount
	dirMu.Unlock()
	d := filepath.Join(t.Scratch, fmt.Sprintf("%03d-%s", n, name))
	t.Must(os.MkdirAll(d, 0o755), "mkdir")
	return d
}

// TryStart starts a server and waits until it answers or exits.
func (t *T) TryStart(o ServerOpts) (*Server, error) {
	bin := binary(o.Kind)
	if bin == "" {
		t.Inconclusive("no idmd binary of kind %q", o.Kind)
	}
	for attempt := 0; ; attempt++ {
		s, err := t.tryStartOnce(bin, o)
		if err != nil && strings.Contains(err.Error(), "address already in use") && attempt < 5 {
			continue
		}
		return s, err
	}
}

func (t *T) tryStartOnce(bin string, o ServerOpts) (*Server, error) {
	s := &Server{t: t, Kind: o.Kind, Dir: t.Dir("srv"), done: make(chan struct{})}
	port := freePort(t)
	host := "127.0.0.1"
	s.Addr = fmt.Sprintf("127.0.0.1:%d", port)
	if o.AnyAddr {
		host = ""
	}
	lvl := o.LogLevel
	if lvl == "" {
		lvl = "error"
	}
	args := []string{"serve", "--ldap-handler", o.Handler, "--ldap-listen", fmt.Sprintf("%s:%d", host, port), "--log-level", lvl}
	if o.Base != "" {
		args = append(args, "--ldap-base-dn", o.Base)
	}
	if o.Admin != "" {
		args = append(args, "--ldap-admin-dn", o.Admin)
	}
	if o.Anonymous {
		args = append(args, "--ldap-allow-local-anonymous")
	}
	if o.DB != "" {
		args = append(args, "--boltdb-file", o.DB)
	}
	if o.Main != "" {
		args = append(args, "--ldif-main", o.Main)
	}
	if o.Config != "" {
		args = append(args, "--ldif-config", o.Config)
	}
	if o.Metrics {
		s.Metrics = fmt.Sprintf("127.0.0.1:%d", freePort(t))
		args = append(args, "--with-metrics", "--metrics-listen", s.Metrics)
	}
	if o.Pprof {
		s.Pprof = fmt.Sprintf("127.0.0.1:%d", freePort(t))
		args = append(args, "--with-pprof", "--pprof-listen", s.Pprof)
	}
	if o.TLS {
		cert, key := t.tlsFiles()
		p := freePort(t)
		s.TLSAddr = fmt.Sprintf("127.0.0.1:%d", p)
		args = append(args, "--ldaps-listen", fmt.Sprintf("%s:%d", host, p), "--tls-cert-file", cert, "--tls-key-file", key)
	}
	args = append(args, o.Extra...)
	s.Args = args
	s.logFile = filepath.Join(s.Dir, "log")
	lf, err := os.Create(s.logFile)
	t.Must(err, "log file")
	full := append(append([]string{}, o.Prefix...), bin)
	full = append(full, args...)
	s.cmd = exec.Command(full[0], full[1:]...)
	s.cmd.Dir = s.Dir
	s.cmd.Stdout = lf
	s.cmd.Stderr = lf
	s.cmd.Env = append(cleanEnv(), o.Env...)
	s.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := s.cmd.Start(); err != nil {
		lf.Close()
		t.Inconclusive("start server: %v", err)
	}
	lf.Close()
	t.mu.Lock()
	t.servers = append(t.servers, s)
	t.mu.Unlock()
	go func() {
		s.waitErr = s.cmd.Wait()
		close(s.done)
	}()
	deadline := time.Now().Add(60 * time.Second)
	wait := []string{s.Addr}
	if s.TLSAddr != "" {
		wait = append(wait, s.TLSAddr)
	}
	if s.Metrics != "" {
		wait = append(wait, s.Metrics)
	}
	if s.Pprof != "" {
		wait = append(wait, s.Pprof)
	}
	for _, a := range wait {
		for {
			if !s.Alive() {
				return s, fmt.Errorf("server exited: %v: %s", s.waitErr, s.LogTail(2000))
			}
			c, err := net.DialTimeout("tcp", a, time.Second)
			if err == nil {
				c.Close()
				if ownsPort(s.Pid(), a) {
					break
				}
			}
			if time.Now().After(deadline) {
				t.Inconclusive("server does not listen on %s: %s", a, s.LogTail(2000))
			}
			time.Sleep(3 * time.Millisecond)
		}
	}
	return s, nil
}

// ownsPort says whether the process itself listens there: something else on
// this machine may have taken a free port for a moment.
func ownsPort(pid int, addr string) bool {
	_, ps, err := net.SplitHostPort(addr)
	if err != nil {
		return false
	}
	port, _ := strconv.Atoi(ps)
	inodes := map[string]bool{}
	for _, f := range []string{"/proc/net/tcp", "/proc/net/tcp6"} {
		b, _ := os.ReadFile(f)
		for _, l := range strings.Split(string(b), "\n") {
			x := strings.Fields(l)
			if len(x) > 9 && x[3] == "0A" && strings.HasSuffix(x[1], fmt.Sprintf(":%04X", port)) {
				inodes["socket:["+x[9]+"]"] = true
			}
		}
	}
	d := fmt.Sprintf("/proc/%d/fd", pid)
	fds, _ := os.ReadDir(d)
	for _, fd := range fds {
		if l, err := os.Readlink(filepath.Join(d, fd.Name())); err == nil && inodes[l] {
			return true
		}
	}
	return false
}

func cleanEnv() []string {
	var env []string
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "IDMD_") || strings.HasPrefix(e, "KIDM_") || strings.HasPrefix(e, "VERIF_") {
			continue
		}
		env = append(env, e)
	}
	return env
}

func (t *T) Start(o ServerOpts) *Server {
	s, err := t.TryStart(o)
	if err != nil {
		t.Fail("the server does not start with a valid configuration", err.Error())
	}
	return s
}

func (s *Server) Alive() bool {
	select {
	case <-s.done:
		return false
	default:
		return true
	}
}

func (s *Server) Signal(sig os.Signal) { s.cmd.Process.Signal(sig) }

func (s *Server) Pid() int { return s.cmd.Process.Pid }

// cpuTicks is the processor time the server has used so far.
func (s *Server) cpuTicks() int {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", s.Pid()))
	if err != nil {
		return 0
	}
	fs := strings.Fields(string(b[strings.LastIndexByte(string(b), ')')+1:]))
	if len(fs) < 13 {
		return 0
	}
	u, _ := strconv.Atoi(fs[11])
	k, _ := strconv.Atoi(fs[12])
	return u + k
}

// Kill ends the process the hard way and waits for it.
func (s *Server) Kill() {
	s.expectDead = true
	if s.cmd == nil || s.cmd.Process == nil {
		return
	}
	s.cmd.Process.Kill()
	<-s.done
}

// Stop asks the process to terminate; false if it had to be killed.
func (s *Server) Stop(limit time.Duration) bool {
	s.expectDead = true
	s.Signal(syscall.SIGTERM)
	select {
	case <-s.done:
		return true
	case <-time.After(limit):
		s.Kill()
		return false
	}
}

func (s *Server) ExitCode() int {
	if s.Alive() {
		return -1
	}
	return s.cmd.ProcessState.ExitCode()
}

func (s *Server) Log() string {
	b, _ := os.ReadFile(s.logFile)
	return string(b)
}

func (s *Server) LogTail(n int) string {
	l := s.Log()
	if i := strings.Index(l, "panic: "); i >= 0 && len(l)-i > n {
		return l[i : i+n]
	}
	if i := strings.Index(l, "fatal error: "); i >= 0 && len(l)-i > n {
		return l[i : i+n]
	}
	if len(l) > n {
		l = l[len(l)-n:]
	}
	return l
}

// CheckAlive fails the run if the process is gone.
func (s *Server) CheckAlive(context string) {
	if !s.Alive() {
		s.t.Fail("the server process died: "+context, s.LogTail(6000))
	}
}

var goroutineRe = regexp.MustCompile(`goroutine profile: total (\d+)`)

// Goroutines reads the number of goroutines and their grouped stacks.
func (s *Server) Goroutines() (int, string) {
	body, err := httpGet("http://" + s.Pprof + "/debug/pprof/goroutine?debug=1")
	if err != nil {
		return -1, err.Error()
	}
	m := goroutineRe.FindStringSubmatch(body)
	if m == nil {
		return -1, body
	}
	n, _ := strconv.Atoi(m[1])
	return n, body
}

// HeapInUse forces a collection and reads the heap in use.
func (s *Server) HeapInUse() int64 {
	body, err := httpGet("http://" + s.Pprof + "/debug/pprof/heap?gc=1&debug=1")
	if err != nil {
		return -1
	}
	for _, l := range strings.Split(body, "\n") {
		if strings.HasPrefix(l, "# HeapAlloc = ") {
			v, _ := strconv.ParseInt(strings.TrimSpace(strings.TrimPrefix(l, "# HeapAlloc = ")), 10, 64)
			return v
		}
	}
	return -1
}

func (s *Server) FDs() int {
	es, err := os.ReadDir(fmt.Sprintf("/proc/%d/fd", s.Pid()))
	if err != nil {
		return -1
	}
	return len(es)
}

var httpClient = &http.Client{Timeout: 60 * time.Second, Transport: &http.Transport{DisableKeepAlives: true}}

func httpGet(url string) (string, error) {
	r, err := httpClient.Get(url)
	if err != nil {
		return "", err
	}
	defer r.Body.Close()
	b, err := io.ReadAll(r.Body)
	return string(b), err
}

// MetricValues reads the server's own LDAP metrics.
func (s *Server) MetricValues() (map[string]float64, error) {
	body, err := httpGet("http://" + s.Metrics + "/metrics")
	if err != nil {
		return nil, err
	}
	out := map[string]float64{}
	sc := bufio.NewScanner(strings.NewReader(body))
	for sc.Scan() {
		l := sc.Text()
		if strings.HasPrefix(l, "#") {
			continue
		}
		f := strings.Fields(l)
		if len(f) == 2 && strings.Contains(f[0], "ldapserver_") {
			v, err := strconv.ParseFloat(f[1], 64)
			if err == nil {
				k := f[0][strings.Index(f[0], "ldapserver_")+len("ldapserver_"):]
				out[k] = v
			}
		}
	}
	return out, nil
}

// Command runs idmd once with arguments and returns stdout, stderr, exit code.
func (t *T) Command(kind string, stdin []byte, args ...string) (string, string, int) {
	return t.CommandEnv(kind, stdin, nil, args...)
}

func (t *T) CommandEnv(kind string, stdin []byte, env []string, args ...string) (string, string, int) {
	bin := binary(kind)
	cmd := exec.Command(bin, args...)
	cmd.Dir = t.Scratch
	cmd.Env = append(cleanEnv(), env...)
	if stdin != nil {
		cmd.Stdin = strings.NewReader(string(stdin))
	}
	var so, se strings.Builder
	cmd.Stdout = &so
	cmd.Stderr = &se
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		t.Inconclusive("start idmd: %v", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(120 * time.Second):
		cmd.Process.Kill()
		<-done
		t.Inconclusive("idmd %v does not end", args)
	}
	return so.String(), se.String(), cmd.ProcessState.ExitCode()
}

// WaitSignals waits until the server handles SIGHUP instead of dying of it.
func (s *Server) WaitSignals() error {
	for i := 0; i < 2000; i++ {
		b, err := os.ReadFile(fmt.Sprintf("/proc/%d/status", s.Pid()))
		if err != nil {
			return err
		}
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "SigCgt:") {
				v, _ := strconv.ParseUint(strings.TrimSpace(l[7:]), 16, 64)
				if v&1 != 0 {
					// caught by the runtime from the start; wait for the listener loop
					time.Sleep(100 * time.Millisecond)
					return nil
				}
			}
		}
		time.Sleep(5 * time.Millisecond)
	}
	return fmt.Errorf("the server does not catch SIGHUP")
}
