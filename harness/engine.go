package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/youthlin/t"
	"pgregory.net/rapid"
)

// S is a byte string that survives JSON (invalid UTF-8, control bytes).
type S string

func (s S) MarshalJSON() ([]byte, error) {
	q := strconv.QuoteToASCII(string(s))
	return json.Marshal(q[1 : len(q)-1])
}

func (s *S) UnmarshalJSON(b []byte) error {
	var q string
	if err := json.Unmarshal(b, &q); err != nil {
		return err
	}
	u, err := strconv.Unquote(`"` + q + `"`)
	*s = S(u)
	return err
}

// Obs collects what one case did.
type Obs struct {
	nontrivial bool
	labels     map[string]int
	known      map[string]string
	sample     string
	dir        string // scratch directory of the worker
	thorough   bool
}

// NT marks the case as non-trivial by the property's rule.
func (o *Obs) NT() { o.nontrivial = true }

// Label counts a class of cases.
func (o *Obs) Label(s string) { o.labels[s]++ }

// LabelIf counts a class of cases.
func (o *Obs) LabelIf(b bool, s string) {
	if b {
		o.labels[s]++
	}
}

// Known reports that the case shows a listed finding. It returns an error when
// the finding is not listed as open.
func (o *Obs) Known(id, what string) error {
	if !openFindings()[id] {
		return fmt.Errorf("%s (matches finding %s, which is not listed as open)", what, id)
	}
	o.known[id] = what
	return nil
}

// Prop is one property's check.
type Prop struct {
	ID                     string
	Rule                   string
	Quick                  int // cases per quick run
	Thorough               int
	Shards                 int
	Race                   bool
	Assume                 []string
	Technique, Level, Note string
	gen                    func(rt *rapid.T) any
	check                  func(c any, o *Obs) error
	decode                 func([]byte) (any, error)
	fixed                  func() []any
	Silent                 bool // the library must not write to stdout/stderr
	Setup                  func(dir string) error
	Extra                  func(*Obs) error // once per run, on shard 0 (exhaustive parts)
}

var props = map[string]*Prop{}

func register[T any](p Prop, gen func(rt *rapid.T) T, check func(c T, o *Obs) error, fixed func() []T) {
	p.gen = func(rt *rapid.T) any { return gen(rt) }
	p.check = func(c any, o *Obs) error { return check(c.(T), o) }
	p.decode = func(b []byte) (any, error) {
		var c T
		err := json.Unmarshal(b, &c)
		return c, err
	}
	p.fixed = func() []any {
		var out []any
		if fixed != nil {
			for _, c := range fixed() {
				out = append(out, c)
			}
		}
		return out
	}
	props[p.ID] = &p
}

// ---------------------------------------------------------------- findings

var findingsOnce sync.Once
var findings map[string]bool
var findingText map[string]string // id -> "property=... what"

func openFindings() map[string]bool {
	findingsOnce.Do(func() {
		findings, findingText = map[string]bool{}, map[string]string{}
		b, err := os.ReadFile(filepath.Join(verifDir(), "KNOWN_FINDINGS.txt"))
		if err != nil {
			return
		}
		for _, l := range strings.Split(string(b), "\n") {
			// open: KF1 property=C03 text
			if f := strings.SplitN(l, " ", 3); len(f) == 3 && f[0] == "open:" {
				findings[f[1]] = true
				findingText[f[1]] = f[2]
			}
		}
	})
	return findings
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// ---------------------------------------------------------------- worker

type result struct {
	Done      bool              `json:"done"`
	Evals     int               `json:"evals"`
	NonTriv   int               `json:"nontriv"`
	Hashes    []uint64          `json:"hashes"`
	Labels    map[string]int    `json:"labels"`
	Samples   []json.RawMessage `json:"samples"`
	Known     map[string]string `json:"known"`
	Violation *violation        `json:"violation"`
	Error     string            `json:"error"`
	Guided    int               `json:"guided"` // cases of coverage-guided search
	Corpus    int               `json:"corpus"` // of them kept because they reached something new
	Edges     int               `json:"edges"`  // edges of the code under test reached
}

type violation struct {
	Message string          `json:"message"`
	Case    json.RawMessage `json:"case"`
}

type tbImpl struct {
	failed bool
	logs   bytes.Buffer
}

type stopTB struct{}

func (b *tbImpl) Helper()                   {}
func (b *tbImpl) Name() string              { return "verif" }
func (b *tbImpl) Logf(f string, a ...any)   { fmt.Fprintf(&b.logs, f+"\n", a...) }
func (b *tbImpl) Log(a ...any)              { fmt.Fprintln(&b.logs, a...) }
func (b *tbImpl) Skipf(f string, a ...any)  { panic(stopTB{}) }
func (b *tbImpl) Skip(a ...any)             { panic(stopTB{}) }
func (b *tbImpl) SkipNow()                  { panic(stopTB{}) }
func (b *tbImpl) Errorf(f string, a ...any) { b.failed = true; b.Logf(f, a...) }
func (b *tbImpl) Error(a ...any)            { b.failed = true; b.Log(a...) }
func (b *tbImpl) Fatalf(f string, a ...any) { b.Errorf(f, a...); b.FailNow() }
func (b *tbImpl) Fatal(a ...any)            { b.Error(a...); b.FailNow() }
func (b *tbImpl) FailNow()                  { b.failed = true; panic(stopTB{}) }
func (b *tbImpl) Fail()                     { b.failed = true }
func (b *tbImpl) Failed() bool              { return b.failed }

type worker struct {
	p       *Prop
	dir     string
	res     result
	seen    map[uint64]bool
	journal *os.File
	index   uint64
	frozen  bool
	tier    string
}

func newWorker(p *Prop, dir, tier string) *worker {
	w := &worker{p: p, dir: dir, tier: tier, seen: map[uint64]bool{}}
	w.res.Labels, w.res.Known = map[string]int{}, map[string]string{}
	j, err := os.OpenFile(filepath.Join(dir, "journal"), os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0600)
	if err != nil {
		fatal2("journal: %v", err)
	}
	w.journal = j
	return w
}

func fdSize(f *os.File) int64 {
	fi, err := f.Stat()
	if err != nil || !fi.Mode().IsRegular() {
		return 0
	}
	return fi.Size()
}

// runCase runs the check on one case; panics become errors.
func (w *worker) runCase(c any, o *Obs) (err error) {
	defer func() {
		if e := recover(); e != nil {
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i >= 0 {
				st = st[i:]
			}
			if len(st) > 2500 {
				st = st[:2500]
			}
			err = fmt.Errorf("panic: %v\n%s", e, st)
		}
	}()
	t.SetGlobal(t.NewTranslations())
	so, se := fdSize(os.Stdout), fdSize(os.Stderr)
	err = w.p.check(c, o)
	if err == nil && w.p.Silent && (fdSize(os.Stdout) != so || fdSize(os.Stderr) != se) {
		err = errors.New("the library wrote to the program's standard output or error")
	}
	return err
}

func (w *worker) journalCase(js []byte) {
	buf := make([]byte, 16+len(js))
	binary.LittleEndian.PutUint64(buf, w.index)
	binary.LittleEndian.PutUint64(buf[8:], uint64(len(js)))
	copy(buf[16:], js)
	w.index++
	w.journal.WriteAt(buf, 0)
}

func (w *worker) one(c any) error {
	js, err := json.Marshal(c)
	if err != nil {
		panic(fmt.Sprintf("case does not marshal: %v", err))
	}
	w.journalCase(js)
	o := &Obs{labels: map[string]int{}, known: map[string]string{}, dir: w.dir, thorough: w.tier == "thorough"}
	err = w.runCase(c, o)
	if !w.frozen {
		w.res.Evals++
		for k, v := range o.labels {
			w.res.Labels[k] += v
		}
		for k, v := range o.known {
			if _, ok := w.res.Known[k]; !ok {
				w.res.Known[k] = v
			}
		}
		if o.nontrivial {
			w.res.NonTriv++
			h := fnv.New64a()
			h.Write(js)
			s := h.Sum64()
			if !w.seen[s] {
				w.seen[s] = true
				w.res.Hashes = append(w.res.Hashes, s)
				if len(w.res.Samples) < 3 && len(js) < 3000 {
					w.res.Samples = append(w.res.Samples, js)
				}
			}
		}
	}
	if err != nil {
		w.frozen = true
		w.res.Violation = &violation{Message: err.Error(), Case: js}
	}
	return err
}

func (w *worker) save() {
	b, err := json.Marshal(&w.res)
	if err == nil {
		err = os.WriteFile(filepath.Join(w.dir, "result.json.tmp"), b, 0600)
	}
	if err == nil {
		err = os.Rename(filepath.Join(w.dir, "result.json.tmp"), filepath.Join(w.dir, "result.json"))
	}
	if err != nil {
		fatal2("result: %v", err)
	}
}

func seedFor(seed int64, id string, shard int) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, id, shard)
	s := h.Sum64()
	if s == 0 {
		s = 1
	}
	return s
}

// guidedShard: the last quarter of the workers searches guided by coverage.
func guidedShard(p *Prop, shard, shards int) bool {
	return !p.Race && shards >= 4 && shard >= shards-shards/4 && canGuide() && os.Getenv("VERIF_GUIDED") != "0"
}

func shrinkDeadline() func() bool {
	d, err := time.ParseDuration(os.Getenv("VERIF_SHRINK"))
	if err != nil {
		d = 20 * time.Second
	}
	end := time.Now().Add(d)
	return func() bool { return time.Now().After(end) }
}

func memoryGuard() {
	go func() {
		var m runtime.MemStats
		for {
			time.Sleep(200 * time.Millisecond)
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > 4<<30 {
				fmt.Fprintln(os.Stderr, "verif: heap above 4 GiB")
				os.Exit(97)
			}
		}
	}()
}

func workerMain(p *Prop, tier string, seed int64, shard, shards int, dir string) {
	debug.SetMaxStack(256 << 20)
	memoryGuard()
	w := newWorker(p, dir, tier)
	if p.Setup != nil {
		if err := p.Setup(dir); err != nil {
			w.res.Error = err.Error()
			w.save()
			os.Exit(2)
		}
	}
	defer w.save()
	if shard == 0 {
		for _, c := range p.fixed() {
			if w.one(c) != nil {
				w.res.Done = true
				return
			}
		}
	}
	n := p.Quick
	if tier == "thorough" {
		n = p.Thorough
	}
	if v := os.Getenv("VERIF_CASES"); v != "" {
		n, _ = strconv.Atoi(v)
	}
	n = (n + shards - 1) / shards
	flag.Set("rapid.checks", strconv.Itoa(n))
	flag.Set("rapid.seed", strconv.FormatUint(seedFor(seed, p.ID, shard), 10))
	flag.Set("rapid.nofailfile", "true")
	shrink := "20s"
	if v := os.Getenv("VERIF_SHRINK"); v != "" {
		shrink = v
	}
	flag.Set("rapid.shrinktime", shrink)
	// out of time: what was explored so far counts
	limit := 240
	if tier == "thorough" {
		limit = 600
	}
	if v := os.Getenv("VERIF_SECONDS"); v != "" {
		limit, _ = strconv.Atoi(v)
	}
	deadline := time.Now().Add(time.Duration(limit) * time.Second)
	if guidedShard(p, shard, shards) {
		before := w.res.Evals
		if tier != "thorough" {
			deadline = time.Now().Add(time.Duration(min(limit, 60)) * time.Second)
		}
		w.guided(n, seedFor(seed, p.ID, shard), func() bool { return time.Now().After(deadline) })
		w.res.Guided = w.res.Evals - before
		w.res.Done = true
		return
	}
	tb := &tbImpl{}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(stopTB); !ok {
					panic(e)
				}
			}
		}()
		rapid.Check(tb, func(rt *rapid.T) {
			if time.Now().After(deadline) && w.res.Violation == nil {
				w.res.Done = true
				w.save()
				os.Exit(0)
			}
			c := p.gen(rt)
			if w.one(c) != nil {
				rt.Fatalf("violation")
			}
		})
	}()
	if tb.failed && w.res.Violation == nil {
		w.res.Error = "generator failure: " + tb.logs.String()
	}
	w.res.Done = true
}

func replayMain(p *Prop, js []byte, dir string) int {
	debug.SetMaxStack(256 << 20)
	memoryGuard()
	lim := syscall.Rlimit{Cur: 150, Max: 150}
	syscall.Setrlimit(syscall.RLIMIT_CPU, &lim)
	c, err := p.decode(js)
	if err != nil {
		fmt.Fprintln(os.Stderr, "bad replay:", err)
		return 3
	}
	w := newWorker(p, dir, "quick")
	if p.Setup != nil {
		if err := p.Setup(dir); err != nil {
			fmt.Fprintln(os.Stderr, "setup:", err)
			return 3
		}
	}
	n := 1
	if p.Race {
		n = 20
	}
	for i := 0; i < n; i++ {
		if err := w.one(c); err != nil {
			os.WriteFile(filepath.Join(dir, "message"), []byte(err.Error()), 0600)
			return 1
		}
	}
	return 0
}

// ---------------------------------------------------------------- supervisor

func fatal2(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "verif: error: "+f+"\n", a...)
	if len(os.Args) > 1 && (os.Args[1] == "worker" || os.Args[1] == "replaycase") {
		os.Exit(3) // the machinery failed, not the library
	}
	os.Exit(2)
}

func childEnv() []string {
	var env []string
	for _, kv := range os.Environ() {
		k, _, _ := strings.Cut(kv, "=")
		if k == "LANG" || k == "LANGUAGE" || strings.HasPrefix(k, "LC_") || k == "LANG_PATH" || k == "GORACE" {
			continue
		}
		env = append(env, kv)
	}
	return append(env, "LANG=en_US.UTF-8", "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=single")
}

type child struct {
	shard  int
	dir    string
	cmd    *exec.Cmd
	done   chan error
	res    *result
	err    error
	hung   bool
	killed bool
}

var selfExe string

func startChild(dir string, args ...string) (*exec.Cmd, error) {
	if err := os.MkdirAll(dir, 0700); err != nil {
		return nil, err
	}
	so, err := os.Create(filepath.Join(dir, "stdout"))
	if err != nil {
		return nil, err
	}
	se, err := os.Create(filepath.Join(dir, "stderr"))
	if err != nil {
		return nil, err
	}
	cmd := exec.Command(selfExe, args...)
	cmd.Env = childEnv()
	cmd.Stdout, cmd.Stderr = so, se
	cmd.Dir = dir
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL, Setpgid: true}
	err = cmd.Start()
	so.Close()
	se.Close()
	return cmd, err
}

func cpuSeconds(pid int) float64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	s := string(b)
	if i := strings.LastIndex(s, ")"); i >= 0 {
		f := strings.Fields(s[i+1:])
		if len(f) > 13 {
			u, _ := strconv.ParseFloat(f[11], 64)
			k, _ := strconv.ParseFloat(f[12], 64)
			return (u + k) / 100
		}
	}
	return 0
}

func readJournal(dir string) (idx uint64, js []byte, ok bool) {
	b, err := os.ReadFile(filepath.Join(dir, "journal"))
	if err != nil || len(b) < 16 {
		return 0, nil, false
	}
	idx = binary.LittleEndian.Uint64(b)
	n := binary.LittleEndian.Uint64(b[8:])
	if n > uint64(len(b)-16) {
		return idx, nil, false
	}
	return idx, b[16 : 16+n], true
}

func tail(path string, n int) string {
	b, _ := os.ReadFile(path)
	if len(b) > n {
		b = b[:n]
	}
	return string(b)
}

func (c *child) start(p *Prop, tier string, seed int64, shards int) {
	cmd, err := startChild(c.dir, "worker", p.ID, tier, fmt.Sprint(seed), fmt.Sprint(c.shard), fmt.Sprint(shards), c.dir)
	if err != nil {
		fatal2("start worker: %v", err)
	}
	c.cmd = cmd
	c.done = make(chan error, 1)
	go func() { c.done <- cmd.Wait() }()
}

const hangCPU = 60.0

// watch waits for the child, killing it when one case burns too much CPU.
func (c *child) watch(cancel <-chan struct{}) {
	var lastIdx uint64
	var base float64
	tick := time.NewTicker(2 * time.Second)
	defer tick.Stop()
	for {
		select {
		case c.err = <-c.done:
			b, err := os.ReadFile(filepath.Join(c.dir, "result.json"))
			if err == nil {
				var r result
				if json.Unmarshal(b, &r) == nil && r.Done || r.Error != "" {
					c.res = &r
				}
			}
			return
		case <-cancel:
			cancel = nil
			if c.cmd.Process != nil {
				c.killed = true
				syscall.Kill(-c.cmd.Process.Pid, syscall.SIGKILL)
			}
		case <-tick.C:
			idx, _, _ := readJournal(c.dir)
			cpu := cpuSeconds(c.cmd.Process.Pid)
			if idx != lastIdx {
				lastIdx, base = idx, cpu
			} else if cpu-base > hangCPU {
				c.hung = true
				syscall.Kill(-c.cmd.Process.Pid, syscall.SIGKILL)
			}
		}
	}
}

type replayFile struct {
	Property string          `json:"property"`
	Kind     string          `json:"kind"` // case | shard
	Message  string          `json:"message"`
	Tier     string          `json:"tier,omitempty"`
	Seed     int64           `json:"seed,omitempty"`
	Shard    int             `json:"shard,omitempty"`
	Case     json.RawMessage `json:"case,omitempty"`
}

// runReplay reports whether the case fails again in a fresh process.
func runReplay(p *Prop, js []byte, dir string) (bool, string) {
	os.MkdirAll(dir, 0700)
	cf := filepath.Join(dir, "case.json")
	if err := os.WriteFile(cf, js, 0600); err != nil {
		fatal2("%v", err)
	}
	cmd, err := startChild(dir, "replaycase", p.ID, cf, dir)
	if err != nil {
		fatal2("%v", err)
	}
	err = cmd.Wait()
	if err == nil {
		return false, ""
	}
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		switch ee.ExitCode() {
		case 1:
			m, _ := os.ReadFile(filepath.Join(dir, "message"))
			return true, string(m)
		case 3:
			fatal2("replay: %s", tail(filepath.Join(dir, "stderr"), 2000))
		}
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGXCPU {
			return true, "does not terminate: 150 s of CPU on one case"
		}
	}
	return true, fmt.Sprintf("process died (%v): %s", err, tail(filepath.Join(dir, "stderr"), 3000))
}

func writeReplay(r replayFile) string {
	dir := filepath.Join(verifDir(), "replays")
	os.MkdirAll(dir, 0755)
	b, _ := json.MarshalIndent(r, "", " ")
	h := fnv.New32a()
	h.Write(b)
	path := filepath.Join(dir, fmt.Sprintf("%s-%08x.json", r.Property, h.Sum32()))
	if err := os.WriteFile(path, b, 0644); err != nil {
		fatal2("replay file: %v", err)
	}
	return path
}

func supervise(p *Prop, tier string, seed int64, scratch string) int {
	start := time.Now()
	shards := p.Shards
	if shards == 0 {
		shards = 8
	}
	cancel := make(chan struct{})
	var once sync.Once
	var wg sync.WaitGroup
	children := make([]*child, shards)
	for i := range children {
		children[i] = &child{shard: i, dir: filepath.Join(scratch, fmt.Sprintf("w%d", i))}
		children[i].start(p, tier, seed, shards)
	}
	for _, c := range children {
		wg.Add(1)
		go func() {
			defer wg.Done()
			c.watch(cancel)
			if c.res == nil || c.res.Violation != nil {
				once.Do(func() { close(cancel) })
			}
		}()
	}
	wg.Wait()

	// violations
	type vio struct{ msg, path string }
	var vios []vio
	var inconclusive []string
	for _, c := range children {
		if c.res != nil && c.res.Error != "" {
			inconclusive = append(inconclusive, fmt.Sprintf("shard %d: %s", c.shard, c.res.Error))
			continue
		}
		if c.res == nil && c.killed && !c.hung {
			continue // stopped because another shard found something
		}
		if c.res != nil && c.res.Violation == nil {
			continue
		}
		var js []byte
		msg := ""
		if c.res != nil {
			js, msg = c.res.Violation.Case, c.res.Violation.Message
		} else {
			_, js, _ = readJournal(c.dir)
			msg = fmt.Sprintf("worker died (%v, hung=%v): %s", c.err, c.hung, tail(filepath.Join(c.dir, "stderr"), 3000))
		}
		if js == nil {
			inconclusive = append(inconclusive, fmt.Sprintf("shard %d: %s", c.shard, msg))
			continue
		}
		if ok, m := runReplay(p, js, filepath.Join(scratch, fmt.Sprintf("r%d", c.shard))); ok {
			if m != "" {
				msg = m
			}
			vios = append(vios, vio{msg, writeReplay(replayFile{Property: p.ID, Kind: "case", Message: msg, Case: js})})
			continue
		}
		if c.res == nil && strings.Contains(msg, "WARNING: DATA RACE") {
			// A race report is a proof by itself; the schedule may not recur.
			vios = append(vios, vio{msg, writeReplay(replayFile{Property: p.ID, Kind: "case", Message: msg, Case: js})})
			continue
		}
		// needs the history of its process: re-run the shard
		c2 := &child{shard: c.shard, dir: filepath.Join(scratch, fmt.Sprintf("s%d", c.shard))}
		c2.start(p, tier, seed, shards)
		c2.watch(nil)
		var ee *exec.ExitError
		if c2.res == nil && errors.As(c2.err, &ee) && ee.ExitCode() == 3 {
			fatal2("shard %d: %s", c.shard, tail(filepath.Join(c2.dir, "stderr"), 2000))
		}
		if c2.res == nil || c2.res.Violation != nil {
			vios = append(vios, vio{msg, writeReplay(replayFile{Property: p.ID, Kind: "shard", Message: msg, Tier: tier, Seed: seed, Shard: c.shard, Case: js})})
			continue
		}
		inconclusive = append(inconclusive, fmt.Sprintf("shard %d: not reproducible: %s\ncase: %.2000s", c.shard, msg, js))
	}

	// evidence
	hashes := map[uint64]bool{}
	labels := map[string]int{}
	known := map[string]string{}
	var samples []json.RawMessage
	evals, nontriv := 0, 0
	guided, corpus, edges := 0, 0, 0
	for _, c := range children {
		if c.res == nil {
			continue
		}
		guided += c.res.Guided
		corpus += c.res.Corpus
		edges = max(edges, c.res.Edges)
		evals += c.res.Evals
		nontriv += c.res.NonTriv
		for _, h := range c.res.Hashes {
			hashes[h] = true
		}
		for k, v := range c.res.Labels {
			labels[k] += v
		}
		for k, v := range c.res.Known {
			if _, ok := known[k]; !ok {
				known[k] = v
			}
		}
		if len(samples) < 5 {
			samples = append(samples, c.res.Samples...)
		}
	}
	if len(samples) > 5 {
		samples = samples[:5]
	}
	if samples == nil {
		samples = []json.RawMessage{}
	}
	openFindings()
	var kids []string
	for k := range known {
		kids = append(kids, k)
	}
	sort.Strings(kids)
	for _, k := range kids {
		fmt.Printf("KNOWN-FINDING: %s [%s; seen: %s]\n", findingText[k], k, oneLine(known[k]))
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": p.Level,
		"coverage": map[string]any{
			"evaluations": evals, "distinct_nontrivial": len(hashes), "nontrivial_cases": nontriv,
			"rule": p.Rule, "samples": samples, "classes": labels, "shards": shards,
			"known_findings_seen": kids,
			"coverage_guided":     map[string]int{"cases": guided, "kept": corpus, "edges_reached": edges},
		},
		"assumptions": append([]string{}, p.Assume...),
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(vios),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(verifDir(), "evidence", p.ID+".json"), append(b, '\n'), 0644); err != nil {
		fatal2("evidence: %v", err)
	}
	for _, v := range vios {
		fmt.Printf("---\n%s\n", clip(v.msg, 4000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, v.path)
	}
	if len(vios) > 0 {
		return 1
	}
	if len(inconclusive) > 0 {
		if os.Getenv("VERIF_GUIDED") != "0" {
			// a coverage-guided shard depends on its whole history: ask the others alone
			os.Setenv("VERIF_GUIDED", "0")
			return supervise(p, tier, seed, filepath.Join(scratch, "again"))
		}
		for _, s := range inconclusive {
			fmt.Fprintln(os.Stderr, "inconclusive:", clip(s, 4000))
		}
		return 2
	}
	fmt.Printf("ok property=%s tier=%s seed=%d cases=%d nontrivial=%d distinct=%d wall=%.1fs\n",
		p.ID, tier, seed, evals, nontriv, len(hashes), time.Since(start).Seconds())
	return 0
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func oneLine(s string) string { return clip(strings.Join(strings.Fields(s), " "), 200) }

func atoi(s string) int {
	n, err := strconv.Atoi(s)
	if err != nil {
		fatal2("%v", err)
	}
	return n
}

func main() {
	testing.Init()
	flag.CommandLine.Parse(nil)
	var err error
	if selfExe, err = os.Executable(); err != nil {
		fatal2("%v", err)
	}
	if len(os.Args) < 3 {
		fatal2("usage: harness run|worker|replaycase|replay ...")
	}
	a := os.Args[1:]
	p := props[a[1]]
	if p == nil && a[0] != "list" && a[0] != "dict" {
		fatal2("unknown property %s", a[1])
	}
	switch a[0] {
	case "list":
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		var out []map[string]any
		for _, id := range ids {
			p := props[id]
			out = append(out, map[string]any{"id": id, "race": p.Race, "technique": p.Technique, "level": p.Level, "note": p.Note, "quick": p.Quick, "thorough": p.Thorough, "rule": p.Rule, "assume": p.Assume})
		}
		json.NewEncoder(os.Stdout).Encode(out)
	case "dict": // the literals of the code under test
		fmt.Println(strings.Join(dict().strsText, "\n"))
	case "israce":
		fmt.Println(p.Race)
	case "run": // run ID tier seed scratch
		seed, err := strconv.ParseInt(a[3], 10, 64)
		if err != nil {
			fatal2("VERIF_SEED: %v", err)
		}
		os.Exit(supervise(p, a[2], seed, a[4]))
	case "worker": // worker ID tier seed shard shards dir
		seed, _ := strconv.ParseInt(a[3], 10, 64)
		workerMain(p, a[2], seed, atoi(a[4]), atoi(a[5]), a[6])
	case "replaycase": // replaycase ID file dir
		b, err := os.ReadFile(a[2])
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		os.Exit(replayMain(p, b, a[3]))
	case "replay": // replay ID file scratch
		b, err := os.ReadFile(a[2])
		if err != nil {
			fatal2("%v", err)
		}
		var r replayFile
		if err := json.Unmarshal(b, &r); err != nil {
			fatal2("%v", err)
		}
		if r.Kind == "shard" {
			shards := p.Shards
			if shards == 0 {
				shards = 8
			}
			c := &child{shard: r.Shard, dir: filepath.Join(a[3], "s")}
			c.start(p, r.Tier, r.Seed, shards)
			c.watch(nil)
			if c.res == nil || c.res.Violation != nil {
				fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, a[2])
				os.Exit(1)
			}
			fmt.Println("replay: no violation")
			return
		}
		ok, m := runReplay(p, r.Case, filepath.Join(a[3], "r"))
		if ok {
			fmt.Printf("%s\nVIOLATION property=%s replay=%s\n", m, p.ID, a[2])
			os.Exit(1)
		}
		fmt.Println("replay: no violation")
	default:
		fatal2("unknown mode %s", a[0])
	}
}
