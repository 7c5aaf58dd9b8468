// Package rt runs deterministic monitored cases against the code under test in worker
// processes, attributes crashes and hangs to the case that caused them, and writes evidence.
package rt

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"jxverif/jx"
)

// Check is one property's monitored workload.
type Check struct {
	ID        string
	Level     string
	Rule      string
	Quick     int // cases
	Thorough  int
	Batch     int // cases per worker process
	Workers   int
	Race      bool // run in the race-detector build
	CaseLimit time.Duration
	MemMB     int // address-space cap for workers, 0 none
	Assume    []string
	Run       func(t *T)
	// Need lists counters that must be non-zero for the run to count as having observed anything.
	Need []string
}

// Fail is one violation.
type Fail struct {
	Sig string `json:"sig"`
	Msg string `json:"msg"`
}

// T is handed to a case.
type T struct {
	Check *Check
	Index int
	Seed  int
	Tier  string
	R     *jx.Rng
	Verb  bool
	fails []Fail
	cnt   map[string]int
	max   map[string]int
	tags  map[string]bool
	desc  string
	key   string
}

func (t *T) Thorough() bool { return t.Tier == "thorough" }

// Failf records a violation under a stable signature.
func (t *T) Failf(sig, f string, a ...any) {
	if len(t.fails) < 20 {
		m := fmt.Sprintf(f, a...)
		if len(m) > 1500 {
			m = m[:1500]
		}
		t.fails = append(t.fails, Fail{sig, m})
	}
}
func (t *T) Failed() bool            { return len(t.fails) > 0 }
func (t *T) Count(n string, k int)   { t.cnt[n] += k }
func (t *T) Max(n string, k int)     { t.max[n] = max(t.max[n], k) }
func (t *T) Tag(kind string, v any)  { t.tags[fmt.Sprintf("%s=%v", kind, v)] = true }
func (t *T) Desc(f string, a ...any) { t.desc = fmt.Sprintf(f, a...) }

// Key marks the case as non-trivial with the given behavioural identity.
func (t *T) Key(f string, a ...any) { t.key = fmt.Sprintf(f, a...) }

// Probe makes a T on which another check's case can run without anything being recorded.
func Probe(c *Check, r *jx.Rng) *T {
	return &T{Check: c, R: r, cnt: map[string]int{}, max: map[string]int{}, tags: map[string]bool{}}
}

type msg struct {
	Start *int           `json:"s,omitempty"`
	Done  *int           `json:"d,omitempty"`
	Fails []Fail         `json:"f,omitempty"`
	Err   string         `json:"e,omitempty"` // harness error
	Cnt   map[string]int `json:"c,omitempty"`
	Max   map[string]int `json:"m,omitempty"`
	Tags  []string       `json:"t,omitempty"`
	Desc  string         `json:"x,omitempty"`
	Key   string         `json:"k,omitempty"`
}

var registry = map[string]*Check{}

func Register(c *Check) {
	if c.Level == "" {
		c.Level = "exploration"
	}
	if c.Batch == 0 {
		c.Batch = 40
	}
	if c.Workers == 0 {
		c.Workers = runtime.NumCPU()
	}
	if c.CaseLimit == 0 {
		c.CaseLimit = 60 * time.Second
	}
	registry[c.ID] = c
}

// Aux holds helper commands a check runs in a process of its own (see SelfRun).
var Aux = map[string]func(in io.Reader, out io.Writer){}

// SelfRun runs a helper command in a fresh process of this binary.
func SelfRun(name string, in []byte) (string, error) {
	exe, err := os.Executable()
	if err != nil {
		return "", err
	}
	cmd := exec.Command(exe, "aux", name)
	cmd.Stdin = bytes.NewReader(in)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Run(); err != nil {
		return "", fmt.Errorf("%v: %s", err, firstLines(e.String(), 30))
	}
	return o.String(), nil
}

func Get(id string) *Check { return registry[id] }
func IDs() (o []string) {
	for k := range registry {
		o = append(o, k)
	}
	sort.Strings(o)
	return
}

// InTarget tells whether a panic stack was raised by the code under test rather than by the harness.
func InTarget(stack string) bool {
	lines := strings.Split(stack, "\n")
	seen := false
	for _, l := range lines {
		if strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "runtime.goPanic") || strings.HasPrefix(l, "runtime.panic") || strings.HasPrefix(l, "runtime.sigpanic") {
			seen = true
			continue
		}
		if !seen || strings.HasPrefix(l, "\t") || l == "" {
			continue
		}
		if strings.Contains(l, "kpfaulkner/jxl-go") {
			return true
		}
		if strings.HasPrefix(l, "jxverif/") || strings.HasPrefix(l, "main.") {
			return false
		}
	}
	return false
}

// Guard runs f and returns a description of a panic it raised in the code under test.
func Guard(f func()) (p string) {
	defer func() {
		if e := recover(); e != nil {
			st := string(debug.Stack())
			if !InTarget(st) {
				panic(fmt.Sprintf("harness: %v\n%s", e, st))
			}
			p = fmt.Sprintf("panic: %v at %s", e, TopFrame(st))
		}
	}()
	f()
	return ""
}

// TopFrame names the first frame of the code under test below the panic.
func TopFrame(stack string) string {
	seen := false
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "panic(") {
			seen = true
		}
		if seen && strings.Contains(l, "kpfaulkner/jxl-go") && !strings.HasPrefix(l, "\t") {
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			return strings.TrimPrefix(l, "github.com/kpfaulkner/")
		}
	}
	return "?"
}

func runCase(c *Check, seed int, tier string, i int, verb bool) (m msg) {
	t := &T{Check: c, Index: i, Seed: seed, Tier: tier, Verb: verb, R: jx.NewRng(jx.StrSeed(c.ID), uint64(seed), uint64(i)), cnt: map[string]int{}, max: map[string]int{}, tags: map[string]bool{}}
	func() {
		defer func() {
			if e := recover(); e != nil {
				st := string(debug.Stack())
				if InTarget(st) {
					t.Failf("panic:"+TopFrame(st), "panic in code under test: %v\n%s", e, st)
				} else {
					m.Err = fmt.Sprintf("case %d: %v\n%s", i, e, st)
				}
			}
		}()
		c.Run(t)
	}()
	m.Done = &i
	m.Fails, m.Cnt, m.Max, m.Desc, m.Key = t.fails, t.cnt, t.max, t.desc, t.key
	for k := range t.tags {
		m.Tags = append(m.Tags, k)
	}
	return
}

// Worker runs cases lo..hi-1 and reports on fd 3.
func Worker(id string, seed int, tier string, lo, hi int) {
	c := Get(id)
	debug.SetMaxStack(256 << 20)
	out := os.NewFile(3, "report")
	enc := json.NewEncoder(out)
	if c.MemMB > 0 {
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: uint64(c.MemMB) << 20, Max: uint64(c.MemMB) << 20})
		debug.SetMemoryLimit(int64(c.MemMB) << 19)
	}
	for i := lo; i < hi; i++ {
		enc.Encode(msg{Start: &i})
		enc.Encode(runCase(c, seed, tier, i, false))
	}
}

// Debug runs one case in this process, printing everything.
func Debug(id string, seed int, tier string, i int) int {
	m := runCase(Get(id), seed, tier, i, true)
	fmt.Println("case", i, "key", m.Key, "desc", m.Desc)
	fmt.Println("counters", m.Cnt, "max", m.Max, "tags", m.Tags)
	if m.Err != "" {
		fmt.Println("HARNESS ERROR", m.Err)
		return 2
	}
	for _, f := range m.Fails {
		fmt.Printf("FAIL [%s] %s\n", f.Sig, f.Msg)
	}
	if len(m.Fails) > 0 {
		return 1
	}
	return 0
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 256<<10 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

type agg struct {
	mu      sync.Mutex
	start   time.Time
	evals   int
	cnt     map[string]int
	max     map[string]int
	tags    map[string]int
	keys    map[string]int
	samples []string
	fails   []caseFail
	errs    []string
	seenLow map[string]bool
	stop    bool
	known   func(sig string) bool
	nKnown  int
}
type caseFail struct {
	Index int
	Fail
	Output string
}

func (a *agg) add(m msg) {
	a.mu.Lock()
	defer a.mu.Unlock()
	a.evals++
	for k, v := range m.Cnt {
		a.cnt[k] += v
	}
	for k, v := range m.Max {
		a.max[k] = max(a.max[k], v)
	}
	for _, t := range m.Tags {
		a.tags[t]++
	}
	if m.Key != "" {
		a.keys[m.Key]++
	}
	if m.Desc != "" && len(a.samples) < 8 {
		a.samples = append(a.samples, fmt.Sprintf("case %d: %s", *m.Done, m.Desc))
	}
	for _, f := range m.Fails {
		if a.known(f.Sig) {
			if a.nKnown++; a.nKnown > 20 {
				continue
			}
		}
		a.fails = append(a.fails, caseFail{*m.Done, f, ""})
	}
	if m.Err != "" {
		a.errs = append(a.errs, m.Err)
	}
	if len(a.fails) > 200 {
		a.stop = true
	}
}

// stopped tells whether to start no more cases: there are plenty of violations, or (on every change) there is one
// and the rest would be slow, or the time a check may take is running out. Cases not run are missing from the
// evaluations in the evidence.
func (a *agg) stopped(tier string) bool {
	a.mu.Lock()
	defer a.mu.Unlock()
	if os.Getenv("JXV_SCALE") != "" && len(a.fails) > min(a.nKnown, 20) {
		a.stop = true
	}
	if tier == "quick" {
		d := time.Since(a.start)
		if d > 600*time.Second || (d > 100*time.Second && len(a.fails) > min(a.nKnown, 20)) {
			a.stop = true
		}
	}
	return a.stop
}

// batch runs one worker over lo..hi; on a crash or hang the rest continues in a new worker.
func batch(self string, c *Check, seed int, tier string, lo, hi int, a *agg, limit time.Duration, retry bool) {
	for lo < hi {
		if !retry && a.stopped(tier) {
			return
		}
		cur, ended, how, out := runWorker(self, c, seed, tier, lo, hi, a, limit)
		if ended {
			if how != "" { // finished every case yet exited badly (e.g. race report)
				a.mu.Lock()
				a.fails = append(a.fails, caseFail{cur, Fail{how, firstLines(out, 60)}, out})
				a.mu.Unlock()
			}
			return
		}
		if retry {
			a.mu.Lock()
			a.fails = append(a.fails, caseFail{cur, Fail{how, firstLines(out, 60)}, out})
			a.evals++
			a.mu.Unlock()
			return
		}
		switch how {
		case "hang", "killed":
			// confirm alone and with a far larger allowance before believing it
			batch(self, c, seed, tier, cur, cur+1, a, limit*3, true)
		default:
			a.mu.Lock()
			a.fails = append(a.fails, caseFail{cur, Fail{how, firstLines(out, 60)}, out})
			a.evals++
			if len(a.fails) > 100 {
				a.stop = true
			}
			a.mu.Unlock()
		}
		lo = cur + 1
	}
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	for i, x := range l {
		if strings.HasPrefix(x, "panic:") || strings.HasPrefix(x, "fatal error:") || strings.Contains(x, "DATA RACE") {
			l = l[i:]
			break
		}
	}
	if len(l) > n {
		l = l[:n]
	}
	r := strings.Join(l, "\n")
	if len(r) > 4000 {
		r = r[:4000]
	}
	return r
}

func runWorker(self string, c *Check, seed int, tier string, lo, hi int, a *agg, limit time.Duration) (cur int, ended bool, how, out string) {
	pr, pw, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	cmd := exec.Command(self, "worker", c.ID, strconv.Itoa(seed), tier, strconv.Itoa(lo), strconv.Itoa(hi))
	var tl tail
	cmd.Stderr, cmd.Stdout = &tl, &tl
	cmd.ExtraFiles = []*os.File{pw}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	cmd.WaitDelay = 5 * time.Second
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=66 history_size=3", "GOTRACEBACK=all", "JXV_CHILD=1")
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	pw.Close()
	lines := make(chan msg, 64)
	go func() {
		d := json.NewDecoder(bufio.NewReaderSize(pr, 1<<20))
		for {
			var m msg
			if err := d.Decode(&m); err != nil {
				if err != io.EOF {
					_ = err
				}
				break
			}
			lines <- m
		}
		close(lines)
	}()
	cur = lo
	done := lo - 1
	tm := time.NewTimer(limit)
	hung := false
loop:
	for {
		select {
		case m, ok := <-lines:
			if !ok {
				break loop
			}
			if m.Start != nil {
				cur = *m.Start
			}
			if m.Done != nil {
				done = *m.Done
				a.add(m)
			}
			if !tm.Stop() {
				select {
				case <-tm.C:
				default:
				}
			}
			tm.Reset(limit)
		case <-tm.C:
			hung = true
			cmd.Process.Signal(syscall.SIGQUIT)
			time.Sleep(2 * time.Second)
			cmd.Process.Kill()
			for range lines {
			}
			break loop
		}
	}
	err = cmd.Wait()
	pr.Close()
	tl.mu.Lock()
	out = string(tl.b)
	tl.mu.Unlock()
	if hung {
		return cur, false, "hang", out
	}
	if done == hi-1 {
		if strings.Contains(out, "WARNING: DATA RACE") {
			return hi - 1, true, "datarace", out
		}
		return hi - 1, true, "", out
	}
	_ = err
	switch {
	case strings.Contains(out, "out of memory") || strings.Contains(out, "cannot allocate memory"):
		return cur, false, "oom", out
	case strings.Contains(out, "panic:") || strings.Contains(out, "fatal error:"):
		return cur, false, "crash:" + crashFrame(out), out
	case strings.Contains(out, "WARNING: DATA RACE"):
		return cur, false, "datarace", out
	}
	return cur, false, "killed", out
}

// crashFrame names the topmost frame of the code under test in a crash dump.
func crashFrame(out string) string {
	i := strings.Index(out, "panic:")
	if j := strings.Index(out, "fatal error:"); i < 0 || (j >= 0 && j < i) {
		i = j
	}
	if i < 0 {
		return "?"
	}
	for _, l := range strings.Split(out[i:], "\n") {
		if strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "created by") {
			continue
		}
		if strings.HasPrefix(l, "github.com/kpfaulkner/jxl-go") {
			if k := strings.LastIndex(l, "("); k > 0 {
				l = l[:k]
			}
			return strings.TrimPrefix(l, "github.com/kpfaulkner/")
		}
	}
	return "?"
}

type known struct{ Property, Sig, What string }

// loadKnown reads lines "open: property=ID sig=SIG what fails"; "fixed:" lines suppress nothing.
func loadKnown(root string) (o []known) {
	b, err := os.ReadFile(filepath.Join(root, "known_findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.SplitN(l, " ", 4)
		if len(f) == 4 && f[0] == "open:" {
			o = append(o, known{Property: strings.TrimPrefix(f[1], "property="), Sig: strings.TrimPrefix(f[2], "sig="), What: f[3]})
		}
	}
	return
}

// Replay identifies one case.
type Replay struct {
	Property string `json:"property"`
	Seed     int    `json:"seed"`
	Tier     string `json:"tier"`
	Index    int    `json:"index"`
	Sig      string `json:"sig"`
	Message  string `json:"message"`
	How      string `json:"how"`
	Output   string `json:"output,omitempty"`
}

// Orchestrate runs the whole check and returns the exit status.
func Orchestrate(root, self, raceSelf, id, tier string, seed int) int {
	c := Get(id)
	start := time.Now()
	n := c.Quick
	if tier == "thorough" {
		n = c.Thorough
		if n == 0 {
			n = c.Quick
		}
	}
	// a part of the cases, to try many changes quickly
	if f, err := strconv.ParseFloat(os.Getenv("JXV_SCALE"), 64); err == nil {
		n = max(1, int(float64(n)*f))
	}
	bin := self
	if c.Race {
		bin = raceSelf
	}
	kn := loadKnown(root)
	isKnown := func(sig string) bool {
		for _, k := range kn {
			if k.Property == id && k.Sig == sig {
				return true
			}
		}
		return false
	}
	a := &agg{start: start, known: isKnown, cnt: map[string]int{}, max: map[string]int{}, tags: map[string]int{}, keys: map[string]int{}}
	type job struct{ lo, hi int }
	jobs := make(chan job)
	var wg sync.WaitGroup
	for k := 0; k < c.Workers; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jobs {
				batch(bin, c, seed, tier, j.lo, j.hi, a, c.CaseLimit, false)
			}
		}()
	}
	for lo := 0; lo < n; lo += c.Batch {
		jobs <- job{lo, min(lo+c.Batch, n)}
	}
	close(jobs)
	wg.Wait()

	var viol []caseFail
	knownHit := map[string]string{}
	for _, f := range a.fails {
		hit := false
		for _, k := range kn {
			if k.Property == id && k.Sig == f.Sig {
				knownHit[k.Sig] = k.What
				hit = true
			}
		}
		if !hit {
			viol = append(viol, f)
		}
	}
	sort.SliceStable(viol, func(i, j int) bool { return viol[i].Index < viol[j].Index })
	var ks []string
	for k := range knownHit {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, knownHit[k])
	}
	rdir := filepath.Join(root, "evidence", "replay")
	os.MkdirAll(rdir, 0o755)
	seen := map[string]int{}
	for _, f := range viol {
		seen[f.Sig]++
		if seen[f.Sig] > 1 || len(seen) > 8 {
			continue
		}
		p := filepath.Join(rdir, fmt.Sprintf("%s-%d-%d.json", id, seed, f.Index))
		o := f.Output
		if len(o) > 60000 {
			o = o[:60000]
		}
		b, _ := json.MarshalIndent(Replay{id, seed, tier, f.Index, f.Sig, f.Msg, "/verif/check.sh --replay " + p, o}, "", " ")
		os.WriteFile(p, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, p)
		fmt.Printf("  case %d [%s] %s\n", f.Index, f.Sig, strings.ReplaceAll(firstN(f.Msg, 600), "\n", "\n    "))
	}
	for s, k := range seen {
		if k > 1 {
			fmt.Printf("  (%d cases failed with [%s])\n", k, s)
		}
	}
	miss := ""
	if len(viol) == 0 && len(a.errs) == 0 && a.evals >= c.Quick {
		for _, k := range c.Need {
			if a.cnt[k] == 0 && a.max[k] == 0 {
				miss += " " + k
			}
		}
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": c.Level,
		"coverage": map[string]any{
			"evaluations": a.evals, "distinct_nontrivial": len(a.keys), "rule": c.Rule, "samples": nonNil(a.samples),
			"observed": a.cnt, "maxima": a.max, "classes": summarise(a.tags), "planned_cases": n,
			"harness_errors": len(a.errs),
		},
		"assumptions": append([]string{"the harness' own encoder and reference model, written from the JPEG XL specification, are correct where they agree with the decoder"}, c.Assume...),
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(viol),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(root, "evidence", id+".json"), append(b, '\n'), 0o644)
	fmt.Printf("%s %s: %d cases, %d distinct non-trivial, %d violating, %d harness errors, %.1fs\n", id, tier, a.evals, len(a.keys), len(viol), len(a.errs), time.Since(start).Seconds())
	if os.Getenv("JXV_STATS") != "" {
		fmt.Println(a.cnt, a.max)
	}
	if len(viol) > 0 {
		return 1
	}
	if len(a.errs) > 0 {
		fmt.Println("HARNESS ERROR:", a.errs[0])
		return 2
	}
	if miss != "" {
		fmt.Println("INCONCLUSIVE: monitors observed none of:" + miss)
		return 2
	}
	return 0
}

func firstN(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func nonNil(s []string) []string {
	if s == nil {
		return []string{}
	}
	return s
}

// summarise groups tags by kind: how many distinct values each took.
func summarise(tags map[string]int) map[string]any {
	by := map[string]map[string]int{}
	for k, n := range tags {
		i := strings.Index(k, "=")
		kind, v := k[:i], k[i+1:]
		if by[kind] == nil {
			by[kind] = map[string]int{}
		}
		by[kind][v] += n
	}
	o := map[string]any{}
	for k, m := range by {
		if len(m) <= 40 {
			o[k] = m
		} else {
			o[k] = map[string]int{"distinct": len(m)}
		}
	}
	return o
}
