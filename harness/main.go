// Command verifh runs the real luxfi/zmq code under hostile workloads and
// watches what comes out. See /verif/DESIGN.md.
package main

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ---------------------------------------------------------------- clock

// tick counts 5 ms steps during which this process was really running. All
// watchdogs count ticks, so a machine that stalls stalls the watchdogs too.
var tick atomic.Int64

const tickLen = 5 * time.Millisecond

func runClock() {
	for {
		time.Sleep(tickLen)
		tick.Add(1)
	}
}

type deadline int64

func after(d time.Duration) deadline { return deadline(tick.Load() + int64(d/tickLen) + 1) }
func (d deadline) passed() bool      { return tick.Load() >= int64(d) }

// ---------------------------------------------------------------- run state

type scenario struct {
	name  string
	quick int // instances in the quick tier
	full  int // instances in the thorough tier
	fn    func(t *T)
}

type check struct {
	id        string
	rule      string
	assume    []string
	workers   int // scenarios run side by side, 0: default
	scenarios func() []scenario
	need      map[string]int64 // events without which the run observed too little
	after     func()           // runs once, after all scenarios
}

var checks = map[string]*check{}

func register(c *check) { checks[c.id] = c }

type known struct{ prop, sig string }

var (
	cur      *check
	tier     string
	seed     int64
	outFile  string
	replayTo string
	scratch  string
	started  = time.Now()
	knowns   []known
	verbose  bool
	theta    float64

	stMu     sync.Mutex
	evals    int64
	events   = map[string]int64{}
	keys     = map[string]struct{}{}
	samples  []string
	perScen  = map[string]int64{}
	knownHit = map[string]string{}
	inconcl  []string
	violated bool
)

// T is one execution of a scenario.
type T struct {
	name string
	idx  int
	seed int64
	rng  *rand.Rand
	rmu  sync.Mutex

	mu        sync.Mutex
	trace     []string
	cleanup   []func()
	dir       string
	ip        string
	nep       int
	onHost    func(*host) // sees each new vmem host
	hostsMade []*host
	foreign   bool // violations are not reported
	dead      atomic.Bool
}

type abort struct{}

func subseed(parts ...any) int64 {
	h := sha256.Sum256([]byte(fmt.Sprint(parts...)))
	return int64(binary.LittleEndian.Uint64(h[:8]) >> 1)
}

var ipCount atomic.Int64

func newT(name string, idx int) *T {
	s := subseed(seed, cur.id, name, idx)
	n := ipCount.Add(1)
	return &T{
		name: name, idx: idx, seed: s, rng: rand.New(rand.NewSource(s)),
		// an address of its own: scenarios never compete for ports
		ip: fmt.Sprintf("127.%d.%d.%d", 10+os.Getpid()%200, 1+(n/250)%250, 1+n%250),
	}
}

// ---- randomness (safe for concurrent use)

func (t *T) Intn(n int) int {
	t.rmu.Lock()
	defer t.rmu.Unlock()
	return t.rng.Intn(n)
}
func (t *T) Int63() int64 {
	t.rmu.Lock()
	defer t.rmu.Unlock()
	return t.rng.Int63()
}
func (t *T) Bool() bool        { return t.Intn(2) == 0 }
func (t *T) Chance(p int) bool { return t.Intn(100) < p } // p per cent
func (t *T) Perm(n int) []int {
	t.rmu.Lock()
	defer t.rmu.Unlock()
	return t.rng.Perm(n)
}
func (t *T) Bytes(n int) []byte {
	b := make([]byte, n)
	t.rmu.Lock()
	defer t.rmu.Unlock()
	t.rng.Read(b)
	return b
}
func (t *T) fork() *rand.Rand { return rand.New(rand.NewSource(t.Int63())) }

func pick[E any](t *T, xs ...E) E { return xs[t.Intn(len(xs))] }

// ---- bookkeeping

func count(name string, n int64) {
	stMu.Lock()
	events[name] += n
	stMu.Unlock()
}

// Key notes a distinct, non-trivial case.
func (t *T) Key(parts ...any) {
	k := fmt.Sprint(parts...)
	stMu.Lock()
	keys[k] = struct{}{}
	stMu.Unlock()
}

func (t *T) Log(format string, args ...any) {
	s := fmt.Sprintf(format, args...)
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	t.mu.Lock()
	if len(t.trace) < 4000 {
		t.trace = append(t.trace, s)
	}
	t.mu.Unlock()
	if verbose {
		fmt.Fprintf(os.Stderr, "[%s#%d] %s\n", t.name, t.idx, s)
	}
}

func (t *T) Cleanup(f func()) {
	t.mu.Lock()
	t.cleanup = append(t.cleanup, f)
	t.mu.Unlock()
}

func (t *T) runCleanup() {
	for {
		t.mu.Lock()
		n := len(t.cleanup)
		if n == 0 {
			t.mu.Unlock()
			return
		}
		f := t.cleanup[n-1]
		t.cleanup = t.cleanup[:n-1]
		t.mu.Unlock()
		f()
	}
}

// Dir is a scratch directory with a short name.
func (t *T) Dir() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.dir == "" {
		d, err := os.MkdirTemp(scratch, "d")
		if err != nil {
			fatal("scratch directory: %v", err)
		}
		t.dir = d
	}
	return t.dir
}

// Violate reports that the property is broken. It does not return.
func (t *T) Violate(format string, args ...any) {
	msg := fmt.Sprintf(format, args...)
	if t.foreign {
		progress("foreign %s#%d: %s", t.name, t.idx, msg)
		t.dead.Store(true)
		panic(abort{})
	}
	for _, k := range knowns {
		if k.prop == cur.id && strings.Contains(msg, k.sig) {
			stMu.Lock()
			knownHit[k.sig] = msg
			stMu.Unlock()
			t.dead.Store(true)
			panic(abort{})
		}
	}
	stMu.Lock()
	if violated {
		stMu.Unlock()
		select {}
	}
	violated = true
	stMu.Unlock()

	t.mu.Lock()
	tr := append([]string(nil), t.trace...)
	t.mu.Unlock()
	if len(tr) > 300 {
		tr = append(tr[:50:50], append([]string{"..."}, tr[len(tr)-250:]...)...)
	}
	stacks := make([]byte, 1<<20)
	stacks = stacks[:runtime.Stack(stacks, true)]
	if len(stacks) > 200000 {
		stacks = stacks[:200000]
	}
	rep := map[string]any{
		"property": cur.id, "scenario": t.name, "instance": t.idx,
		"seed": seed, "tier": tier, "what": msg, "trace": tr, "goroutines": strings.Split(string(stacks), "\n"),
	}
	buf, _ := json.MarshalIndent(rep, "", " ")
	_ = os.WriteFile(replayTo, buf, 0o644)
	writeEvidence(1)
	fmt.Printf("scenario %s #%d: %s\n", t.name, t.idx, msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", cur.id, replayTo)
	os.Exit(1)
}

// Skip gives up on this execution: nothing can be concluded from it.
func (t *T) Skip(format string, args ...any) {
	msg := fmt.Sprintf("%s#%d: ", t.name, t.idx) + fmt.Sprintf(format, args...)
	stMu.Lock()
	inconcl = append(inconcl, msg)
	stMu.Unlock()
	t.dead.Store(true)
	panic(abort{})
}

func fatal(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "verifh: "+format+"\n", args...)
	fmt.Printf("ERROR "+format+"\n", args...)
	os.Exit(2)
}

// ---- waiting

const patience = 20 * time.Second

// Within runs f, and reports a violation if it is not done in time.
func (t *T) Within(d time.Duration, what string, f func()) {
	if !t.Done(d, f) {
		t.Violate("%s: not done after %v", what, d)
	}
}

// Done runs f and tells whether it finished in time.
func (t *T) Done(d time.Duration, f func()) bool {
	done := make(chan struct{})
	t.Go(func() {
		defer close(done)
		f()
	})
	return waitCh(done, d)
}

func waitCh[E any](ch <-chan E, d time.Duration) bool {
	dl := after(d)
	tk := time.NewTicker(10 * time.Millisecond)
	defer tk.Stop()
	for {
		select {
		case <-ch:
			return true
		case <-tk.C:
			if dl.passed() {
				select {
				case <-ch:
					return true
				default:
				}
				return false
			}
		}
	}
}

// Until polls cond.
func until(d time.Duration, cond func() bool) bool {
	dl := after(d)
	for i := 0; ; i++ {
		if cond() {
			return true
		}
		if dl.passed() {
			return cond()
		}
		if i < 50 {
			time.Sleep(200 * time.Microsecond)
		} else {
			time.Sleep(2 * time.Millisecond)
		}
	}
}

func (t *T) Until(d time.Duration, what string, cond func() bool) {
	if !until(d, cond) {
		t.Violate("%s: not so after %v", what, d)
	}
}

// Go starts a goroutine in which Violate and Skip may be called.
func (t *T) Go(f func()) {
	go func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(abort); ok {
					return
				}
				panic(fmt.Sprintf("%v\n%s", r, debug.Stack()))
			}
		}()
		f()
	}()
}

// Par runs the functions side by side and waits for all.
func (t *T) Par(d time.Duration, what string, fs ...func()) {
	var wg sync.WaitGroup
	for _, f := range fs {
		wg.Add(1)
		t.Go(func() {
			defer wg.Done()
			f()
		})
	}
	ch := make(chan struct{})
	go func() { wg.Wait(); close(ch) }()
	if !waitCh(ch, d) {
		t.Violate("%s: not done after %v", what, d)
	}
	if t.dead.Load() {
		panic(abort{})
	}
}

// ---------------------------------------------------------------- runner

func runOne(s scenario, idx int) {
	t := newT(s.name, idx)
	progress("start %s %d", s.name, idx)
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(abort); ok {
					return
				}
				panic(fmt.Sprintf("%v\n%s", r, debug.Stack()))
			}
		}()
		defer t.runCleanup()
		s.fn(t)
	}()
	if !waitCh(done, 150*time.Second) {
		t.foreign = false
		t.Violate("scenario %s is stuck", s.name)
	}
	if t.dir != "" {
		_ = os.RemoveAll(t.dir)
	}
	stMu.Lock()
	evals++
	perScen[s.name]++
	if t.dead.Load() {
		stMu.Unlock()
		return
	}
	if len(t.trace) > 0 && perScen[s.name] == 1 && len(samples) < 12 {
		tr := t.trace
		if len(tr) > 12 {
			tr = tr[:12]
		}
		samples = append(samples, fmt.Sprintf("%s#%d: %s", s.name, idx, strings.Join(tr, " | ")))
	}
	stMu.Unlock()
	progress("done %s %d", s.name, idx)
}

var progFile *os.File
var progMu sync.Mutex

func progress(format string, args ...any) {
	if progFile == nil {
		return
	}
	progMu.Lock()
	fmt.Fprintf(progFile, format+"\n", args...)
	progMu.Unlock()
}

func writeEvidence(viol int) {
	if outFile == "" {
		return
	}
	stMu.Lock()
	defer stMu.Unlock()
	cov := map[string]any{
		"evaluations":         evals,
		"distinct_nontrivial": len(keys),
		"rule":                cur.rule,
		"samples":             samples,
		"events":              events,
		"executions":          perScen,
	}
	if len(inconcl) > 0 {
		n := len(inconcl)
		ex := inconcl
		if n > 5 {
			ex = ex[:5]
		}
		cov["inconclusive"] = map[string]any{"count": n, "examples": ex}
	}
	if len(samples) == 0 {
		ks := make([]string, 0, 5)
		for k := range keys {
			if len(ks) < 5 {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		cov["samples"] = ks
	}
	ev := map[string]any{
		"property": cur.id, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": cov, "assumptions": cur.assume,
		"wall_s": time.Since(started).Seconds(), "violations": viol,
	}
	buf, _ := json.MarshalIndent(ev, "", " ")
	_ = os.WriteFile(outFile, append(buf, '\n'), 0o644)
}

func loadKnown(path string) {
	buf, err := os.ReadFile(path)
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(buf), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property=")
		p, rest, ok := strings.Cut(l, " ")
		if ok {
			knowns = append(knowns, known{p, strings.TrimSpace(rest)})
		}
	}
}

func main() {
	var (
		prop = flag.String("prop", "", "property")
		only = flag.String("only", "", "scenario[#instance]: run only that")
		kn   = flag.String("known", "", "known findings")
		prog = flag.String("progress", "", "progress file")
		wrk  = flag.Int("workers", 0, "scenarios side by side")
	)
	flag.StringVar(&tier, "tier", "quick", "quick or thorough")
	flag.Int64Var(&seed, "seed", 1, "seed")
	flag.StringVar(&outFile, "evidence", "", "evidence file")
	flag.StringVar(&replayTo, "replay", "/dev/null", "where to describe a violation")
	flag.StringVar(&scratch, "scratch", "", "scratch directory")
	flag.BoolVar(&verbose, "v", false, "trace")
	flag.Float64Var(&theta, "scale", 1, "scale numbers of executions")
	flag.Parse()
	log.SetOutput(io.Discard)

	cur = checks[*prop]
	if cur == nil {
		fatal("no check %q", *prop)
	}
	if *kn != "" {
		loadKnown(*kn)
	}
	if scratch == "" {
		d, err := os.MkdirTemp("", "vh")
		if err != nil {
			fatal("%v", err)
		}
		scratch = d
	}
	scratch, _ = filepath.Abs(scratch)
	if *prog != "" {
		progFile, _ = os.Create(*prog)
	}
	go runClock()

	type job struct {
		s   scenario
		idx int
	}
	var jobs []job
	onlyName, onlyIdx := *only, -1
	if n, i, ok := strings.Cut(*only, "#"); ok {
		onlyName = n
		fmt.Sscan(i, &onlyIdx)
	}
	scs := cur.scenarios()
	for i := 0; ; i++ {
		any := false
		for _, s := range scs {
			n := s.quick
			if tier == "thorough" {
				n = s.full
			}
			if theta != 1 && n > 1 {
				n = max(1, int(float64(n)*theta))
			}
			if i >= n {
				continue
			}
			any = true
			if *only != "" && (s.name != onlyName || onlyIdx >= 0 && onlyIdx != i) {
				continue
			}
			jobs = append(jobs, job{s, i})
		}
		if !any {
			break
		}
	}
	if len(jobs) == 0 {
		fatal("nothing to run")
	}

	n := cur.workers
	if n == 0 {
		n = 8
	}
	if *wrk > 0 {
		n = *wrk
	}
	ch := make(chan job)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				t0 := time.Now()
				runOne(j.s, j.idx)
				if d := time.Since(t0); d > 5*time.Second {
					progress("slow %s %d %v", j.s.name, j.idx, d)
				}
			}
		}()
	}
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	wg.Wait()
	if cur.after != nil {
		cur.after()
	}

	writeEvidence(0)
	stMu.Lock()
	for sig, msg := range knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", cur.id, sig, msg)
	}
	if int64(len(inconcl))*4 > evals {
		fmt.Printf("ERROR %d of %d executions were inconclusive: %s\n", len(inconcl), evals, inconcl[0])
		os.Exit(2)
	}
	if *only == "" {
		for k, v := range cur.need {
			if events[k] < v {
				fmt.Printf("ERROR observed too little: %s=%d, want at least %d\n", k, events[k], v)
				os.Exit(2)
			}
		}
	}
	fmt.Printf("OK property=%s executions=%d distinct=%d inconclusive=%d events=%v wall=%.1fs\n",
		cur.id, evals, len(keys), len(inconcl), events, time.Since(started).Seconds())
	stMu.Unlock()
	os.Exit(0)
}

func digest(b []byte) string {
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:6])
}
