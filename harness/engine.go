package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Property-based testing engine: generates cases in parallel, counts what they
// were, shrinks a failing choice sequence, writes a replay directory.

type Prop struct {
	ID       string
	Title    string
	Rule     string // what makes a case non-trivial
	Quick    int    // number of cases
	Thorough int
	Bins     []string // which builds of the tool it needs
	Run      func(c *C)
	Assume   []string
	// Fixed scenarios run once per check, in addition to generated cases.
	Fixed []func(c *C)
	// QuickCap/ThoroughCap: wall clock after which no new case is started.
	QuickCap, ThoroughCap time.Duration
	Workers               int
}

type failure struct{ msg string }
type infra struct{ msg string }
type discard struct{}

// C is one case in execution.
type C struct {
	*D
	Prop    *Prop
	Tier    string
	Dir     string // scratch directory of the case
	labels  map[string]int
	nontriv []string
	sample  string
	notes   []string // commands and artefacts, for the report of a failure
	known   []string
	nfile   int
	ran     bool // the tool has been run
}

func (c *C) Failf(format string, a ...any) { panic(failure{fmt.Sprintf(format, a...)}) }
func (c *C) Infraf(format string, a ...any) {
	panic(infra{fmt.Sprintf(format, a...)})
}
func (c *C) Discard()                  { panic(discard{}) }
func (c *C) Label(l string)            { c.labels[l]++ }
func (c *C) Labelf(f string, a ...any) { c.labels[fmt.Sprintf(f, a...)]++ }

// NonTrivial records that the case exercised the property; sig identifies it.
func (c *C) NonTrivial(sig string) { c.nontriv = append(c.nontriv, sig) }
func (c *C) Sample(f string, a ...any) {
	if c.sample == "" {
		c.sample = fmt.Sprintf(f, a...)
	}
}
func (c *C) Note(f string, a ...any) { c.notes = append(c.notes, fmt.Sprintf(f, a...)) }

func (c *C) Path(name string) string { return filepath.Join(c.Dir, name) }

func (c *C) Write(name string, b []byte) string {
	p := c.Path(name)
	if err := os.WriteFile(p, b, 0o644); err != nil {
		c.Infraf("write %s: %v", p, err)
	}
	return p
}

func (c *C) Read(p string) []byte {
	b, err := os.ReadFile(p)
	if err != nil {
		c.Failf("expected file is not readable: %v", err)
	}
	return b
}

// Res is the outcome of one run of the tool.
type Res struct {
	Exit    int
	Out     string
	Timeout bool
	Args    []string
	Bin     string
	Dur     time.Duration
}

func (r *Res) Crashed() bool {
	if r.Exit == 0 {
		return false
	}
	return strings.Contains(r.Out, "panic:") || strings.Contains(r.Out, "goroutine ") ||
		strings.Contains(r.Out, "fatal error:") || strings.Contains(r.Out, "SIGSEGV")
}

func (r *Res) Cmd() string { return "vigilantbsp " + strings.Join(r.Args, " ") }

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

func headTail(s string, n int) string {
	if len(s) <= 2*n {
		return s
	}
	return s[:n] + "\n...\n" + s[len(s)-n:]
}

var binDir string

type RunOpt struct {
	Bin     string
	Env     []string
	Timeout time.Duration
	Procs   int
	Kill    time.Duration // kill (SIGKILL) after this much time
	Dir     string
	Stdin   string
	Uid     int
	Prlimit string   // e.g. "fsize=1000"
	Strace  []string // fault injection: arguments of strace
}

// Run executes the freshly built tool in the scratch directory of the case.
func (c *C) Run(args ...string) *Res { return c.RunOpt(RunOpt{}, args...) }

func (c *C) RunOpt(o RunOpt, args ...string) *Res {
	if o.Bin == "" {
		o.Bin = "vb"
	}
	if o.Timeout == 0 {
		o.Timeout = 120 * time.Second
	}
	if o.Procs == 0 {
		o.Procs = 2
	}
	c.ran = true
	r := &Res{Args: args, Bin: o.Bin}
	c.Note("$ %s %s", o.Bin, strings.Join(quoteAll(args), " "))
	for attempt := 0; ; attempt++ {
		ctx, cancel := context.WithTimeout(context.Background(), o.Timeout)
		name, av := filepath.Join(binDir, o.Bin), args
		if o.Prlimit != "" {
			av = append([]string{"--" + o.Prlimit, name}, args...)
			name = "prlimit"
		}
		if o.Strace != nil {
			av = append(append([]string{"-f", "-qq", "-o", "/dev/null"}, o.Strace...), append([]string{name}, av...)...)
			name = "strace"
		}
		cmd := exec.CommandContext(ctx, name, av...)
		ownGroup(cmd)
		cmd.Dir = c.Dir
		if o.Dir != "" {
			cmd.Dir = o.Dir
		}
		cmd.Env = append([]string{"PATH=/usr/bin:/bin", "HOME=" + c.Dir, "TMPDIR=" + c.Dir,
			fmt.Sprintf("GOMAXPROCS=%d", o.Procs), "GOTRACEBACK=single"}, o.Env...)
		cmd.Stdin = strings.NewReader(o.Stdin)
		if o.Uid != 0 {
			setUid(cmd, o.Uid)
		}
		var sb limBuf
		cmd.Stdout, cmd.Stderr = &sb, &sb
		cmd.WaitDelay = 5 * time.Second
		t0 := time.Now()
		var err error
		if err = cmd.Start(); err == nil {
			if o.Kill > 0 {
				tm := time.AfterFunc(o.Kill, func() { cmd.Process.Kill() })
				err = cmd.Wait()
				tm.Stop()
			} else {
				err = cmd.Wait()
			}
		}
		r.Dur = time.Since(t0)
		timedOut := ctx.Err() != nil
		cancel()
		r.Out = sb.String()
		if timedOut {
			if attempt == 0 { // once more, alone and with more patience
				hangMu.Lock()
				defer hangMu.Unlock()
				o.Timeout *= 2
				continue
			}
			r.Timeout = true
			r.Exit = -1
			return r
		}
		r.Exit = 0
		if err != nil {
			var ee *exec.ExitError
			if errors.As(err, &ee) {
				r.Exit = ee.ExitCode()
				if r.Exit < 0 && o.Kill == 0 && o.Prlimit == "" && o.Strace == nil {
					// ended by a signal: nothing the tool does on its own
					c.Infraf("the tool was ended from outside: %v", err)
				}
			} else {
				c.Infraf("cannot run the tool: %v", err)
			}
		}
		if strings.Contains(r.Out, "cannot allocate memory") || strings.Contains(r.Out, "newosproc") {
			c.Infraf("out of resources: %s", tail(r.Out, 300))
		}
		return r
	}
}

var hangMu sync.Mutex

type limBuf struct {
	mu sync.Mutex
	b  []byte
}

func (l *limBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	if len(l.b) < 1<<20 {
		l.b = append(l.b, p...)
	}
	l.mu.Unlock()
	return len(p), nil
}
func (l *limBuf) String() string { l.mu.Lock(); defer l.mu.Unlock(); return string(l.b) }

func quoteAll(a []string) []string {
	r := make([]string, len(a))
	for i, s := range a {
		if s == "" || strings.ContainsAny(s, " '\"*?$!&|;") {
			s = "'" + strings.ReplaceAll(s, "'", `'\''`) + "'"
		}
		r[i] = s
	}
	return r
}

type outcome struct {
	fail    string
	infra   string
	discard bool
	c       *C
}

var scratchRoot string
var dirSeq atomic.Int64

func execCase(p *Prop, tier string, d *D, run func(c *C), keep bool) (o outcome) {
	dir := filepath.Join(scratchRoot, fmt.Sprintf("c%d", dirSeq.Add(1)))
	if err := os.Mkdir(dir, 0o755); err != nil {
		return outcome{infra: err.Error()}
	}
	c := &C{D: d, Prop: p, Tier: tier, Dir: dir, labels: map[string]int{}}
	o.c = c
	if !keep {
		defer os.RemoveAll(dir)
	}
	defer func() {
		if e := recover(); e != nil {
			switch v := e.(type) {
			case failure:
				o.fail = v.msg
			case infra:
				o.infra = v.msg
			case discard:
				o.discard = true
			default:
				buf := make([]byte, 8192)
				buf = buf[:runtime.Stack(buf, false)]
				if _, ok := e.(runtime.Error); ok && c.ran {
					// an index beyond the end and the like: the oracle is
					// written for output that obeys the format
					o.fail = fmt.Sprintf("unreadable: reading the output, which must be malformed, failed: %v\n%s", e, buf)
					return
				}
				o.infra = fmt.Sprintf("harness error: %v\n%s", e, buf)
			}
		}
	}()
	run(c)
	return
}

func caseSeed(seed int64, id string, i int) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, id, i)
	return h.Sum64()
}

type Replay struct {
	Property string   `json:"property"`
	Fixed    int      `json:"fixed"` // index of a fixed scenario, -1 for a generated case
	Seq      []uint64 `json:"choices"`
	Message  string   `json:"message"`
}

func runFn(p *Prop, fixed int) func(c *C) {
	if fixed >= 0 {
		return p.Fixed[fixed]
	}
	return p.Run
}

// shrink looks for a simpler choice sequence that still fails.
func shrink(p *Prop, tier string, seq []uint64, fixed int, msg string, budget time.Duration) ([]uint64, string) {
	deadline := time.Now().Add(budget)
	best, bestMsg := seq, msg
	runs := 0
	kind := failKind(msg)
	try := func(s []uint64) bool {
		if time.Now().After(deadline) || runs > 3000 {
			return false
		}
		runs++
		o := execCase(p, tier, replayD(s), runFn(p, fixed), false)
		if o.fail != "" && failKind(o.fail) == kind {
			rec := o.c.D.rec
			if less(rec, best) {
				best, bestMsg = append([]uint64{}, rec...), o.fail
				return true
			}
		}
		return false
	}
	for improved := true; improved && time.Now().Before(deadline); {
		improved = false
		for _, w := range []int{64, 16, 8, 4, 2, 1} {
			for i := len(best) - w; i >= 0 && time.Now().Before(deadline); i -= max(1, w/2) {
				if i+w > len(best) {
					continue
				}
				s := append(append([]uint64{}, best[:i]...), best[i+w:]...)
				if try(s) {
					improved = true
				}
			}
		}
		for i := 0; i < len(best) && time.Now().Before(deadline); i++ {
			if best[i] == 0 {
				continue
			}
			s := append([]uint64{}, best...)
			s[i] = 0
			if try(s) {
				improved = true
				continue
			}
			lo, hi := uint64(0), best[min(i, len(best)-1)]
			for k := 0; k < 12 && hi-lo > 1 && i < len(best); k++ {
				mid := lo + (hi-lo)/2
				s := append([]uint64{}, best...)
				s[i] = mid
				if try(s) {
					improved = true
					hi = mid
				} else {
					lo = mid
				}
			}
		}
	}
	return best, bestMsg
}

// failKind keeps shrinking from sliding to a different failure.
func failKind(m string) string {
	if i := strings.IndexByte(m, ':'); i > 0 && i < 60 {
		return m[:i]
	}
	return ""
}

func less(a, b []uint64) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

type Evidence struct {
	Property    string         `json:"property"`
	Tier        string         `json:"tier"`
	Seed        int64          `json:"seed"`
	Level       string         `json:"level"`
	Coverage    map[string]any `json:"coverage"`
	Assumptions []string       `json:"assumptions"`
	WallS       float64        `json:"wall_s"`
	Violations  int            `json:"violations"`
}

// check runs one property; returns the exit code.
func check(p *Prop, tier string, seed int64, root string) int {
	start := time.Now()
	n, limit := p.Quick, p.QuickCap
	if limit == 0 {
		limit = 240 * time.Second
	}
	if tier == "thorough" {
		n, limit = p.Thorough, p.ThoroughCap
		if limit == 0 {
			limit = 25 * time.Minute
		}
	}
	workers := p.Workers
	if workers == 0 {
		workers = runtime.NumCPU()
	}
	var (
		mu       sync.Mutex
		evals    int
		discards int
		labels   = map[string]int{}
		distinct = map[uint64]bool{}
		samples  []string
		viol     *outcome
		violIdx  int
		violFix  = -1
		infraMsg string
		known    = map[string]bool{}
		stop     atomic.Bool
	)
	collect := func(i, fixed int, o outcome) {
		mu.Lock()
		defer mu.Unlock()
		if o.infra != "" {
			if infraMsg == "" {
				infraMsg = fmt.Sprintf("case %d: %s\n%s", i, o.infra, strings.Join(o.c.notes, "\n"))
			}
			stop.Store(true)
			return
		}
		if o.discard {
			discards++
			return
		}
		evals++
		for k := range o.c.labels {
			labels[k]++
		}
		for _, s := range o.c.nontriv {
			h := fnv.New64a()
			h.Write([]byte(s))
			distinct[h.Sum64()] = true
		}
		if o.c.sample != "" && len(samples) < 6 {
			samples = append(samples, o.c.sample)
		}
		for _, k := range o.c.known {
			known[k] = true
		}
		if o.fail != "" {
			if viol == nil || i < violIdx {
				oo := o
				viol, violIdx, violFix = &oo, i, fixed
			}
			stop.Store(true)
		}
	}
	var next atomic.Int64
	var wg sync.WaitGroup
	nf := len(p.Fixed)
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !stop.Load() {
				i := int(next.Add(1)) - 1
				if i >= n+nf {
					return
				}
				if i < nf {
					collect(i, i, execCase(p, tier, newD(caseSeed(seed, p.ID+"/fixed", i)), p.Fixed[i], false))
					continue
				}
				if time.Since(start) > limit {
					return
				}
				collect(i, -1, execCase(p, tier, newD(caseSeed(seed, p.ID, i-nf)), p.Run, false))
			}
		}()
	}
	wg.Wait()
	for k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k)
	}
	nviol := 0
	replayPath := ""
	if viol != nil {
		nviol = 1
		seq, msg := viol.c.D.rec, viol.fail
		// confirm on a second execution, so that nothing transient is reported
		o2 := execCase(p, tier, replayD(seq), runFn(p, violFix), false)
		if o2.fail == "" {
			confirmed := false
			for k := 0; k < 20 && !confirmed; k++ {
				o2 = execCase(p, tier, replayD(seq), runFn(p, violFix), false)
				confirmed = o2.fail != ""
			}
			if !confirmed && !strings.Contains(msg, "[schedule]") {
				fmt.Printf("case %d failed once and could not be reproduced in 21 re-runs: %s\n", violIdx, msg)
				fmt.Println(strings.Join(viol.c.notes, "\n"))
				if !scheduleDependent[p.ID] {
					return 2
				}
			}
		}
		if violFix < 0 {
			b := 60 * time.Second
			if tier == "thorough" {
				b = 180 * time.Second
			}
			seq, msg = shrink(p, tier, seq, violFix, msg, b)
		}
		fin := execCase(p, tier, replayD(seq), runFn(p, violFix), true)
		if fin.fail != "" {
			msg = fin.fail
		}
		replayPath = saveReplay(root, p, seed, tier, violFix, seq, msg, fin.c)
		os.RemoveAll(fin.c.Dir)
		fmt.Printf("violated: %s\n", msg)
		for _, s := range fin.c.notes {
			fmt.Println("  " + s)
		}
	}
	ev := Evidence{Property: p.ID, Tier: tier, Seed: seed, Level: "exploration", Violations: nviol,
		Assumptions: p.Assume, WallS: time.Since(start).Seconds(), Coverage: map[string]any{
			"evaluations": evals, "distinct_nontrivial": len(distinct), "rule": p.Rule,
			"samples": samples, "discarded": discards, "classes": labels, "planned_cases": n, "fixed_scenarios": nf,
		}}
	if ev.Assumptions == nil {
		ev.Assumptions = []string{}
	}
	if samples == nil {
		ev.Coverage["samples"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(root, "evidence", p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 2
	}
	fmt.Printf("%s %s seed=%d: %d cases (%d discarded), %d distinct non-trivial, %.1fs\n", p.ID, tier, seed, evals, discards, len(distinct), time.Since(start).Seconds())
	var ks []string
	for k := range labels {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("  %-40s %d\n", k, labels[k])
	}
	if viol != nil {
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, replayPath)
		return 1
	}
	if infraMsg != "" {
		fmt.Println("ERROR:", infraMsg)
		return 2
	}
	return 0
}

// properties whose violations may depend on goroutine scheduling
var scheduleDependent = map[string]bool{}

func saveReplay(root string, p *Prop, seed int64, tier string, fixed int, seq []uint64, msg string, c *C) string {
	dir := filepath.Join(root, "replays", fmt.Sprintf("%s-%d", p.ID, time.Now().UnixNano()))
	os.MkdirAll(dir, 0o755)
	b, _ := json.Marshal(Replay{p.ID, fixed, seq, msg})
	os.WriteFile(filepath.Join(dir, "replay.json"), b, 0o644)
	os.WriteFile(filepath.Join(dir, "README.txt"), []byte(fmt.Sprintf("property %s tier %s seed %d\n%s\n\n%s\n\nre-run: ./check.sh %s --replay %s\n",
		p.ID, tier, seed, msg, strings.Join(c.notes, "\n"), p.ID, filepath.Join(dir, "replay.json"))), 0o644)
	ents, _ := os.ReadDir(c.Dir)
	for _, e := range ents {
		if fi, err := e.Info(); err == nil && fi.Mode().IsRegular() && fi.Size() < 4<<20 {
			if d, err := os.ReadFile(filepath.Join(c.Dir, e.Name())); err == nil {
				os.WriteFile(filepath.Join(dir, e.Name()), d, 0o644)
			}
		}
	}
	return filepath.Join(dir, "replay.json")
}
