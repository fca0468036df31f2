// Command verifharness runs the monitors of /verif against the packages of
// /repo it was linked with. See /verif/DESIGN.md.
//
//	verifharness PROPERTY TIER SEED EVIDENCE JOURNAL REPLAYDIR [SUB:INDEX]
package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	_ "geGoMetry/glTF"
	_ "geGoMetry/meshing"
	_ "geGoMetry/predicates"
	_ "geGoMetry/r3"
	_ "geGoMetry/shape"
	_ "geGoMetry/step"
	_ "geGoMetry/triangulate2"
	_ "geGoMetry/triangulate3"
	_ "nurbs"
	"verifreg"
)

// check is one property's monitor set.
type check struct {
	id   string
	rule string
	run  func(*Ctx)
	// assumptions copied to the evidence file
	assume []string
}

var checks = map[string]*check{}

func register(id, rule string, run func(*Ctx), assume ...string) {
	checks[id] = &check{id: id, rule: rule, run: run, assume: assume}
}

// Ctx is the state of one run of one check.
type Ctx struct {
	ID, Tier   string
	Seed       uint64
	evals      int
	distinct   map[uint64]struct{}
	obs        map[string]int64
	subs       map[string]int
	samples    []interface{}
	sampleSubs map[string]int
	missing    []string
	viol       []violation
	known      []string
	replayDir  string
	onlySub    string
	onlyIndex  int
	journal    *os.File
	journalMu  sync.Mutex
	findings   []finding
	stop       bool
	muted      bool
}

type violation struct {
	Sub     string      `json:"sub_monitor"`
	Index   int         `json:"case"`
	Message string      `json:"message"`
	Input   interface{} `json:"input"`
	Path    string      `json:"-"`
}

type finding struct {
	Kind     string `json:"kind"` // "known" or "fixed"
	Property string `json:"property"`
	Match    string `json:"match"` // exact finding key
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

// Thorough reports whether the thorough tier runs.
func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// N picks the number of cases of a workload for the tier.
func (c *Ctx) N(quick, thorough int) int {
	if c.Thorough() {
		return thorough
	}
	return quick
}

// Obs adds to a counter of what the monitors observed.
func (c *Ctx) Obs(name string, n int) { c.obs[name] += int64(n) }

// ObsMax keeps the maximum of a measured quantity.
func (c *Ctx) ObsMax(name string, n int) {
	if c.obs[name] < int64(n) {
		c.obs[name] = int64(n)
	}
}

// Case is one generated case.
type Case struct {
	*rand.Rand
	c     *Ctx
	sub   string
	index int
	input interface{}
	fails int
	seen  bool
	big   bool // generators make large inputs
}

const maxViolations = 5

// caseStartCPU is the process CPU time (ns) when the current case started;
// the watchdog compares against it.
var caseStartCPU int64
var caseRunning int32
var caseBudgetCPU = int64(120) * 1e9 // CPU seconds for a case that costs milliseconds

func cpuNow() int64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return ru.Utime.Nano() + ru.Stime.Nano()
}

// Sub runs n cases of a sub-monitor. Every case has a random source derived
// from (seed, sub, index) alone, so that a single case can be replayed.
func (c *Ctx) Sub(sub string, n int, f func(*Case)) {
	for i := 0; i < n && !c.stop; i++ {
		if c.onlySub != "" && (c.onlySub != sub || c.onlyIndex != i) {
			continue
		}
		c.runCase(sub, i, f)
	}
}

func (c *Ctx) runCase(sub string, i int, f func(*Case)) {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%s/%d/%d", c.ID, sub, c.Seed, i)
	k := &Case{Rand: rand.New(rand.NewSource(int64(h.Sum64()))), c: c, sub: sub, index: i}
	c.writeJournal(sub, i, nil)
	atomic.StoreInt64(&caseStartCPU, cpuNow())
	atomic.StoreInt32(&caseRunning, 1)
	defer atomic.StoreInt32(&caseRunning, 0)
	c.evals++
	c.subs[sub]++
	defer func() {
		if p := recover(); p != nil {
			if s, ok := p.(harnessError); ok {
				panic(s)
			}
			k.fails++
			c.fail(k, fmt.Sprintf("panic: %v\n%s", p, trimStack(debug.Stack())))
		}
	}()
	f(k)
}

type harnessError string

func trimStack(b []byte) string {
	s := string(b)
	if i := strings.LastIndex(s, "panic("); i >= 0 {
		s = s[i:]
	}
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

// Input records the case's input (for replay files, samples and the journal).
func (k *Case) Input(v interface{}) {
	k.input = v
	if k.c.onlySub != "" {
		b, _ := json.Marshal(v)
		fmt.Fprintf(os.Stderr, "case %s:%d input %s\n", k.sub, k.index, clip(string(b), 4000))
	}
	if k.c.sampleSubs[k.sub] < 1 && len(k.c.samples) < 12 {
		b, err := json.Marshal(map[string]interface{}{"sub_monitor": k.sub, "case": k.index, "input": v})
		if err == nil && len(b) < 1500 {
			k.c.sampleSubs[k.sub]++
			k.c.samples = append(k.c.samples, json.RawMessage(b))
		}
	}
}

// Seen counts the case as distinct and non-trivial by its content, once.
func (k *Case) Seen(v ...interface{}) {
	if k.seen {
		return
	}
	k.seen = true
	h := fnv.New64a()
	fmt.Fprint(h, k.sub)
	for _, x := range v {
		fmt.Fprintf(h, "|%v", x)
	}
	k.c.distinct[h.Sum64()] = struct{}{}
}

// Fail reports a violation of the property by this case (once per case).
func (k *Case) Fail(format string, args ...interface{}) {
	k.fails++
	if k.fails > 1 {
		return
	}
	k.c.fail(k, fmt.Sprintf(format, args...))
}

// Failed tells whether the case already failed.
func (k *Case) Failed() bool { return k.fails > 0 }

func (c *Ctx) fail(k *Case, msg string) {
	if c.muted {
		return
	}
	for _, f := range c.findings {
		if f.Kind == "known" && f.Property == c.ID && f.Match != "" && f.Match == inputKey(k) {
			c.known = append(c.known, f.What)
			return
		}
	}
	v := violation{Sub: k.sub, Index: k.index, Message: msg, Input: k.input}
	os.MkdirAll(c.replayDir, 0o755)
	v.Path = filepath.Join(c.replayDir, fmt.Sprintf("%s-%s-%d.json", c.ID, sanitize(k.sub), k.index))
	b, err := json.MarshalIndent(map[string]interface{}{
		"property": c.ID, "tier": c.Tier, "seed": c.Seed, "sub_monitor": k.sub, "case": k.index,
		"message": msg, "input": k.input,
		"replay_cmd": fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s python3 /verif/check.py %s --case %s:%d", c.Seed, c.Tier, c.ID, k.sub, k.index),
	}, "", " ")
	if err != nil {
		b = []byte(fmt.Sprintf("{\"property\":%q,\"sub_monitor\":%q,\"case\":%d,\"message\":%q}", c.ID, k.sub, k.index, msg))
	}
	os.WriteFile(v.Path, b, 0o644)
	c.viol = append(c.viol, v)
	fmt.Fprintf(realOut, "VIOLATION property=%s replay=%s\n", c.ID, v.Path)
	fmt.Fprintf(realOut, "  %s case %d: %s\n", k.sub, k.index, clip(firstLines(msg, 6), 900))
	if len(c.viol) >= maxViolations {
		c.stop = true
	}
}

// inputKey is the exact identity of a failing input.
func inputKey(k *Case) string {
	b, _ := json.Marshal(k.input)
	return k.sub + "|" + string(b)
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r == '/' || r == ' ' {
			return '_'
		}
		return r
	}, s)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n    ")
}

func (c *Ctx) writeJournal(sub string, i int, v interface{}) {
	if c.journal == nil {
		return
	}
	s := fmt.Sprintf("%s:%d", sub, i)
	if len(s) < 200 {
		s += strings.Repeat(" ", 200-len(s))
	}
	c.journal.WriteAt([]byte(s), 0)
}

// Missing records a sub-monitor that cannot run because the code under test
// no longer has the internal function it binds to: inconclusive, not a verdict.
func (c *Ctx) Missing(name string) { c.missing = append(c.missing, name) }

// lookup fetches an internal function; ok is false when it is not there or
// has another type.
func lookup[T any](c *Ctx, name string) (T, bool) {
	f, ok := verifreg.F[name].(T)
	if !ok {
		c.Missing(name)
	}
	return f, ok
}

// catch runs f and returns what it panicked with, nil if it did not.
func catch(f func()) (p interface{}) {
	defer func() { p = recover() }()
	f()
	return nil
}

var realOut *os.File

func main() {
	if len(os.Args) < 7 {
		fmt.Fprintln(os.Stderr, "usage: verifharness PROPERTY TIER SEED EVIDENCE JOURNAL REPLAYDIR FINDINGS [SUB:INDEX]")
		os.Exit(2)
	}
	args := os.Args
	os.Args = os.Args[:1] // the code under test calls flag.Parse
	realOut = os.Stdout
	devnull, err := os.OpenFile("/dev/null", os.O_RDWR, 0)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	os.Stdout = devnull
	ch := checks[args[1]]
	if ch == nil {
		fmt.Fprintln(os.Stderr, "no such check", args[1])
		os.Exit(2)
	}
	seed, err := strconv.ParseUint(args[3], 10, 64)
	if err != nil {
		hs := fnv.New64a()
		hs.Write([]byte(args[3]))
		seed = hs.Sum64()
	}
	c := &Ctx{ID: ch.id, Tier: args[2], Seed: seed, distinct: map[uint64]struct{}{}, obs: map[string]int64{},
		subs: map[string]int{}, sampleSubs: map[string]int{}, replayDir: args[6]}
	if args[5] != "" {
		c.journal, _ = os.Create(args[5])
	}
	if len(args) > 7 {
		if b, err := os.ReadFile(args[7]); err == nil {
			for _, line := range strings.Split(string(b), "\n") {
				if strings.TrimSpace(line) == "" {
					continue
				}
				var f finding
				if err := json.Unmarshal([]byte(line), &f); err == nil {
					c.findings = append(c.findings, f)
				}
			}
		}
	}
	if len(args) > 8 && args[8] != "" {
		j := strings.LastIndex(args[8], ":")
		c.onlySub = args[8][:j]
		c.onlyIndex, _ = strconv.Atoi(args[8][j+1:])
	}
	go watchdog()
	start := time.Now()
	ch.run(c)
	wall := time.Since(start).Seconds()

	seen := map[string]bool{}
	for _, k := range c.known {
		if !seen[k] {
			seen[k] = true
			fmt.Fprintf(realOut, "KNOWN-FINDING: property=%s %s\n", c.ID, k)
		}
	}
	sort.Strings(c.missing)
	if c.missing == nil {
		c.missing = []string{}
	}
	if ch.assume == nil {
		ch.assume = []string{}
	}
	coverage := map[string]interface{}{
		"evaluations":          c.evals,
		"distinct_nontrivial":  len(c.distinct),
		"rule":                 ch.rule,
		"samples":              c.samples,
		"sub_monitor_cases":    c.subs,
		"observed":             c.obs,
		"inconclusive_missing": c.missing,
		"cpu_s":                float64(cpuNow()) / 1e9,
	}
	ev := map[string]interface{}{
		"property": c.ID, "tier": c.Tier, "seed": c.Seed & 0x7fffffffffff, "level": "exploration",
		"coverage": coverage, "wall_s": wall, "violations": len(c.viol), "assumptions": ch.assume,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		os.Exit(2)
	}
	if err := os.WriteFile(args[4], append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		os.Exit(2)
	}
	fmt.Fprintf(realOut, "%s tier=%s seed=%d: %d cases, %d distinct non-trivial, %d violations, missing %v, %.1fs\n", c.ID, c.Tier, c.Seed,
		c.evals, len(c.distinct), len(c.viol), c.missing, wall)
	if len(c.viol) > 0 {
		os.Exit(1)
	}
	if len(c.distinct) == 0 && c.onlySub == "" {
		if len(c.missing) > 0 {
			fmt.Fprintf(realOut, "INCONCLUSIVE property=%s: the functions it binds to are gone: %v\n", c.ID, c.missing)
			os.Exit(0)
		}
		fmt.Fprintln(os.Stderr, "inconclusive: the monitors observed nothing")
		os.Exit(2)
	}
	os.Exit(0)
}

// watchdog ends the process when the running case exceeds its CPU budget or
// its memory budget (budgets are orders of magnitude above what any case
// needs and do not depend on the load of the machine), or when the process
// stops using the CPU altogether for a long time (a deadlock). The driver
// turns exit codes 97 (CPU), 98 (memory) and 96 (blocked) into a verdict.
func watchdog() {
	var lastCPU int64
	idle := 0
	for {
		time.Sleep(500 * time.Millisecond)
		if atomic.LoadInt32(&caseRunning) == 0 {
			idle = 0
			continue
		}
		cpu := cpuNow()
		if cpu-atomic.LoadInt64(&caseStartCPU) > caseBudgetCPU {
			dump("CPU budget exceeded")
			syscall.Exit(97)
		}
		if cpu-lastCPU < 20e6 { // under 4 percent of one core
			idle++
		} else {
			idle = 0
		}
		lastCPU = cpu
		if idle > 240 {
			dump("blocked")
			syscall.Exit(96)
		}
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > 6<<30 {
			dump("memory budget exceeded")
			syscall.Exit(98)
		}
	}
}

func dump(why string) {
	buf := make([]byte, 1<<14)
	n := runtime.Stack(buf, true)
	fmt.Fprintf(os.Stderr, "watchdog: %s\n%s\n", why, buf[:n])
}
