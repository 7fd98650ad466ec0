// Package main is the bounded model checker for the Go side of appendable.
// Every check drives the real packages of /repo (through their exported API)
// over an exhaustively enumerated, bounded space of behaviours and compares
// every one of them with a reference model.
package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"log/slog"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// ---------------------------------------------------------------- context

type violation struct {
	Key   string `json:"key"`
	What  string `json:"what"`
	Case  any    `json:"case"`
	Stack string `json:"stack,omitempty"`
}

const shardN = 64

type Ctx struct {
	ID       string
	Thorough bool
	Seed     int64
	start    time.Time
	deadline time.Time
	dir      string // scratch directory of this run

	trans, traces, evals atomic.Int64
	nontriv              atomic.Int64
	tick                 atomic.Int64
	cur                  sync.Map // worker id -> description of current case
	shards               [shardN]struct {
		sync.Mutex
		m map[uint64]struct{}
	}
	mu      sync.Mutex
	viol    map[string]violation
	nviol   int64
	samples []any
	rule    string
	capped  []string
	extra   map[string]any
	assume  []string
	level   string
	workers int
}

// H64 hashes anything printable to a state fingerprint.
func H64(parts ...any) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		switch v := p.(type) {
		case []byte:
			h.Write(v)
		case string:
			io.WriteString(h, v)
		default:
			fmt.Fprint(h, v)
		}
		h.Write([]byte{0xff})
	}
	return h.Sum64()
}

// State records a distinct reached state; reports whether it is new.
func (c *Ctx) State(h uint64) bool {
	s := &c.shards[h%shardN]
	s.Lock()
	defer s.Unlock()
	if s.m == nil {
		s.m = make(map[uint64]struct{})
	}
	if _, ok := s.m[h]; ok {
		return false
	}
	s.m[h] = struct{}{}
	return true
}

func (c *Ctx) states() int64 {
	var n int64
	for i := range c.shards {
		c.shards[i].Lock()
		n += int64(len(c.shards[i].m))
		c.shards[i].Unlock()
	}
	return n
}

func (c *Ctx) Trans(n int) { c.trans.Add(int64(n)); c.tick.Add(1) }
func (c *Ctx) Trace(n int) { c.traces.Add(int64(n)); c.tick.Add(1) }
func (c *Ctx) Sample(v any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.samples) < 6 {
		c.samples = append(c.samples, v)
	}
}
func (c *Ctx) Note(k string, v any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.extra[k] = v
}
func (c *Ctx) Add(k string, n int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	o, _ := c.extra[k].(int)
	c.extra[k] = o + n
}

// Most records the largest value seen.
func (c *Ctx) Most(k string, n int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if o, _ := c.extra[k].(int); n > o {
		c.extra[k] = n
	}
}
func (c *Ctx) Assume(s ...string) { c.assume = append(c.assume, s...) }

// Expired reports whether the internal deadline has passed; the remaining
// space is then skipped and the run reported as not exhaustive.
func (c *Ctx) Expired(where string) bool {
	if time.Now().Before(c.deadline) {
		return false
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, s := range c.capped {
		if s == where {
			return true
		}
	}
	c.capped = append(c.capped, where)
	return true
}

// Violate records a violation. key identifies the kind of failing case (it is
// what the known-findings file lists); the first case per key is kept.
func (c *Ctx) Violate(key, what string, cs any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.count(key)
	if _, ok := c.viol[key]; !ok && len(c.viol) < 200 {
		c.viol[key] = violation{Key: key, What: what, Case: cs}
	}
}

func (c *Ctx) Violf(key string, cs any, f string, a ...any) { c.Violate(key, fmt.Sprintf(f, a...), cs) }

// tooMany lets long explorations stop early once the verdict is settled.
func (c *Ctx) tooMany() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.nviol > 2000
}

// firstOnly (VERIF_FIRST=1) ends a run at its first violation which is not a
// known finding: enough to tell whether a change is noticed at all, for trying
// many of them. The registered commands run without it.
var firstOnly = os.Getenv("VERIF_FIRST") != ""

// count counts a violation (the lock is held).
func (c *Ctx) count(key string) {
	c.nviol++
	if firstOnly {
		if _, ok := knownKeys(c.ID)[key]; !ok {
			go func() {
				code := c.finish()
				os.RemoveAll(c.dir)
				os.Exit(code)
			}()
		}
	}
}

type budgetPanic struct{ what string }

// Guard runs f, turning a panic of the code under test into a violation with
// the given key. It reports whether f completed.
func (c *Ctx) Guard(key string, cs any, f func()) (ok bool) {
	c.tick.Add(1)
	defer func() {
		if r := recover(); r != nil {
			if b, isB := r.(budgetPanic); isB {
				c.Violf(key+":hang", cs, "operation does not terminate: %s", b.what)
			} else {
				c.mu.Lock()
				c.count(key + ":panic")
				if _, have := c.viol[key+":panic"]; !have && len(c.viol) < 200 {
					c.viol[key+":panic"] = violation{Key: key + ":panic", What: fmt.Sprintf("crash: %v", r), Case: cs, Stack: trimStack(debug.Stack())}
				}
				c.mu.Unlock()
			}
			ok = false
		}
	}()
	f()
	return true
}

// Catch runs f and returns a panic value (nil if none).
func Catch(f func()) (r any) {
	defer func() {
		if x := recover(); x != nil {
			r = x
		}
	}()
	f()
	return nil
}

func trimStack(b []byte) string {
	s := string(b)
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

// job runs one job; a crash outside any guarded case is recorded as well.
func (c *Ctx) job(i int, f func(i int)) {
	defer func() {
		if r := recover(); r != nil {
			c.Violate("crash", fmt.Sprintf("crash in job %d: %v", i, r), trimStack(debug.Stack()))
		}
	}()
	f(i)
}

// Par distributes n independent jobs over the workers.
func (c *Ctx) Par(n int, f func(i int)) {
	var next atomic.Int64
	var wg sync.WaitGroup
	w := c.workers
	if w > n {
		w = n
	}
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			debug.SetPanicOnFault(true)
			for {
				i := int(next.Add(1) - 1)
				if i >= n || c.tooMany() {
					return
				}
				if c.Expired("jobs") {
					return
				}
				c.job(i, f)
				c.tick.Add(1)
			}
		}()
	}
	wg.Wait()
}

// Bound picks the quick or the thorough value of a bound.
func (c *Ctx) Bound(quick, thorough int) int {
	if c.Thorough {
		return thorough
	}
	return quick
}

// ---------------------------------------------------------------- registry

type checkFn struct {
	level string
	fn    func(*Ctx)
}

var registry = map[string]checkFn{}

func register(id, level string, fn func(*Ctx)) { registry[id] = checkFn{level, fn} }

// ---------------------------------------------------------------- main

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func knownKeys(id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=<id> key=<key> <what fails>
		f := strings.Fields(l)
		if len(f) < 4 || f[0] != "known:" || f[1] != "property="+id || !strings.HasPrefix(f[2], "key=") {
			continue
		}
		out[strings.TrimPrefix(f[2], "key=")] = strings.Join(f[3:], " ")
	}
	return out
}

func main() {
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	if len(os.Args) < 2 {
		fmt.Println("usage: mc check ID | mc gen ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(runCheck(os.Args[2]))
	case "list":
		ids := []string{}
		for id := range registry {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
	case "gen":
		genMain(os.Args[2:])
	case "serve":
		serveMain(os.Args[2])
	default:
		os.Exit(2)
	}
}

func envInt(k string, d int) int {
	if n, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return n
	}
	return d
}

func runCheck(id string) int {
	cf, ok := registry[id]
	if !ok {
		fmt.Printf("no check %s\n", id)
		return 2
	}
	thorough := os.Getenv("VERIF_TIER") == "thorough"
	c := &Ctx{ID: id, Thorough: thorough, Seed: int64(envInt("VERIF_SEED", 1)), start: time.Now(),
		viol: map[string]violation{}, extra: map[string]any{}, level: cf.level, workers: runtime.NumCPU()}
	if w := envInt("VERIF_WORKERS", 0); w > 0 {
		c.workers = w
	}
	lim := 150
	if thorough {
		lim = 780
	}
	c.deadline = c.start.Add(time.Duration(envInt("VERIF_DEADLINE_S", lim)) * time.Second)
	debug.SetPanicOnFault(true)
	debug.SetMemoryLimit(12 << 30)

	dir, err := os.MkdirTemp("", "mc-"+id+"-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	c.dir = dir
	defer os.RemoveAll(dir)
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, syscall.SIGTERM, syscall.SIGINT)
	go func() { <-sig; os.RemoveAll(dir); os.Exit(2) }()

	// Watchdog: no progress for two minutes is a hang of the code under test;
	// runaway memory is reported likewise.
	go func() {
		last, since := int64(-1), time.Now()
		for {
			time.Sleep(500 * time.Millisecond)
			t := c.tick.Load()
			if t != last {
				last, since = t, time.Now()
			} else if time.Since(since) > 120*time.Second {
				buf := make([]byte, 1<<18)
				n := runtime.Stack(buf, true)
				c.Violate("hang", "no progress for 120 s", string(buf[:min(n, 8000)]))
				code := c.finish()
				os.RemoveAll(dir)
				os.Exit(code)
			}
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 14<<30 {
				c.Violate("memory", "memory use grows without bound (14 GB)", nil)
				code := c.finish()
				os.RemoveAll(dir)
				os.Exit(code)
			}
		}
	}()
	if p := Catch(func() { cf.fn(c) }); p != nil {
		// A crash outside any guarded case: still the code under test's doing
		// (the harness itself is deterministic and silent on the clean tree).
		c.Violate("crash", fmt.Sprintf("crash: %v", p), trimStack(debug.Stack()))
	}
	return c.finish()
}

var finishOnce sync.Mutex

func (c *Ctx) finish() int {
	finishOnce.Lock()
	defer finishOnce.Unlock()
	c.mu.Lock()
	defer c.mu.Unlock()
	known := knownKeys(c.ID)
	keys := []string{}
	for k := range c.viol {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	exit, fresh, printed := 0, 0, 0
	knownSeen := []string{}
	for _, k := range keys {
		v := c.viol[k]
		if what, ok := known[k]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, what)
			knownSeen = append(knownSeen, k)
			continue
		}
		exit = 1
		fresh++
		if printed < 5 {
			path := c.writeReplay(v)
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
			fmt.Printf("  %s: %s\n", v.Key, firstN(v.What, 600))
			printed++
		}
	}
	cov := map[string]any{}
	for k, v := range c.extra {
		cov[k] = v
	}
	if c.samples == nil {
		c.samples = []any{}
	}
	switch c.level {
	case "fault_enumeration", "exploration":
		cov["evaluations"] = c.evals.Load()
		cov["distinct_nontrivial"] = c.states()
		cov["rule"] = c.rule
		cov["storage_operations"] = c.trans.Load()
	default:
		cov["states"] = c.states()
		cov["transitions"] = c.trans.Load()
		cov["traces_validated_against_impl"] = c.traces.Load()
		if c.rule != "" {
			cov["rule"] = c.rule
		}
	}
	cov["samples"] = c.samples
	cov["exhaustive"] = len(c.capped) == 0 && fresh == 0
	if len(c.capped) > 0 {
		cov["capped_at_deadline"] = c.capped
	}
	if len(knownSeen) > 0 {
		cov["known_findings_seen"] = knownSeen
	}
	tier := "quick"
	if c.Thorough {
		tier = "thorough"
	}
	ev := map[string]any{"property": c.ID, "tier": tier, "seed": c.Seed, "level": c.level, "coverage": cov,
		"wall_s": float64(int(time.Since(c.start).Seconds()*100)) / 100, "violations": fresh, "assumptions": c.assume}
	if c.assume == nil {
		ev["assumptions"] = []string{}
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Println("evidence:", err)
		return 2
	}
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(verifDir(), "evidence", c.ID+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Println("evidence:", err)
		return 2
	}
	fmt.Printf("%s %s: states=%d transitions=%d traces=%d evals=%d new_violations=%d known=%d capped=%v %.1fs\n", c.ID, tier, c.states(),
		c.trans.Load(), c.traces.Load(), c.evals.Load(), fresh, len(knownSeen), c.capped, time.Since(c.start).Seconds())
	return exit
}

func firstN(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (c *Ctx) writeReplay(v violation) string {
	d := filepath.Join(verifDir(), "replays")
	os.MkdirAll(d, 0755)
	p := filepath.Join(d, fmt.Sprintf("%s-%016x.json", c.ID, H64(v.Key)))
	b, err := json.MarshalIndent(map[string]any{"property": c.ID, "key": v.Key, "what": v.What, "case": v.Case, "stack": v.Stack,
		"replay": "bash /verif/check.sh " + c.ID + "   # deterministic: re-explores and reports this key again"}, "", " ")
	if err != nil {
		b = []byte(fmt.Sprintf("%s\n%s\n%v\n", v.Key, v.What, v.Case))
	}
	os.WriteFile(p, b, 0644)
	return p
}
