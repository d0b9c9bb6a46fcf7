package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type workerResult struct {
	Evaluations int64            `json:"evaluations"`
	Events      int64            `json:"events"`
	Distinct    int64            `json:"distinct"`
	Skipped     int64            `json:"skipped"`
	Samples     []string         `json:"samples"`
	Units       map[string]int64 `json:"units"`
	Counters    map[string]int64 `json:"counters"`
	Violations  []replayFile     `json:"violations"`
}

// Run is the execution of one property's workload.
type Run struct {
	p        *property
	Tier     string
	Seed     int64
	Thorough bool
	deadline time.Time

	onlyUnit string
	onlyIdx  int

	mu         sync.Mutex
	evals      int64
	events     int64
	skipped    int64
	distinct   map[uint64]struct{}
	samples    []string
	units      map[string]int64
	counters   map[string]int64
	violations []replayFile
	perSig     map[string]int

	inflight sync.Map // key -> start time
}

func newRun(p *property, tier string, seed int64) *Run {
	r := &Run{p: p, Tier: tier, Seed: seed, Thorough: tier == "thorough", distinct: map[uint64]struct{}{},
		units: map[string]int64{}, counters: map[string]int64{}, perSig: map[string]int{}}
	budget := 420 * time.Second
	if r.Thorough {
		budget = 3000 * time.Second
	}
	r.deadline = time.Now().Add(budget)
	return r
}

func cmdWorker(args []string) int {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	pid := fs.String("p", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Int64("seed", 1, "")
	out := fs.String("out", "", "")
	fs.Parse(args)
	p := properties[*pid]
	debug.SetGCPercent(200)
	r := newRun(p, *tier, *seed)
	go r.watchdog()
	p.run(r)
	res := r.result()
	data, err := json.Marshal(res)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	if err := os.WriteFile(*out, data, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	return 0
}

// watchdog turns a call that never returns into a report instead of a check without an answer.
// Cases normally take well under two seconds.
func (r *Run) watchdog() {
	for {
		time.Sleep(2 * time.Second)
		now := time.Now()
		r.inflight.Range(func(k, v interface{}) bool {
			if now.Sub(v.(time.Time)) > 300*time.Second {
				buf := make([]byte, 1<<20)
				n := runtime.Stack(buf, true)
				fmt.Fprintf(os.Stderr, "VERIF-WATCHDOG case %v did not end within 300 s\n%s\n", k, buf[:n])
				os.Exit(4)
			}
			return true
		})
	}
}

func (r *Run) result() workerResult {
	r.mu.Lock()
	defer r.mu.Unlock()
	return workerResult{Evaluations: r.evals, Events: atomic.LoadInt64(&r.events), Distinct: int64(len(r.distinct)), Skipped: r.skipped,
		Samples: r.samples, Units: r.units, Counters: r.counters, Violations: r.violations}
}

// quickFactor scales the quick case counts of the cheap properties to about ten seconds.
var quickFactor = map[string]int{"R01": 15, "R02": 20, "R03": 8, "R04": 8, "R05": 40, "R06": 30, "R07": 60, "R08": 3, "R09": 60, "R10": 12,
	"B01": 60, "B02": 8, "S01": 6, "S02": 10, "K01": 5, "K02": 3, "K03": 3, "K04": 16}

// Case is one generated case: its own random source, description and monitors.
type Case struct {
	r        *Run
	R        *rand.Rand
	Unit     string
	Idx      int
	Large    bool // generators draw ring degrees of realistic sizes
	desc     []string
	largeMin int
	largeMax int
	feat     []string
	fail     bool

	fresh map[uint64]string           // randomness seen in this case (see freshRow)
	held  map[interface{}]*heldResult // results which must not change any more (see hold.go)
}

type abortCase struct{}

// largeUnits are the units which are run again with ring degrees of the sizes applications use: a defect of, say, one of many
// parallel workers, an unrolled loop or a 32-bit product may need more coefficients than the small degrees of the main units.
var largeUnits = map[string]int{
	"R02/coeffwise": 200, "R02/scalar": 60,
	"R03/evaluation": 8, "R03/roundtrip": 60, "R03/product": 16,
	"R05/automorphism": 60, "R05/automorphism-ci": 30, "R05/monomial-shift": 30, "R05/fold-unfold": 30,
	"R06/modup": 40, "R06/moddown": 40, "R06/decompose": 40,
	"R07/rescale": 60, "R07/scaler": 20,
	"R08/support": 30,
	"S01/binary":  30,
	"K01/secret":  30, "K01/public": 30, "K01/switching": 16,
	"K02/encrypt": 40, "K02/decrypt": 10,
	"K03/switch": 24, "K04/map": 24, "K04/degree-keys": 8, "K04/ring-swap-keys": 8,
	"F01/keys": 3, "F01/switch": 12, "F02/operate": 12,
	"C01/encode": 24, "C01/decode": 24, "C01/coeffs": 24, "C01/public": 12, "C01/big": 4, "C01/transforms": 12,
	"C02/add": 24, "C02/multiply": 12, "C02/constants": 24, "C02/integers": 24, "C02/mixed": 24,
	"C03/rescale": 16, "C04/switch": 16,
	"E01/equality": 24, "E01/copies": 24, "E01/allocation": 24,
	"H01/standard": 24, "H01/fast": 12,
}

// hugeUnits are run once more with the largest ring degrees, where their oracle is fast enough.
var hugeUnits = map[string]int{
	"R02/coeffwise": 24, "R02/scalar": 24, "R03/roundtrip": 16, "R03/product": 4, "R05/automorphism": 24, "R05/automorphism-ci": 12, "R05/monomial-shift": 24, "R05/fold-unfold": 8,
	"R06/modup": 12, "R06/moddown": 12, "R06/decompose": 12, "R07/rescale": 24, "R07/scaler": 12, "R08/support": 16,
	"S01/binary": 8, "K01/secret": 4, "K01/public": 4, "K01/switching": 2, "K02/encrypt": 4, "K03/switch": 2, "K04/map": 16,
	"F01/switch": 4, "F02/operate": 3, "C02/add": 8, "C02/multiply": 2, "C02/constants": 12, "C02/integers": 12, "C03/rescale": 8, "C04/switch": 2,
	"E01/equality": 6, "E01/copies": 8, "H01/standard": 6, "H01/fast": 6,
}

// logN draws a ring degree between the two, or one of realistic size.
func (c *Case) logN(min, max int) int {
	if c.Large {
		return c.largeMin + c.R.Intn(c.largeMax-c.largeMin+1)
	}
	return min + c.R.Intn(max-min+1)
}

// Cases runs fn on n generated cases (quick, thorough counts) over all cores.
func (r *Run) Cases(unit string, quick, thorough int, fn func(c *Case)) {
	n := quick
	if f, ok := quickFactor[r.p.id]; ok {
		n *= f
	}
	r.cases(unit, n, thorough, runtime.GOMAXPROCS(0), fn)
	if l, ok := largeUnits[r.p.id+"/"+unit]; ok {
		r.cases(unit+"-realistic", l, 15*l, runtime.GOMAXPROCS(0), func(c *Case) {
			c.Large, c.largeMin, c.largeMax = true, 9, 13
			fn(c)
		})
	}
	if l, ok := hugeUnits[r.p.id+"/"+unit]; ok {
		r.cases(unit+"-largest", l, 15*l, runtime.GOMAXPROCS(0), func(c *Case) {
			c.Large, c.largeMin, c.largeMax = true, 14, 16
			if strings.HasPrefix(r.p.id, "K0") && unit != "map" || r.p.id == "C04" || r.p.id[0] == 'F' || unit == "multiply" { // products in the oracle
				c.largeMax = 14
			}
			fn(c)
		})
	}
}

// Serial runs the cases one at a time (for workloads which are themselves parallel).
func (r *Run) Serial(unit string, quick, thorough int, fn func(c *Case)) {
	r.cases(unit, quick, thorough, 1, fn)
}

func (r *Run) cases(unit string, quick, thorough, workers int, fn func(c *Case)) {
	n := quick
	if r.Thorough {
		n = maxInt(thorough, n)
	}
	if f, err := strconv.ParseFloat(os.Getenv("VERIF_SCALE"), 64); err == nil && f > 0 { // tools/mutate: a shorter run
		n = maxInt(1, int(float64(n)*f))
	}
	if r.onlyUnit != "" {
		if r.onlyUnit == unit {
			r.one(unit, r.onlyIdx, fn)
		}
		return
	}
	var next int64 = -1
	var wg sync.WaitGroup
	if os.Getenv("VERIF_TIMING") != "" {
		t0 := time.Now()
		defer func() { fmt.Fprintf(os.Stdout, "  unit %-32s n=%-6d %.2fs\n", unit, n, time.Since(t0).Seconds()) }()
	}
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n {
					return
				}
				if time.Now().After(r.deadline) {
					r.mu.Lock()
					r.skipped++
					r.mu.Unlock()
					continue
				}
				r.one(unit, i, fn)
			}
		}()
	}
	wg.Wait()
}

func hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func (r *Run) one(unit string, idx int, fn func(c *Case)) {
	seed := hash64(fmt.Sprintf("%d/%s/%s/%d", r.Seed, r.p.id, unit, idx))
	c := &Case{r: r, R: rand.New(rand.NewSource(int64(seed))), Unit: unit, Idx: idx}
	key := fmt.Sprintf("%s#%d", unit, idx)
	r.inflight.Store(key, time.Now())
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(abortCase); ok {
					return
				}
				st := string(debug.Stack())
				c.report("panic:"+panicSite(st), fmt.Sprintf("panic: %v", e), st)
			}
		}()
		fn(c)
		c.checkHeld()
	}()
	r.inflight.Delete(key)
	r.mu.Lock()
	defer r.mu.Unlock()
	r.evals++
	r.units[unit]++
	if len(c.feat) > 0 {
		sort.Strings(c.feat)
		r.distinct[hash64(unit+"|"+strings.Join(c.feat, "|"))] = struct{}{}
	}
	if idx == 0 && len(r.samples) < 40 {
		r.samples = append(r.samples, fmt.Sprintf("%s#%d: %s", unit, idx, truncate(strings.Join(c.desc, " "), 600)))
	}
}

func truncate(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// panicSite names the innermost fast-ksw function on the stack of a recovered panic.
func panicSite(st string) string {
	lines := strings.Split(st, "\n")
	seenPanic := false
	for _, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			seenPanic = true
			continue
		}
		if seenPanic && strings.HasPrefix(l, "fast-ksw/") {
			if i := strings.LastIndexByte(l, '('); i > 0 {
				l = l[:i]
			}
			return l
		}
	}
	return "harness"
}

// Desc adds to the human-readable description of the case (sample and replay).
func (c *Case) Desc(format string, a ...interface{}) {
	c.desc = append(c.desc, fmt.Sprintf(format, a...))
}

// Feature records what makes this case distinct; a case without a feature counts as trivial.
func (c *Case) Feature(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	c.feat = append(c.feat, s)
	c.desc = append(c.desc, s)
}

// Event counts oracle comparisons.
func (c *Case) Event(n int) { atomic.AddInt64(&c.r.events, int64(n)) }

// Count adds to a named counter of the evidence.
func (c *Case) Count(name string, n int) {
	c.r.mu.Lock()
	c.r.counters[name] += int64(n)
	c.r.mu.Unlock()
}

// Max keeps the maximum of a named counter.
func (c *Case) Max(name string, n int64) {
	c.r.mu.Lock()
	if n > c.r.counters[name] {
		c.r.counters[name] = n
	}
	c.r.mu.Unlock()
}

func (c *Case) report(sig, msg, stack string) {
	c.fail = true
	r := c.r
	r.mu.Lock()
	defer r.mu.Unlock()
	if os.Getenv("VERIF_FIRST") != "" { // tools/mutate: the first violation is enough
		fmt.Fprintln(os.Stderr, "violation:", c.Unit, sig, msg)
		os.Exit(9)
	}
	k := c.Unit + "/" + sig
	r.perSig[k]++
	if r.perSig[k] > 3 || len(r.violations) > 200 {
		return
	}
	r.violations = append(r.violations, replayFile{Property: r.p.id, Tier: r.Tier, Seed: r.Seed, Unit: c.Unit, Index: c.Idx,
		Sig: sig, Message: truncate(msg, 2000), Case: truncate(strings.Join(c.desc, " "), 4000), Stack: truncate(stack, 8000)})
}

// Fail records a violation; the case goes on.
func (c *Case) Fail(sig, format string, a ...interface{}) {
	c.report(sig, fmt.Sprintf(format, a...), "")
}

// Fatal records a violation and ends the case.
func (c *Case) Fatal(sig, format string, a ...interface{}) {
	c.report(sig, fmt.Sprintf(format, a...), "")
	panic(abortCase{})
}

// Check counts one comparison and records a violation when it is false.
func (c *Case) Check(ok bool, sig, format string, a ...interface{}) bool {
	c.Event(1)
	if !ok {
		c.Fail(sig, format, a...)
	}
	return ok
}

// Try runs fn and says whether it panicked.
func (c *Case) Try(fn func()) (panicked bool, val interface{}, stack string) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(abortCase); ok {
				panic(e)
			}
			panicked, val, stack = true, e, string(debug.Stack())
		}
	}()
	fn()
	return
}
