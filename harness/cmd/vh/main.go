// Command vh runs the real library under generated workloads and checks what
// it observes. One invocation runs a range of cases of one property; check.py
// builds it from the current working tree, starts several of them (with and
// without the race detector, at different GOMAXPROCS values) and merges the
// results.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/exascience/pargo/verifhook"
)

// A prop is the workload and oracle of one property.
type prop struct {
	pkgs string // packages whose sites are candidates for stalls, space separated
	run  func(c *ctx)
	// light: most cases run undisturbed, the schedule matters little
	light bool
	scale int // the library's loops are long: perturb so many times less often
}

var props = map[string]*prop{}

// ctx is one case.
type ctx struct {
	*rand.Rand
	prop string
	i    int
	race bool
	deep bool

	up *ctx // failures are reported there

	mu       sync.Mutex
	failures []string
	skipped  string // reason why this case was inconclusive

	obs  map[string]int64
	sig  uint64
	nont bool
	desc string
	// hangMsg explains what it means if this case stops making progress
	hangMsg         string
	noDeadlockCheck bool
	zero            ival // see zeroPart
	stall           int  // the site at which goroutines are delayed, or -1
}

// Fail records a violation of the property.
func (c *ctx) Fail(format string, args ...interface{}) {
	if c.up != nil {
		c.up.Fail(format, args...)
		return
	}
	c.mu.Lock()
	if len(c.failures) < 8 {
		s := fmt.Sprintf(format, args...)
		if len(s) > 3000 {
			s = s[:3000] + "..."
		}
		c.failures = append(c.failures, s)
	}
	c.mu.Unlock()
}

// fork returns a context for a goroutine of the case: random values of its own.
func (c *ctx) fork() *ctx {
	return &ctx{Rand: newRand(c.Uint64()), prop: c.prop, i: c.i, race: c.race, deep: c.deep, up: c}
}

func (c *ctx) failed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.failures) > 0
}

// Skip marks the case as inconclusive.
func (c *ctx) Skip(format string, args ...interface{}) {
	c.mu.Lock()
	c.skipped = fmt.Sprintf(format, args...)
	c.mu.Unlock()
}

// Obs counts something that was observed. Only the case's own goroutine may
// call it.
func (c *ctx) Obs(what string, n int) { c.obs[what] += int64(n) }

// Max keeps the maximum of something observed.
func (c *ctx) Max(what string, n int) {
	if c.obs["max:"+what] < int64(n) {
		c.obs["max:"+what] = int64(n)
	}
}

// Describe names the case for samples and reports.
func (c *ctx) Describe(format string, args ...interface{}) {
	s := fmt.Sprintf(format, args...)
	c.mu.Lock()
	c.desc = s
	c.mu.Unlock()
}

// Hang explains what it means if the case stops making progress.
func (c *ctx) Hang(format string, args ...interface{}) {
	s := fmt.Sprintf(format, args...)
	c.mu.Lock()
	c.hangMsg = s
	c.mu.Unlock()
}

// Nontrivial says that the case exercised its property in earnest. Cases with
// equal signatures are counted once.
func (c *ctx) Nontrivial(sig ...interface{}) {
	h := fnv.New64a()
	fmt.Fprintln(h, sig...)
	c.sig, c.nont = c.sig*31+h.Sum64(), true
}

// chance returns true with probability 1/n.
func (c *ctx) chance(n int) bool { return c.IntN(n) == 0 }

// between returns a number in [lo,hi].
func (c *ctx) between(lo, hi int) int { return lo + c.IntN(hi-lo+1) }

type violation struct {
	Case   int      `json:"case"`
	Desc   string   `json:"desc"`
	Msgs   []string `json:"msgs"`
	Stacks string   `json:"stacks,omitempty"`
	Replay string   `json:"replay"`
	Stall  int      `json:"stall"`
}

type result struct {
	Prop          string           `json:"prop"`
	Cases         int              `json:"cases"`
	Distinct      []uint64         `json:"distinct"`
	Nontrivial    int              `json:"nontrivial"`
	Obs           map[string]int64 `json:"obs"`
	Violations    []violation      `json:"violations"`
	Inconclusive  []string         `json:"inconclusive"`
	Samples       []string         `json:"samples"`
	Sites         int              `json:"sites"`
	SitesReached  []int            `json:"sites_reached"`
	Perturbations uint64           `json:"perturbations"`
	Done          bool             `json:"done"`
	Next          int              `json:"next"`
	WallS         float64          `json:"wall_s"`
}

type site struct {
	ID   int    `json:"id"`
	Pos  string `json:"pos"`
	Func string `json:"func"`
}

var (
	flagProp  = flag.String("prop", "", "property")
	flagSeed  = flag.Uint64("seed", 1, "seed")
	flagFrom  = flag.Int("from", 0, "first case")
	flagTo    = flag.Int("to", 1, "one past the last case")
	flagStep  = flag.Int("step", 1, "case increment")
	flagOut   = flag.String("out", "", "result file")
	flagProg  = flag.String("progress", "", "progress file")
	flagSites = flag.String("sites", "", "sites.json")
	flagRace  = flag.Bool("race", false, "this is a race detector build")
	flagDeep  = flag.Bool("deep", false, "thorough tier")
	flagStall = flag.Int("stall", -1, "site to stall at, for replays")
	flagMax   = flag.Int("maxviolations", 3, "stop after so many")
	flagV     = flag.Bool("v", false, "print cases")
	baseProcs int
)

var allSites []site

func main() {
	flag.Parse()
	p := props[*flagProp]
	if p == nil {
		fmt.Fprintln(os.Stderr, "vh: unknown property", *flagProp)
		os.Exit(2)
	}
	baseProcs = runtime.GOMAXPROCS(0)
	debug.SetMaxStack(256 << 20)
	debug.SetGCPercent(200)
	var sites []int
	if *flagSites != "" {
		b, err := os.ReadFile(*flagSites)
		if err == nil {
			json.Unmarshal(b, &allSites)
		}
		for _, s := range allSites {
			for _, pk := range strings.Fields(p.pkgs) {
				pk, fn, _ := strings.Cut(pk, ":")
				if strings.HasPrefix(s.Pos, pk+"/") && (fn == "" || s.Func == fn) {
					sites = append(sites, s.ID)
				}
			}
		}
	}
	res := &result{Prop: *flagProp, Obs: map[string]int64{}, Sites: len(sites)}
	distinct := map[uint64]bool{}
	var progress *os.File
	if *flagProg != "" {
		progress, _ = os.Create(*flagProg)
	}
	start := time.Now()
	finish := func() {
		for s := range distinct {
			res.Distinct = append(res.Distinct, s)
		}
		reached := 0
		for _, id := range sites {
			if verifhook.Reached(id) {
				reached++
				res.SitesReached = append(res.SitesReached, id)
			}
		}
		_, res.Perturbations = verifhook.Hits(0)
		res.WallS = time.Since(start).Seconds()
		b, err := json.Marshal(res)
		if err != nil {
			fmt.Fprintln(os.Stderr, "vh:", err)
			os.Exit(2)
		}
		if *flagOut == "" || *flagV {
			for _, v := range res.Violations {
				fmt.Printf("VIOLATED %s: %s\n", v.Replay, v.Desc)
				for _, m := range v.Msgs {
					fmt.Println("   ", m)
				}
				fmt.Println(v.Stacks)
			}
			fmt.Printf("%d cases, %d nontrivial, %d distinct, %d violations, %d inconclusive, sites %d/%d, %.1fs\n", res.Cases, res.Nontrivial, len(distinct), len(res.Violations), len(res.Inconclusive), reached, len(sites), res.WallS)
			for _, s := range res.Inconclusive {
				fmt.Println("inconclusive:", s)
			}
			var keys []string
			for k := range res.Obs {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			for _, k := range keys {
				fmt.Printf("   %-50s %d\n", k, res.Obs[k])
			}
		}
		if *flagOut != "" {
			if err := os.WriteFile(*flagOut, b, 0o644); err != nil {
				fmt.Fprintln(os.Stderr, "vh:", err)
				os.Exit(2)
			}
		}
	}
	for i := *flagFrom; i < *flagTo; i += *flagStep {
		if progress != nil {
			progress.WriteAt([]byte(fmt.Sprintf("%10d", i)), 0)
		}
		res.Next = i + *flagStep
		h := fnv.New64a()
		fmt.Fprintf(h, "%s/%d", *flagProp, i)
		c := &ctx{Rand: rand.New(rand.NewPCG(*flagSeed, h.Sum64())), prop: *flagProp, i: i, race: *flagRace, deep: *flagDeep, obs: map[string]int64{}, stall: -1}
		perturb(c, sites)
		verdict, stacks := runCase(c, p)
		verifhook.Set(verifhook.Off, 1, 0, 0, 0)
		if runtime.GOMAXPROCS(0) != baseProcs {
			runtime.GOMAXPROCS(baseProcs)
		}
		res.Cases++
		c.mu.Lock()
		obs := c.obs
		if verdict != "" {
			obs = nil // the case is still running
		}
		for k, n := range obs {
			if strings.HasPrefix(k, "max:") {
				if res.Obs[k] < n {
					res.Obs[k] = n
				}
			} else {
				res.Obs[k] += n
			}
		}
		if verdict == "" && c.nont {
			res.Nontrivial++
			distinct[c.sig] = true
			if len(res.Samples) < 3 || (len(res.Samples) < 6 && c.chance(20)) {
				if c.desc != "" {
					res.Samples = append(res.Samples, fmt.Sprintf("case %d: %s", i, c.desc))
				}
			}
		}
		if c.skipped != "" && len(res.Inconclusive) < 20 {
			res.Inconclusive = append(res.Inconclusive, fmt.Sprintf("case %d: %s (%s)", i, c.skipped, c.desc))
		}
		fails, desc := c.failures, c.desc
		c.mu.Unlock()
		if *flagV {
			fmt.Fprintln(os.Stderr, i, desc, fails, verdict)
		}
		replay := fmt.Sprintf("-prop %s -seed %d -from %d -to %d", *flagProp, *flagSeed, i, i+1)
		switch verdict {
		case "":
		case "inconclusive":
			res.Inconclusive = append(res.Inconclusive, fmt.Sprintf("case %d: no result (%s)", i, desc))
		default:
			fails = append(fails, verdict)
		}
		if len(fails) > 0 {
			res.Violations = append(res.Violations, violation{i, desc, fails, stacks, replay, c.stall})
		}
		if verdict != "" {
			// the process is stuck: the parent starts a new one for the rest
			finish()
			os.Exit(0)
		}
		if len(res.Violations) >= *flagMax {
			break
		}
	}
	res.Done = true
	finish()
}

// perturb selects how the schedule of this case is disturbed.
func perturb(c *ctx, sites []int) {
	if len(sites) == 0 {
		return
	}
	if p := props[c.prop]; p.light && c.i%8 != 1 {
		return
	}
	switch c.i % 4 {
	case 0:
		verifhook.Set(verifhook.Off, 1, 0, 0, 0)
	case 1:
		verifhook.Set(verifhook.Random, (2+c.IntN(40))*max(props[c.prop].scale, 1), 0, 0, 2000)
	default:
		// walk systematically over all sites reached so far, in an order that
		// depends on the seed
		if walked%32 == 0 {
			candidates = candidates[:0]
			for _, s := range sites {
				if verifhook.Reached(s) {
					candidates = append(candidates, s)
				}
			}
		}
		walked++
		from := candidates
		if len(from) == 0 {
			from = sites
		}
		k := (c.i/4*2 + c.i%4 - 2)
		s := from[(k*7919+int(*flagSeed%1000)*31)%len(from)]
		if *flagStall >= 0 {
			s = *flagStall
		}
		c.stall = s
		density := pick([]int{1, 1, 5, 40}, c.IntN(4))
		verifhook.Set(verifhook.Stall, density, s, int64(100_000)<<c.IntN(5), 40)
	}
}

var (
	candidates []int
	walked     int
)

func cpuSeconds() float64 {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return float64(u.Utime.Sec+u.Stime.Sec) + float64(u.Utime.Usec+u.Stime.Usec)/1e6
}

const (
	cpuLimit  = 150.0   // CPU seconds for one case that takes a fraction of a second
	wallLimit = 240.0   // then the case is given up as inconclusive
	memLimit  = 5 << 28 // bytes
	gorLimit  = 1 << 20 // goroutines at the same time
)

// runCase runs the case in its own goroutine and watches it. It returns "" if
// the case ended, else a verdict and the stacks of all goroutines.
func runCase(c *ctx, p *prop) (verdict, stacks string) {
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if r := recover(); r != nil {
				c.Fail("unexpected panic in the calling goroutine: %.1500s\n%s", fmt.Sprint(r), debug.Stack())
			}
		}()
		p.run(c)
	}()
	start, cpu := time.Now(), cpuSeconds()
	wait := 50 * time.Millisecond
	t := time.NewTimer(wait)
	defer t.Stop()
	sample := []metrics.Sample{{Name: "/memory/classes/total:bytes"}}
	looks := 0
	for {
		select {
		case <-done:
			return "", ""
		case <-t.C:
		}
		select {
		case <-done:
			return "", ""
		default:
		}
		metrics.Read(sample)
		if sample[0].Value.Kind() == metrics.KindUint64 && sample[0].Value.Uint64() > memLimit {
			return fmt.Sprintf("runaway memory: %d bytes in a small case", sample[0].Value.Uint64()), ""
		}
		n := runtime.NumGoroutine()
		if n > gorLimit {
			return fmt.Sprintf("runaway goroutines: %d in a small case", n), ""
		}
		if looks++; n < 100000 && !c.noDeadlockCheck && (looks&(looks-1) == 0 || looks%8 == 0) {
			if s, dead := deadlocked(); dead {
				select {
				case <-done: // ended just before the snapshot
					return "", ""
				default:
				}
				c.mu.Lock()
				m := c.hangMsg
				c.mu.Unlock()
				if m == "" {
					m = "the call never returns"
				}
				return "deadlock: every goroutine is blocked for good; " + m, s
			}
		}
		if used := cpuSeconds() - cpu; used > cpuLimit {
			return fmt.Sprintf("no end: %.0f CPU seconds spent on a case that needs a fraction of one", used), allStacks()
		}
		if time.Since(start).Seconds() > wallLimit {
			return "inconclusive", allStacks()
		}
		t.Reset(wait)
	}
}

func allStacks() string {
	buf := make([]byte, 1<<20)
	s := string(buf[:runtime.Stack(buf, true)])
	if len(s) > 20000 {
		s = s[:20000]
	}
	return s
}

// A gor is one goroutine of a snapshot of all goroutines.
type gor struct {
	id    string
	state string
	text  string
}

func snapshot() []gor {
	buf := make([]byte, 1<<18)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 4*len(buf))
	}
	var gs []gor
	for _, b := range strings.Split(string(buf), "\n\n") {
		if !strings.HasPrefix(b, "goroutine ") {
			continue
		}
		head, _, _ := strings.Cut(b, "\n")
		l, r := strings.IndexByte(head, '['), strings.LastIndexByte(head, ']')
		if l < 0 || r < l {
			continue
		}
		state := head[l+1 : r]
		if k := strings.IndexByte(state, ','); k >= 0 {
			state = state[:k]
		}
		if strings.HasPrefix(state, "semacquire") {
			// The runtime waits like this as well, for example when a goroutine
			// wants to start a garbage collection while the world is stopped.
			_, rest, _ := strings.Cut(b, "\n")
			if !strings.HasPrefix(rest, "sync.") && !strings.HasPrefix(rest, "internal/sync.") {
				state = "runtime"
			}
		}
		gs = append(gs, gor{strings.TrimSpace(head[len("goroutine "):l]), state, b})
	}
	return gs
}

// blockedState says whether only another goroutine can wake a goroutine in
// this state.
func blockedState(s string) bool {
	for _, p := range []string{"chan receive", "chan send", "select", "semacquire", "sync.Mutex", "sync.RWMutex", "sync.Cond", "sync.WaitGroup"} {
		if strings.HasPrefix(s, p) {
			return true
		}
	}
	return false
}

// deadlocked takes one consistent snapshot (the world is stopped) in which
// every goroutine except the monitor waits for another one: no goroutine can
// ever run again. There are no timers in any case, apart from time.Sleep, which
// has its own state.
func deadlocked() (string, bool) {
	gs := snapshot()
	me := gs[0].id // the calling goroutine comes first
	for _, g := range gs {
		if g.id != me && !blockedState(g.state) {
			return "", false
		}
	}
	var b strings.Builder
	for _, g := range gs {
		if g.id != me {
			b.WriteString(g.text + "\n\n")
		}
	}
	s := b.String()
	if len(s) > 20000 {
		s = s[:20000]
	}
	return s, true
}

const libPrefix = "github.com/exascience/pargo/"

// inLibrary says whether a goroutine is executing, or was started by, library code.
func inLibrary(g gor) bool {
	for _, line := range strings.Split(g.text, "\n") {
		if i := strings.Index(line, libPrefix); i >= 0 && !strings.Contains(line, "verifhook") && !strings.HasPrefix(line, "\t") {
			return true
		}
	}
	return false
}

// libraryGoroutines waits until no goroutine but the caller and the monitor
// has library frames. It returns those that are left once every goroutine is
// blocked for good.
func libraryGoroutines(c *ctx) []gor {
	for k := 0; ; k++ {
		gs := snapshot()
		me := gs[0].id
		var lib []gor
		active := false
		for _, g := range gs[1:] {
			if g.id == me {
				continue
			}
			if inLibrary(g) {
				lib = append(lib, g)
			}
			if !blockedState(g.state) && !strings.Contains(g.text, "main.runCase(") && !strings.HasPrefix(g.text, "goroutine 1 ") {
				active = true
			}
		}
		if len(lib) == 0 {
			return nil
		}
		if !active {
			return lib
		}
		if k < 50 {
			runtime.Gosched()
		} else {
			time.Sleep(200 * time.Microsecond)
		}
	}
}

func goid() string {
	var buf [64]byte
	s := string(buf[:runtime.Stack(buf[:], false)])
	s = strings.TrimPrefix(s, "goroutine ")
	s, _, _ = strings.Cut(s, " ")
	return s
}
