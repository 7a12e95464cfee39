// Package hl runs the scenarios of a property: a parent process hands (scenario, bound)
// jobs to worker processes, collects what they covered and reports.
package hl

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/lxdlam/vertex/mc"
)

// Scn is one scenario of a property.
type Scn struct {
	Name string
	// schedule exploration of Body: every schedule within a deviation budget, for the
	// budgets 0, 1, ... up to Quick (quick tier) or Thorough (thorough tier; -1 goes on to
	// the unbounded exploration).
	Body     func()
	Cfg      mc.Config
	Quick    int
	Thorough int
	Race     int // >0: also explored with the race detector, with budgets up to Race-1
	// every way to make up to Slow (0: two; -1: none) goroutines wait, from any point on, until no other
	// can run; one more in the thorough tier
	Slow int
	Late bool // thorough tier only
	// enumeration of inputs, operation sequences or crash points
	Seq func(c *Seq)
}

var registry = map[string][]Scn{}

// Register adds scenarios to a property.
func Register(prop string, sc ...Scn) { registry[prop] = append(registry[prop], sc...) }

// Tier is "quick" or "thorough", for scenarios whose size depends on it.
var Tier = "quick"

// QuickSecs is the time limit of the quick tier where it is not a minute.
var QuickSecs = map[string]float64{"C11": 100, "C12": 100, "C13": 100, "C17": 90, "C18": 90}

// Pick returns q in the quick tier and t in the thorough tier.
func Pick(q, t int) int {
	if Tier == "thorough" {
		return t
	}
	return q
}

type job struct {
	Scn    string `json:"scn"`
	Budget int    `json:"budget"`
	Race   bool   `json:"race"`
	Slow   bool   `json:"slow,omitempty"`
	NoC    bool   `json:"noc,omitempty"`
	Dead   int64  `json:"dead"` // unix nanoseconds
}

type result struct {
	Job     job         `json:"job"`
	Stats   mc.Stats    `json:"stats"`
	Fail    *mc.Failure `json:"fail,omitempty"`
	Samples []string    `json:"samples,omitempty"`
	Wall    float64     `json:"wall"`
}

// Replay is what a replay file holds.
type Replay struct {
	Property string      `json:"property"`
	Scenario string      `json:"scenario"`
	Budget   int         `json:"budget"`
	Race     bool        `json:"race"`
	Slow     bool        `json:"slow,omitempty"`
	Failure  *mc.Failure `json:"failure"`
}

var scenarios []Scn

func find(name string) *Scn {
	for i := range scenarios {
		if scenarios[i].Name == name {
			return &scenarios[i]
		}
	}
	return nil
}

// Main is the entry point of a harness binary.
func Main() {
	prop := flag.String("prop", "", "")
	tier := flag.String("tier", "quick", "")
	worker := flag.Bool("worker", false, "")
	evidence := flag.String("evidence", "", "")
	replayDir := flag.String("replaydir", "", "")
	known := flag.String("known", "", "")
	raceBin := flag.String("racebin", "", "")
	replay := flag.String("replay", "", "")
	secs := flag.Float64("secs", 0, "")
	only := flag.String("only", "", "")
	seed := flag.Int("seed", 1, "")
	nw := flag.Int("workers", runtime.NumCPU(), "")
	verbose := flag.Bool("v", false, "")
	keepGoing := flag.Bool("k", false, "")
	flag.Parse()
	Tier = *tier
	scenarios = registry[*prop]
	if len(scenarios) == 0 {
		fmt.Fprintf(os.Stderr, "no scenarios for %q\n", *prop)
		os.Exit(2)
	}
	seen := map[string]bool{}
	for _, x := range scenarios {
		if seen[x.Name] {
			fmt.Fprintf(os.Stderr, "duplicate scenario %s\n", x.Name)
			os.Exit(2)
		}
		seen[x.Name] = true
	}
	if *worker {
		workerMain()
		return
	}
	if *replay != "" {
		os.Exit(replayMain(*replay))
	}
	p := &parent{prop: *prop, tier: *tier, evidence: *evidence, replayDir: *replayDir, knownFile: *known, raceBin: *raceBin,
		secs: *secs, only: *only, seed: *seed, nw: *nw, verbose: *verbose, keepGoing: *keepGoing, start: time.Now()}
	os.Exit(p.run())
}

// ---------------------------------------------------------------- worker

func cpuTime() time.Duration {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano())
}

const (
	exitHang = 71
	exitMem  = 72
)

var busy int32

// lastOp describes what a worker is doing, for the watchdog's report.
var lastOp atomic.Value

func watchdog() {
	var last int64 = -1
	base := cpuTime()
	wall := time.Now()
	for {
		time.Sleep(250 * time.Millisecond)
		n := atomic.LoadInt64(&mc.Progress)
		if n != last || atomic.LoadInt32(&busy) == 0 {
			last = n
			base = cpuTime()
			wall = time.Now()
		} else if cpuTime()-base > 25*time.Second || time.Since(wall) > 180*time.Second {
			d, _ := lastOp.Load().(string)
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			fmt.Fprintf(os.Stderr, "HANG %s\n%s\n", d, buf)
			os.Exit(exitHang)
		}
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.Sys > 3600<<20 {
			d, _ := lastOp.Load().(string)
			fmt.Fprintf(os.Stderr, "MEMORY %s\n", d)
			os.Exit(exitMem)
		}
	}
}

func workerMain() {
	runtime.GOMAXPROCS(2)
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(2 << 30)
	debug.SetMaxStack(256 << 20)
	mc.RaceLog = os.Getenv("MC_RACE_LOG") + "." + strconv.Itoa(os.Getpid())
	go watchdog()
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(make([]byte, 1<<20), 1<<24)
	out := bufio.NewWriter(os.Stdout)
	for in.Scan() {
		var j job
		if err := json.Unmarshal(in.Bytes(), &j); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		atomic.StoreInt32(&busy, 1)
		r := runJob(j)
		atomic.StoreInt32(&busy, 0)
		b, _ := json.Marshal(r)
		_, _ = out.Write(b)
		_ = out.WriteByte('\n')
		_ = out.Flush()
		debug.FreeOSMemory()
	}
}

func (x *Scn) config(j job) mc.Config {
	c := x.Cfg
	c.Budget = j.Budget
	c.NoCache = c.NoCache || j.NoC
	if j.Slow {
		c.Demote, c.Preempt, c.BlockCost = 1, 100, 100
	}
	return c
}

func runJob(j job) result {
	r := result{Job: j}
	t0 := time.Now()
	x := find(j.Scn)
	if x == nil {
		r.Fail = &mc.Failure{Kind: "internal", Msg: "unknown scenario " + j.Scn}
		return r
	}
	mc.Deadline = time.Unix(0, j.Dead)
	lastOp.Store(j.Scn)
	if x.Seq != nil {
		c := &Seq{name: x.Name, deadline: mc.Deadline}
		c.run(x.Seq)
		r.Stats, r.Fail, r.Samples = c.Stats, c.fail, c.samples
	} else {
		r.Stats, r.Fail = mc.Explore(x.config(j), x.Body)
	}
	r.Wall = time.Since(t0).Seconds()
	return r
}

func replayMain(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	x := find(rp.Scenario)
	if x == nil {
		fmt.Fprintf(os.Stderr, "no scenario %s\n", rp.Scenario)
		return 2
	}
	var f *mc.Failure
	if x.Seq != nil || rp.Race {
		r := runJob(job{Scn: x.Name, Budget: rp.Budget, Race: rp.Race, Slow: rp.Slow, Dead: time.Now().Add(10 * time.Minute).UnixNano()})
		f = r.Fail
	} else {
		f = mc.Replay(x.config(job{Budget: rp.Budget, Slow: rp.Slow}), x.Body, rp.Failure.Choices, true)
	}
	if f == nil {
		fmt.Println("replay: the property held")
		return 0
	}
	for _, t := range f.Trace {
		fmt.Println(t)
	}
	fmt.Printf("%s: %s\n", f.Kind, f.Msg)
	return 1
}

// ---------------------------------------------------------------- parent

type parent struct {
	prop, tier, evidence, replayDir, knownFile, raceBin, only string
	secs                                                      float64
	seed, nw                                                  int
	keepGoing, verbose                                        bool
	start                                                     time.Time
	dead                                                      time.Time

	mu      sync.Mutex
	queue   []job
	next    int
	results []result
	stop    bool
	skipped int
	tmp     string
	known   []finding
	procs   map[*proc]bool
}

// isKnown returns the text of the listed finding that explains a failure, or "".
func (p *parent) isKnown(r result) string {
	for _, x := range p.known {
		if x.scn.MatchString(r.Job.Scn) && x.msg.MatchString(r.Fail.Kind+": "+r.Fail.Msg) {
			return x.text
		}
	}
	return ""
}

// halt ends the run early: the property is already known not to hold.
func (p *parent) halt() {
	p.stop = true
	for pr := range p.procs {
		_ = pr.cmd.Process.Kill()
	}
}

type finding struct {
	scn, msg *regexp.Regexp
	text     string
}

func (p *parent) loadKnown() []finding {
	var fs []finding
	b, err := os.ReadFile(p.knownFile)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=C01 scenario=/re/ failure=/re/ text
		m := regexp.MustCompile(`^known: property=(\S+) scenario=/(.*)/ failure=/(.*)/ (.*)$`).FindStringSubmatch(l)
		if m == nil || m[1] != p.prop {
			continue
		}
		a, e1 := regexp.Compile("^(?:" + m[2] + ")$")
		c, e2 := regexp.Compile("(?s)" + m[3])
		if e1 != nil || e2 != nil {
			continue
		}
		fs = append(fs, finding{a, c, m[4]})
	}
	return fs
}

// jobs lists the jobs in the order in which they are started: cheap bounds of every
// scenario first.
func (p *parent) jobs() []job {
	type lj struct {
		level int
		j     job
	}
	var l []lj
	for i := range scenarios {
		x := &scenarios[i]
		if x.Late && p.tier != "thorough" {
			continue
		}
		if p.only != "" && !regexp.MustCompile(p.only).MatchString(x.Name) {
			continue
		}
		if x.Seq != nil {
			l = append(l, lj{1, job{Scn: x.Name}})
			continue
		}
		max := x.Quick
		unlimited := max < 0
		if p.tier == "thorough" {
			max = x.Thorough
			if max < 0 {
				unlimited = true
			}
		}
		if unlimited {
			n := 3
			if max < -1 {
				n = -max
			}
			for b := 1; b < n; b++ {
				l = append(l, lj{b, job{Scn: x.Name, Budget: b}})
			}
			l = append(l, lj{n, job{Scn: x.Name, Budget: -1}})
		} else {
			lo := 1
			if max < 1 {
				lo = max
			}
			for b := lo; b <= max; b++ {
				l = append(l, lj{b, job{Scn: x.Name, Budget: b}})
			}
		}
		slow := x.Slow
		if slow == 0 {
			slow = 2
		}
		if p.tier == "thorough" && slow > 0 {
			slow++
		}
		for b := 1; b <= slow; b++ {
			l = append(l, lj{b, job{Scn: x.Name, Budget: b, Slow: true}})
		}
		if x.Race > 0 && p.raceBin != "" {
			if slow > 0 {
				l = append(l, lj{1, job{Scn: x.Name, Budget: 1, Slow: true, Race: true}})
			}
			for b := 0; b < x.Race; b++ {
				l = append(l, lj{b, job{Scn: x.Name, Budget: b, Race: true}})
			}
			if p.tier == "thorough" {
				l = append(l, lj{x.Race + 1, job{Scn: x.Name, Budget: x.Race, Race: true}})
			}
		}
	}
	sort.SliceStable(l, func(i, j int) bool { return l[i].level < l[j].level })
	var r []job
	for _, x := range l {
		x.j.Dead = p.dead.UnixNano()
		r = append(r, x.j)
	}
	return r
}

type proc struct {
	race bool
	cmd  *exec.Cmd
	in   *bufio.Writer
	inC  interface{ Close() error }
	out  *bufio.Scanner
	err  *tail
}

// tail keeps the head and the end of what a worker writes to stderr.
type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(b []byte) (int, error) {
	t.mu.Lock()
	t.b = append(t.b, b...)
	if len(t.b) > 1<<20 {
		t.b = append(t.b[:1<<16], t.b[len(t.b)-(1<<16):]...)
	}
	t.mu.Unlock()
	return len(b), nil
}

func (p *parent) spawn(race bool, n int) (*proc, error) {
	bin, err := os.Executable()
	if err != nil {
		return nil, err
	}
	if race {
		bin = p.raceBin
	}
	c := exec.Command(bin, "-worker", "-prop", p.prop, "-tier", p.tier)
	c.Env = append(os.Environ(), "GOTRACEBACK=single")
	if race {
		c.Env = append(c.Env, "GORACE=log_path="+filepath.Join(p.tmp, "race"+strconv.Itoa(n))+" halt_on_error=0 exitcode=0 history_size=3",
			"MC_RACE_LOG="+filepath.Join(p.tmp, "race"+strconv.Itoa(n)))
	}
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	in, err := c.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := c.StdoutPipe()
	if err != nil {
		return nil, err
	}
	t := &tail{}
	c.Stderr = t
	if err := c.Start(); err != nil {
		return nil, err
	}
	sc := bufio.NewScanner(out)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	pr := &proc{race: race, cmd: c, in: bufio.NewWriter(in), inC: in, out: sc, err: t}
	p.mu.Lock()
	p.procs[pr] = true
	if p.stop {
		_ = c.Process.Kill()
	}
	p.mu.Unlock()
	return pr, nil
}

func (pr *proc) do(j job) (result, error) {
	b, _ := json.Marshal(j)
	_, _ = pr.in.Write(append(b, '\n'))
	if err := pr.in.Flush(); err != nil {
		return result{}, err
	}
	for pr.out.Scan() {
		var r result
		if err := json.Unmarshal(pr.out.Bytes(), &r); err != nil {
			continue // something the code under test printed
		}
		return r, nil
	}
	return result{}, fmt.Errorf("worker ended")
}

func (pr *proc) close() { _ = pr.inC.Close(); _ = pr.cmd.Wait() }

// death describes how a worker died.
func (pr *proc) death(j job) *mc.Failure {
	_ = pr.inC.Close()
	err := pr.cmd.Wait()
	pr.err.mu.Lock()
	msg := string(pr.err.b)
	pr.err.mu.Unlock()
	if len(msg) > 6000 {
		msg = msg[:6000]
	}
	kind := "crash"
	if ee, ok := err.(*exec.ExitError); ok {
		switch {
		case ee.ExitCode() == exitHang:
			kind = "hang"
		case ee.ExitCode() == exitMem:
			kind = "memory"
		case ee.ExitCode() == 2 && strings.Contains(msg, "stack exceeds"):
			kind = "stack overflow"
		case ee.ExitCode() == 2 && (strings.Contains(msg, "fatal error:") || strings.Contains(msg, "panic:")):
			kind = "crash"
		default:
			kind = "internal"
			msg = fmt.Sprintf("worker ended: %v\n%s", err, msg)
		}
	}
	return &mc.Failure{Kind: kind, Msg: msg}
}

var procN int32

func (p *parent) workerLoop() {
	var normal, race *proc
	defer func() {
		for _, pr := range []*proc{normal, race} {
			if pr != nil {
				p.mu.Lock()
				delete(p.procs, pr)
				p.mu.Unlock()
				pr.close()
			}
		}
	}()
	for {
		p.mu.Lock()
		if p.stop || p.next >= len(p.queue) {
			p.mu.Unlock()
			return
		}
		j := p.queue[p.next]
		p.next++
		p.mu.Unlock()
		if time.Now().After(p.dead) {
			p.mu.Lock()
			p.skipped++
			p.results = append(p.results, result{Job: j, Stats: mc.Stats{Why: "not started: time limit"}})
			p.mu.Unlock()
			continue
		}
		pp := &normal
		if j.Race {
			pp = &race
		}
		var r result
		var deaths []*mc.Failure
		for try := 0; try < 2; try++ {
			if *pp == nil {
				pr, err := p.spawn(j.Race, int(atomic.AddInt32(&procN, 1)))
				if err != nil {
					r = result{Job: j, Fail: &mc.Failure{Kind: "internal", Msg: err.Error()}}
					break
				}
				*pp = pr
			}
			var err error
			r, err = (*pp).do(j)
			if err == nil {
				break
			}
			p.mu.Lock()
			stopped := p.stop
			delete(p.procs, *pp)
			p.mu.Unlock()
			if stopped {
				return
			}
			d := (*pp).death(j)
			*pp = nil
			deaths = append(deaths, d)
			r = result{Job: j, Fail: d}
		}
		if len(deaths) == 2 && deaths[0].Kind != deaths[1].Kind {
			r.Fail = &mc.Failure{Kind: "internal", Msg: "a worker died in two different ways: " + deaths[0].Kind + " / " + deaths[1].Kind + "\n" + deaths[0].Msg}
		}
		p.mu.Lock()
		p.results = append(p.results, r)
		if r.Fail != nil && r.Fail.Kind != "internal" && p.isKnown(r) == "" && !p.keepGoing {
			p.halt()
		}
		if r.Fail != nil {
			// the remaining bounds of this scenario are of no use
			q := p.queue[:p.next:p.next]
			for _, k := range p.queue[p.next:] {
				if k.Scn != j.Scn || k.Race != j.Race {
					q = append(q, k)
				}
			}
			p.queue = q
		}
		if p.verbose {
			st := "ok"
			if r.Fail != nil {
				st = r.Fail.Kind
			} else if !r.Stats.Exhausted {
				st = r.Stats.Why
			}
			race := ""
			if j.Race {
				race = " race"
			}
			fmt.Fprintf(os.Stderr, "%-48s b=%-2d%s execs=%d states=%d trans=%d depth=%d %.1fs %s\n", j.Scn, j.Budget, race, r.Stats.Execs, r.Stats.States, r.Stats.Transitions, r.Stats.MaxDepth, r.Wall, st)
		}
		p.mu.Unlock()
	}
}

func (p *parent) run() int {
	secs := p.secs
	if secs == 0 {
		secs = 60
		if x, ok := QuickSecs[p.prop]; ok {
			secs = x
		}
		if p.tier == "thorough" {
			secs = 600
		}
	}
	p.dead = p.start.Add(time.Duration(secs * float64(time.Second)))
	tmp, err := os.MkdirTemp("", "vertexmc")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p.tmp = tmp
	defer os.RemoveAll(tmp)
	p.known = p.loadKnown()
	p.procs = map[*proc]bool{}
	p.queue = p.jobs()
	if len(p.queue) == 0 {
		fmt.Fprintln(os.Stderr, "nothing to do")
		return 2
	}
	n := p.nw
	if n > len(p.queue) {
		n = len(p.queue)
	}
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() { p.workerLoop(); wg.Done() }()
	}
	wg.Wait()
	return p.report()
}

func (p *parent) report() int {
	var viol, internal []result
	usedKnown := map[string]bool{}
	var states, trans, execs, points int64
	exhaustive := true
	type row struct {
		Scenario   string `json:"scenario"`
		Bound      string `json:"bound"`
		Execs      int64  `json:"executions"`
		States     int64  `json:"states"`
		Trans      int64  `json:"transitions"`
		Exhaustive bool   `json:"exhaustive"`
		Note       string `json:"note,omitempty"`
	}
	var rows []row
	var samples []interface{}
	sort.SliceStable(p.results, func(i, j int) bool {
		a, b := p.results[i].Job, p.results[j].Job
		if a.Scn != b.Scn {
			return a.Scn < b.Scn
		}
		if a.Race != b.Race {
			return !a.Race
		}
		if a.Slow != b.Slow {
			return !a.Slow
		}
		return uint(a.Budget) < uint(b.Budget)
	})
	for _, r := range p.results {
		states += r.Stats.States
		trans += r.Stats.Transitions
		execs += r.Stats.Execs
		points += r.Stats.Points
		bound := "enumeration"
		if x := find(r.Job.Scn); x != nil && x.Seq == nil {
			bound = fmt.Sprintf("deviation budget %d", r.Job.Budget)
			if r.Job.Budget < 0 {
				bound = "unbounded schedules"
			}
			if r.Job.Slow {
				bound = fmt.Sprintf("up to %d goroutines slow", r.Job.Budget)
			}
			if r.Job.Race {
				bound += ", race detector"
			}
		}
		ro := row{r.Job.Scn, bound, r.Stats.Execs, r.Stats.States, r.Stats.Transitions, r.Stats.Exhausted && r.Fail == nil, r.Stats.Why}
		if !r.Stats.Exhausted {
			exhaustive = false
		}
		for _, s := range r.Samples {
			if len(samples) < 12 {
				samples = append(samples, map[string]string{"scenario": r.Job.Scn, "case": s})
			}
		}
		if f := r.Fail; f != nil {
			ro.Note = f.Kind
			if f.Kind == "internal" {
				internal = append(internal, r)
			} else {
				if k := p.isKnown(r); k != "" {
					usedKnown[k] = true
					ro.Note = "known finding"
				} else {
					viol = append(viol, r)
				}
			}
		}
		rows = append(rows, ro)
	}
	if len(samples) < 3 {
		for _, r := range rows {
			if len(samples) >= 8 {
				break
			}
			samples = append(samples, map[string]interface{}{"scenario": r.Scenario, "bound": r.Bound, "executions": r.Execs})
		}
	}
	var kn []string
	for t := range usedKnown {
		kn = append(kn, t)
	}
	sort.Strings(kn)
	for _, t := range kn {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.prop, t)
	}
	code := 0
	if len(viol) > 0 {
		code = 1
		done := map[string]bool{}
		_ = os.MkdirAll(p.replayDir, 0755)
		for _, r := range viol {
			if done[r.Job.Scn] {
				continue
			}
			done[r.Job.Scn] = true
			name := filepath.Join(p.replayDir, fmt.Sprintf("%s-%s.json", p.prop, sanitize(r.Job.Scn)))
			b, _ := json.MarshalIndent(Replay{p.prop, r.Job.Scn, r.Job.Budget, r.Job.Race, r.Job.Slow, r.Fail}, "", " ")
			_ = os.WriteFile(name, b, 0644)
			msg := r.Fail.Msg
			if len(msg) > 1500 {
				msg = msg[:1500] + "..."
			}
			fmt.Printf("%s [%s] %s: %s\n", p.prop, r.Job.Scn, r.Fail.Kind, printable(msg))
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.prop, name)
		}
	} else if len(internal) > 0 {
		code = 2
	}
	for _, r := range internal {
		msg := r.Fail.Msg
		if len(msg) > 4000 {
			msg = msg[:4000]
		}
		fmt.Fprintf(os.Stderr, "internal error of the check in %s (budget %d race %v slow %v): %s\n", r.Job.Scn, r.Job.Budget, r.Job.Race, r.Job.Slow, printable(msg))
	}
	wall := time.Since(p.start).Seconds()
	ev := map[string]interface{}{
		"property": p.prop, "tier": p.tier, "seed": p.seed, "level": "model_checking",
		"coverage": map[string]interface{}{
			"states": states, "transitions": trans, "traces_validated_against_impl": execs,
			"decision_points": points,
			"exhaustive":      exhaustive && code == 0 && len(usedKnown) == 0,
			"scenarios":       rows,
			"samples":         samples,
			"jobs_not_run":    p.skipped,
			"explanation":     "Every state and transition was produced by running the code of /repo itself (instrumented copy of the current tree) under the explorer, so each explored execution is a trace of the implementation.",
		},
		"assumptions": []string{"bounds as listed per scenario", "the stand-ins for sockets, files, clock and random source behave as documented in DESIGN.md"},
		"wall_s":      wall,
		"violations":  len(viol),
	}
	if p.evidence != "" {
		b, _ := json.MarshalIndent(ev, "", " ")
		_ = os.MkdirAll(filepath.Dir(p.evidence), 0755)
		if err := os.WriteFile(p.evidence, append(b, '\n'), 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	fmt.Printf("%s %s: %d scenarios, %d executions, %d states, %d transitions, exhaustive within bounds: %v, %.1fs\n", p.prop, p.tier, len(rows), execs, states, trans, exhaustive, wall)
	return code
}

func sanitize(s string) string {
	b := []byte(s)
	for i, c := range b {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-' || c == '_') {
			b[i] = '_'
		}
	}
	return string(b)
}

// printable keeps line ends and tabs and spells out every other byte a terminal or a
// reader of lines could stumble over
func printable(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '\n' || c == '\t' || c >= 0x20 && c < 0x7f {
			b.WriteByte(c)
		} else {
			fmt.Fprintf(&b, "\\x%02x", c)
		}
	}
	return b.String()
}
