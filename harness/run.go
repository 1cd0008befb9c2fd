package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Execution of cases in worker processes. A worker is the process in which the
// code under test runs; whatever kills it (panic in a goroutine, stack
// overflow, os.Exit, a signal) is an observation attributed to the case it was
// running.

// Viol is one violation observed in a case.
type Viol struct {
	Msg   string
	Files map[string]string // witness: input files, outputs
}

// CaseOut is what a worker reports about one case.
type CaseOut struct {
	Start  bool             `json:",omitempty"`
	I      int              `json:"i"`
	V      []Viol           `json:",omitempty"`
	Shapes []uint64         `json:",omitempty"`
	N      map[string]int64 `json:",omitempty"`
	Sample string           `json:",omitempty"`
	Notes  []string         `json:",omitempty"`
	Err    string           `json:",omitempty"` // the harness itself failed
}

// Driver decides one property.
type Driver struct {
	ID      string
	Method  string
	Level   string
	Rule    string
	Quick   int // number of cases
	Deep    int
	Run     func(c *Ctx)
	Root    bool // the workers keep root privileges (they need the Go build cache)
	Workers int  // 0: one per core
	// Setup runs once in the orchestrator before the workers.
	Setup  func(env *Env) error
	Assume []string
	// MinN: counters that must be positive for the run to count as having
	// observed anything.
	MinN []string
	// Timeout of one case in seconds (0: 60)
	Timeout int
	// PerProc: a worker process runs at most this many cases (0: any number).
	PerProc int
	// NoFile: limit of open files of a worker process (0: unchanged).
	NoFile uint64
	// Post runs in the orchestrator after the workers.
	Post       func(env *Env, agg *Agg)
	Exhaustive string
}

// Env is shared between orchestrator and workers.
type Env struct {
	Prop    string
	Tier    string
	Seed    uint64
	Scratch string
	Bin     string // xgen command
	Harness string // directory of the harness sources
	Self    string
}

// Ctx is the context of one case.
type Ctx struct {
	*Env
	I     int
	R     *rand.Rand
	Dir   string
	Out   *CaseOut
	files map[string]string
}

func (c *Ctx) count(k string, n int) {
	if c.Out.N == nil {
		c.Out.N = map[string]int64{}
	}
	c.Out.N[k] += int64(n)
}

func h64(s string) uint64 {
	h := fnv.New64a()
	io.WriteString(h, s)
	return h.Sum64()
}

// shape records a distinct observation.
func (c *Ctx) shape(s string) { c.Out.Shapes = append(c.Out.Shapes, h64(s)) }

func (c *Ctx) sample(s string) {
	if c.Out.Sample == "" {
		if len(s) > 3000 {
			s = s[:3000] + "..."
		}
		c.Out.Sample = s
	}
}

func (c *Ctx) violate(files map[string]string, format string, a ...any) {
	if len(c.Out.V) >= 6 {
		return
	}
	v := Viol{Msg: fmt.Sprintf(format, a...), Files: map[string]string{}}
	for k, s := range files {
		if len(s) > 1<<16 {
			s = s[:1<<16]
		}
		v.Files[k] = s
	}
	c.Out.V = append(c.Out.V, v)
}

func caseRand(prop string, seed uint64, i int) *rand.Rand {
	return rand.New(rand.NewPCG(seed*0x9E3779B97F4A7C15^h64(prop), uint64(i)*0xD1B54A32D192ED03+1))
}

func runCase(d *Driver, env *Env, dir string, i int) (out CaseOut) {
	out.I = i
	cdir := filepath.Join(dir, "c")
	os.RemoveAll(cdir)
	if err := os.MkdirAll(cdir, 0o755); err != nil {
		out.Err = err.Error()
		return
	}
	c := &Ctx{Env: env, I: i, R: caseRand(env.Prop, env.Seed, i), Dir: cdir, Out: &out}
	func() {
		defer func() {
			if p := recover(); p != nil {
				out.Err = fmt.Sprintf("harness panic: %v\n%s", p, debug.Stack())
			}
		}()
		d.Run(c)
	}()
	os.RemoveAll(cdir)
	return
}

// worker runs cases first, first+step, ... < n.
func worker(d *Driver, env *Env, first, step, n int, dir string) {
	pipe := os.NewFile(3, "results")
	w := bufio.NewWriterSize(pipe, 1<<16)
	enc := json.NewEncoder(w)
	viol := 0
	if d.NoFile > 0 {
		syscall.Setrlimit(syscall.RLIMIT_NOFILE, &syscall.Rlimit{Cur: d.NoFile, Max: d.NoFile})
	}
	go func() { // a translation that eats memory is ended before the sandbox is
		for {
			time.Sleep(200 * time.Millisecond)
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 3<<30 {
				fmt.Fprintln(os.Stderr, "memory use exceeds 3 GB")
				os.Exit(97)
			}
		}
	}()
	for i := first; i < n; i += step {
		enc.Encode(CaseOut{Start: true, I: i})
		w.Flush()
		o := runCase(d, env, dir, i)
		enc.Encode(o)
		w.Flush()
		if len(o.V) > 0 {
			if viol++; viol >= 4 {
				break
			}
		}
	}
	enc.Encode(CaseOut{I: -1})
	w.Flush()
	os.Exit(0)
}

// Agg aggregates the results of a run.
type Agg struct {
	mu      sync.Mutex
	Cases   int
	N       map[string]int64
	Shapes  map[uint64]bool
	Samples []string
	V       []struct {
		I int
		V Viol
	}
	Notes map[string]int
	Errs  []string
	stop  bool
	halt  chan bool // closed with stop
	late  bool      // ended by the deadline
}

// end makes all workers stop. The lock is held.
func (a *Agg) end() {
	if !a.stop {
		a.stop = true
		close(a.halt)
	}
}

func (a *Agg) add(o CaseOut) {
	a.mu.Lock()
	defer a.mu.Unlock()
	a.Cases++
	for k, v := range o.N {
		a.N[k] += v
	}
	for _, s := range o.Shapes {
		a.Shapes[s] = true
	}
	for _, n := range o.Notes {
		a.Notes[n]++
	}
	if o.Sample != "" && len(a.Samples) < 3 {
		a.Samples = append(a.Samples, o.Sample)
	}
	for _, v := range o.V {
		a.V = append(a.V, struct {
			I int
			V Viol
		}{o.I, v})
	}
	if len(a.V) >= 12 {
		a.end()
	}
	if o.Err != "" {
		a.Errs = append(a.Errs, fmt.Sprintf("case %d: %s", o.I, o.Err))
	}
}

func (a *Agg) violation(i int, v Viol) {
	a.mu.Lock()
	defer a.mu.Unlock()
	a.V = append(a.V, struct {
		I int
		V Viol
	}{i, v})
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	t.b = append(t.b, p...)
	if len(t.b) > 16384 {
		t.b = append(append([]byte(nil), t.b[:4096]...), t.b[len(t.b)-8192:]...)
	}
	t.mu.Unlock()
	return len(p), nil
}
func (t *tail) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }

func nobodyOK() bool {
	if os.Getuid() != 0 {
		return false
	}
	cmd := exec.Command("/bin/true")
	cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
	return cmd.Run() == nil
}

func (env *Env) args(extra ...string) []string {
	return append([]string{"-prop", env.Prop, "-tier", env.Tier, "-seed", strconv.FormatUint(env.Seed, 10),
		"-scratch", env.Scratch, "-bin", env.Bin, "-harness", env.Harness}, extra...)
}

// shard runs one worker to completion, restarting it past cases that kill it.
func shard(d *Driver, env *Env, agg *Agg, k, step, n int, unpriv bool) {
	dir := filepath.Join(env.Scratch, fmt.Sprintf("w%d", k))
	os.MkdirAll(dir, 0o755)
	if unpriv {
		os.Chown(dir, 65534, 65534)
	}
	limit := time.Duration(d.Timeout) * time.Second
	if limit == 0 {
		limit = 60 * time.Second
	}
	next := k
	deaths := 0
	for next < n {
		agg.mu.Lock()
		stop := agg.stop
		agg.mu.Unlock()
		if stop {
			return
		}
		upto := n
		if d.PerProc > 0 {
			upto = min(n, next+step*d.PerProc)
		}
		last, finished, hung, errText := runWorker(d, env, agg, dir, next, step, upto, unpriv, limit)
		if finished && upto < n {
			agg.mu.Lock()
			quiet := len(agg.V) == 0
			agg.mu.Unlock()
			if !quiet {
				return
			}
			next = upto
			continue
		}
		if finished {
			return
		}
		agg.mu.Lock()
		stop = agg.stop
		agg.mu.Unlock()
		if stop { // ended from outside
			return
		}
		if last < 0 {
			agg.mu.Lock()
			agg.Errs = append(agg.Errs, "worker did not start: "+errText)
			agg.mu.Unlock()
			return
		}
		if hung {
			// alone, with a much longer limit
			l2, fin2, hung2, err2 := runWorker(d, env, agg, dir, last, n+step, last+1, unpriv, 2*limit+60*time.Second)
			if hung2 {
				agg.violation(last, Viol{Msg: fmt.Sprintf("case %d: no result after %v: the code under test does not terminate", last, 2*limit+60*time.Second)})
				agg.mu.Lock()
				agg.end()
				agg.mu.Unlock()
				return
			}
			if !fin2 && l2 >= 0 {
				agg.violation(last, Viol{Msg: fmt.Sprintf("case %d killed the process running the translation: %s", last, err2)})
			}
		} else {
			agg.violation(last, Viol{Msg: fmt.Sprintf("case %d killed the process running the translation: %s", last, errText)})
			deaths++
			if deaths >= 3 {
				agg.mu.Lock()
				agg.end()
				agg.mu.Unlock()
				return
			}
		}
		next = last + step
	}
}

func runWorker(d *Driver, env *Env, agg *Agg, dir string, first, step, n int, unpriv bool, limit time.Duration) (last int, finished, hung bool, errText string) {
	last = -1
	r, w, err := os.Pipe()
	if err != nil {
		return last, false, false, err.Error()
	}
	cmd := exec.Command(env.Self, env.args("-worker", "-first", strconv.Itoa(first), "-step", strconv.Itoa(step), "-n", strconv.Itoa(n), "-dir", dir)...)
	cmd.Dir = dir
	var tl tail
	cmd.Stdout, cmd.Stderr = &tl, &tl
	cmd.ExtraFiles = []*os.File{w}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if unpriv {
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: 65534, Gid: 65534}
	}
	cmd.Env = append(os.Environ(), "TMPDIR="+dir, "GORACE=halt_on_error=1 exitcode=66")
	if unpriv {
		cmd.Env = append(cmd.Env, "HOME="+dir)
	}
	if err := cmd.Start(); err != nil {
		w.Close()
		r.Close()
		return last, false, false, err.Error()
	}
	w.Close()
	var mu sync.Mutex
	lastMsg := time.Now()
	done := make(chan bool)
	go func() {
		t := time.NewTicker(500 * time.Millisecond)
		defer t.Stop()
		for {
			select {
			case <-done:
				return
			case <-agg.halt:
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				return
			case <-t.C:
				mu.Lock()
				late := time.Since(lastMsg) > limit
				if late {
					hung = true
				}
				mu.Unlock()
				if late {
					syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
					return
				}
			}
		}
	}()
	dec := json.NewDecoder(bufio.NewReaderSize(r, 1<<20))
	for {
		var o CaseOut
		if err := dec.Decode(&o); err != nil {
			break
		}
		mu.Lock()
		lastMsg = time.Now()
		mu.Unlock()
		if o.Start {
			last = o.I
			continue
		}
		if o.I == -1 {
			finished = true
			break
		}
		agg.add(o)
	}
	werr := cmd.Wait()
	close(done)
	r.Close()
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	mu.Lock()
	defer mu.Unlock()
	if !finished {
		errText = fmt.Sprintf("%v; output: %s", werr, tl.String())
	}
	return
}

// orchestrate runs a whole check and returns the exit code.
func orchestrate(d *Driver, env *Env, root string) int {
	start := time.Now()
	agg := &Agg{N: map[string]int64{}, Shapes: map[uint64]bool{}, Notes: map[string]int{}, halt: make(chan bool)}
	n := d.Quick
	if env.Tier == "thorough" {
		n = d.Deep
	}
	if s := os.Getenv("XV_CASES"); s != "" {
		n, _ = strconv.Atoi(s)
	}
	if d.Setup != nil {
		if err := d.Setup(env); err != nil {
			fmt.Println("error: setup:", err)
			return 2
		}
	}
	workers := d.Workers
	if workers == 0 {
		workers = 8
	}
	if workers > n {
		workers = n
	}
	unpriv := !d.Root && nobodyOK()
	if env.Tier != "thorough" {
		// on a very slow machine a quick check covers less rather than taking
		// too long
		time.AfterFunc(750*time.Second, func() {
			agg.mu.Lock()
			defer agg.mu.Unlock()
			agg.late = true
			agg.end()
		})
	}
	var wg sync.WaitGroup
	for k := 0; k < workers; k++ {
		wg.Add(1)
		go func() { defer wg.Done(); shard(d, env, agg, k, workers, n, unpriv) }()
	}
	wg.Wait()
	known := runKnown(d.ID, env)
	if d.Post != nil {
		d.Post(env, agg)
	}
	code := 0
	sort.SliceStable(agg.V, func(i, j int) bool { return agg.V[i].I < agg.V[j].I })
	for _, k := range known {
		if k.Err != "" {
			fmt.Printf("error: known finding %s: %s\n", k.Name, k.Err)
			code = 2
		} else if k.Fails {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", d.ID, k.Name, k.Text)
		}
	}
	if len(agg.Errs) > 0 {
		for i, e := range agg.Errs {
			if i < 3 {
				fmt.Println("error:", e)
			}
		}
		code = 2
	}
	for _, k := range d.MinN {
		if agg.N[k] == 0 && len(agg.V) == 0 && code == 0 {
			fmt.Printf("error: nothing observed (%s=0)\n", k)
			code = 2
		}
	}
	if os.Getenv("XV_ALL") != "" { // debugging aid
		for _, v := range agg.V {
			fmt.Printf("  case %d: %s\n", v.I, strings.SplitN(v.V.Msg, "\n", 2)[0])
		}
	}
	if len(agg.V) > 0 {
		code = 1
		rdir := filepath.Join(root, "replays")
		os.MkdirAll(rdir, 0o755)
		seen := map[int]bool{}
		printed := 0
		for _, v := range agg.V {
			if seen[v.I] || printed >= 3 {
				continue
			}
			seen[v.I] = true
			printed++
			p := filepath.Join(rdir, fmt.Sprintf("%s-%d-%d", d.ID, env.Seed, v.I))
			writeReplay(p, d, env, v.I, v.V)
			fmt.Printf("  %s\n", strings.ReplaceAll(v.V.Msg, "\n", "\n  "))
			fmt.Printf("VIOLATION property=%s replay=%s\n", d.ID, p)
		}
	}
	cov := map[string]any{
		"evaluations":         agg.Cases,
		"distinct_nontrivial": len(agg.Shapes),
		"rule":                d.Rule,
		"samples":             agg.Samples,
		"observed":            agg.N,
		"cases_planned":       n,
	}
	if len(agg.Samples) == 0 {
		cov["samples"] = []string{}
	}
	if agg.late {
		cov["ended_by_deadline"] = true
	}
	if d.Exhaustive != "" {
		cov["exhaustive_part"] = d.Exhaustive
	}
	if len(agg.Notes) > 0 {
		cov["notes"] = agg.Notes
	}
	kf := []string{}
	for _, k := range known {
		if k.Fails {
			kf = append(kf, k.Name)
		}
	}
	cov["known_findings_reproduced"] = kf
	ev := map[string]any{
		"property": d.ID, "tier": env.Tier, "seed": env.Seed, "level": d.Level,
		"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": len(agg.V),
		"assumptions": append([]string{}, d.Assume...),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(root, "evidence", d.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("error:", err)
		if code == 0 {
			code = 2
		}
	}
	if code == 2 && len(agg.V) == 0 {
		return 2
	}
	fmt.Printf("%s %s: %d cases, %d distinct, %d violation(s), %.1fs %v\n", d.ID, env.Tier, agg.Cases, len(agg.Shapes), len(agg.V), time.Since(start).Seconds(), fmtN(agg.N))
	return code
}

func fmtN(m map[string]int64) string {
	var l []string
	for _, k := range sortedKeys(m) {
		l = append(l, fmt.Sprintf("%s=%d", k, m[k]))
	}
	return strings.Join(l, " ")
}

func writeReplay(p string, d *Driver, env *Env, i int, v Viol) {
	os.RemoveAll(p)
	os.MkdirAll(p, 0o755)
	var b strings.Builder
	fmt.Fprintf(&b, "property %s, tier %s, seed %d, case %d\n\n%s\n\nRe-run this case: bash /verif/check.sh %s %s --case %d  (VERIF_SEED=%d)\n", d.ID, env.Tier, env.Seed, i, v.Msg, d.ID, env.Tier, i, env.Seed)
	os.WriteFile(filepath.Join(p, "README"), []byte(b.String()), 0o644)
	for name, s := range v.Files {
		f := filepath.Join(p, filepath.FromSlash(strings.ReplaceAll(name, "..", "__")))
		os.MkdirAll(filepath.Dir(f), 0o755)
		os.WriteFile(f, []byte(s), 0o644)
	}
}
