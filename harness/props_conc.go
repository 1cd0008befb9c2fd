package main

import (
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/xuri/xgen"
)

// C03 (repetition and histories) and C04 (concurrency).

// job is one translation.
type job struct {
	Lang, File, In, Out, Pkg string
	Extract                  bool
	Cwd                      string `json:",omitempty"`
}

type result struct {
	Outcome string
	Tree    string
	Files   map[string]string
}

func (j job) options() *xgen.Options {
	return newOptions(j.Lang, j.File, j.In, j.Out, j.Pkg, j.Extract)
}

func (j job) do(opt *xgen.Options) (r result) {
	o := parse(opt)
	r.Outcome = o.String()
	if o.ok() {
		r.Tree = treeJSON(opt.ProtoTree, true)
	}
	r.Files = snapshot(j.Out)
	return
}

func (r result) diff(s result) string {
	if r.Outcome != s.Outcome {
		return fmt.Sprintf("outcome %q instead of %q", s.Outcome, r.Outcome)
	}
	if d := diff2(r.Files, s.Files); d != "" {
		for _, k := range sortedKeys(r.Files) {
			if v, ok := s.Files[k]; ok && v != r.Files[k] {
				d += "\n" + firstDiff(r.Files[k], v)
				break
			}
		}
		return "output files: " + d
	}
	if r.Tree != s.Tree {
		return "parsed tree: " + firstDiff(r.Tree, s.Tree)
	}
	return ""
}

type wire struct{ Outcome, Tree []byte }

func subTranslate(arg string) {
	var j job
	if err := json.Unmarshal([]byte(arg), &j); err != nil {
		fmt.Println("error:", err)
		os.Exit(3)
	}
	if j.Cwd != "" {
		if err := os.Chdir(j.Cwd); err != nil {
			fmt.Println("error:", err)
			os.Exit(3)
		}
	}
	o := parse(j.options())
	tree := ""
	if o.ok() {
		tree = treeJSON(o.Opt.ProtoTree, true)
	}
	b, _ := json.Marshal(wire{[]byte(o.String()), []byte(tree)})
	os.Stdout.Write(b)
}

// fresh runs a job in a new process.
func (c *Ctx) fresh(j job, env ...string) (r result, err error) {
	b, _ := json.Marshal(j)
	cmd := exec.Command(c.Self, "-sub", "translate", string(b))
	cmd.Env = append(os.Environ(), env...)
	out, err := cmd.Output()
	if err != nil {
		return r, fmt.Errorf("fresh process: %v: %s", err, out)
	}
	var w wire
	if err = json.Unmarshal(out, &w); err != nil {
		return
	}
	r.Outcome, r.Tree = string(w.Outcome), string(w.Tree)
	dir := j.Out
	if !filepath.IsAbs(dir) {
		dir = filepath.Join(j.Cwd, dir)
	}
	r.Files = snapshot(dir)
	c.count("fresh processes", 1)
	return
}

// twins: order that depends on names is put to the test by names that compare
// equal when case is ignored.
func twins(g *GenCfg) {
	g.TwinPct, g.UnionTwins = 25, true
	g.MaxSimple += 3
}

// inputSet makes a set of schema files (valid or not) and returns the paths of
// those to translate.
func inputSet(c *Ctx) (texts map[string]string, roots []string, kind string) {
	switch k := c.I % 8; {
	case k < 2:
		s, t := treeCaseOf(c, twins)
		for _, f := range s.Files {
			roots = append(roots, f.Path)
		}
		for _, d := range expect(s).Decls {
			c.shape(shape(d))
		}
		return t, roots, "valid"
	case k < 4: // in several files
		s := modelSchema(c.R, c.I/8, twins)
		scatter(c.R, s)
		texts = renderAll(s, func(f int) Prefixes { return scatterPx(c.R, s, f) }, &Style{})
		for _, f := range s.Files {
			roots = append(roots, f.Path)
		}
		for _, d := range expect(s).Decls {
			c.shape(shape(d))
		}
		if k == 3 { // one of them is missing or broken
			p := roots[c.R.IntN(len(roots))]
			if c.R.IntN(2) == 0 {
				delete(texts, p)
			} else {
				texts[p] = mutateBytes(c.R, texts[p], 1)
			}
		}
		return texts, roots, "files"
	case k < 6:
		texts = robustGraph(c)
		roots = sortedKeys(texts)
		c.shape(fmt.Sprint("graph ", len(roots), h64(texts[roots[0]])%64))
		return texts, roots, "graph"
	}
	t, kind := robustText(c)
	c.shape("soup " + kind)
	return map[string]string{"soup.xsd": t}, []string{"soup.xsd"}, kind
}

// disturb is some other translation, often one that fails.
func (c *Ctx) disturb(dir string) {
	d := filepath.Join(dir, "history")
	os.RemoveAll(d)
	lang := langs[c.R.IntN(len(langs))]
	t, f := "", filepath.Join(d, "in", "other.xsd")
	switch c.R.IntN(5) {
	case 0:
		t, _ = robustText(c)
	case 1:
		t = mutateBytes(c.R, soup(c.R), 3)
	default:
		s := modelSchema(c.R, c.R.IntN(9), twins)
		t = (&Style{}).write(Prefixes{XS: "xs"}, build(s, 0, Prefixes{XS: "xs"}))
	}
	writeFiles(filepath.Join(d, "in"), map[string]string{"other.xsd": t})
	out := filepath.Join(d, "out")
	switch c.R.IntN(6) {
	case 0: // the output cannot be stored
		os.WriteFile(out, []byte("a file"), 0o644)
	case 1:
		f = filepath.Join(d, "in", "missing.xsd")
	case 2:
		lang = []string{"", "go", "Cobol", "\x00"}[c.R.IntN(4)]
	}
	o := parse(newOptions(lang, f, filepath.Join(d, "in"), out, []string{"", "other"}[c.R.IntN(2)], c.R.IntN(4) == 0))
	c.count("translations before", 1)
	if !o.ok() {
		c.count("failing translations before", 1)
	}
	os.RemoveAll(d)
}

// swapTypes exchanges some built-in types, which leaves the sizes as they are.
func swapTypes(texts map[string]string) map[string]string {
	r := strings.NewReplacer(`string"`, `double"`, `double"`, `string"`, `boolean"`, `decimal"`, `decimal"`, `boolean"`, `short"`, `token"`, `token"`, `short"`)
	out := map[string]string{}
	for p, t := range texts {
		out[p] = r.Replace(t)
	}
	return out
}

func runC03(c *Ctx) {
	texts, roots, kind := inputSet(c)
	in, od := filepath.Join(c.Dir, "in"), filepath.Join(c.Dir, "out")
	os.MkdirAll(in, 0o755)
	writeFiles(in, texts)
	files := map[string]string{}
	for p, t := range texts {
		files["in/"+p] = t
	}
	c.sample(kind + ": " + strings.Join(roots, ", "))
	if len(roots) > 2 {
		c.R.Shuffle(len(roots), func(i, j int) { roots[i], roots[j] = roots[j], roots[i] })
		roots = roots[:2]
	}
	one := c.R.IntN(len(langs))
	for li, lang := range langs {
		for _, root := range roots {
			j := job{Lang: lang, File: filepath.Join(in, root), In: in, Out: od, Pkg: []string{"", "pkg"}[c.R.IntN(2)]}
			os.RemoveAll(od)
			ref := j.do(j.options())
			c.count("reference runs", 1)
			if ref.Outcome != "success" {
				c.count("failing reference runs", 1)
			}
			bad := func(how, d string) bool {
				c.count("repetitions", 1)
				if d == "" {
					return false
				}
				c.violate(files, "%s: %s of %s: %s", lang, how, root, d)
				return true
			}
			for k := 0; k < 4; k++ {
				os.RemoveAll(od)
				if bad("repetition", ref.diff(j.do(j.options()))) {
					return
				}
			}
			// histories
			for k := 0; k < 2; k++ {
				for n := 1 + c.R.IntN(3); n > 0; n-- {
					c.disturb(c.Dir)
				}
				os.RemoveAll(od)
				if bad("repetition after other translations", ref.diff(j.do(j.options()))) {
					return
				}
			}
			// other contents of the same files before
			if other := swapTypes(texts); c.R.IntN(2) == 0 {
				stamp := time.Now().Add(-time.Hour)
				put := func(t map[string]string) {
					writeFiles(in, t)
					for p := range t {
						os.Chtimes(filepath.Join(in, p), stamp, stamp)
					}
				}
				put(other)
				os.RemoveAll(od)
				j.do(j.options())
				put(texts)
				os.RemoveAll(od)
				if bad("repetition after a translation of other contents of the files", ref.diff(j.do(j.options()))) {
					return
				}
				c.count("other contents before", 1)
			}
			if c.I%128 == 5 && li == one {
				time.Sleep(1100 * time.Millisecond)
				os.RemoveAll(od)
				if bad("repetition a second later", ref.diff(j.do(j.options()))) {
					return
				}
			}
			// the same option value again, over the same output
			if ref.Outcome == "success" {
				os.RemoveAll(od)
				opt := j.options()
				for k, n := 0, 2+c.R.IntN(2); k < n; k++ {
					if k > 0 && c.R.IntN(2) == 0 {
						c.disturb(c.Dir)
					}
					if bad(fmt.Sprintf("run %d with the same options", k+1), ref.diff(j.do(opt))) {
						return
					}
				}
			}
			// stale output
			os.RemoveAll(od)
			for p, v := range ref.Files {
				if strings.HasPrefix(v, "f:") {
					stale := v[2:] + strings.Repeat("stale }\n", 1+c.R.IntN(50))
					if c.R.IntN(2) == 0 {
						stale = strings.Repeat("// old\n", 3+len(v)/5)
					}
					writeFiles(od, map[string]string{p: stale})
				}
			}
			r := j.do(j.options())
			if ref.Outcome == "success" && bad("run over older output", ref.diff(r)) {
				return
			}
			if ref.Outcome == "success" && bad("second run over the output", ref.diff(j.do(j.options()))) {
				return
			}
			if li != one {
				continue
			}
			// fresh processes
			for k := 0; k < 3; k++ {
				os.RemoveAll(od)
				q := j
				q.Cwd = []string{"", "/", c.Dir, in}[c.R.IntN(4)]
				r, err := c.fresh(q, fmt.Sprintf("GOMAXPROCS=%d", 1+k*3), "GOGC="+[]string{"1", "100"}[k%2], "TZ=Asia/Tokyo", "LANG=tr_TR.UTF-8", "HOME=/nonexistent", "USER=somebody", "HOSTNAME=somewhere", "PATH=/nowhere", "TMPDIR=/nonexistent", "SOURCE_DATE_EPOCH=1")
				if err != nil {
					if bad("run in a fresh process", err.Error()) {
						return
					}
				}
				if bad("run in a fresh process", ref.diff(r)) {
					return
				}
			}
			// relative spelling from another working directory, on a copy that was
			// written in another order
			cp := filepath.Join(c.Dir, "elsewhere", "copy")
			ps := sortedKeys(texts)
			for i := len(ps) - 1; i >= 0; i-- {
				writeFiles(cp, map[string]string{ps[i]: texts[ps[i]]})
			}
			q := job{Lang: lang, File: filepath.Join("copy", root), In: "copy", Out: "result", Pkg: j.Pkg, Cwd: filepath.Join(c.Dir, "elsewhere")}
			r, err := c.fresh(q)
			want := ref
			if err == nil && ref.Outcome != "success" && r.Outcome != "success" {
				r.Outcome = ref.Outcome // messages name files by the path given
			}
			d := ""
			if err != nil {
				d = err.Error()
			} else {
				d = want.diff(r)
			}
			os.RemoveAll(filepath.Join(c.Dir, "elsewhere"))
			if bad("run on a copy with relative paths", d) {
				return
			}
		}
	}
}

// ---- C04 ----

// feed makes path a named pipe that delivers text in pieces with delays, so
// that translations overlap at chosen points of their input.
func feed(path, text string, r *rand.Rand) (stop func(), err error) {
	if err = syscall.Mkfifo(path, 0o600); err != nil {
		return nil, err
	}
	cuts := []int{}
	for k := 1 + r.IntN(5); k > 0; k-- {
		if len(text) > 0 {
			cuts = append(cuts, r.IntN(len(text)))
		}
	}
	sortInts(cuts)
	delays := []time.Duration{}
	for range cuts {
		delays = append(delays, time.Duration(r.IntN(1500))*time.Microsecond)
	}
	done := make(chan bool)
	go func() {
		defer close(done)
		f, err := os.OpenFile(path, os.O_WRONLY, 0)
		if err != nil {
			return
		}
		defer f.Close()
		at := 0
		for i, k := range cuts {
			if _, err := f.Write([]byte(text[at:k])); err != nil {
				return
			}
			at = k
			time.Sleep(delays[i])
		}
		f.Write([]byte(text[at:]))
	}()
	return func() {
		// let a feeder that nobody reads from finish
		for i := 0; ; i++ {
			if g, err := os.OpenFile(path, os.O_RDONLY|syscall.O_NONBLOCK, 0); err == nil {
				select {
				case <-done:
					g.Close()
					return
				case <-time.After(5 * time.Millisecond):
				}
				g.Close()
			}
			select {
			case <-done:
				return
			default:
			}
			if i > 2000 {
				return
			}
		}
	}, nil
}

func sortInts(l []int) {
	for i := range l {
		for k := i; k > 0 && l[k] < l[k-1]; k-- {
			l[k], l[k-1] = l[k-1], l[k]
		}
	}
}

func runC04(c *Ctx) {
	in := filepath.Join(c.Dir, "in")
	os.MkdirAll(in, 0o755)
	texts, roots, kind := inputSet(c)
	writeFiles(in, texts)
	files := map[string]string{}
	for p, t := range texts {
		files["in/"+p] = t
	}
	// a second, unrelated input
	s2 := modelSchema(c.R, c.R.IntN(9), twins)
	in2 := filepath.Join(c.Dir, "in2")
	px := Prefixes{XS: "xs"}
	t2 := (&Style{}).write(px, build(s2, 0, px))
	writeFiles(in2, map[string]string{"second.xsd": t2})
	files["in2/second.xsd"] = t2
	c.sample(kind + ": " + strings.Join(roots, ", ") + "\nconcurrently with\n" + t2)
	piped := c.R.IntN(2) == 0 && len(texts) == 1 && kind == "valid"
	type task struct {
		job
		ref, got result
		text     string
		when     time.Duration
	}
	var tasks []*task
	mix := c.R.IntN(3)
	lang0 := langs[c.R.IntN(len(langs))]
	n := 4 + c.R.IntN(13)
	for k := 0; k < n; k++ {
		t := &task{}
		t.Lang = langs[c.R.IntN(len(langs))]
		if mix == 0 {
			t.Lang = lang0
		}
		t.In = in
		root := roots[c.R.IntN(len(roots))]
		t.text = texts[root]
		if c.R.IntN(3) == 0 {
			t.In, root, t.text = in2, "second.xsd", t2
		}
		t.File = filepath.Join(t.In, root)
		t.Extract = c.R.IntN(5) == 0
		t.Pkg = []string{"", "", "pkg", "other"}[c.R.IntN(4)]
		t.Out = filepath.Join(c.Dir, "ref", fmt.Sprint(k))
		if c.R.IntN(3) == 0 {
			t.when = time.Duration(c.R.IntN(800)) * time.Microsecond
		}
		tasks = append(tasks, t)
	}
	// The first case of a process starts with a concurrent round, so that
	// whatever the code sets up at first use is set up by several at once.
	solo := func() {
		for _, t := range tasks {
			t.ref = t.do(t.options())
			c.count("solo runs", 1)
		}
	}
	coldStart := c.R.IntN(4) > 0
	if !coldStart {
		solo()
	}
	rounds := 3
	for round := 0; round < rounds; round++ {
		procs := []int{1, 2, 4, 8, 16}[c.R.IntN(5)]
		old := runtime.GOMAXPROCS(procs)
		var wg sync.WaitGroup
		gate := make(chan bool)
		var stops []func()
		for k, t := range tasks {
			j := t.job
			j.Out = filepath.Join(c.Dir, fmt.Sprintf("round%d", round), fmt.Sprint(k))
			if piped && round > 0 {
				// the same document, delivered slowly; its path below the input
				// directory stays
				pin := filepath.Join(c.Dir, "pipes", fmt.Sprint(round), fmt.Sprint(k))
				os.MkdirAll(pin, 0o755)
				p := filepath.Join(pin, filepath.Base(t.File))
				stop, err := feed(p, t.text, c.R)
				if err != nil {
					panic(err)
				}
				stops = append(stops, stop)
				j.In, j.File = pin, p
				c.count("piped inputs", 1)
			}
			opt := j.options()
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-gate
				if t.when > 0 {
					time.Sleep(t.when)
				}
				t.got = j.do(opt)
			}()
		}
		close(gate)
		wg.Wait()
		for _, s := range stops {
			s()
		}
		runtime.GOMAXPROCS(old)
		if coldStart && round == 0 {
			c.count("rounds before any solo run", 1)
			solo()
		}
		for _, t := range tasks {
			c.count("concurrent runs", 1)
			if d := t.ref.diff(t.got); d != "" {
				c.violate(files, "%s of %s (extract %v) next to %d other translations on %d processors: %s", t.Lang, filepath.Base(t.File), t.Extract, len(tasks)-1, procs, d)
				return
			}
		}
		c.shape(fmt.Sprint(kind, mix, len(tasks), procs, piped, round))
		os.RemoveAll(filepath.Join(c.Dir, fmt.Sprintf("round%d", round)))
	}
}

func init() {
	register(&Driver{ID: "C03", Level: "exploration", Method: "output comparison over repetitions and histories",
		Rule:  "sets of schema files (valid, broken, hostile) x 5 languages x repetitions, histories, fresh processes, stale outputs; distinct = structurally different inputs",
		Quick: 1200, Deep: 30000, Run: runC03, MinN: []string{"repetitions", "fresh processes", "failing translations before"}})
	register(&Driver{ID: "C04", Level: "exploration", Method: "race detector and comparison with solo runs",
		Rule:  "groups of 4-16 concurrent translations (any mix of schemas, languages, modes) x 3 rounds on varying processors, race detector on; distinct = kinds of input x mixes x processors",
		Quick: 700, Deep: 20000, Run: runC04, MinN: []string{"concurrent runs", "piped inputs", "rounds before any solo run"}, Timeout: 120, PerProc: 5})
}
