package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// The driver.
//
//	vrun check -prop C01 -tier quick   runs a check
//	vrun worker ...                    executes cases (started by check)
//	vrun shrink -file F -out G         minimises a failing case in one process
//	vrun replay -file F                executes one recorded case

// Variant is an environment in which cases are executed
type Variant struct {
	Name string
	Env  []string
	Race bool // executed under the race detector
	Part int  // only one of so many cases is executed
}

// Prop is a property and the check that decides it
type Prop struct {
	ID       string
	Quick    int // number of cases
	Thorough int
	Variants []Variant
	Init     func(v *Variant)
	Run      func(cx *Cx) *Outcome
	Rule     string
	Assume   []string
	Cap      int // seconds a quick check may take at most
}

// Cx is what a case is made from
type Cx struct {
	S    *Src
	Idx  int
	Var  *Variant
	Tier string
	Prop *Prop
}

// Outcome of one case
type Outcome struct {
	Viol string
	Hang bool
	Hist []string
	Non  bool // non-trivial
	Case interface{}
	Feat map[string]int
	Evs  int // evaluations (1 if 0)
}

// Found is a violation on disk
type Found struct {
	Property string      `json:"property"`
	Variant  string      `json:"variant"`
	Index    int         `json:"index"`
	Seed     uint64      `json:"seed"`
	Tier     string      `json:"tier"`
	Message  string      `json:"message"`
	Hang     bool        `json:"hang,omitempty"`
	Crash    string      `json:"crash,omitempty"`
	Choices  []uint64    `json:"choices"`
	Case     interface{} `json:"case,omitempty"`
	History  []string    `json:"history,omitempty"`
}

// Stats of a worker
type Stats struct {
	Cases   int
	Evs     int
	Feat    map[string]int
	Hashes  []uint64
	Samples []interface{}
	MaxMS   int64
	MaxIdx  int
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

var stdEnv = []string{"FLOGO_MAX_STEP_COUNT=20000", "FLOGO_LOG_LEVEL=ERROR"}
var (
	seqVar  = Variant{Name: "sequential"}
	concVar = Variant{Name: "concurrent", Env: []string{"FLOGO_FLOW_CONCURRENT_TASK_EXECUTION=true"}}
	// with the race detector
	raceSeqVar  = Variant{Name: "sequential-race", Race: true, Part: 4}
	raceConcVar = Variant{Name: "concurrent-race", Env: concVar.Env, Race: true, Part: 4}
	// with the log lines of all levels (which go nowhere)
	debugVar     = Variant{Name: "debug-log", Env: []string{"FLOGO_LOG_LEVEL=DEBUG", "FLOGO_LOG_CTX=true"}, Part: 12}
	debugConcVar = Variant{Name: "concurrent-debug-log", Env: append([]string{"FLOGO_LOG_LEVEL=DEBUG", "FLOGO_LOG_CTX=true"}, concVar.Env...), Part: 16}
	prioVar      = Variant{Name: "prioritise-expression-links", Env: []string{"FLOGO_TASK_PRIORITIZE_EXPR_LINK=true"}}
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vrun check|worker|shrink|replay")
		os.Exit(2)
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	propID := fs.String("prop", "", "property")
	tier := fs.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	n := fs.Int("n", 0, "number of cases (0: by tier)")
	from := fs.Int("from", 0, "first case")
	stride := fs.Int("stride", 1, "distance of cases")
	dir := fs.String("dir", "", "working directory")
	file := fs.String("file", "", "replay file")
	out := fs.String("out", "", "output")
	varn := fs.Int("variant", 0, "variant")
	workers := fs.Int("workers", 0, "number of processes")
	keep := fs.Int("keep", 0, "go on after violations")
	verbose := fs.Bool("v", false, "verbose")
	_ = fs.Parse(os.Args[2:])
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed := uint64(1)
	if v, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = uint64(v)
	}
	var p *Prop
	if *file == "" {
		p = props[*propID]
		if p == nil {
			fmt.Fprintln(os.Stderr, "unknown property", *propID)
			os.Exit(2)
		}
	}
	switch cmd {
	case "check":
		os.Exit(check(p, *tier, seed, *n, *workers))
	case "worker":
		worker(p, *tier, seed, *varn, *from, *stride, *n, *dir, *keep)
	case "shrink":
		shrink(*file, *out)
	case "replay":
		os.Exit(replay(*file, *verbose))
	case "needs-race":
		// whether a binary with the race detector is needed
		if *file != "" {
			f, q := readFound(*file)
			_, v := q.variant(f.Variant)
			if v.Race {
				os.Exit(0)
			}
			os.Exit(1)
		}
		for _, v := range p.Variants {
			if v.Race {
				os.Exit(0)
			}
		}
		os.Exit(1)
	case "one":
		os.Exit(one(*file))
	case "show":
		cx := &Cx{S: NewSrc(seed, p.ID, *from), Idx: *from, Var: &p.Variants[*varn], Tier: *tier, Prop: p}
		p.start(cx.Var)
		atomic.StoreInt64(&curCase, int64(cx.Idx))
		o := p.Run(cx)
		b, _ := json.MarshalIndent(o, "", " ")
		fmt.Println(string(b))
	default:
		os.Exit(2)
	}
}

func (p *Prop) start(v *Variant) {
	if p.Init != nil {
		p.Init(v)
	} else {
		initEngine(nil, nil)
	}
}

func (p *Prop) variant(name string) (int, *Variant) {
	for i := range p.Variants {
		if p.Variants[i].Name == name {
			return i, &p.Variants[i]
		}
	}
	return 0, &p.Variants[0]
}

// ---- worker

func worker(p *Prop, tier string, seed uint64, varn, from, stride, n int, dir string, keep int) {
	if dir != "" {
		if f, err := os.Create(filepath.Join(dir, fmt.Sprintf("crash%d", from))); err == nil {
			_ = debug.SetCrashOutput(f, debug.CrashOptions{})
		}
	}
	debug.SetTraceback("all")
	debug.SetMaxStack(256 << 20) // endless recursion is noticed soon
	v := &p.Variants[varn]
	p.start(v)
	cur, err := os.Create(filepath.Join(dir, fmt.Sprintf("current%d", from)))
	if err != nil {
		panic(err)
	}
	st := &Stats{Feat: map[string]int{}}
	seen := map[uint64]bool{}
	save := func() {
		for h := range seen {
			st.Hashes = append(st.Hashes, h)
		}
		b, err := json.Marshal(st)
		if err == nil {
			err = os.WriteFile(filepath.Join(dir, fmt.Sprintf("stats%d", from)), b, 0o644)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	for idx, k := from, 0; idx < n; idx, k = idx+stride, k+1 {
		if v.Part > 1 && k%v.Part != 0 {
			continue
		}
		if _, err := os.Stat(filepath.Join(dir, "stop")); err == nil {
			break
		}
		_, _ = cur.WriteAt([]byte(fmt.Sprintf("%-12d", idx)), 0)
		cx := &Cx{S: NewSrc(seed, p.ID, idx), Idx: idx, Var: v, Tier: tier, Prop: p}
		t0 := time.Now()
		atomic.StoreInt64(&curCase, int64(cx.Idx))
		o := p.Run(cx)
		o.race(cx.Var)
		if ms := time.Since(t0).Milliseconds(); ms > st.MaxMS {
			st.MaxMS, st.MaxIdx = ms, idx
		}
		st.Cases++
		if o.Evs == 0 {
			o.Evs = 1
		}
		st.Evs += o.Evs
		for k, c := range o.Feat {
			st.Feat[k] += c
		}
		if o.Non {
			b, _ := json.Marshal(o.Case)
			seen[hashStr(string(b))] = true
			if len(st.Samples) < 2 && idx > from+10*stride && len(b) < 4000 {
				st.Samples = append(st.Samples, o.Case)
			}
		}
		if o.Viol != "" {
			f := &Found{Property: p.ID, Variant: v.Name, Index: idx, Seed: seed, Tier: tier, Message: o.Viol, Hang: o.Hang, Choices: cx.S.out, Case: o.Case, History: o.Hist}
			writeFound(filepath.Join(dir, fmt.Sprintf("viol%d_%d", from, idx)), f)
			keep--
			if keep <= 0 {
				save()
				os.Exit(3)
			}
		}
	}
	save()
}

func writeFound(path string, f *Found) {
	b, err := json.MarshalIndent(f, "", " ")
	if err != nil {
		f.Case = fmt.Sprintf("%+v", f.Case)
		b, _ = json.MarshalIndent(f, "", " ")
	}
	if err := os.WriteFile(path, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

func readFound(path string) (*Found, *Prop) {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	f := &Found{}
	if err := json.Unmarshal(b, f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	p := props[f.Property]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", f.Property)
		os.Exit(2)
	}
	return f, p
}

func (f *Found) exec(p *Prop, choices []uint64) (*Outcome, []uint64) {
	_, v := p.variant(f.Variant)
	for i := 0; ; i++ {
		cx := &Cx{S: ReplaySrc(choices), Idx: f.Index, Var: v, Tier: f.Tier, Prop: p}
		atomic.StoreInt64(&curCase, int64(cx.Idx))
		o := p.Run(cx)
		o.race(v)
		if o.Viol != "" || !v.Race || i == 5 {
			return o, cx.S.out
		}
	}
}

// race adds what the race detector has reported
func (o *Outcome) race(v *Variant) {
	if v.Race && raceOn {
		if r := newRaces(); r != "" && o.Viol == "" {
			o.Hist = append(o.Hist, strings.Split(r, "\n")...)
			o.Viol = strings.SplitN(r, "\n", 2)[0]
		}
		if o.Feat != nil {
			o.Feat["under-race-detector"]++
		}
	}
}

// shrink minimises a violation found in one process
func shrink(file, out string) {
	f, p := readFound(file)
	_, v := p.variant(f.Variant)
	p.start(v)
	end := time.Now().Add(60 * time.Second)
	n := 0
	best := shrinkChoices(f.Choices, func(c []uint64) ([]uint64, bool) {
		if time.Now().After(end) {
			return nil, false
		}
		n++
		o, used := f.exec(p, c)
		if o.Viol == "" || o.Hang {
			return nil, false
		}
		g := *f
		g.Choices, g.Message, g.Case, g.History = used, o.Viol, o.Case, o.Hist
		writeFound(out, &g)
		return used, true
	}, 3000)
	_ = best
}

// one executes a recorded case: 0 fine, 3 violation
func one(file string) int {
	f, p := readFound(file)
	debug.SetTraceback("all")
	debug.SetMaxStack(256 << 20) // endless recursion is noticed soon
	_, v := p.variant(f.Variant)
	p.start(v)
	o, used := f.exec(p, f.Choices)
	if o.Viol != "" {
		f.Message, f.Case, f.History, f.Choices, f.Hang = o.Viol, o.Case, o.Hist, used, o.Hang
		writeFound(file, f)
		return 3
	}
	return 0
}

func envFor(v *Variant, extra ...string) []string {
	var env []string
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "FLOGO_") {
			continue
		}
		env = append(env, e)
	}
	all := append(append([]string{}, stdEnv...), v.Env...)
	for i, e := range all {
		// "-NAME" removes a variable
		drop := e[0] == '-'
		for _, x := range all[i+1:] {
			if x[0] == '-' && strings.HasPrefix(e, x[1:]+"=") {
				drop = true
			}
		}
		if !drop {
			env = append(env, e)
		}
	}
	return append(env, extra...)
}

// replay executes a replay file in a process of its own (it may crash)
func replay(file string, verbose bool) int {
	f, p := readFound(file)
	_, v := p.variant(f.Variant)
	dir, err := os.MkdirTemp("", "vreplay")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	_ = os.Setenv("TMPDIR", dir)
	tmp, err := os.CreateTemp("", "vreplay")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for i := 0; i < 5; i++ {
		writeFound(tmp.Name(), f)
		code, stderr := runOne(tmp.Name(), v, 120*time.Second)
		switch {
		case code == 3:
			g, _ := readFound(tmp.Name())
			fmt.Println(g.Message)
			if verbose {
				fmt.Println(strings.Join(g.History, "\n"))
				b, _ := json.MarshalIndent(g.Case, "", " ")
				fmt.Println(string(b))
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, file)
			return 1
		case code != 0:
			if msg, mine := crashKind(stderr); msg != "" {
				fmt.Println(msg)
				fmt.Println(stderr)
				if !mine {
					fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, file)
					return 1
				}
			}
			return 2
		}
	}
	fmt.Println("not reproduced")
	return 0
}

func runOne(file string, v *Variant, limit time.Duration, extra ...string) (int, string) {
	c := exec.Command(exeFor(v), "one", "-file", file)
	c.Env = envFor(v, append(extra, raceEnv(v, filepath.Dir(file), true)...)...)
	var buf bytes.Buffer
	c.Stderr = &buf
	if err := c.Start(); err != nil {
		return 2, err.Error()
	}
	t := time.AfterFunc(limit, func() { _ = c.Process.Kill() })
	err := c.Wait()
	t.Stop()
	if err == nil {
		return 0, ""
	}
	if ee, ok := err.(*exec.ExitError); ok {
		return ee.ExitCode(), buf.String()
	}
	return 2, err.Error()
}

func selfExe() string {
	e, err := os.Executable()
	if err != nil {
		return os.Args[0]
	}
	return e
}

// firstFrame gets the function on top of the first goroutine of a dump
func firstFrame(dump string) string {
	l := strings.Split(dump, "\n")
	if len(l) < 2 {
		return ""
	}
	f := l[1]
	if k := strings.LastIndexByte(f, '('); k > 0 {
		f = f[:k]
	}
	return f
}

// crashKind finds out from a crash dump what crashed: a message, and whether
// it was the machinery itself
func crashKind(dump string) (string, bool) {
	i := strings.Index(dump, "panic: ")
	if j := strings.Index(dump, "fatal error: "); j >= 0 && (i < 0 || j < i) {
		i = j
	}
	if i < 0 {
		// the message of a fatal error is not part of the dump in the crash file
		if i = strings.Index(dump, "goroutine "); i < 0 || !strings.Contains(dump, "fatal") && !strings.Contains(dump, "runtime.newstack()") {
			return "", true
		}
		what := firstFrame(dump[i:])
		if strings.Contains(dump, "runtime.newstack()") {
			what = "stack overflow"
		}
		dump = "fatal error: " + what + "\n\n" + dump[i:]
		i = 0
	}
	dump = dump[i:]
	msg := dump
	if k := strings.IndexByte(msg, '\n'); k >= 0 {
		msg = msg[:k]
	}
	if strings.Contains(msg, "harness:") || strings.Contains(msg, "out of memory") {
		return msg, true
	}
	g := strings.Index(dump, "\ngoroutine ")
	if g < 0 {
		return msg, true
	}
	st := dump[g+1:]
	if e := strings.Index(st, "\n\n"); e >= 0 {
		st = st[:e]
	}
	sc := bufio.NewScanner(strings.NewReader(st))
	sc.Buffer(nil, 1<<22)
	for sc.Scan() {
		l := sc.Text()
		if strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "goroutine ") {
			continue
		}
		if strings.HasPrefix(l, "github.com/project-flogo/") {
			return msg + " in " + l, false
		}
		if strings.HasPrefix(l, "main.") || strings.HasPrefix(l, "verif/harness/") {
			return msg + " in " + l, true
		}
		if strings.HasPrefix(l, "created by github.com/project-flogo/") {
			return msg + " " + l, false
		}
	}
	if strings.Contains(msg, "stack overflow") || strings.Contains(msg, "stack exceeds") {
		return msg, !strings.Contains(dump, "github.com/project-flogo/")
	}
	return msg, true
}

// ---- check

func check(p *Prop, tier string, seed uint64, n, nw int) int {
	t0 := time.Now()
	if n == 0 {
		n = p.Quick
		if tier == "thorough" {
			n = p.Thorough
		}
	}
	if nw == 0 {
		nw = 8
		if c := runtime.NumCPU(); c < nw {
			nw = c
		}
		if nw < len(p.Variants) {
			nw = len(p.Variants)
		}
	}
	root := os.Getenv("VERIF_DIR")
	if root == "" {
		root = "/verif"
	}
	dir, err := os.MkdirTemp("", "vrun")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	// the processes started from here keep their files there
	_ = os.Setenv("TMPDIR", dir)
	capS := p.Cap
	if capS == 0 {
		capS = 400
	}
	if tier == "thorough" {
		capS = 3000
	}
	type res struct {
		w    int
		code int
		err  error
	}
	ch := make(chan res, nw)
	var mu sync.Mutex
	var procs []*exec.Cmd
	for w := 0; w < nw; w++ {
		vi := w % len(p.Variants)
		c := exec.Command(exeFor(&p.Variants[vi]), "worker", "-prop", p.ID, "-tier", tier, "-variant", strconv.Itoa(vi), "-from", strconv.Itoa(w), "-stride", strconv.Itoa(nw), "-n", strconv.Itoa(n), "-dir", dir)
		c.Env = envFor(&p.Variants[vi], raceEnv(&p.Variants[vi], dir, false)...)
		lf, err := os.Create(filepath.Join(dir, fmt.Sprintf("log%d", w)))
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		c.Stderr = &limitedWriter{f: lf, left: 1 << 20}
		if err := c.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		mu.Lock()
		procs = append(procs, c)
		mu.Unlock()
		go func(w int) {
			err := c.Wait()
			code := 0
			if err != nil {
				code = -1
				if ee, ok := err.(*exec.ExitError); ok {
					code = ee.ExitCode()
				}
			}
			ch <- res{w, code, err}
		}(w)
	}
	stop := func() {
		_ = os.WriteFile(filepath.Join(dir, "stop"), nil, 0o644)
	}
	killAll := func() {
		for _, c := range procs {
			_ = c.Process.Kill()
		}
	}
	soft := time.After(time.Duration(capS) * time.Second)
	var hard <-chan time.Time
	var bad []res
	killed := false
	for left := nw; left > 0; {
		select {
		case r := <-ch:
			left--
			if r.code != 0 && !killed {
				bad = append(bad, r)
				stop()
				if hard == nil {
					hard = time.After(20 * time.Second)
				}
			}
		case <-soft:
			fmt.Printf("%s: time is up, finishing\n", p.ID)
			stop()
			hard = time.After(90 * time.Second)
		case <-hard:
			killed = true
			killAll()
		}
	}
	var found *Found
	toolErr := ""
	for _, r := range bad {
		var f *Found
		if r.code == 3 {
			ms, _ := filepath.Glob(filepath.Join(dir, fmt.Sprintf("viol%d_*", r.w)))
			for _, m := range ms {
				g, _ := readFound(m)
				if f == nil || g.Index < f.Index {
					f = g
				}
			}
		} else {
			b, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("crash%d", r.w)))
			if len(b) == 0 {
				b, _ = os.ReadFile(filepath.Join(dir, fmt.Sprintf("log%d", r.w)))
			}
			msg, mine := crashKind(string(b))
			if msg == "" || mine {
				toolErr = fmt.Sprintf("worker %d ended with %v: %s\n%s", r.w, r.err, msg, head(string(b), 4000))
				continue
			}
			cb, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("current%d", r.w)))
			idx, _ := strconv.Atoi(strings.TrimSpace(string(cb)))
			f = crashFound(p, tier, seed, idx, r.w%len(p.Variants), msg, head(string(b), 6000))
		}
		if f != nil && (found == nil || f.Index < found.Index) {
			found = f
		}
	}
	st, hashes := collect(dir, nw)
	viol := 0
	code := 0
	if found != nil {
		viol = 1
		code = 1
		path := report(root, dir, p, found)
		fmt.Println(found.Message)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
	} else if toolErr != "" {
		fmt.Fprintln(os.Stderr, "check failed:", toolErr)
		return 2
	} else if st.Cases == 0 {
		fmt.Fprintln(os.Stderr, "check failed: no cases were executed")
		return 2
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]interface{}{
			"evaluations": st.Evs, "distinct_nontrivial": len(hashes), "rule": p.Rule, "samples": st.Samples,
			"cases": st.Cases, "features": st.Feat, "longest_case_ms": st.MaxMS,
		},
		"wall_s": time.Since(t0).Seconds(), "violations": viol,
	}
	if p.Assume != nil {
		ev["assumptions"] = p.Assume
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err == nil {
		_ = os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
		err = os.WriteFile(filepath.Join(root, "evidence", p.ID+".json"), b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s: %d cases, %d evaluations, %d distinct non-trivial, %.1f s\n", p.ID, st.Cases, st.Evs, len(hashes), time.Since(t0).Seconds())
	if code == 0 {
		printKnown(root, p)
	}
	return code
}

type limitedWriter struct {
	f    *os.File
	left int
}

func (l *limitedWriter) Write(b []byte) (int, error) {
	n := len(b)
	if len(b) > l.left {
		b = b[:l.left]
	}
	l.left -= len(b)
	if len(b) > 0 {
		_, _ = l.f.Write(b)
	}
	return n, nil
}

func head(s string, n int) string {
	if i := strings.Index(s, "panic: "); i > 0 {
		s = s[i:]
	} else if i := strings.Index(s, "fatal error: "); i > 0 {
		s = s[i:]
	}
	if len(s) > n {
		return s[:n]
	}
	return s
}

// crashFound makes the record of a case that crashed its process
func crashFound(p *Prop, tier string, seed uint64, idx, vi int, msg, dump string) *Found {
	f := &Found{Property: p.ID, Variant: p.Variants[vi].Name, Index: idx, Seed: seed, Tier: tier,
		Message: "the process crashes: " + msg, Crash: dump}
	// the choices are not known (the process is gone): a long prefix of the random sequence
	s := NewSrc(seed, p.ID, idx)
	for i := 0; i < 6000; i++ {
		f.Choices = append(f.Choices, s.next())
	}
	return f
}

// report shrinks the violation and writes the replay file
func report(root, dir string, p *Prop, f *Found) string {
	_, v := p.variant(f.Variant)
	if f.Crash == "" && !f.Hang {
		in, out := filepath.Join(dir, "shrink.in"), filepath.Join(dir, "shrink.out")
		writeFound(in, f)
		c := exec.Command(exeFor(v), "shrink", "-file", in, "-out", out)
		c.Env = envFor(v, append(raceEnv(v, dir, true), "VRUN_LIMIT_MS=4000")...)
		if c.Start() == nil {
			t := time.AfterFunc(75*time.Second, func() { _ = c.Process.Kill() })
			_ = c.Wait()
			t.Stop()
		}
		if _, err := os.Stat(out); err == nil {
			b, _ := os.ReadFile(out)
			g := &Found{}
			if json.Unmarshal(b, g) == nil {
				*f = *g
			}
		}
	} else {
		end := time.Now().Add(60 * time.Second)
		tmp := filepath.Join(dir, "one.json")
		try := func(c []uint64) ([]uint64, bool) {
			if time.Now().After(end) {
				return nil, false
			}
			g := *f
			g.Choices = c
			g.Case, g.History = nil, nil
			writeFound(tmp, &g)
			code, stderr := runOne(tmp, v, 30*time.Second, "VRUN_LIMIT_MS=3000")
			if f.Hang {
				if code != 3 {
					return nil, false
				}
				h, _ := readFound(tmp)
				if !h.Hang {
					return nil, false
				}
				f.Case, f.History, f.Choices, f.Message = h.Case, h.History, h.Choices, h.Message
				return h.Choices, true
			}
			msg, mine := crashKind(stderr)
			if code == 0 || code == 3 || msg == "" || mine {
				return nil, false
			}
			f.Choices, f.Message, f.Crash = c, "the process crashes: "+msg, head(stderr, 6000)
			return c, true
		}
		shrinkChoices(f.Choices, try, 200)
	}
	rd := filepath.Join(root, "replays")
	_ = os.MkdirAll(rd, 0o755)
	path := filepath.Join(rd, fmt.Sprintf("%s-%d-%d.json", p.ID, f.Seed, f.Index))
	writeFound(path, f)
	return path
}

func collect(dir string, nw int) (*Stats, map[uint64]bool) {
	st := &Stats{Feat: map[string]int{}}
	hs := map[uint64]bool{}
	for w := 0; w < nw; w++ {
		b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("stats%d", w)))
		if err != nil {
			continue
		}
		x := &Stats{}
		if json.Unmarshal(b, x) != nil {
			continue
		}
		st.Cases += x.Cases
		st.Evs += x.Evs
		for k, v := range x.Feat {
			st.Feat[k] += v
		}
		for _, h := range x.Hashes {
			hs[h] = true
		}
		if len(st.Samples) < 4 && len(x.Samples) > 0 {
			st.Samples = append(st.Samples, x.Samples[0])
		}
		if x.MaxMS > st.MaxMS {
			st.MaxMS, st.MaxIdx = x.MaxMS, x.MaxIdx
		}
	}
	return st, hs
}

// printKnown prints the listed findings of the property
func printKnown(root string, p *Prop) {
	b, err := os.ReadFile(filepath.Join(root, "known_findings.txt"))
	if err != nil {
		return
	}
	var ls []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "known: property="+p.ID+" ") {
			ls = append(ls, "KNOWN-FINDING: "+strings.TrimPrefix(l, "known: "))
		}
	}
	sort.Strings(ls)
	for _, l := range ls {
		fmt.Println(l)
	}
}
