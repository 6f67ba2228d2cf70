package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// A check decides one property. It is a list of workloads; a workload is a
// number of cases, each a deterministic function of (seed, workload, index).
type Workload struct {
	Name            string
	Quick, Thorough int // cases
	Run             func(c *Case)
	Once            bool // not multiplied by the check's Scale
}

type Check struct {
	ID      string
	Rule    string
	Assume  []string
	Race    bool // run with the race-detector build
	Procs   int  // worker processes, 0 = default
	Scale   int  // multiplies the numbers of cases, 0 = 1
	Load    []Workload
	Known   func() []KnownResult // pinned known findings, re-run every time
	Require map[string]int       // counters this run must have reached (else inconclusive)
}

type KnownResult struct {
	Key    string
	Failed bool
	What   string
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// Case is one execution of a workload's body.
type Case struct {
	R     *Rng
	Idx   int
	Tier  string
	wl    *Workload
	w     *worker
	trace []string
	fails int
}

func (c *Case) Count(name string)      { c.w.counts[name]++ }
func (c *Case) Add(name string, n int) { c.w.counts[name] += n }
func (c *Case) Eval(n int)             { c.w.evals += n }

// Nontrivial records a distinct non-trivial execution by a hash of its content.
func (c *Case) Nontrivial(key string) {
	h := hashStr(c.wl.Name) ^ hashStr(key)*0x9E3779B97F4A7C15
	if len(c.w.seen) < 4<<20 { // bounds the memory; the count is then a lower bound
		c.w.seen[h] = struct{}{}
	}
}

func (c *Case) Sample(f func() string) {
	if c.w.samples[c.wl.Name] < 1 && c.w.shard == 0 {
		c.w.samples[c.wl.Name]++
		s := f()
		if len(s) > 1500 {
			s = s[:1500] + "..."
		}
		c.w.sampleTxt = append(c.w.sampleTxt, c.wl.Name+"#"+strconv.Itoa(c.Idx)+": "+s)
	}
}

// allFails (for development) goes on after many failures and prints every kind.
var allFails = os.Getenv("VERIF_ALLFAIL") != ""

// Fail reports a violation.
func (c *Case) Fail(kind, format string, args ...interface{}) {
	c.fails++
	c.w.nfail++
	if allFails {
		c.Count("fail:" + kind)
	}
	msg := fmt.Sprintf(format, args...)
	f := Failure{c.wl.Name, c.Idx, kind, msg}
	if c.w.single {
		fmt.Printf("FAIL %s#%d %s\n%s\n", f.Workload, f.Idx, f.Kind, f.Msg)
	}
	k := f.Workload + "/" + kind
	if o, ok := c.w.best[k]; !ok || len(f.Msg) < len(o.Msg) {
		c.w.best[k] = f
	}
}

type Failure struct {
	Workload string
	Idx      int
	Kind     string
	Msg      string
}

type worker struct {
	check     *Check
	shard     int
	single    bool
	counts    map[string]int
	evals     int
	seen      map[uint64]struct{}
	samples   map[string]int
	sampleTxt []string
	nfail     int
	best      map[string]Failure
	prog      []uint64 // mmapped: workload index+1, case index, done
}

type shardResult struct {
	Evals   int
	Counts  map[string]int
	Samples []string
	NFail   int
	Fails   []Failure
}

func seedVal() uint64 {
	s, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return s
}

func tierVal() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

func (w *worker) runCase(wl *Workload, idx int, tier string) {
	c := &Case{R: NewRng(seedVal(), wl.Name, idx), Idx: idx, wl: wl, w: w, Tier: tier}
	func() {
		defer func() {
			if e := recover(); e != nil {
				c.Fail("panic", "panic: %v\n%s", e, trimStack(string(debug.Stack())))
			}
		}()
		wl.Run(c)
	}()
}

func trimStack(s string) string {
	ls := strings.Split(s, "\n")
	var out []string
	for i := 0; i < len(ls); i++ {
		if strings.Contains(ls[i], "gojsonsm") || strings.Contains(ls[i], "main.") {
			out = append(out, ls[i])
		}
		if len(out) > 14 {
			break
		}
	}
	return strings.Join(out, "\n")
}

const (
	exitHang = 97
	exitMem  = 98
)

// watchdog ends the process when one case has burnt far more CPU time (not
// wall time) than any case should, or when memory explodes. The parent then
// confirms by running that case alone.
func watchdog(prog []uint64, cpuLimit time.Duration, memLimit uint64) {
	lastKey, lastCPU, lastWall := uint64(0), time.Duration(0), time.Now()
	for {
		time.Sleep(500 * time.Millisecond)
		var ru syscall.Rusage
		syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
		cpu := time.Duration(ru.Utime.Nano())
		key := atomic.LoadUint64(&prog[0])<<40 | atomic.LoadUint64(&prog[1])
		if key != lastKey {
			lastKey, lastCPU, lastWall = key, cpu, time.Now()
		} else if cpu-lastCPU > cpuLimit || time.Since(lastWall) > 10*cpuLimit {
			os.Exit(exitHang)
		}
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > memLimit {
			os.Exit(exitMem)
		}
	}
}

func mapProgress(path string) []uint64 {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		fatal(err)
	}
	f.Truncate(64)
	b, err := syscall.Mmap(int(f.Fd()), 0, 64, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		fatal(err)
	}
	return unsafe.Slice((*uint64)(unsafe.Pointer(&b[0])), 8)
}

func fatal(v interface{}) {
	fmt.Fprintln(os.Stderr, "harness error:", v)
	os.Exit(3)
}

// workerMain: worker ID SHARD NSHARDS OUT PROG [skip wl:idx,...]
func workerMain(args []string) {
	ck := checks[args[0]]
	plainLits = args[0] == "C20" || args[0] == "C25"
	shard, _ := strconv.Atoi(args[1])
	n, _ := strconv.Atoi(args[2])
	out, progPath := args[3], args[4]
	skip := map[string]bool{}
	for _, s := range args[5:] {
		skip[s] = true
	}
	debug.SetMaxStack(64 << 20)
	w := &worker{check: ck, shard: shard, counts: map[string]int{}, seen: map[uint64]struct{}{}, samples: map[string]int{}, best: map[string]Failure{}}
	w.prog = mapProgress(progPath)
	go watchdog(w.prog, 15*time.Second, 3<<30)
	tier := tierVal()
	for wi := range ck.Load {
		wl := &ck.Load[wi]
		total := wl.Quick
		if tier == "thorough" {
			total = wl.Thorough
		}
		if ck.Scale > 0 && !wl.Once {
			total *= ck.Scale
		}
		for i := shard; i < total; i += n {
			if skip[fmt.Sprintf("%d:%d", wi, i)] {
				continue
			}
			atomic.StoreUint64(&w.prog[0], uint64(wi+1))
			atomic.StoreUint64(&w.prog[1], uint64(i))
			w.runCase(wl, i, tier)
			w.counts["cases:"+wl.Name]++
			if w.nfail > 400 && !allFails {
				break
			}
		}
	}
	res := shardResult{Evals: w.evals, Counts: w.counts, Samples: w.sampleTxt, NFail: w.nfail}
	for _, f := range w.best {
		res.Fails = append(res.Fails, f)
	}
	b, _ := json.Marshal(res)
	if err := os.WriteFile(out, b, 0o644); err != nil {
		fatal(err)
	}
	hf, err := os.Create(out + ".seen")
	if err != nil {
		fatal(err)
	}
	bw := bufio.NewWriter(hf)
	for h := range w.seen {
		binary.Write(bw, binary.LittleEndian, h)
	}
	bw.Flush()
	hf.Close()
	atomic.StoreUint64(&w.prog[2], 1)
}

// oneMain: one ID WORKLOAD IDX — a single case, verbosely.
func oneMain(args []string) {
	ck := checks[args[0]]
	plainLits = args[0] == "C20" || args[0] == "C25"
	idx, _ := strconv.Atoi(args[2])
	debug.SetMaxStack(64 << 20)
	w := &worker{check: ck, single: true, counts: map[string]int{}, seen: map[uint64]struct{}{}, samples: map[string]int{}, best: map[string]Failure{}}
	w.prog = make([]uint64, 8)
	go watchdog(w.prog, 25*time.Second, 3<<30)
	for wi := range ck.Load {
		if ck.Load[wi].Name == args[1] {
			w.runCase(&ck.Load[wi], idx, tierVal())
		}
	}
	if w.nfail > 0 {
		os.Exit(1)
	}
}

type running struct {
	cmd    *exec.Cmd
	shard  int
	out    string
	prog   string
	errlog string
	skip   []string
	err    error
}

func (r *running) start(id string, n int, seq int, race bool, procs int) {
	r.errlog = fmt.Sprintf("%s.err%d", r.out, seq)
	ef, err := os.Create(r.errlog)
	if err != nil {
		fatal(err)
	}
	args := []string{"worker", id, strconv.Itoa(r.shard), strconv.Itoa(n), r.out, r.prog}
	args = append(args, r.skip...)
	r.cmd = exec.Command(os.Args[0], args...)
	r.cmd.Stderr = ef
	r.cmd.Stdout = ef
	r.cmd.Env = append(os.Environ(), "GOTRACEBACK=single", fmt.Sprintf("GOMAXPROCS=%d", procs))
	if race {
		r.cmd.Env = append(r.cmd.Env, "GORACE=halt_on_error=1 exitcode=66 history_size=3 atexit_sleep_ms=0")
	}
	if err := r.cmd.Start(); err != nil {
		fatal(err)
	}
	ef.Close()
}

func tail(path string, n int) string {
	b, _ := os.ReadFile(path)
	if len(b) > n {
		b = b[:n]
	}
	return string(b)
}

// runMain: run ID
func runMain(id string) {
	ck := checks[id]
	plainLits = id == "C20" || id == "C25"
	if ck == nil {
		fmt.Fprintln(os.Stderr, "no such check", id)
		os.Exit(3)
	}
	start := time.Now()
	tier := tierVal()
	root := verifRoot()
	dir, err := os.MkdirTemp("", "gojsonsm-verif-"+id+"-")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(dir)
	n := ck.Procs
	if n == 0 {
		n = 8
	}
	procs, first := n, 0
	if p := os.Getenv("VERIF_PART"); p != "" { // k/n: only this part of the work
		fmt.Sscanf(p, "%d/%d", &first, &n)
		procs = 1
	}
	gmp := 2
	if ck.Race {
		gmp = 4
	}
	var fails []Failure
	inconclusive := ""
	done := make(chan *running, procs)
	launch := func(r *running, seq int) {
		r.start(id, n, seq, ck.Race, gmp)
		go func() {
			r.err = r.cmd.Wait()
			done <- r
		}()
	}
	seqs := make([]int, n)
	var all []*running
	for s := first; s < first+procs; s++ {
		r := &running{shard: s, out: filepath.Join(dir, fmt.Sprintf("s%d", s)), prog: filepath.Join(dir, fmt.Sprintf("p%d", s))}
		launch(r, 0)
		all = append(all, r)
	}
	left := procs
	crashes := 0
	ended := false // a process-ending failure is confirmed: no more restarts
	stop := make(<-chan time.Time)
	for left > 0 {
		var r *running
		select {
		case r = <-done:
		case <-stop:
			for _, o := range all {
				o.cmd.Process.Kill()
			}
			stop = nil
			continue
		}
		if r.err == nil {
			left--
			continue
		}
		if ended {
			left--
			continue
		}
		// the process died: which case was it?
		prog := mapProgress(r.prog)
		wi, ci := int(prog[0])-1, int(prog[1])
		text := tail(r.errlog, 4000)
		code := r.cmd.ProcessState.ExitCode()
		if wi < 0 || code == 3 {
			inconclusive = fmt.Sprintf("worker failed (exit %d): %s", code, text)
			left--
			continue
		}
		wl := ck.Load[wi]
		kind := "crash"
		switch {
		case code == exitHang:
			kind = "hang"
		case code == exitMem:
			kind = "memory"
		case strings.Contains(text, "DATA RACE"):
			kind = "data race"
		}
		confirmed := kind == "data race" || strings.Contains(text, "concurrent map")
		if !confirmed {
			for try := 0; try < 2 && !confirmed; try++ {
				cmd := exec.Command(os.Args[0], "one", id, wl.Name, strconv.Itoa(ci))
				cmd.Env = append(os.Environ(), "GOTRACEBACK=single")
				o, err := cmd.CombinedOutput()
				if err != nil {
					confirmed = true
					if len(o) > 4000 {
						o = o[:4000]
					}
					text = string(o)
				}
			}
		}
		if confirmed {
			fails = append(fails, Failure{wl.Name, ci, kind, kind + " (process ended, exit " + strconv.Itoa(code) + ")\n" + text})
			ended = true
			stop = time.After(60 * time.Second)
			left--
			continue
		} else {
			inconclusive = fmt.Sprintf("worker ended (exit %d, %s) in %s#%d but the case alone does not: %s", code, kind, wl.Name, ci, text)
		}
		crashes++
		if crashes > 6 {
			left--
			continue
		}
		r.skip = append(r.skip, fmt.Sprintf("%d:%d", wi, ci))
		seqs[r.shard]++
		launch(r, seqs[r.shard])
	}

	counts := map[string]int{}
	seen := map[uint64]struct{}{}
	var samples []string
	evals, nfail := 0, len(fails)
	for s := first; s < first+procs; s++ {
		b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("s%d", s)))
		if err != nil {
			if len(fails) == 0 && inconclusive == "" {
				inconclusive = "missing result of a worker"
			}
			continue
		}
		var sr shardResult
		json.Unmarshal(b, &sr)
		evals += sr.Evals
		nfail += sr.NFail
		for k, v := range sr.Counts {
			if strings.HasPrefix(k, "max:") {
				if v > counts[k] {
					counts[k] = v
				}
				continue
			}
			counts[k] += v
		}
		samples = append(samples, sr.Samples...)
		fails = append(fails, sr.Fails...)
		hb, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("s%d.seen", s)))
		for i := 0; i+8 <= len(hb); i += 8 {
			seen[binary.LittleEndian.Uint64(hb[i:])] = struct{}{}
		}
	}
	// known findings
	knownBad := 0
	if ck.Known != nil {
		listed := knownListed(root, id)
		for _, k := range ck.Known() {
			if !k.Failed {
				continue
			}
			if listed[k.Key] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.What)
				knownBad++
			} else {
				fails = append(fails, Failure{"known", 0, k.Key, k.What})
				nfail++
			}
		}
	}
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	cov := map[string]interface{}{
		"evaluations":         evals,
		"distinct_nontrivial": len(seen),
		"rule":                ck.Rule,
		"samples":             samples,
		"observed":            counts,
		"worker_processes":    procs,
	}
	if ck.Known != nil {
		cov["known_findings_reproduced"] = knownBad
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seedVal(), "level": "exploration",
		"coverage": cov, "assumptions": ck.Assume,
		"wall_s": time.Since(start).Seconds(), "violations": nfail,
	}
	eb, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(root, "evidence", id+".json"), append(eb, '\n'), 0o644); err != nil {
		fatal(err)
	}
	if len(fails) > 0 {
		sort.Slice(fails, func(i, j int) bool { return len(fails[i].Msg) < len(fails[j].Msg) })
		rd := filepath.Join(root, "build", "replay")
		os.MkdirAll(rd, 0o755)
		shown := map[string]bool{}
		for i, f := range fails {
			if shown[f.Workload+f.Kind] {
				continue
			}
			shown[f.Workload+f.Kind] = true
			if i >= 5 && !allFails {
				break
			}
			p := filepath.Join(rd, fmt.Sprintf("%s-%s-%d.txt", id, strings.ReplaceAll(f.Workload, "/", "_"), f.Idx))
			os.WriteFile(p, []byte(fmt.Sprintf("property: %s\nworkload: %s case %d seed %d\nkind: %s\nreplay: VERIF_SEED=%d ./check.sh replay %s %s %d\n\n%s\n",
				id, f.Workload, f.Idx, seedVal(), f.Kind, seedVal(), id, f.Workload, f.Idx, f.Msg)), 0o644)
			m := f.Msg
			if len(m) > 1800 {
				m = m[:1800] + "..."
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n  %s#%d %s: %s\n", id, p, f.Workload, f.Idx, f.Kind, strings.ReplaceAll(m, "\n", "\n    "))
		}
		fmt.Printf("%s: %d violations in %d evaluations\n", id, nfail, evals)
		os.RemoveAll(dir)
		os.Exit(1)
	}
	if inconclusive == "" {
		for k, v := range ck.Require {
			if counts[k] < v {
				inconclusive = fmt.Sprintf("observed too little: %s = %d, need %d", k, counts[k], v)
			}
		}
		if evals == 0 || len(seen) == 0 {
			inconclusive = "observed nothing"
		}
	}
	if inconclusive != "" {
		fmt.Printf("INCONCLUSIVE property=%s %s\n", id, inconclusive)
		os.RemoveAll(dir)
		os.Exit(2)
	}
	fmt.Printf("%s: held on %d evaluations (%d distinct non-trivial), %.1fs\n", id, evals, len(seen), time.Since(start).Seconds())
}

func verifRoot() string {
	if d := os.Getenv("VERIF_ROOT"); d != "" {
		return d
	}
	return "/verif"
}

// knownListed: keys listed as known (not fixed) for a property.
func knownListed(root, id string) map[string]bool {
	out := map[string]bool{}
	b, _ := os.ReadFile(filepath.Join(root, "known_findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=C06 key=... what
		if f := strings.Fields(l); len(f) >= 3 && f[0] == "known:" && f[1] == "property="+id && strings.HasPrefix(f[2], "key=") {
			out[strings.TrimPrefix(f[2], "key=")] = true
		}
	}
	return out
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness run ID | one ID WORKLOAD IDX | list | lits")
		os.Exit(3)
	}
	switch os.Args[1] {
	case "lits":
		printLits(repoDir())
		return
	case "list":
		for id := range checks {
			fmt.Println(id)
		}
		return
	}
	// No verdict may depend on where the program runs
	time.Local = time.FixedZone("elsewhere", 5*3600+45*60)
	harvest(repoDir())
	switch os.Args[1] {
	case "worker":
		workerMain(os.Args[2:])
	case "one":
		oneMain(os.Args[2:])
	case "run":
		runMain(os.Args[2])
	}
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}
