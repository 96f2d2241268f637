package core

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

// Profile is the simulation of one property.
type Profile struct {
	Property string
	Run      func(r *Run)
	Quick    int // number of runs
	Thorough int
	Rule     string
	Real     []string // components which ran the code of the repository
	Stub     []string // components which were simulated
	Assume   []string
	// Setup prepares a worker process (for example a scratch directory).
	Setup func(scratch string)
	// MaxWorkers limits parallelism; 0 is no limit.
	MaxWorkers int
	// One in this many runs has two independent clients, whose operations are
	// interleaved in one process; 0 is none.
	Together int
	// Huge is the simulation of storage of some gigabytes; nil if there's none. It is
	// what a few of the first runs do instead. Its first choice is one of four kinds.
	Huge func(r *Run)
}

const (
	quickCap    = 240 * time.Second // wall-clock limits of a batch
	thoroughCap = 3000 * time.Second
	hangCPU     = 25 * time.Second
	determinism = 64 // runs per worker repeated in another process
)

// Main is the entry point of a component's simulator.
func Main(profiles ...*Profile) {
	if len(os.Args) < 3 {
		die("usage: %s run PROPERTY | replay FILE | exec FILE | hash PROPERTY SEED FROM COUNT", os.Args[0])
	}
	find := func(id string) *Profile {
		for _, p := range profiles {
			if p.Property == id {
				return p
			}
		}
		die("no simulation of property %q here", id)
		return nil
	}
	switch os.Args[1] {
	case "run":
		os.Exit(batch(find(os.Args[2])))
	case "worker":
		worker(find(os.Args[2]))
	case "exec": // one execution of a replay file, as a subprocess
		rf := loadReplay(os.Args[2])
		execOne(find(rf.Property), rf)
	case "replay":
		rf := loadReplay(os.Args[2])
		os.Exit(replay(find(rf.Property), os.Args[2], rf))
	case "record":
		record(find(os.Args[2]), os.Args[3:])
	case "hash": // event-log hashes, for the determinism test
		hashes(find(os.Args[2]), os.Args[3:])
	default:
		die("unknown mode %q", os.Args[1])
	}
}

func die(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "simulator error: "+format+"\n", args...)
	os.Exit(3)
}

func seedFromEnv() int64 {
	s := os.Getenv("VERIF_SEED")
	if s == "" {
		s = "1"
	}
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		return int64(HashString(s) >> 1)
	}
	return n
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func newTape(p *Profile, seed int64, index int64) Tape {
	t := Tape{rng: NewPRNG(uint64(seed), HashString(p.Property), uint64(index))}
	if p.Huge != nil {
		t.force = []int{0}
		if isHuge(index) {
			t.force = []int{1, int(index-40) / 41} // every kind of them
		}
	}
	return t
}

// isHuge tells which runs are huge ones. They're spread over the worker processes, since
// only a process's first large allocation is certain to get memory which costs nothing.
func isHuge(index int64) bool { return index >= 40 && index < 40+4*41 && (index-40)%41 == 0 }

// Replay is the replay file.
type Replay struct {
	Property string   `json:"property"`
	Seed     int64    `json:"seed"`
	Run      int64    `json:"run"`
	Thorough bool     `json:"thorough"`
	Key      string   `json:"violation_class"`
	Message  string   `json:"violation"`
	Choices  []int    `json:"choices"`
	Trace    []string `json:"trace"`
	LogHash  string   `json:"log_hash"`
	Stack    string   `json:"stack,omitempty"`
	Original int      `json:"choices_before_minimising,omitempty"`
	marks    []int
	consumed int
}

func loadReplay(path string) *Replay {
	b, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	rf := &Replay{}
	if err := json.Unmarshal(b, rf); err != nil {
		die("bad replay file %s: %v", path, err)
	}
	return rf
}

func writeJSON(path string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err == nil {
		err = os.WriteFile(path, append(b, '\n'), 0o644)
	}
	if err != nil {
		die("%v", err)
	}
}

// limits protects the sandbox from runaway code under test.
func limits() {
	debug.SetMaxStack(48 << 20)
	debug.SetGCPercent(200)
	limitMemory(3500 << 20)
	_ = syscall.Setrlimit(syscall.RLIMIT_CORE, &syscall.Rlimit{})
}

// hugeMemory is how much address space a huge run may use. Next to nothing of it is
// ever touched.
const hugeMemory = 24 << 30

func limitMemory(n uint64) {
	_ = syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: n, Max: hugeMemory})
}

func runOnce(p *Profile, choices []int, thorough, tracing bool) *Replay {
	st := newStats()
	r, v := execute(p, Tape{C: choices}, tracing, thorough, st)
	out := &Replay{Property: p.Property, Thorough: thorough, Choices: choices, Trace: r.trace,
		LogHash: fmt.Sprintf("%016x", r.hash), marks: r.marks, consumed: r.pos}
	if v != nil {
		out.Key, out.Message, out.Stack = v.Key, v.Msg, v.Stack
	}
	return out
}

func execOne(p *Profile, rf *Replay) {
	limits()
	if p.Setup != nil {
		p.Setup(os.Getenv("SIM_SCRATCH"))
	}
	out := runOnce(p, rf.Choices, rf.Thorough, true)
	b, _ := json.Marshal(out)
	os.Stdout.Write(b)
	os.Exit(0)
}

// execSub runs a tape in a fresh process, so that even a fatal crash or an
// endless loop of the code under test is observed.
func execSub(p *Profile, choices []int, thorough bool, cpu time.Duration) (*Replay, string) {
	dir, err := os.MkdirTemp("", "sim-exec-")
	if err != nil {
		die("%v", err)
	}
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "tape.json")
	writeJSON(path, &Replay{Property: p.Property, Choices: choices, Thorough: thorough})
	cmd := exec.Command(os.Args[0], "exec", path)
	cmd.Env = append(os.Environ(), "SIM_SCRATCH="+dir)
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &limitedBuffer{b: &stderr}
	if err := cmd.Start(); err != nil {
		die("%v", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	hung := false
	tick := time.NewTicker(50 * time.Millisecond)
	defer tick.Stop()
loop:
	for {
		select {
		case err = <-done:
			break loop
		case <-tick.C:
			if !hung && cpuTime(cmd.Process.Pid) > cpu {
				hung = true
				_ = cmd.Process.Kill()
			}
		}
	}
	if hung {
		return &Replay{Property: p.Property, Thorough: thorough, Choices: choices, Key: "hang",
			Message: fmt.Sprintf("the operation used more than %v of processor time without returning", cpu)}, ""
	}
	out := &Replay{}
	if err == nil && json.Unmarshal(stdout.Bytes(), out) == nil {
		return out, ""
	}
	if msg := fatalMessage(stderr.String()); msg != "" {
		return &Replay{Property: p.Property, Thorough: thorough, Choices: choices, Key: "crash",
			Message: "fatal crash of the process: " + msg}, ""
	}
	return nil, fmt.Sprintf("subprocess failed: %v: %.400s", err, stderr.String())
}

func fatalMessage(stderr string) string {
	for _, line := range strings.Split(stderr, "\n") {
		if strings.HasPrefix(line, "fatal error: ") || strings.HasPrefix(line, "runtime: out of memory") ||
			strings.HasPrefix(line, "runtime: goroutine stack exceeds") {
			// Amounts and addresses vary between processes.
			if i := strings.Index(line, "stack exceeds"); i >= 0 {
				return "goroutine stack exceeds the limit"
			}
			return strings.TrimPrefix(line, "fatal error: ")
		}
	}
	return ""
}

type limitedBuffer struct{ b *bytes.Buffer }

func (l *limitedBuffer) Write(p []byte) (int, error) {
	if l.b.Len() < 1<<16 {
		l.b.Write(p)
	}
	return len(p), nil
}

func cpuTime(pid int) time.Duration {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	s := string(b)
	f := strings.Fields(s[strings.LastIndex(s, ")")+1:])
	if len(f) < 13 {
		return 0
	}
	u, _ := strconv.ParseInt(f[11], 10, 64)
	k, _ := strconv.ParseInt(f[12], 10, 64)
	return time.Duration(u+k) * 10 * time.Millisecond
}

// worker runs indexes from, from+stride, ... and reports through files.
func worker(p *Profile) {
	limits()
	runtime.GOMAXPROCS(2)
	if name := os.Getenv("SIM_PROFILE"); name != "" {
		if f, err := os.Create(name); err == nil && pprof.StartCPUProfile(f) == nil {
			defer pprof.StopCPUProfile()
		}
	}
	get := func(k string) int64 {
		n, err := strconv.ParseInt(os.Getenv(k), 10, 64)
		if err != nil {
			die("%s: %v", k, err)
		}
		return n
	}
	seed, from, stride, total := get("SIM_SEED"), get("SIM_FROM"), get("SIM_STRIDE"), get("SIM_TOTAL")
	deadline := time.Now().Add(time.Duration(get("SIM_BUDGET_MS")) * time.Millisecond)
	thorough := os.Getenv("SIM_THOROUGH") == "1"
	dir := os.Getenv("SIM_SCRATCH")
	known := loadKnown(p.Property)
	if p.Setup != nil {
		p.Setup(dir)
	}
	f, err := os.OpenFile(filepath.Join(dir, "progress"), os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		die("%v", err)
	}
	_ = f.Truncate(4096)
	mem, err := syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		die("%v", err)
	}
	progress := (*int64)(unsafe.Pointer(&mem[0]))
	st := newStats()
	var first []string
	res := workerResult{Stats: st}
	for i := from; i < total; i += stride {
		*progress = i
		if st.Runs%32 == 0 && time.Now().After(deadline) {
			res.OutOfTime = true
			break
		}
		r, v := execute(p, newTape(p, seed, i), false, thorough, st)
		st.Runs++
		if len(first) < determinism {
			first = append(first, fmt.Sprintf("%016x", r.hash))
		}
		if r.Nontrivial && len(st.hists) < 4<<20 {
			st.hists[r.hash] = struct{}{}
		}
		if r.Nontrivial {
			st.Nontrivial++
		}
		if v != nil {
			if desc, ok := known[v.Key]; ok {
				st.Known[v.Key+" "+desc]++
				continue
			}
			res.Found, res.Index, res.Choices, res.Key, res.Message = true, i, r.C, v.Key, v.Msg
			break
		}
	}
	res.First = first
	writeHashes(filepath.Join(dir, "hists"), st.hists)
	writeHashes(filepath.Join(dir, "states"), st.states)
	writeJSON(filepath.Join(dir, "result.json"), &res)
	pprof.StopCPUProfile()
	os.Exit(0)
}

type workerResult struct {
	Stats     *Stats
	Found     bool
	Index     int64
	Choices   []int
	Key       string
	Message   string
	OutOfTime bool
	First     []string
}

func writeHashes(path string, m map[uint64]struct{}) {
	b := make([]byte, 0, 8*len(m))
	for h := range m {
		b = binary.LittleEndian.AppendUint64(b, h)
	}
	if err := os.WriteFile(path, b, 0o644); err != nil {
		die("%v", err)
	}
}

func countDistinct(dirs []string, name string) int {
	var all []uint64
	for _, d := range dirs {
		b, err := os.ReadFile(filepath.Join(d, name))
		if err != nil {
			continue
		}
		for ; len(b) >= 8; b = b[8:] {
			all = append(all, binary.LittleEndian.Uint64(b))
		}
	}
	sort.Slice(all, func(i, j int) bool { return all[i] < all[j] })
	n := 0
	for i, h := range all {
		if i == 0 || h != all[i-1] {
			n++
		}
	}
	return n
}

// loadKnown reads the known findings of a property: lines of the form
// "known: property=<id> class=<violation class> <what fails>".
func loadKnown(property string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings"))
	if err != nil {
		return out
	}
	for _, line := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(line, "known: property="+property+" class=")
		if !ok {
			continue
		}
		key, desc, _ := strings.Cut(rest, " ")
		out[key] = desc
	}
	return out
}

type proc struct {
	cmd      *exec.Cmd
	dir      string
	stderr   bytes.Buffer
	done     bool
	err      error
	lastIdx  int64
	lastCPU  time.Duration
	hungAt   int64
	progress *int64
}

func batch(p *Profile) int {
	start := time.Now()
	seed := seedFromEnv()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	total, budget := int64(p.Quick), quickCap
	if tier == "thorough" {
		total, budget = int64(p.Thorough), thoroughCap
	}
	if s := os.Getenv("SIM_RUNS"); s != "" {
		total, _ = strconv.ParseInt(s, 10, 64)
	}
	workers := runtime.NumCPU()
	if s := os.Getenv("SIM_WORKERS"); s != "" {
		workers, _ = strconv.Atoi(s)
	}
	if p.MaxWorkers > 0 && workers > p.MaxWorkers {
		workers = p.MaxWorkers
	}
	if workers > 32 {
		workers = 32
	}
	fmt.Printf("property %s: VERIF_SEED=%d tier=%s runs=%d workers=%d\n", p.Property, seed, tier, total, workers)
	scratch, err := os.MkdirTemp("", "sim-"+p.Property+"-")
	if err != nil {
		die("%v", err)
	}
	defer os.RemoveAll(scratch)
	_ = os.Setenv("SIM_SCRATCH_PARENT", scratch)

	var procs []*proc
	for w := 0; w < workers; w++ {
		pr := &proc{dir: filepath.Join(scratch, fmt.Sprint("w", w)), lastIdx: -1, hungAt: -1}
		_ = os.MkdirAll(pr.dir, 0o755)
		f, _ := os.OpenFile(filepath.Join(pr.dir, "progress"), os.O_RDWR|os.O_CREATE, 0o644)
		_ = f.Truncate(4096)
		mem, err := syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
		if err != nil {
			die("%v", err)
		}
		f.Close()
		pr.progress = (*int64)(unsafe.Pointer(&mem[0]))
		pr.cmd = exec.Command(os.Args[0], "worker", p.Property)
		th := "0"
		if tier == "thorough" {
			th = "1"
		}
		pr.cmd.Env = append(os.Environ(), fmt.Sprint("SIM_SEED=", seed), fmt.Sprint("SIM_FROM=", w),
			fmt.Sprint("SIM_STRIDE=", workers), fmt.Sprint("SIM_TOTAL=", total), "SIM_THOROUGH="+th,
			fmt.Sprint("SIM_BUDGET_MS=", budget.Milliseconds()), "SIM_SCRATCH="+pr.dir)
		pr.cmd.Stderr = &limitedBuffer{b: &pr.stderr}
		if err := pr.cmd.Start(); err != nil {
			die("%v", err)
		}
		procs = append(procs, pr)
	}
	type ended struct {
		w   int
		err error
	}
	ch := make(chan ended, workers)
	for w := range procs {
		go func(w int) { ch <- ended{w, procs[w].cmd.Wait()} }(w)
	}
	stopAll := func() {
		for _, pr := range procs {
			if !pr.done {
				_ = pr.cmd.Process.Kill()
			}
		}
	}
	left := workers
	stopping := false
	tick := time.NewTicker(250 * time.Millisecond)
	defer tick.Stop()
	trouble := ""
	var candIdx int64 = -1 // index of a run in which the process died or hung
	var found *workerResult
	for left > 0 {
		select {
		case e := <-ch:
			pr := procs[e.w]
			pr.done, pr.err = true, e.err
			left--
			if pr.hungAt >= 0 || stopping && e.err != nil {
				continue
			}
			if e.err != nil {
				if fatalMessage(pr.stderr.String()) != "" {
					idx := *pr.progress
					if candIdx < 0 || idx < candIdx {
						candIdx = idx
					}
				} else {
					trouble = fmt.Sprintf("worker %d ended with %v: %.600s", e.w, e.err, pr.stderr.String())
				}
				stopping = true
				stopAll()
				continue
			}
			res := &workerResult{}
			b, err := os.ReadFile(filepath.Join(pr.dir, "result.json"))
			if err != nil || json.Unmarshal(b, res) != nil {
				trouble = fmt.Sprintf("worker %d left no result", e.w)
				stopping = true
				stopAll()
				continue
			}
			if res.Found && (found == nil || res.Index < found.Index) {
				found = res
				stopping = true
				stopAll()
			}
		case <-tick.C:
			for _, pr := range procs {
				if pr.done || pr.hungAt >= 0 {
					continue
				}
				idx, cpu := *pr.progress, cpuTime(pr.cmd.Process.Pid)
				if idx != pr.lastIdx {
					pr.lastIdx, pr.lastCPU = idx, cpu
				} else if cpu-pr.lastCPU > hangCPU {
					pr.hungAt = idx
					if candIdx < 0 || idx < candIdx {
						candIdx = idx
					}
					stopping = true
					stopAll()
				}
			}
		}
	}
	thorough := tier == "thorough"

	var rf *Replay
	switch {
	case found != nil:
		rf = minimise(p, seed, found.Index, found.Choices, found.Key, thorough, false)
		if rf == nil {
			fmt.Fprintf(os.Stderr, "run %d reported %q (%s) but doesn't reproduce\n", found.Index, found.Key, found.Message)
			return 3
		}
	case candIdx >= 0:
		choices := recordTape(p, seed, candIdx, thorough)
		if choices == nil {
			fmt.Fprintf(os.Stderr, "run %d killed its worker but its tape can't be recorded\n", candIdx)
			return 3
		}
		out, why := execSub(p, choices, thorough, hangCPU)
		if out == nil {
			fmt.Fprintf(os.Stderr, "run %d: %s\n", candIdx, why)
			return 3
		}
		if out.Key == "" {
			fmt.Fprintf(os.Stderr, "run %d killed its worker but doesn't when repeated\n", candIdx)
			return 3
		}
		if desc, ok := loadKnown(p.Property)[out.Key]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.Property, desc)
			return 3 // can't continue past it; must not happen on the committed tree
		}
		rf = minimise(p, seed, candIdx, choices, out.Key, thorough, true)
		if rf == nil {
			rf = out
			rf.Seed, rf.Run = seed, candIdx
		}
	case trouble != "":
		fmt.Fprintln(os.Stderr, trouble)
		return 3
	}

	st := newStats()
	var dirs []string
	outOfTime := false
	var firsts [][]string
	for _, pr := range procs {
		res := &workerResult{}
		b, err := os.ReadFile(filepath.Join(pr.dir, "result.json"))
		if err != nil || json.Unmarshal(b, res) != nil {
			continue
		}
		dirs = append(dirs, pr.dir)
		s := res.Stats
		st.Runs += s.Runs
		st.Nontrivial += s.Nontrivial
		st.Steps += s.Steps
		st.OpsDone += s.OpsDone
		addMap(st.Faults, s.Faults)
		addMap(st.Probes, s.Probes)
		addMap(st.Ops, s.Ops)
		addMap(st.Known, s.Known)
		outOfTime = outOfTime || res.OutOfTime
		firsts = append(firsts, res.First)
	}
	searchWall := time.Since(start).Seconds()

	// Repeat some runs in another process: the event logs must be identical.
	same, differ := 0, 0
	if rf == nil && len(firsts) == workers {
		n := 0
		for _, f := range firsts {
			n = max(n, len(f))
		}
		cmd := exec.Command(os.Args[0], "hash", p.Property, fmt.Sprint(seed), "0",
			fmt.Sprint(min(int64(n*workers), total)), fmt.Sprint(thorough))
		hdir := filepath.Join(scratch, "hash")
		_ = os.MkdirAll(hdir, 0o755)
		cmd.Env = append(os.Environ(), "SIM_SCRATCH="+hdir)
		b, _ := cmd.Output()
		for i, h := range strings.Fields(string(b)) {
			w, k := i%workers, i/workers
			if k < len(firsts[w]) {
				if firsts[w][k] == h {
					same++
				} else {
					differ++
				}
			}
		}
	}

	replayPath := ""
	if rf != nil {
		dir := filepath.Join(verifDir(), "evidence", "replays")
		_ = os.MkdirAll(dir, 0o755)
		replayPath = filepath.Join(dir, fmt.Sprintf("%s-seed%d-run%d.json", p.Property, seed, rf.Run))
		writeJSON(replayPath, rf)
	}
	distinct := countDistinct(dirs, "hists")
	states := countDistinct(dirs, "states")
	var samples []string
	for i := int64(0); i < 3; i++ {
		if rf != nil {
			break
		}
		stt := newStats()
		if p.Setup != nil {
			p.Setup(scratch)
		}
		r, _ := execute(p, newTape(p, seed, i), true, thorough, stt)
		t := strings.Join(r.trace, "; ")
		if len(t) > 1500 {
			t = t[:1500] + "..."
		}
		samples = append(samples, fmt.Sprintf("run %d: %s", i, t))
	}
	if rf != nil {
		t := strings.Join(rf.Trace, "; ")
		if len(t) > 4000 {
			t = t[:4000] + "..."
		}
		samples = append(samples, "violating run (minimised): "+t)
	}
	cov := map[string]any{
		"evaluations":         st.Runs,
		"distinct_nontrivial": distinct,
		"rule": p.Rule + " A run is non-trivial if at least one fault fired or at least two state-changing " +
			"operations took effect; runs are distinct if the hashes of their complete event logs differ.",
		"samples":                      samples,
		"runs_per_hour":                int64(float64(st.Runs) / searchWall * 3600),
		"seeds":                        fmt.Sprintf("VERIF_SEED=%d with run indexes 0..%d, one derived seed per run, so runs_per_hour is also seeds per hour", seed, total-1),
		"nontrivial_runs":              st.Nontrivial,
		"client_operations":            st.OpsDone,
		"simulated_io_steps":           st.Steps,
		"simulated_time":               "the code under test has no clock or timer, so simulated time is counted in I/O steps (simulated_io_steps)",
		"distinct_states":              states,
		"distinct_states_measure":      "hash of the reference model's state and the simulated device's state after each operation (bounded to 2^20 per worker)",
		"operations_by_kind":           st.Ops,
		"faults_injected":              st.Faults,
		"probes":                       st.Probes,
		"real_components":              p.Real,
		"stub_components":              p.Stub,
		"determinism_runs_repeated":    same + differ,
		"determinism_logs_differing":   differ,
		"stopped_early_by_time_budget": outOfTime,
	}
	ev := map[string]any{
		"property": p.Property, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": cov, "assumptions": append([]string{
			"seeded sampling, not enumeration: a clean batch is evidence, not proof",
			"the simulated components obey their documented interfaces except for the injected faults"}, p.Assume...),
		"wall_s": time.Since(start).Seconds(), "violations": 0,
	}
	if rf != nil {
		ev["violations"] = 1
	}
	_ = os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	writeJSON(filepath.Join(verifDir(), "evidence", p.Property+".json"), ev)

	keys := make([]string, 0)
	for k := range st.Known {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		_, desc, _ := strings.Cut(k, " ")
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.Property, desc)
	}
	if rf != nil {
		fmt.Printf("violation class: %s\n%s\n", rf.Key, rf.Message)
		for _, l := range tail(rf.Trace, 40) {
			fmt.Println("  " + l)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.Property, replayPath)
		return 1
	}
	fmt.Printf("ok: %d runs (%d distinct non-trivial), %d operations, %d I/O steps, %d states, %d faults fired, %d/%d repeated logs identical, %.1fs\n",
		st.Runs, distinct, st.OpsDone, st.Steps, states, sum(st.Faults), same, same+differ, time.Since(start).Seconds())
	if st.Runs == 0 {
		fmt.Fprintln(os.Stderr, "no run was executed")
		return 3
	}
	if differ > 0 {
		fmt.Printf("warning: %d of %d repeated runs had different event logs\n", differ, same+differ)
	}
	return 0
}

func tail(s []string, n int) []string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func addMap(dst, src map[string]int) {
	for k, v := range src {
		dst[k] += v
	}
}

func sum(m map[string]int) int {
	n := 0
	for _, v := range m {
		n += v
	}
	return n
}

func hashes(p *Profile, args []string) {
	limits()
	seed, _ := strconv.ParseInt(args[0], 10, 64)
	from, _ := strconv.ParseInt(args[1], 10, 64)
	count, _ := strconv.ParseInt(args[2], 10, 64)
	thorough := len(args) > 3 && args[3] == "true"
	if p.Setup != nil {
		p.Setup(os.Getenv("SIM_SCRATCH"))
	}
	st := newStats()
	for i := from; i < from+count; i++ {
		r, _ := execute(p, newTape(p, seed, i), false, thorough, st)
		fmt.Printf("%016x\n", r.hash)
	}
}

// recordTape regenerates the choices of a run which kills its process, by
// running it in another process which writes each choice down before using it.
func recordTape(p *Profile, seed, index int64, thorough bool) []int {
	dir, err := os.MkdirTemp("", "sim-rec-")
	if err != nil {
		die("%v", err)
	}
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "choices")
	cmd := exec.Command(os.Args[0], "record", p.Property, fmt.Sprint(seed), fmt.Sprint(index),
		fmt.Sprint(thorough), path)
	cmd.Env = append(os.Environ(), "SIM_SCRATCH="+dir)
	if err := cmd.Start(); err != nil {
		die("%v", err)
	}
	done := make(chan struct{})
	go func() { _ = cmd.Wait(); close(done) }()
	for running := true; running; {
		select {
		case <-done:
			running = false
		case <-time.After(100 * time.Millisecond):
			if cpuTime(cmd.Process.Pid) > hangCPU {
				_ = cmd.Process.Kill()
			}
		}
	}
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	out := []int{}
	for ; len(b) >= 8; b = b[8:] {
		out = append(out, int(binary.LittleEndian.Uint64(b)))
	}
	return out
}

func record(p *Profile, args []string) {
	limits()
	seed, _ := strconv.ParseInt(args[0], 10, 64)
	index, _ := strconv.ParseInt(args[1], 10, 64)
	f, err := os.Create(args[3])
	if err != nil {
		die("%v", err)
	}
	if p.Setup != nil {
		p.Setup(os.Getenv("SIM_SCRATCH"))
	}
	t := newTape(p, seed, index)
	t.sink = func(v int) { _, _ = f.Write(binary.LittleEndian.AppendUint64(nil, uint64(v))) }
	execute(p, t, false, args[2] == "true", newStats())
}
