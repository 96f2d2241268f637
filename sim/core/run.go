package core

import (
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"syscall"
)

// Violation is the panic value which ends a run in which a property broke.
type Violation struct {
	Key   string // stable class of the violation, kept by the minimiser
	Msg   string
	Stack string
}

// StepLimit is the number of simulated I/O steps a single operation may take.
const StepLimit = 1_000_000

// Run is the context of one simulated execution.
type Run struct {
	Tape
	Property string
	Thorough bool
	tracing  bool
	trace    []string
	hash     uint64
	opSteps  int

	Steps      int // simulated I/O steps
	OpsDone    int
	Faults     map[string]int // faults which actually fired, by kind
	Probes     map[string]int // rare conditions reached
	Ops        map[string]int
	stateSet   map[uint64]struct{}
	stateCap   int
	Nontrivial bool

	held []held

	current *client // the one running, if there are several
	stopped chan *client
	aborted bool
}

// held is memory of the client's which the code under test has been given, or has given.
type held struct {
	what        string
	bytes, were []byte
}

// maxHeld is for how many buffers a client waits at most before it reuses the oldest.
const maxHeld = 4

// Keep notes that the client now owns b, which it got as a result or had read into. The
// code under test mustn't change it any more, nor mind if the client does.
func (r *Run) Keep(what string, b []byte) {
	if len(b) > 0 {
		r.held = append(r.held, held{what, b, append([]byte(nil), b...)})
	}
}

// Lend gives a copy of data, to be passed to the code under test as something to write.
// Like [io.Writer]s it may neither change it nor go on using it afterwards.
func (r *Run) Lend(what string, data []byte) []byte {
	b := append(make([]byte, 0, len(data)), data...)
	r.Keep(what, b)
	return b
}

// checkHeld checks the client's memory, some of which it reuses then.
func (r *Run) checkHeld() {
	for _, h := range r.held {
		if string(h.bytes) != string(h.were) {
			r.Fail("memory-changed", "the client's bytes which were %s have been changed", h.what)
		}
	}
	n := 0
	if r.hash%2 == 0 {
		n = len(r.held)
	} else if len(r.held) > maxHeld {
		n = len(r.held) - maxHeld
	}
	for _, h := range r.held[:n] {
		for i := range h.bytes {
			h.bytes[i] ^= 0xa5
		}
	}
	r.held = append(r.held[:0], r.held[n:]...)
}

// Fail reports a violation of the property and ends the run.
func (r *Run) Fail(key, format string, args ...any) {
	panic(&Violation{Key: key, Msg: fmt.Sprintf(format, args...)})
}

// Check fails unless cond holds.
func (r *Run) Check(cond bool, key, format string, args ...any) {
	if !cond {
		r.Fail(key, format, args...)
	}
}

func (r *Run) mix(x uint64) {
	r.hash = (r.hash ^ x) * 1099511628211
	r.hash ^= r.hash >> 29
}

// Ev records an event in the run's log.
func (r *Run) Ev(kind string, args ...int) {
	r.mix(HashString(kind))
	for _, a := range args {
		r.mix(uint64(a))
	}
	if r.tracing {
		r.add(strings.TrimSuffix(fmt.Sprintln(append([]any{kind}, ints(args)...)...), "\n"))
	}
}

// EvS records an event with a text part.
func (r *Run) EvS(kind, text string, args ...int) {
	r.mix(HashString(kind))
	r.mix(HashString(text))
	for _, a := range args {
		r.mix(uint64(a))
	}
	if r.tracing {
		r.add(strings.TrimSuffix(fmt.Sprintln(append([]any{kind, text}, ints(args)...)...), "\n"))
	}
}

// EvB records an event with a byte string.
func (r *Run) EvB(kind string, data []byte, args ...int) {
	r.mix(HashString(kind))
	r.mix(HashBytes(data))
	for _, a := range args {
		r.mix(uint64(a))
	}
	if r.tracing {
		s := ""
		if len(data) <= 24 {
			s = fmt.Sprintf("%x", data)
		} else {
			s = fmt.Sprintf("%x...(%d bytes, hash %x)", data[:16], len(data), HashBytes(data))
		}
		r.add(strings.TrimSuffix(fmt.Sprintln(append([]any{kind, s}, ints(args)...)...), "\n"))
	}
}

// EvErr records how something ended.
func (r *Run) EvErr(kind string, err error, args ...int) {
	s := "ok"
	if err != nil {
		s = "error(" + err.Error() + ")"
	}
	r.EvS(kind, s, args...)
}

func ints(a []int) []any {
	o := make([]any, len(a))
	for i, x := range a {
		o[i] = x
	}
	return o
}

func (r *Run) add(s string) {
	if len(r.trace) < 4000 {
		r.trace = append(r.trace, s)
	}
}

func HashBytes(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return h
}

// Step counts one simulated I/O step. An operation which takes more than
// StepLimit of them doesn't terminate.
func (r *Run) Step() {
	r.Steps++
	r.opSteps++
	r.yield()
	if r.opSteps > StepLimit {
		r.Fail("hang", "one operation took more than %d simulated I/O steps", StepLimit)
	}
}

// BeginOp starts a client operation.
func (r *Run) BeginOp(kind string) {
	r.checkHeld()
	r.yield()
	r.opSteps = 0
	r.OpsDone++
	r.Ops[kind]++
}

// Fault notes that a fault of the given kind fired.
func (r *Run) Fault(kind string) {
	r.Faults[kind]++
	r.Nontrivial = true
	r.EvS("  !fault", kind)
}

// Probe notes that a rare condition was reached.
func (r *Run) Probe(kind string) { r.Probes[kind]++ }

// State notes the abstract state reached.
func (r *Run) State(h uint64) {
	if len(r.stateSet) < r.stateCap {
		r.stateSet[h] = struct{}{}
	}
}

// Catch runs f and turns a panic of the code under test into a violation. The
// simulator's own violations pass through.
func (r *Run) Catch(what string, f func()) {
	defer func() {
		if p := recover(); p != nil {
			if v, ok := p.(*Violation); ok {
				panic(v)
			}
			panic(&Violation{
				Key:   "panic",
				Msg:   fmt.Sprintf("%s crashed: %v", what, p),
				Stack: string(debug.Stack()),
			})
		}
	}()
	f()
}

// Collect gets rid of what isn't used any more; huge runs do so now and then.
func Collect() { debug.FreeOSMemory() }

// alone waits until no other process of this check performs a huge run, since the memory
// wouldn't do for all of them if each touched all of its storage.
func alone() func() {
	f, err := os.Open("/proc/self/exe")
	if err != nil {
		return func() {}
	}
	for syscall.Flock(int(f.Fd()), syscall.LOCK_EX) == syscall.EINTR {
	}
	return func() { f.Close() }
}

// execute performs one run.
func execute(p *Profile, t Tape, tracing, thorough bool, stats *Stats) (r *Run, v *Violation) {
	r = &Run{
		Tape: t, Property: p.Property, tracing: tracing, Thorough: thorough,
		hash: 1469598103934665603, Faults: stats.Faults, Probes: stats.Probes, Ops: stats.Ops,
		stateSet: stats.states, stateCap: 1 << 20,
	}
	defer func() {
		stats.Steps += int64(r.Steps)
		stats.OpsDone += int64(r.OpsDone)
		if x := recover(); x != nil {
			if vv, ok := x.(*Violation); ok {
				v = vv
			} else {
				v = &Violation{Key: "panic", Msg: fmt.Sprintf("crash: %v", x), Stack: string(debug.Stack())}
			}
			r.add("VIOLATION " + v.Key + ": " + v.Msg)
		}
	}()
	if p.Huge != nil && r.Int(2) == 1 {
		r.Probe("gigabytes of storage")
		defer alone()()
		limitMemory(hugeMemory)
		Collect()
		p.Huge(r)
		r.held = nil
		Collect()
	} else if p.Together > 0 && r.Chance(1, p.Together) {
		r.Probe("two clients in one process")
		r.together(2, p.Run)
	} else {
		p.Run(r)
		r.checkHeld()
	}
	return r, nil
}

// Stats accumulates over runs.
type Stats struct {
	Runs       int64
	Nontrivial int64
	Steps      int64
	OpsDone    int64
	Faults     map[string]int
	Probes     map[string]int
	Ops        map[string]int
	Known      map[string]int
	states     map[uint64]struct{}
	hists      map[uint64]struct{}
}

func newStats() *Stats {
	return &Stats{
		Faults: map[string]int{}, Probes: map[string]int{}, Ops: map[string]int{}, Known: map[string]int{},
		states: map[uint64]struct{}{}, hists: map[uint64]struct{}{},
	}
}

// HashLog is the hash of the event log so far.
func (r *Run) HashLog() uint64 { return r.hash }
