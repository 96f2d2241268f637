package core

import (
	"fmt"
	"os"
	"strings"
	"time"
)

// minimise shrinks a violating tape while the class of the violation persists.
// With sub set every candidate runs in its own process.
func minimise(p *Profile, seed, index int64, choices []int, key string, thorough, sub bool) *Replay {
	deadline := time.Now().Add(25 * time.Second)
	budget := 20000
	cpu := 4 * time.Second
	if sub {
		deadline = time.Now().Add(90 * time.Second)
		budget = 400
	}
	eval := func(c []int) *Replay {
		budget--
		var out *Replay
		if sub {
			out, _ = execSub(p, c, thorough, cpu)
			if out == nil || out.Key != key {
				return nil
			}
			if out.consumed == 0 {
				out.consumed = len(c)
			}
			return out
		}
		out = runOnce(p, c, thorough, false)
		if out.Key != key {
			return nil
		}
		return out
	}
	if !sub && p.Setup != nil {
		p.Setup(os.Getenv("SIM_SCRATCH_PARENT"))
	}
	best := eval(choices)
	if best == nil {
		return nil
	}
	trim := func(rf *Replay) []int {
		c := rf.Choices
		if rf.consumed < len(c) {
			c = c[:rf.consumed]
		}
		for len(c) > 0 && c[len(c)-1] == 0 {
			c = c[:len(c)-1]
		}
		return c
	}
	cur := append([]int(nil), trim(best)...)
	more := func() bool { return budget > 0 && time.Now().Before(deadline) }
	try := func(c []int) bool {
		if out := eval(c); out != nil {
			best = out
			cur = append([]int(nil), trim(out)...)
			return true
		}
		return false
	}
	for changed := true; changed && more(); {
		changed = false
		// Whole operations.
		for n := 16; n >= 1 && more(); n /= 2 {
			for i := 0; more(); i++ {
				m := best.marks
				if i+n >= len(m) {
					break
				}
				lo, hi := m[i], m[i+n]
				if lo >= len(cur) {
					break
				}
				hi = min(hi, len(cur))
				c := append(append([]int(nil), cur[:lo]...), cur[hi:]...)
				if len(c) < len(cur) && try(c) {
					changed = true
					i--
				}
			}
		}
		// Arbitrary chunks.
		for n := 8; n >= 1 && more(); n /= 2 {
			for i := len(cur) - n; i >= 0 && more(); i-- {
				if i+n > len(cur) {
					continue
				}
				c := append(append([]int(nil), cur[:i]...), cur[i+n:]...)
				if try(c) {
					changed = true
				}
			}
		}
		// Simpler values.
		for i := 0; i < len(cur) && more(); i++ {
			for _, v := range []int{0, 1, cur[i] / 2, cur[i] - 1} {
				if i >= len(cur) || v < 0 || v >= cur[i] {
					continue
				}
				c := append([]int(nil), cur...)
				c[i] = v
				if try(c) {
					changed = true
					break
				}
			}
		}
	}
	// The final tape must fail the same way in a fresh process.
	limit := hangCPU
	final, why := execSub(p, cur, thorough, limit)
	if final == nil || final.Key != key {
		fmt.Println("minimised tape doesn't reproduce in a fresh process:", why)
		final, why = execSub(p, choices, thorough, limit)
		if final == nil || final.Key != key {
			fmt.Println("neither does the original:", why)
			return nil
		}
	}
	final.Property, final.Seed, final.Run, final.Thorough = p.Property, seed, index, thorough
	final.Original = len(choices)
	return final
}

// replay repeats a replay file in this and in a fresh process.
func replay(p *Profile, path string, rf *Replay) int {
	out, why := execSub(p, rf.Choices, rf.Thorough, hangCPU)
	if out == nil {
		fmt.Println(why)
		return 3
	}
	for _, l := range out.Trace {
		fmt.Println("  " + l)
	}
	if out.Key == "" {
		fmt.Println("no violation")
		return 0
	}
	exact := out.LogHash == rf.LogHash && out.Key == rf.Key && strings.Join(out.Trace, "\n") == strings.Join(rf.Trace, "\n")
	fmt.Printf("violation class: %s (identical to the recorded run: %v)\n%s\n", out.Key, exact, out.Message)
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.Property, path)
	return 1
}
