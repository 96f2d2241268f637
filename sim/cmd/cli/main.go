// Simulation of the command-line tools (C16): the real main functions run on a
// simulated kernel.
package main

import (
	"bytes"
	"compress/gzip"
	"fmt"
	"io"
	"log"
	"os"
	"regexp"
	"runtime/debug"
	"strings"
	"syscall"

	"github.com/dargueta/disko/cmd/unzipimage"
	"github.com/dargueta/disko/cmd/zipimage"

	ref "disko-sim/codec"
	"disko-sim/core"
	"disko-sim/simos"
)

func main() {
	core.Main(&core.Profile{
		Property: "C16", Run: run, Quick: 150_000, Thorough: 6_000_000,
		Real: []string{"cmd/zipimage", "cmd/unzipimage", "utilities/compression", "package os, compress/gzip and the rest of the standard library above the system calls"},
		Stub: []string{"the kernel: open, read, write, seek, truncate, stat, close and exit act on files in memory"},
		Rule: "The tools' real main functions run one after the other on a simulated kernel: generated inputs (valid, damaged, truncated, missing, unreadable), short and interrupted transfers, failing opens, reads, writes and closes, full disks, outputs that are the input, directories or missing; exit status, messages and files are compared with an independent codec.",
	})
}

// numbers finds sizes in what a tool prints.
var numbers = regexp.MustCompile("[0-9]+")

type result struct {
	code   int
	stderr string
	stdout string
	out    []byte // the output file, if there is one
	has    bool
	hard   []string // calls which failed and have to be reported
	soft   bool     // something failed which needn't be reported
	full   bool     // the disk was full
}

type scene struct {
	r    *core.Run
	k    *simos.Kernel
	kind string
	rate int // percent
	only int // index of the call that fails, -1: by rate
	kset [nFaults]bool
}

const (
	fRead = iota
	fOpen
	fCreate
	fWrite
	fTorn
	fClose
	fShortRead
	fShortWrite
	fIntr
	fStat
	fStdout
	nFaults
)

var errs = []error{syscall.EIO, syscall.ENOSPC, syscall.EDQUOT, syscall.EFBIG, syscall.ESTALE, syscall.ENXIO, syscall.EACCES, syscall.EBUSY, syscall.ENODEV, syscall.ENOMEM, syscall.ETIMEDOUT}

func run(r *core.Run) {
	k := simos.New(r)
	s := &scene{r: r, k: k, only: -1}
	if r.Chance(2, 3) {
		s.rate = []int{1, 4, 10, 25}[r.Int(4)]
		for i := range s.kset {
			s.kset[i] = r.Chance(1, 3)
		}
		if r.Chance(1, 3) {
			s.only = r.Int(24)
		}
		if r.Chance(1, 6) {
			k.Room = int64(r.Int(400))
		}
	}
	big := r.Chance(1, 8)
	data := ref.Generate(r, big)
	if big {
		// More than fits the buffers on the way.
		data = append(data, r.Fill([]int{600, 3000, 4096, 5000, 40_000}[r.Int(5)])...)
	}

	// A path which is always there, whatever the tool does with it.
	k.Mkdir("/sim/dir")
	k.Put("/sim/other", []byte("another file"))

	switch r.Pick(5, 4, 4) {
	case 0: // both ways
		k.Put("/sim/in", data)
		if res := s.tool("zipimage", "/sim/in", "/sim/mid"); res.code == 0 {
			r.Probe("round trip")
			res = s.tool("unzipimage", "/sim/mid", "/sim/out")
			if res.code == 0 {
				r.Check(bytes.Equal(res.out, data), "round-trip", "zipimage and unzipimage exited 0 but turned %d bytes into %d others", len(data), len(res.out))
				r.Probe("round trip finished")
			}
		}
	case 1:
		k.Put("/sim/in", data)
		s.odd("zipimage")
	case 2:
		k.Put("/sim/in", s.damage(compress(r, data)))
		s.odd("unzipimage")
	}
}

// compress makes a compressed image without the code under test.
func compress(r *core.Run, data []byte) []byte {
	var b bytes.Buffer
	w, _ := gzip.NewWriterLevel(&b, []int{gzip.BestSpeed, gzip.NoCompression, gzip.HuffmanOnly}[r.Int(3)])
	enc := ref.RLE8(data)
	if r.Chance(1, 12) && len(enc) > 0 {
		enc = enc[:r.Int(len(enc))] // may end inside a run
	}
	w.Write(enc)
	w.Close()
	return b.Bytes()
}

func (s *scene) damage(b []byte) []byte {
	r := s.r
	switch r.Pick(3, 3, 3, 1, 1) {
	case 1:
		if len(b) > 0 {
			b = b[:r.Int(len(b))]
			r.Fault("input truncated")
		}
	case 2:
		for i := 1 + r.Int(2); i > 0 && len(b) > 0; i-- {
			b[r.Int(len(b))] ^= 1 << r.Int(8)
			r.Fault("input damaged")
		}
	case 3:
		b = append(b, r.Fill(1+r.Int(12))...)
		r.Fault("input with garbage at its end")
	case 4:
		b = r.Fill(r.Int(40))
	}
	return b
}

// odd runs a tool with all kinds of arguments.
func (s *scene) odd(tool string) {
	r, k := s.r, s.k
	in, out := "/sim/in", "/sim/out"
	switch r.Pick(8, 2, 1, 1, 1, 1, 1, 1, 1, 1) {
	case 1:
		k.Put("/sim/out", r.Fill(r.Int(3000))) // exists, and may be longer
	case 2:
		in = "/sim/missing"
	case 3:
		in = "/sim/dir"
	case 4:
		out = "/sim/dir"
	case 5:
		out = "/sim/none/out"
	case 6:
		k.Files["/sim/in"].NoRead = true
	case 7:
		k.Put("/sim/out", nil).NoWrite = true
	case 8:
		out = []string{"/sim/in", "/sim/./in", "/sim/link"}[r.Int(3)]
		k.Files["/sim/link"] = k.Files["/sim/in"]
	case 9:
		s.usage(tool)
		return
	}
	s.tool(tool, in, out)
}

func (s *scene) usage(tool string) {
	args := []string{"/sim/in", "/sim/out", "/sim/other"}[:[]int{0, 1, 3}[s.r.Int(3)]]
	before := append([]byte{}, s.k.Files["/sim/in"].Data...)
	res := s.exec(tool, args)
	s.r.Check(res.code != 0, "usage", "%s with %d arguments exited with 0", tool, len(args))
	s.r.Check(res.soft || res.stderr != "", "silent", "%s with %d arguments exited with %d without a message", tool, len(args), res.code)
	s.r.Check(bytes.Equal(before, s.k.Files["/sim/in"].Data), "input-changed", "%s with %d arguments changed a file", tool, len(args))
}

// tool runs a tool and judges what it did.
func (s *scene) tool(tool, in, out string) *result {
	r, k := s.r, s.k
	src := k.Files[in]
	var before []byte
	valid := src != nil && !src.Dir && !src.NoRead
	if src != nil {
		before = append([]byte{}, src.Data...)
	}
	same := src != nil && k.Files[pathClean(out)] == src
	want, good := before, true
	if tool == "unzipimage" {
		want, good = expand(before)
	}
	dst := k.Files[pathClean(out)]
	possible := valid && good && !same && (dst == nil || !dst.Dir && !dst.NoWrite) && !strings.Contains(out, "none")

	res := s.exec(tool, []string{in, out})
	if f := k.Files[pathClean(out)]; f != nil {
		res.out, res.has = f.Data, true
	}
	what := fmt.Sprintf("%s %s %s", tool, in, out)
	if src != nil && !same {
		r.Check(bytes.Equal(src.Data, before), "input-changed", "%s changed its input", what)
	}
	if same {
		r.Probe("output is the input")
		if res.code != 0 {
			r.Check(bytes.Equal(src.Data, before), "input-changed", "%s failed and destroyed its input", what)
		}
	}
	if res.code != 0 {
		r.Probe("tool failed")
		r.Check(res.soft || res.stderr != "", "silent", "%s exited with %d without a message", what, res.code)
		r.Check(!possible || len(res.hard) > 0 || res.soft || res.full, "needless-failure", "%s exited with %d (%s) although nothing was wrong", what, res.code, strings.TrimSpace(res.stderr))
		return res
	}
	r.Probe("tool succeeded")
	r.Check(len(res.hard) == 0, "swallowed", "%s exited with 0 although it hit: %s", what, strings.Join(res.hard, ", "))
	r.Check(valid && good, "invalid-accepted", "%s exited with 0 although its input is invalid", what)
	r.Check(res.has, "no-output", "%s exited with 0 but there is no output file", what)
	got, ok := res.out, true
	if tool == "zipimage" {
		got, ok = expand(res.out)
	}
	r.Check(ok && bytes.Equal(got, want), "wrong-output", "%s exited with 0 but the output is incomplete or wrong: %d bytes, valid %v, stand for %d of %d bytes", what, len(res.out), ok, len(got), len(want))
	if n := numbers.FindAllString(res.stdout, -1); len(n) == 1 && !res.soft {
		r.Probe("size reported")
		r.Check(n[0] == fmt.Sprint(len(res.out)), "wrong-size", "%s says %q but the output is %d bytes long", what, res.stdout, len(res.out))
	}
	r.State(core.HashBytes(res.out))
	return res
}

func pathClean(p string) string { return strings.ReplaceAll(p, "/./", "/") }

// expand is the reference for what a compressed image stands for.
func expand(b []byte) ([]byte, bool) {
	z, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, false
	}
	enc, err := io.ReadAll(z)
	if err != nil {
		return nil, false
	}
	return ref.UnRLE8(enc)
}

// exec runs a tool's main function as a process.
func (s *scene) exec(tool string, args []string) (res *result) {
	r, k := s.r, s.k
	r.BeginOp(tool)
	r.EvS("> "+tool, strings.Join(args, " "))
	res = &result{}
	call := -1
	k.Plan = func(c *simos.Call) (a simos.Action) {
		call++
		std := strings.HasPrefix(c.Path, "/sim/std")
		fire := func(kind int) bool {
			if !s.kset[kind] || s.rate == 0 {
				return false
			}
			if s.only >= 0 {
				return call == s.only
			}
			return r.Chance(s.rate, 100)
		}
		fail := func(name string) simos.Action {
			r.Fault(name)
			res.hard = append(res.hard, name)
			return simos.Action{Err: errs[r.Int(len(errs))]}
		}
		output := len(args) > 1 && (c.Path == pathClean(args[1]) || strings.HasPrefix(c.Path, pathClean(args[1])) || c.Path != args[0])
		switch c.Name {
		case "open":
			if fire(fIntr) {
				r.Fault("interrupted call")
				return simos.Action{Err: syscall.EINTR}
			}
			if output && fire(fCreate) {
				return fail("output not creatable")
			} else if !output && fire(fOpen) {
				return fail("input not openable")
			}
		case "read", "pread":
			if std {
				return
			}
			if fire(fIntr) {
				r.Fault("interrupted call")
				return simos.Action{Err: syscall.EINTR}
			}
			if fire(fRead) {
				return fail("read error")
			}
			if c.N > 1 && c.Off < c.Size && s.kset[fShortRead] && s.rate > 0 && r.Chance(1, 2) {
				r.Fault("short read")
				return simos.Action{Part: true, Limit: 1 + r.Int(min(c.N-1, 300))}
			}
		case "write", "pwrite":
			if std {
				if fire(fStdout) {
					r.Fault("message not writable")
					res.soft = true
					return simos.Action{Err: syscall.EIO}
				}
				return
			}
			if fire(fIntr) {
				r.Fault("interrupted call")
				return simos.Action{Err: syscall.EINTR}
			}
			if fire(fWrite) {
				return fail("write error")
			}
			if fire(fTorn) {
				a = fail("torn write")
				a.Part, a.Limit = true, r.Int(c.N+1)
				return a
			}
			if c.N > 1 && s.kset[fShortWrite] && s.rate > 0 && r.Chance(1, 3) {
				r.Fault("short write")
				return simos.Action{Part: true, Limit: 1 + r.Int(c.N-1)}
			}
		case "close":
			if output && !std && fire(fClose) {
				a = fail("data lost when closing")
				a.Lose, a.Limit = true, r.Int(20)
				return a
			}
		case "stat", "fstat":
			if fire(fStat) {
				r.Fault("stat error")
				res.soft = true
				return simos.Action{Err: syscall.EIO}
			}
		}
		return
	}
	defer k.Start()()
	stdio := [3]*os.File{os.Stdin, os.Stdout, os.Stderr}
	osArgs, logTo := os.Args, log.Writer()
	defer func() {
		os.Stdin, os.Stdout, os.Stderr = stdio[0], stdio[1], stdio[2]
		os.Args = osArgs
		log.SetOutput(logTo)
	}()
	plan := k.Plan
	k.Plan = nil
	full := k.Full
	for _, name := range []string{"/sim/stdin", "/sim/stdout", "/sim/stderr"} {
		k.Put(name, nil).Std = true
	}
	os.Stdin, _ = os.Open("/sim/stdin")
	os.Stdout, _ = os.OpenFile("/sim/stdout", os.O_WRONLY|os.O_APPEND, 0)
	os.Stderr, _ = os.OpenFile("/sim/stderr", os.O_WRONLY|os.O_APPEND, 0)
	log.SetOutput(os.Stderr)
	k.Plan = plan
	os.Args = append([]string{"/sim/" + tool}, args...)

	func() {
		defer func() {
			switch p := recover().(type) {
			case nil:
			case simos.Exited:
				res.code = p.Code
			case *core.Violation:
				panic(p)
			default:
				panic(&core.Violation{Key: "panic", Msg: fmt.Sprintf("%s crashed: %v", tool, p), Stack: string(debug.Stack())})
			}
		}()
		if tool == "zipimage" {
			zipimage.SimMain()
		} else {
			unzipimage.SimMain()
		}
	}()
	res.full = k.Full > full
	res.stderr = string(k.Files["/sim/stderr"].Data)
	res.stdout = string(k.Files["/sim/stdout"].Data)
	k.Thaw()
	r.EvS("< exit", strings.TrimSpace(res.stderr), res.code)
	return res
}
