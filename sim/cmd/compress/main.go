// Simulation of the compression codecs (C11-C15).
package main

import (
	"bytes"
	"compress/gzip"
	"errors"
	"fmt"
	"io"

	"github.com/dargueta/disko/utilities/compression"

	ref "disko-sim/codec"
	"disko-sim/core"
)

func main() {
	real := []string{"utilities/compression", "compress/gzip of the standard library"}
	stub := []string{"input reader and output writer simulated in memory: chunking, empty reads, early and late end of file, read and write errors, damaged bytes"}
	p := func(id string, run func(*core.Run), quick int, rule string) *core.Profile {
		return &core.Profile{Together: 12, Property: id, Run: run, Quick: quick, Thorough: quick * 30, Real: real, Stub: stub, Rule: rule}
	}
	huge := func(id string, run func(*core.Run), quick int, rule string) *core.Profile {
		q := p(id, run, quick, rule+" One or two runs of each batch decode a run of somewhat more than 4 GiB.")
		q.Huge = runHuge
		return q
	}
	core.Main(
		huge("C11", runRoundTrip, 500_000, "Generated byte strings (run lengths biased to the format's limits and buffer sizes) are compressed and decompressed between simulated readers and writers with arbitrary chunking; outputs are compared with an independent reference codec."),
		p("C12", runFailures, 700_000, "As C11, but the reader or the writer fails at an arbitrary byte; error reporting, causes and delivered prefixes are compared with what the simulated ends saw."),
		p("C13", runDamage, 600_000, "Compressed images and run-length streams are truncated, bit-flipped, or have bytes dropped, duplicated, inserted or replaced, then decoded; the result must be an error or exactly the original."),
		p("C14", runGrouper, 4_000_000, "The run grouper over simulated readers and byte scanners with arbitrary chunking and failures; the runs are compared with the reference grouping."),
		huge("C15", runRecursive, 800_000, "Recursive run-length encoding, applied one to three times, between simulated readers and writers with chunking, failures and truncation, against a reference codec."),
	)
}

// reader is a simulated input.
type reader struct {
	r       *core.Run
	data    []byte
	pos     int
	chunk   int // 0: as asked; otherwise up to this many bytes at once
	zeros   int
	failAt  int
	err     error
	broke   bool
	once    bool // it goes on after failing once
	atEnd   bool // it broke only after delivering everything
	scratch bool // it uses the rest of the buffer as scratch space
}

func (s *reader) Read(p []byte) (int, error) {
	s.r.Step()
	if len(p) == 0 {
		return 0, nil
	}
	if s.zeros > 0 && s.r.Chance(1, 8) {
		s.zeros--
		s.r.Fault("reader returned nothing")
		return 0, nil
	}
	if s.scratch {
		for k := range p {
			p[k] = 0xA5
		}
	}
	limit := len(s.data)
	failing := s.failAt >= 0 && !(s.once && s.broke)
	if failing {
		limit = min(limit, s.failAt)
	}
	n := min(len(p), limit-s.pos)
	if s.chunk > 0 && n > 1 {
		n = min(n, 1+s.r.Int(s.chunk))
	}
	copy(p, s.data[s.pos:s.pos+n])
	s.pos += n
	if s.pos < limit || n > 0 && !s.r.Chance(1, 3) {
		return n, nil
	}
	if failing {
		if !s.broke {
			s.r.Fault("reader error")
		}
		s.broke = true
		s.atEnd = s.pos == len(s.data)
		return n, s.err
	}
	return n, io.EOF
}

// writer is a simulated output.
type writer struct {
	r      *core.Run
	got    []byte
	failAt int
	err    error
	broke  bool
	once   bool // it goes on after failing once
	limit  int
}

func (s *writer) Write(p []byte) (int, error) {
	s.r.Step()
	if s.failAt >= 0 && len(s.got)+len(p) > s.failAt && !(s.once && s.broke) {
		n := max(0, s.failAt-len(s.got))
		s.got = append(s.got, p[:n]...)
		if !s.broke {
			s.r.Fault("writer error")
		}
		s.broke = true
		return n, s.err
	}
	s.got = append(s.got, p...)
	if len(s.got) > s.limit {
		s.r.Fail("unbounded", "more than %d bytes of output", s.limit)
	}
	return len(p), nil
}

const hugeOutput = 64 << 20

func newReader(r *core.Run, data []byte) *reader {
	s := &reader{r: r, data: data, failAt: -1, zeros: r.Int(3), scratch: r.Chance(1, 2)}
	switch r.Pick(2, 3, 2, 1) {
	case 1:
		s.chunk = 1 + r.Int(5)
		if len(data) > 3000 {
			s.chunk = 200
		}
	case 2:
		s.chunk = 50 + r.Int(600)
	case 3:
		s.chunk = 4096
	}
	return s
}

func newWriter(r *core.Run) *writer { return &writer{r: r, failAt: -1, limit: hugeOutput} }

func gunzip(b []byte) ([]byte, error) {
	z, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, err
	}
	return io.ReadAll(z)
}

// codec names one of the operations under test.
type codec struct {
	name string
	f    func(io.Reader, io.Writer) (int64, error)
}

var (
	cRLE    = codec{"CompressRLE8", compression.CompressRLE8}
	dRLE    = codec{"DecompressRLE8", compression.DecompressRLE8}
	cImage  = codec{"CompressImage", compression.CompressImage}
	dImage  = codec{"DecompressImage", compression.DecompressImage}
	cRec    = codec{"CompressRLERecursive", compression.CompressRLERecursive}
	dRec    = codec{"DecompressRLERecursive", compression.DecompressRLERecursive}
	dToByte = codec{"DecompressImageToBytes", func(r io.Reader, w io.Writer) (int64, error) {
		b, err := compression.DecompressImageToBytes(r)
		if err != nil {
			return 0, err
		}
		if o, ok := w.(*writer); ok {
			o.r.Keep("given by DecompressImageToBytes", b)
		}
		n, err := w.Write(b)
		return int64(n), err
	}}
)

func call(r *core.Run, c codec, in *reader, out *writer) (n int64, err error) {
	r.BeginOp(c.name)
	r.EvB(c.name, in.data, in.failAt, out.failAt, in.chunk)
	r.Catch(c.name, func() { n, err = c.f(in, out) })
	r.EvErr("->", err, int(n), len(out.got))
	r.State(r.HashLog())
	return
}

func same(a, b []byte) string {
	if bytes.Equal(a, b) {
		return ""
	}
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return fmt.Sprintf("%d bytes instead of %d, first difference at %d", len(a), len(b), i)
		}
	}
	return fmt.Sprintf("%d bytes instead of %d", len(a), len(b))
}

// works runs a codec without faults and checks its output.
func works(r *core.Run, c codec, data, want []byte) []byte {
	out := newWriter(r)
	n, err := call(r, c, newReader(r, data), out)
	if err != nil {
		r.Fail("unexpected-error", "%s of %d bytes failed: %v", c.name, len(data), err)
	}
	r.Check(n == int64(len(out.got)), "count", "%s reports %d bytes but wrote %d", c.name, n, len(out.got))
	if want != nil {
		if d := same(out.got, want); d != "" {
			r.Fail("output", "%s of %x produced %s", c.name, clip(data), d)
		}
	}
	return out.got
}

func clip(b []byte) []byte { return b[:min(len(b), 32)] }

func runRoundTrip(r *core.Run) {
	data := ref.Generate(r, true)
	if len(data) > 2 {
		r.Nontrivial = true
	}
	if r.Chance(1, 4) {
		r.Probe("image")
		z := works(r, cImage, data, nil)
		d := dImage
		if r.Chance(1, 2) {
			d = dToByte
		}
		works(r, d, z, nonNil(data))
		r.State(core.HashBytes(z))
		return
	}
	enc := works(r, cRLE, data, nonNil(ref.RLE8(data)))
	works(r, dRLE, enc, nonNil(data))
	r.State(core.HashBytes(enc))
}

func nonNil(b []byte) []byte {
	if b == nil {
		return []byte{}
	}
	return b
}

var causes = []error{errors.New("simulated I/O error"), io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrShortWrite, io.ErrNoProgress,
	// Only io.EOF itself is the end of something.
	fmt.Errorf("simulated connection failure: %w", io.EOF)}

// A writer may well fail with io.EOF, which isn't the end of the input.
var writerCauses = append([]error{io.EOF}, causes...)

func runFailures(r *core.Run) {
	data := ref.Generate(r, true)
	var c codec
	var input, want []byte
	compressing := false
	switch r.Pick(4, 4, 1, 1, 1) {
	case 0:
		c, input, want, compressing = cRLE, data, ref.RLE8(data), true
	case 1:
		c, input, want = dRLE, ref.RLE8(data), data
	case 2:
		c, input, compressing = cImage, data, true
	case 3, 4:
		c = dImage
		if r.Chance(1, 3) {
			c = dToByte
		}
		var b bytes.Buffer
		level := []int{gzip.HuffmanOnly, gzip.BestSpeed, gzip.NoCompression}[r.Int(3)]
		z, _ := gzip.NewWriterLevel(&b, level)
		_, _ = z.Write(ref.RLE8(data))
		_ = z.Close()
		input, want = b.Bytes(), data
	}
	in, out := newReader(r, input), newWriter(r)
	in.err, out.err = causes[r.Int(len(causes))], writerCauses[r.Int(len(writerCauses))]
	in.once, out.once = r.Chance(1, 3), r.Chance(1, 3)
	switch r.Pick(4, 4, 1) {
	case 0:
		in.failAt = r.Int(len(input) + 1)
	case 1:
		// The size of compressed output isn't known in advance.
		out.failAt = r.Int(max(len(want), len(input)) + 20)
		if r.Chance(1, 3) {
			out.failAt = r.Int(30)
		}
	case 2:
		in.failAt, out.failAt = r.Int(len(input)+1), r.Int(len(want)+2)
	}
	n, err := call(r, c, in, out)
	if !in.broke && !out.broke {
		r.Check(err == nil, "unexpected-error", "%s failed although neither input nor output did: %v", c.name, err)
	}
	if err == nil {
		r.Check(!out.broke, "swallowed", "%s succeeded although writing its output failed", c.name)
		r.Check(!in.broke || in.atEnd && !compressing, "swallowed", "%s succeeded although reading its input failed", c.name)
		r.Check(n == int64(len(out.got)), "count", "%s reports %d bytes but wrote %d", c.name, n, len(out.got))
		got := out.got
		if c.name == cImage.name {
			raw, zerr := gunzip(got)
			r.Check(zerr == nil, "incomplete", "%s succeeded but its output isn't a complete gzip stream: %v", c.name, zerr)
			var whole bool
			got, whole = ref.UnRLE8(raw)
			r.Check(whole, "incomplete", "%s succeeded but its output ends inside a run", c.name)
			want = data
		}
		if d := same(got, want); d != "" {
			r.Fail("incomplete", "%s succeeded but its output decodes to %s", c.name, d)
		}
		return
	}
	r.Check(in.broke && errors.Is(err, in.err) || out.broke && errors.Is(err, out.err), "cause",
		"%s failed with %v, which does not wrap the cause (input failed: %v with %v, output failed: %v with %v)", c.name, err, in.broke, in.err, out.broke, out.err)
	if !compressing {
		r.Check(bytes.HasPrefix(want, out.got), "prefix", "what %s delivered before failing (%d bytes) is not a prefix of the correct output", c.name, len(out.got))
	}
}

func damage(r *core.Run, b []byte) (out []byte, kind string) {
	out = append([]byte(nil), b...)
	if len(out) == 0 {
		return nil, "none"
	}
	switch r.Pick(4, 5, 3, 3, 2, 2, 1) {
	case 0:
		r.Fault("truncated")
		return out[:r.Int(len(out))], "truncated"
	case 1:
		r.Fault("bit flip")
		for k := 1 + r.Int(3); k > 0; k-- {
			out[r.Int(len(out))] ^= 1 << r.Int(8)
		}
		return out, "flipped"
	case 2:
		r.Fault("bytes dropped")
		i := r.Int(len(out))
		n := 1 + r.Int(min(8, len(out)-i))
		return append(out[:i], out[i+n:]...), "dropped"
	case 3:
		r.Fault("bytes duplicated")
		i := r.Int(len(out))
		n := 1 + r.Int(min(8, len(out)-i))
		if n == len(out) {
			return out, "none"
		}
		return append(append(append([]byte(nil), out[:i+n]...), out[i:i+n]...), out[i+n:]...), "duplicated"
	case 4:
		r.Fault("torn write: tail zeroed")
		i := r.Int(len(out))
		clear(out[i:])
		return out, "zeroed"
	case 5:
		r.Fault("sector overwritten")
		i := r.Int(len(out))
		copy(out[i:], r.Fill(1+r.Int(20)))
		return out, "overwritten"
	}
	r.Fault("not a compressed image")
	return r.Fill(r.Int(60)), "garbage"
}

func runDamage(r *core.Run) {
	data := ref.Generate(r, false)
	if r.Chance(1, 2) {
		// A stream without a checksum: only ending inside a run is detectable.
		enc := ref.RLE8(data)
		bad, kind := damage(r, enc)
		want, whole := ref.UnRLE8(bad)
		in, out := newReader(r, bad), newWriter(r)
		out.limit = 257*len(bad)/3 + 300
		_, err := call(r, dRLE, in, out)
		if !whole {
			r.Probe("ends inside a run")
			r.Check(err != nil, "silent-truncation", "a %s RLE8 stream which ends inside a run decodes without an error", kind)
		} else {
			r.Check(err == nil, "unexpected-error", "decoding a valid RLE8 stream failed: %v", err)
			if d := same(out.got, want); d != "" {
				r.Fail("output", "decoding %x produced %s", clip(bad), d)
			}
		}
		r.Check(bytes.HasPrefix(want, out.got), "output", "decoding %x delivered bytes which aren't in the stream", clip(bad))
		return
	}
	var z []byte
	if r.Chance(1, 4) {
		var b bytes.Buffer
		if _, err := compression.CompressImage(bytes.NewReader(data), &b); err != nil {
			r.Fail("unexpected-error", "CompressImage failed: %v", err)
		}
		z = b.Bytes()
	} else {
		var b bytes.Buffer
		level := []int{gzip.HuffmanOnly, gzip.BestSpeed, gzip.NoCompression}[r.Int(3)]
		w, _ := gzip.NewWriterLevel(&b, level)
		_, _ = w.Write(ref.RLE8(data))
		_ = w.Close()
		z = b.Bytes()
	}
	bad, kind := damage(r, z)
	d := dImage
	if r.Chance(1, 3) {
		d = dToByte
	}
	in, out := newReader(r, bad), newWriter(r)
	out.limit = len(bad)*1100*90 + 100_000
	_, err := call(r, d, in, out)
	if kind == "truncated" {
		r.Check(err != nil, "silent-truncation", "%s of an image cut from %d to %d bytes succeeded with %d bytes", d.name, len(z), len(bad), len(out.got))
	}
	if err == nil {
		if diff := same(out.got, data); diff != "" {
			r.Fail("silent-damage", "%s of a %s image succeeded with wrong data: %s", d.name, kind, diff)
		}
		r.Probe("damage without effect")
	}
}

// scanner is a simulated io.ByteScanner.
type scanner struct {
	r      *core.Run
	data   []byte
	pos    int
	failAt int
	err    error
	canUn  bool
	broke  bool
	// failUn is the number of bytes after which a byte can't be unread, or -1.
	failUn int
}

func (s *scanner) ReadByte() (byte, error) {
	s.r.Step()
	s.canUn = false
	if s.failAt >= 0 && s.pos >= s.failAt {
		if !s.broke {
			s.r.Fault("scanner error")
		}
		s.broke = true
		return 0, s.err
	}
	if s.pos >= len(s.data) {
		return 0, io.EOF
	}
	s.pos++
	s.canUn = true
	return s.data[s.pos-1], nil
}

func (s *scanner) UnreadByte() error {
	s.r.Step()
	if !s.canUn {
		return errors.New("nothing to unread")
	}
	s.canUn = false
	if s.failUn >= 0 && s.pos > s.failUn {
		if !s.broke {
			s.r.Fault("unread error")
		}
		s.broke = true
		return s.err
	}
	s.pos--
	return nil
}

func runGrouper(r *core.Run) {
	data := ref.Generate(r, r.Chance(1, 20))
	failAt := -1
	cause := causes[r.Int(len(causes))]
	failUn := -1
	if r.Chance(1, 3) {
		failAt = r.Int(len(data) + 1)
	} else if r.Chance(1, 6) {
		failUn = r.Int(len(data) + 1)
	}
	var g compression.RLEGrouper
	var broke *bool
	var scan *scanner
	r.BeginOp("group")
	r.EvB("group", data, failAt)
	if r.Chance(1, 2) {
		s := &scanner{r: r, data: data, failAt: failAt, failUn: failUn, err: cause}
		broke, scan = &s.broke, s
		g = compression.NewRLEGrouperFromByteScanner(s)
	} else {
		s := newReader(r, data)
		s.failAt, s.err = failAt, cause
		broke = &s.broke
		r.Catch("NewRLEGrouperFromReader", func() { g = compression.NewRLEGrouperFromReader(s) })
	}
	want := ref.RunsOf(data)
	if len(want) > 1 {
		r.Nontrivial = true
	}
	i := 0
	ended, covered := false, 0
	for steps := 0; steps < len(want)+4; steps++ {
		var x compression.ByteRun
		var err error
		r.Catch("GetNextRun", func() { x, err = g.GetNextRun() })
		r.EvErr("run ->", err, int(x.Byte), x.RunLength)
		if err != nil && err != io.EOF && (*broke || !errors.Is(err, io.EOF)) {
			r.Check(*broke, "unexpected-error", "GetNextRun failed although its source did not: %v", err)
			r.Check(errors.Is(err, cause), "cause", "GetNextRun failed with %v, which does not wrap %v", err, cause)
			r.Check(x.RunLength == 0, "partial-run", "a failed GetNextRun returned a run of %d", x.RunLength)
			return
		}
		r.Check(scan == nil || !scan.broke, "swallowed", "GetNextRun succeeded with a run of %d although its source failed", x.RunLength)
		if x.RunLength != 0 {
			r.Check(!ended, "after-eof", "GetNextRun returned a run after end of file")
			r.Check(i < len(want) && x.Byte == want[i].B && x.RunLength == want[i].N, "wrong-run", "run %d is %d times %#x, expected %v", i, x.RunLength, x.Byte, want[min(i, max(0, len(want)-1)):min(len(want), i+1)])
			covered += x.RunLength
			i++
			// A run which reaches the point of failure can't be known to be complete.
			r.Check(failAt < 0 || covered < failAt || covered == failAt && false, "partial-run", "a run ending at byte %d was returned although the source fails at byte %d", covered, failAt)
			if err != nil {
				r.Check(i == len(want), "early-eof", "end of file was reported with run %d of %d", i, len(want))
				ended = true
			}
			continue
		}
		r.Check(err != nil, "empty-run", "GetNextRun returned an empty run without an error")
		r.Check(failAt < 0, "swallowed", "GetNextRun reports end of file although its source failed")
		r.Check(i == len(want), "early-eof", "end of file after %d of %d runs", i, len(want))
		ended = true
	}
	r.Check(ended, "missing-eof", "no end of file after %d runs", i)
}

func runRecursive(r *core.Run) {
	data := ref.Generate(r, r.Chance(1, 10))
	if r.Chance(1, 12) {
		data = append(data, bytes.Repeat([]byte{byte(r.Int(2) * 255)}, 66_000+r.Int(4000))...)
		r.Probe("long run")
	}
	mode := r.Pick(5, 3, 3)
	depth := 1 + r.Int(3)
	if mode == 0 {
		if len(data) > 2 {
			r.Nontrivial = true
		}
		enc := data
		var stages [][]byte
		for k := 0; k < depth; k++ {
			stages = append(stages, enc)
			enc = works(r, cRec, enc, nonNil(ref.Recursive(enc)))
		}
		for k := depth - 1; k >= 0; k-- {
			enc = works(r, dRec, enc, nonNil(stages[k]))
		}
		return
	}
	c, input, want := cRec, data, ref.Recursive(data)
	if r.Chance(1, 2) || mode == 2 {
		c, input, want = dRec, want, data
	}
	in, out := newReader(r, input), newWriter(r)
	if mode == 2 { // a stream which ends early
		r.Fault("truncated")
		if len(input) > 0 {
			in.data = input[:r.Int(len(input))]
		}
		want, whole := ref.UnRecursive(in.data)
		_, err := call(r, c, in, out)
		if whole {
			r.Check(err == nil, "unexpected-error", "decoding a valid stream failed: %v", err)
			if d := same(out.got, want); d != "" {
				r.Fail("output", "decoding %x produced %s", clip(in.data), d)
			}
		} else {
			r.Probe("ends inside a run")
			r.Check(err != nil, "silent-truncation", "decoding a stream which ends inside a run succeeded")
		}
		return
	}
	in.err, out.err = causes[r.Int(len(causes))], writerCauses[r.Int(len(writerCauses))]
	in.once, out.once = r.Chance(1, 3), r.Chance(1, 3)
	if r.Chance(1, 2) {
		in.failAt = r.Int(len(input) + 1)
	} else {
		out.failAt = r.Int(len(want) + 2)
	}
	n, err := call(r, c, in, out)
	if err == nil {
		r.Check(!in.broke && !out.broke, "swallowed", "%s succeeded although its input or output failed", c.name)
		r.Check(n == int64(len(out.got)), "count", "%s reports %d bytes but wrote %d", c.name, n, len(out.got))
		if d := same(out.got, want); d != "" {
			r.Fail("output", "%s of %x produced %s", c.name, clip(input), d)
		}
		return
	}
	r.Check(in.broke || out.broke, "unexpected-error", "%s failed although neither input nor output did: %v", c.name, err)
	if c.name == dRec.name {
		r.Check(bytes.HasPrefix(want, out.got), "prefix", "what %s delivered before failing (%d bytes) is not a prefix of the correct output", c.name, len(out.got))
	}
}
