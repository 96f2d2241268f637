package main

import (
	"bytes"
	"compress/gzip"
	"io"

	"github.com/dargueta/disko/utilities/compression"

	"disko-sim/core"
)

// repeated is an input of n bytes which repeats a pattern, then tail.
type repeated struct {
	n, at int64
	whole []byte // many times the pattern
	unit  int64
	tail  []byte
}

func newRepeated(unit []byte, times int64, tail ...byte) *repeated {
	return &repeated{n: times * int64(len(unit)), whole: bytes.Repeat(unit, 20_000), unit: int64(len(unit)), tail: tail}
}

func (s *repeated) Read(p []byte) (int, error) {
	if s.at == s.n {
		if len(s.tail) == 0 {
			return 0, io.EOF
		}
		n := copy(p, s.tail)
		s.tail = s.tail[n:]
		return n, nil
	}
	from := s.at % s.unit
	n := copy(p[:min(int64(len(p)), s.n-s.at)], s.whole[from:])
	s.at += int64(n)
	return n, nil
}

// sink counts what it is given: total bytes of one value are expected.
type sink struct {
	r           *core.Run
	value       []byte
	total, want int64
}

func (s *sink) Write(p []byte) (int, error) {
	s.total += int64(len(p))
	s.r.Check(s.total <= s.want, "huge-output", "more than the %d bytes which were encoded came out", s.want)
	for rest := p; len(rest) > 0; {
		n := min(len(rest), len(s.value))
		s.r.Check(bytes.Equal(rest[:n], s.value[:n]), "huge-output", "something other than %d came out", s.value[0])
		rest = rest[n:]
	}
	return len(p), nil
}

// runHuge handles a run of more than 4 GiB.
func runHuge(r *core.Run) {
	recursive := r.Property == "C15"
	kind := r.Int(4)
	if kind >= 2 || recursive && kind == 1 {
		if recursive {
			runRecursive(r)
		} else {
			runRoundTrip(r)
		}
		return
	}
	value := byte(r.Int(255))
	groups := int64(1<<32/257 + 1 + r.Int(1000))
	last := byte(r.Int(255))
	unit := []byte{value, value, 255}
	times := groups
	tail := []byte{value, value, last}
	want := groups*257 + 2 + int64(last)
	if recursive {
		unit, tail = []byte{255}, []byte{last}
		want = 2 + groups*255 + int64(last)
		for want <= 1<<32 {
			times += 100_000
			want += 100_000 * 255
		}
	}
	r.Ev("huge", kind, int(want))
	out := &sink{r: r, value: bytes.Repeat([]byte{value}, 4096), want: want}
	var n int64
	var err error
	if recursive {
		in := io.MultiReader(bytes.NewReader([]byte{value, value}), newRepeated(unit, times, tail...))
		r.Catch("DecompressRLERecursive", func() { n, err = compression.DecompressRLERecursive(in, out) })
	} else if kind == 0 {
		r.Catch("DecompressRLE8", func() { n, err = compression.DecompressRLE8(newRepeated(unit, times, tail...), out) })
	} else {
		image := &bytes.Buffer{}
		z, _ := gzip.NewWriterLevel(image, gzip.BestSpeed)
		io.Copy(z, newRepeated(unit, times, tail...))
		z.Close()
		r.Catch("DecompressImage", func() { n, err = compression.DecompressImage(image, out) })
	}
	r.Check(err == nil, "huge-error", "a run of %d bytes can't be decoded: %v", want, err)
	r.Check(n == want && out.total == want, "huge-count", "a run of %d bytes was encoded; the count returned is %d and %d bytes came out", want, n, out.total)
}
