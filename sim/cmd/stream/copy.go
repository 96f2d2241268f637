package main

import (
	"bytes"
	"errors"
	"io"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/file_systems/common/basicstream"
	"github.com/dargueta/disko/file_systems/common/blockcache"

	"disko-sim/core"
)

// source is a simulated reader.
type source struct {
	r       *core.Run
	data    []byte
	pos     int
	failAt  int // fail after this many bytes; -1: never
	err     error
	zeros   int // how many (0, nil) results are left
	ended   bool
	broke   bool
	scratch bool
}

func (s *source) Read(p []byte) (int, error) {
	s.r.Step()
	if len(p) == 0 {
		return 0, nil
	}
	if s.zeros > 0 && s.r.Chance(1, 6) {
		s.zeros--
		s.r.Fault("reader returned nothing")
		return 0, nil
	}
	if s.scratch {
		// Readers may use all of the buffer as scratch space.
		for k := range p {
			p[k] = 0xA5
		}
	}
	limit := len(s.data)
	if s.failAt >= 0 {
		limit = s.failAt
	}
	n := min(len(p), limit-s.pos)
	if n > 1 && s.r.Chance(1, 3) {
		n = 1 + s.r.Int(n)
	}
	copy(p, s.data[s.pos:s.pos+n])
	s.pos += n
	atEnd := s.pos == limit
	if !atEnd {
		return n, nil
	}
	if n > 0 && !s.r.Chance(1, 2) {
		return n, nil // the end is reported by the next call
	}
	if s.failAt >= 0 {
		s.broke = true
		s.r.Fault("reader error")
		return n, s.err
	}
	s.ended = true
	return n, io.EOF
}

// sink is a simulated writer.
type sink struct {
	r        *core.Run
	got      []byte
	failAt   int // accepts this many bytes in total; -1: everything
	silently bool
	late     bool // fails having accepted the last of it
	err      error
	broke    bool
}

func (s *sink) Write(p []byte) (int, error) {
	s.r.Step()
	if s.failAt >= 0 && len(s.got)+len(p) > s.failAt {
		n := max(0, s.failAt-len(s.got))
		s.got = append(s.got, p[:n]...)
		s.broke = true
		if s.silently {
			s.r.Fault("writer stopped short without an error")
			return n, nil
		}
		s.r.Fault("writer error")
		return n, s.err
	}
	s.got = append(s.got, p...)
	if s.late && len(s.got) == s.failAt && len(p) > 0 {
		s.broke = true
		s.r.Fault("writer error after the data")
		return len(p), s.err
	}
	return len(p), nil
}

func (w *world) newSource(n int) *source {
	r := w.r
	src := &source{r: r, data: r.Fill(n), failAt: -1, zeros: r.Int(4), err: r.SimError(), scratch: r.Chance(1, 2)}
	if r.Chance(1, 3) {
		src.failAt = r.Int(n + 1)
		if r.Chance(1, 4) {
			src.err = io.ErrUnexpectedEOF
		}
	}
	return src
}

func (w *world) readFrom() {
	r := w.r
	r.BeginOp("read from")
	n := r.Int(40)
	switch r.Int(4) {
	case 1:
		n = r.Int(4 * w.d.bs)
	case 2:
		n = r.Int(1600)
	case 3:
		if w.max > 4096 {
			n = r.Int(100_000)
		}
	}
	off := w.pos
	if w.flags.Append() {
		off = int64(len(w.data))
	}
	if int(off)+n > w.max {
		return
	}
	src := w.newSource(n)
	w.d.failed = 0
	var got int64
	var err error
	pos := w.pos
	r.EvB("read from", src.data, int(off), src.failAt)
	r.Catch("ReadFrom", func() { got, err = w.st.ReadFrom(src) })
	r.EvErr("->", err, int(got))
	if !w.flags.Write() {
		if w.s.modes {
			r.Check(got == 0, "mode-count", "a refused ReadFrom reports %d bytes", got)
			r.Check(src.pos == 0, "mode-consumed", "a refused ReadFrom took %d bytes from its source", src.pos)
		}
		w.refused("ReadFrom", err, pos)
		return
	}
	w.copiedIn("ReadFrom", src, off, got, err)
}

func (w *world) copiedIn(what string, src *source, off, got int64, err error) {
	r := w.r
	if w.s.copies {
		if err != nil && w.d.failed == 0 && !src.broke {
			r.Fail("unexpected-error", "%s failed although neither its source nor the storage did: %v", what, err)
		}
		r.Check(err != io.EOF, "eof-as-error", "%s reports a clean end of data as an error", what)
		if err != nil && w.d.failed == 0 && src.broke {
			// Everything the source gave has been written.
			r.Check(got == int64(src.pos), "count", "%s failed because its source did, and reports %d of the %d bytes it got before", what, got, src.pos)
			r.Check(errors.Is(err, src.err), "cause", "%s failed with %q although its source failed with %q", what, err.Error(), src.err.Error())
		}
		if err == nil {
			r.Check(!src.broke, "swallowed", "%s succeeded although its source failed", what)
			r.Check(src.ended, "incomplete", "%s succeeded before its source ended", what)
			r.Check(got == int64(len(src.data)), "count", "%s succeeded and reports %d of %d bytes", what, got, len(src.data))
		}
		r.Check(got >= 0 && got <= int64(src.pos), "count", "%s reports %d bytes although the source only produced %d", what, got, src.pos)
	}
	target := src.data[:src.pos]
	if err == nil {
		w.wrote(what, off, target, len(target), nil)
		if w.s.copies {
			w.same(w.view(), "after a successful "+what)
		}
	} else {
		g := min(max(got, 0), int64(len(target)))
		w.wrote(what, off, target, int(g), err)
	}
	if w.s.copies && got > 0 {
		r.Check(w.st.Tell() == off+got, "position", "after %s of %d bytes at %d the pointer is %d", what, got, off, w.st.Tell())
	}
	w.pos = w.st.Tell()
}

func (w *world) writeTo() {
	r := w.r
	r.BeginOp("write to")
	avail := max(0, len(w.data)-int(w.pos))
	dst := &sink{r: r, failAt: -1, err: r.SimError()}
	if r.Chance(1, 3) {
		dst.failAt = r.Int(avail + 1)
		dst.silently = r.Chance(1, 3)
		dst.late = !dst.silently && r.Chance(1, 2)
	}
	w.d.failed, w.d.writes = 0, 0
	pos := w.pos
	var got int64
	var err error
	r.Ev("write to", int(pos), dst.failAt)
	r.Catch("WriteTo", func() { got, err = w.st.WriteTo(dst) })
	r.EvErr("->", err, int(got))
	if !w.flags.Read() {
		w.refused("WriteTo", err, pos)
		if w.s.modes {
			r.Check(got == 0, "mode-count", "a refused WriteTo reports %d bytes", got)
			r.Check(len(dst.got) == 0, "mode-leak", "a refused WriteTo wrote %d bytes", len(dst.got))
		}
		return
	}
	if w.s.copies {
		if err != nil && w.d.failed == 0 && dst.broke && !dst.silently {
			r.Check(errors.Is(err, dst.err), "cause", "WriteTo failed with %q although its destination failed with %q", err.Error(), dst.err.Error())
		}
		if err != nil && w.d.failed == 0 && !dst.broke {
			r.Fail("unexpected-error", "WriteTo failed although neither its destination nor the storage did: %v", err)
		}
		r.Check(err != io.EOF, "eof-as-error", "WriteTo reports a clean end of data as an error")
		var want []byte
		if avail > 0 {
			want = w.data[pos:]
		}
		r.Check(len(dst.got) <= len(want) && bytes.Equal(dst.got, want[:len(dst.got)]), "prefix", "WriteTo delivered %d bytes which aren't a prefix of the %d expected", len(dst.got), len(want))
		r.Check(got == int64(len(dst.got)), "count", "WriteTo reports %d bytes but %d were accepted", got, len(dst.got))
		if err == nil {
			r.Check(!dst.broke, "swallowed", "WriteTo succeeded although its destination did not accept everything")
			r.Check(len(dst.got) == len(want), "incomplete", "WriteTo succeeded with %d of %d bytes", len(dst.got), len(want))
			r.Check(w.st.Tell() == max(pos, int64(len(w.data))), "position", "after a complete WriteTo the pointer is %d, not %d", w.st.Tell(), len(w.data))
		}
		r.Check(w.d.writes == 0, "copy-writes", "WriteTo wrote to storage")
	}
	w.pos = w.st.Tell()
}

// copyStream copies between two streams, each over its own simulated storage.
func (w *world) copyStream() {
	r := w.r
	r.BeginOp("copy between streams")
	bs := []int{4, 1, 3, 16, 512}[r.Int(5)]
	o := &disk{r: r, bs: bs, capacity: 5000, rate: w.d.rate}
	total := r.Int(6)
	if w.max > 4096 {
		bs, total = []int{4, 512, 4096, 32768}[r.Int(4)], r.Int(24)
	}
	var content []byte
	for i := 0; i < total; i++ {
		b := core.Pattern(uint64(i)+777, bs)
		o.store = append(o.store, b)
		content = append(content, b...)
	}
	if len(content) > 0 {
		content = content[:len(content)-r.Int(bs)]
	}
	c := blockcache.New(uint(bs), uint(total), o.fetch, o.flush, o.resize)
	otherFlags, unreadable := disko.O_RDWR, r.Chance(1, 12)
	if unreadable {
		otherFlags = disko.O_WRONLY
	}
	other, err := basicstream.New(int64(len(content)), c, disko.IOFlags(otherFlags))
	if err != nil {
		r.Fail("unexpected-error", "opening a stream failed: %v", err)
	}
	off := w.pos
	if w.flags.Append() {
		off = int64(len(w.data))
	}
	if int(off)+len(content) > w.max {
		return
	}
	var got int64
	w.d.failed = 0
	mode := r.Int(3)
	r.Ev("copy stream", mode, bs, len(content), int(off))
	r.Catch("copy", func() {
		switch mode {
		case 0:
			got, err = w.st.ReadFrom(other)
		case 1:
			got, err = other.WriteTo(w.st)
		default:
			got, err = io.Copy(w.st, other)
		}
	})
	r.EvErr("->", err, int(got))
	if unreadable {
		r.Check(errors.Is(err, disko.ErrNotPermitted), "swallowed", "copying from a stream which can't be read gives %v, not an error for that", err)
		r.Check(got == 0, "count", "copying from a stream which can't be read reports %d bytes", got)
		w.pos = w.st.Tell()
		w.same(w.view(), "after copying from a stream which can't be read")
		return
	}
	r.Check(err != io.EOF, "eof-as-error", "copying between streams reports a clean end of data as an error")
	if err != nil && w.d.failed == 0 && o.failed == 0 {
		r.Fail("unexpected-error", "copying between streams failed although no storage did: %v", err)
	}
	r.Check(got >= 0 && got <= int64(len(content)), "count", "copying %d bytes reports %d", len(content), got)
	if err == nil {
		r.Check(got == int64(len(content)), "count", "copying %d bytes succeeded and reports %d", len(content), got)
		w.wrote("copy", off, content, len(content), nil)
		w.same(w.view(), "after a successful copy")
	} else {
		w.wrote("copy", off, content, int(got), err)
	}
	w.pos = w.st.Tell()
}
