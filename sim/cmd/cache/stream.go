package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/file_systems/common"
	"github.com/dargueta/disko/file_systems/common/blockcache"

	"disko-sim/core"
)

// simStream is a simulated seekable stream.
type simStream struct {
	r       *core.Run
	m       *model
	data    []byte
	pos     int64
	rate    int  // error probability
	short   int  // short transfer probability
	lenient bool // short writes without an error, too
	healthy bool
	stuck   bool // every call fails until the operation is over
	failed  int
	err     error
	calls   int
	writes  int
	truncs  []int64
	maxSize int64
	scratch bool
	fixed   bool // can't grow by writing (like a slice)

	seekResult int64 // added to what a failed seek returns
}

func (s *simStream) fault(kind string) bool {
	if !s.healthy && (s.stuck || s.r.Chance(s.rate, 100)) {
		if !s.stuck && s.r.Chance(1, 3) {
			s.stuck = true
			s.r.Probe("stream stays broken")
		}
		s.failed++
		s.err = s.r.SimError()
		s.r.Fault(kind)
		return true
	}
	return false
}

func (s *simStream) Seek(off int64, whence int) (int64, error) {
	s.r.Step()
	s.calls++
	if s.fault("seek error") {
		return s.pos + s.seekResult, s.err
	}
	switch whence {
	case io.SeekCurrent:
		off += s.pos
	case io.SeekEnd:
		off += int64(len(s.data))
	}
	if off < 0 {
		return s.pos, errors.New("negative position")
	}
	s.pos = off
	s.r.Ev("  seek", int(off))
	return off, nil
}

func (s *simStream) Read(p []byte) (int, error) {
	s.r.Step()
	s.calls++
	s.r.Ev("  stream read", int(s.pos), len(p))
	if len(p) == 0 {
		return 0, nil
	}
	if s.scratch {
		// Readers may use all of the buffer as scratch space.
		for k := range p {
			p[k] = 0xA5
		}
	}
	if s.pos >= int64(len(s.data)) {
		s.r.Probe("read at end of stream")
		return 0, io.EOF
	}
	avail := s.data[s.pos:]
	n := min(len(p), len(avail))
	if !s.healthy && n > 1 && s.r.Chance(s.short, 100) {
		n = 1 + s.r.Int(n-1)
		s.r.Fault("short read")
	}
	if s.fault("read error") {
		// Some bytes, then the error. A stream which has broken down gives none.
		if s.stuck {
			return 0, s.err
		}
		n = s.r.Int(n + 1)
		copy(p, avail[:n])
		s.pos += int64(n)
		return n, s.err
	}
	copy(p, avail[:n])
	s.pos += int64(n)
	if s.pos == int64(len(s.data)) && s.r.Chance(1, 4) {
		s.r.Probe("data together with end of file")
		return n, io.EOF
	}
	return n, nil
}

func (s *simStream) Write(p []byte) (int, error) {
	s.r.Step()
	s.calls++
	s.writes++
	s.r.EvB("  stream write", p, int(s.pos))
	n := len(p)
	var err error
	if s.fault("write error") {
		n = s.r.Int(n + 1)
		err = s.err
		if n > 0 {
			s.r.Probe("torn write")
		}
	} else if !s.healthy && n > 1 && s.r.Chance(s.short, 100) {
		n = s.r.Int(n)
		s.r.Fault("short write")
		s.failed++
		s.err = io.ErrShortWrite
		if !s.lenient {
			err = io.ErrShortWrite
		}
	}
	for k := 0; k < n; k++ {
		off := s.pos + int64(k)
		i := int(off) / s.m.bs
		s.m.r.Check(i < s.m.total(), "write-outside", "a byte was written at offset %d, past the last block", off)
		s.m.r.Check(s.m.may[i], "write-untouched", "a byte was written at offset %d although nothing is pending in block %d", off, i)
		b := int(off) % s.m.bs
		okCur := s.m.cur[i][b] == p[k]
		okAlt := s.m.alt[i] != nil && s.m.alt[i][b] == p[k]
		s.m.r.Check(okCur || okAlt, "write-content", "byte %#x was written at offset %d, expected %#x", p[k], off, s.m.cur[i][b])
	}
	if end := s.pos + int64(n); end > int64(len(s.data)) {
		s.data = append(s.data, make([]byte, end-int64(len(s.data)))...)
	}
	copy(s.data[s.pos:], p[:n])
	s.pos += int64(n)
	return n, err
}

func (s *simStream) truncate(size int64) error {
	s.r.Step()
	s.calls++
	s.truncs = append(s.truncs, size)
	s.r.Ev("  truncate", int(size))
	if size > s.maxSize {
		s.failed++
		s.err = disko.ErrNoSpaceOnDevice
		s.r.Fault("truncate: no space")
		return s.err
	}
	if s.fault("truncate error") {
		return s.err
	}
	if size < int64(len(s.data)) {
		s.data = s.data[:size:size]
	} else {
		s.data = append(s.data, make([]byte, size-int64(len(s.data)))...)
	}
	return nil
}

type truncStream struct{ *simStream }

func (t truncStream) Truncate(size int64) error { return t.truncate(size) }

// runStream decides C05.
func runStream(r *core.Run) {
	bs, total := sizes(r)
	if r.Chance(1, 8) {
		runSlice(r, bs, total)
		return
	}
	m := &model{r: r, o: oracle{reads: true, flushes: true, resizes: true}, bs: bs}
	s := &simStream{r: r, m: m, rate: r.FaultRate(), short: []int{0, 20, 60}[r.Int(3)], lenient: r.Chance(1, 2), maxSize: int64(max(48, total+16) * bs), scratch: r.Chance(1, 2)}
	size := total * bs
	inferred := r.Chance(1, 3)
	switch r.Int(3) {
	case 1: // a tail which isn't a whole block
		size += r.Int(bs)
	case 2: // the stream ends early
		if !inferred && size > 0 {
			size -= 1 + r.Int(size)
			r.Probe("stream shorter than the cache")
		}
	}
	s.data = core.Pattern(31337, size)
	for i := 0; i < total; i++ {
		b := make([]byte, bs)
		if i*bs < size {
			copy(b, s.data[i*bs:min(size, (i+1)*bs)])
		}
		m.store = append(m.store, nil)
		m.grow(b, false)
	}
	allow, hasTrunc := r.Chance(3, 4), r.Chance(3, 4)
	var stream io.ReadWriteSeeker = s
	if hasTrunc {
		stream = truncStream{s}
	}
	r.Ev("wrap", bs, total, size, s.rate, s.short)
	if inferred && r.Chance(1, 8) {
		runUnknownSize(r, s, stream, bs)
		return
	}
	var c *blockcache.BlockCache
	s.healthy = true
	if inferred {
		r.Catch("WrapStreamWithInferredSize", func() { c = blockcache.WrapStreamWithInferredSize(stream, uint(bs), allow) })
		r.Check(c.TotalBlocks() == uint(size/bs), "inferred-size", "a stream of %d bytes is %d blocks of %d, not %d", size, size/bs, bs, c.TotalBlocks())
	} else {
		r.Catch("WrapStream", func() { c = blockcache.WrapStream(stream, uint(bs), uint(total), allow) })
	}
	s.healthy = false
	d := &device{r: r, m: m, bad: -1} // only carries the fault count to the shared operations
	sync := func() { d.failed = s.failed }
	for r.More(8) && r.OpsDone < 300 {
		s.failed, s.stuck = 0, false
		streamOp(r, m, s, d, c, allow && hasTrunc, allow, sync)
		h := core.HashBytes(s.data)
		for i := range m.may {
			if m.may[i] {
				h = h*31 + uint64(i)
			}
		}
		r.State(h)
	}
	// Retry everything on a working stream.
	s.healthy, s.failed = true, 0
	streamFlush(r, m, s, c)
	for i := 0; i < m.total(); i++ {
		streamRead(r, m, s, c, i, 1)
	}
	streamCompare(r, m, s)
}

// runUnknownSize wraps a stream whose size can't be found out since seeking fails. The
// cache can't know what's in it then, but it must not come to harm either.
func runUnknownSize(r *core.Run, s *simStream, stream io.ReadWriteSeeker, bs int) {
	before := append([]byte{}, s.data...)
	rate := s.rate
	s.rate, s.seekResult = 100, int64(-r.Int(2))
	var c *blockcache.BlockCache
	r.Catch("WrapStreamWithInferredSize", func() { c = blockcache.WrapStreamWithInferredSize(stream, uint(bs), true) })
	s.rate, s.healthy = rate, true
	if s.failed == 0 {
		return
	}
	r.Probe("size unknown")
	unchanged := func(what string, until int) {
		for k := 0; k < min(until, len(before)); k++ {
			r.Check(k < len(s.data) && s.data[k] == before[k], "unknown-size", "%s on a cache over a stream whose size is unknown destroyed the byte at offset %d", what, k)
		}
	}
	for n := 0; n < 2; n++ {
		i := r.Int(len(before)/bs + 2)
		buf := make([]byte, bs)
		var err error
		r.Catch("ReadAt", func() { _, err = c.ReadAt(buf, common.LogicalBlock(i)) })
		r.EvErr("read ->", err, i)
		if err == nil {
			want := make([]byte, bs)
			copy(want, before[min(i*bs, len(before)):])
			r.Check(bytes.Equal(buf, want), "unknown-size", "block %d of a stream whose size is unknown reads as %x, expected %x", i, buf, want)
		}
		k := r.Int(len(before)/bs + 3)
		r.Catch("Resize", func() { err = c.Resize(uint(k)) })
		r.EvErr("resize ->", err, k)
		until := len(before)
		if err == nil {
			r.Check(len(s.data) == k*bs, "resize-size", "after resizing to %d blocks of %d the stream is %d bytes", k, bs, len(s.data))
			until = k * bs
		}
		r.Catch("Flush", func() { err = c.Flush() })
		r.EvErr("flush ->", err)
		unchanged("Resize", until)
		before = append([]byte{}, s.data...)
	}
}

func streamCompare(r *core.Run, m *model, s *simStream) {
	for i := range m.cur {
		if m.may[i] {
			continue
		}
		for k := 0; k < m.bs; k++ {
			var b byte
			if off := i*m.bs + k; off < len(s.data) {
				b = s.data[off]
			}
			r.Check(b == m.cur[i][k], "stream-content", "offset %d of the stream holds %#x, expected %#x", i*m.bs+k, b, m.cur[i][k])
		}
	}
}

func (m *model) noStreamFault(s *simStream, err error, what string) {
	if err != nil && s.failed == 0 {
		m.r.Fail("unexpected-error", "%s failed although the stream did not: %v", what, err)
	}
}

func streamRead(r *core.Run, m *model, s *simStream, c *blockcache.BlockCache, start, count int) {
	r.BeginOp("read")
	n := m.byteLen(count)
	buf := make([]byte, n)
	var err error
	var got int
	writes := s.writes
	r.Ev("read", start, n)
	r.Catch("ReadAt", func() { got, err = c.ReadAt(buf, common.LogicalBlock(start)) })
	r.Keep("read from the cache", buf)
	r.EvErr("->", err, got)
	m.noStreamFault(s, err, "ReadAt")
	r.Check(s.writes == writes, "read-writes", "reading wrote to the stream")
	if err != nil {
		return
	}
	for i := start; i < start+count; i++ {
		lo := (i - start) * m.bs
		hi := min(lo+m.bs, n)
		if !m.matches(i, buf[lo:hi]) {
			r.Fail("read-content", "block %d reads as %x, expected %x", i, buf[lo:hi], m.cur[i][:hi-lo])
		}
	}
}

func streamFlush(r *core.Run, m *model, s *simStream, c *blockcache.BlockCache) {
	r.BeginOp("flush")
	var err error
	r.Ev("flush all")
	before := s.failed
	r.Catch("Flush", func() { err = c.Flush() })
	r.EvErr("->", err)
	m.noStreamFault(s, err, "Flush")
	if err != nil {
		r.Probe("flush failed")
		return
	}
	r.Check(s.failed == before, "flush-swallowed", "Flush succeeded although the stream failed: %v", s.err)
	for i := range m.must {
		if m.must[i] || m.may[i] {
			for k := 0; k < m.bs; k++ {
				var b byte
				if off := i*m.bs + k; off < len(s.data) {
					b = s.data[off]
				}
				ok := b == m.cur[i][k] || m.alt[i] != nil && b == m.alt[i][k]
				if m.must[i] {
					r.Check(ok, "flush-missing", "after a successful flush offset %d of the stream holds %#x, expected %#x", i*m.bs+k, b, m.cur[i][k])
					r.Check(i*m.bs+k < len(s.data), "flush-missing", "after a successful flush the stream ends inside block %d", i)
				}
			}
			if m.alt[i] == nil && m.must[i] {
				m.must[i], m.may[i] = false, false
			}
		}
	}
}

func streamOp(r *core.Run, m *model, s *simStream, d *device, c *blockcache.BlockCache, canResize, allow bool, sync func()) {
	start, count, ok := m.rng()
	kind := r.Pick(5, 5, 3, 3, 1)
	if !ok && kind < 2 {
		kind = 2
	}
	switch kind {
	case 0:
		streamRead(r, m, s, c, start, count)
		if r.Chance(1, 2) {
			// A retry on a working stream has to return the right bytes.
			s.healthy, s.failed = true, 0
			streamRead(r, m, s, c, start, count)
			s.healthy = false
		}
	case 1:
		r.BeginOp("write")
		// The shared helper settles ambiguities by reading; that must work.
		n := m.byteLen(count)
		data := r.Fill(n)
		var err error
		r.EvB("write", data, start, n)
		r.Catch("WriteAt", func() { _, err = c.WriteAt(r.Lend("written to the cache", data), common.LogicalBlock(start)) })
		r.EvErr("->", err)
		m.noStreamFault(s, err, "WriteAt")
		for i := start; i < start+count; i++ {
			next := append([]byte(nil), m.cur[i]...)
			lo := (i - start) * m.bs
			hi := min(lo+m.bs, n)
			m.may[i] = true
			if m.alt[i] != nil && (err != nil || hi-lo < m.bs) {
				was := s.healthy
				s.healthy = true
				d.healthy = true
				if err == nil {
					copy(m.alt[i], data[lo:hi])
					copy(next, data[lo:hi])
					m.cur[i] = next
				}
				third := append([]byte(nil), m.cur[i]...)
				copy(third, data[lo:hi])
				m.settle(d, c, i, third)
				s.healthy = was
				if err == nil {
					m.must[i] = true
				}
				continue
			}
			copy(next, data[lo:hi])
			if err == nil {
				m.cur[i], m.alt[i], m.must[i] = next, nil, true
			} else {
				m.alt[i] = next
			}
		}
		if err == nil {
			r.Nontrivial = true
		}
	case 2:
		streamFlush(r, m, s, c)
	case 3:
		r.BeginOp("resize")
		n := r.Int(m.total() + 6)
		if r.Chance(1, 10) {
			n = 49 + r.Int(1000)
		}
		s.truncs = s.truncs[:0]
		before := append([]byte(nil), s.data...)
		var err error
		r.Ev("resize", n)
		r.Catch("Resize", func() { err = c.Resize(uint(n)) })
		r.EvErr("->", err)
		if err != nil {
			if canResize {
				m.noStreamFault(s, err, "Resize")
			} else {
				r.Probe("resize not possible")
				r.Check(len(s.truncs) == 0, "resize-forbidden", "the stream was truncated although resizing isn't allowed")
			}
			r.Check(string(before) == string(s.data), "resize-failed-changed", "a failed resize changed the stream")
			r.Check(c.TotalBlocks() == uint(m.total()), "resize-failed-changed", "a failed resize changed the cache's size to %d", c.TotalBlocks())
			return
		}
		if !canResize {
			r.Fail("resize-forbidden", "resizing succeeded although it isn't allowed or possible")
		}
		r.Check(len(s.data) == n*m.bs, "resize-size", "after resizing to %d blocks of %d the stream is %d bytes", n, m.bs, len(s.data))
		r.Check(c.TotalBlocks() == uint(n), "resize-size", "after resizing to %d blocks the cache has %d", n, c.TotalBlocks())
		if n < m.total() {
			m.shrink(n)
		}
		for m.total() < n {
			m.grow(make([]byte, m.bs), true)
		}
		r.Nontrivial = true
	case 4:
		streamCompare(r, m, s)
	}
}

// runSlice wraps a real byte slice.
func runSlice(r *core.Run, bs, total int) {
	extra := 0
	if r.Chance(1, 3) {
		extra = r.Int(bs)
	}
	slice := core.Pattern(4711, total*bs+extra)
	want := append([]byte(nil), slice...)
	onDisk := append([]byte(nil), slice...)
	var c *blockcache.BlockCache
	r.Ev("wrap slice", bs, total, extra)
	r.Catch("WrapSlice", func() { c = blockcache.WrapSlice(slice, uint(bs)) })
	r.Check(c.TotalBlocks() == uint(total), "inferred-size", "a slice of %d bytes is %d blocks of %d, not %d", len(slice), total, bs, c.TotalBlocks())
	for r.More(8) && r.OpsDone < 200 {
		kind := r.Pick(3, 4, 2, 2)
		if total == 0 && kind < 2 {
			kind = 2
		}
		start := 0
		ln := 0
		if total > 0 {
			start = r.Int(total)
			ln = 1 + r.Int((total-start)*bs)
		}
		var err error
		switch kind {
		case 0:
			r.BeginOp("read")
			buf := make([]byte, ln)
			r.Ev("read", start, ln)
			r.Catch("ReadAt", func() { _, err = c.ReadAt(buf, common.LogicalBlock(start)) })
			r.Check(err == nil, "unexpected-error", "ReadAt failed on a slice: %v", err)
			r.Check(string(buf) == string(want[start*bs:start*bs+ln]), "read-content", "read %x at block %d, expected %x", buf, start, want[start*bs:start*bs+ln])
		case 1:
			r.BeginOp("write")
			data := r.Fill(ln)
			r.EvB("write", data, start)
			r.Catch("WriteAt", func() { _, err = c.WriteAt(data, common.LogicalBlock(start)) })
			r.Check(err == nil, "unexpected-error", "WriteAt failed on a slice: %v", err)
			copy(want[start*bs:], data)
			r.Nontrivial = true
		case 2:
			r.BeginOp("flush")
			r.Ev("flush")
			r.Catch("Flush", func() { err = c.Flush() })
			r.Check(err == nil, "unexpected-error", "Flush failed on a slice: %v", err)
			copy(onDisk, want)
			r.Check(string(slice) == string(onDisk), "stream-content", "after a flush the slice is %s, expected %s", short(slice), short(onDisk))
		case 3:
			r.BeginOp("resize")
			n := r.Int(total + 5)
			r.Ev("resize", n)
			r.Catch("Resize", func() { err = c.Resize(uint(n)) })
			r.Check(err != nil, "resize-forbidden", "a cache over a slice was resized to %d", n)
			r.Check(c.TotalBlocks() == uint(total), "resize-failed-changed", "a failed resize changed the size to %d", c.TotalBlocks())
		}
	}
}

func short(b []byte) string {
	if len(b) > 40 {
		return fmt.Sprintf("%x...", b[:40])
	}
	return fmt.Sprintf("%x", b)
}
