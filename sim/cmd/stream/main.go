// Simulation of byte streams over block storage (C06-C10).
package main

import (
	"bytes"
	"errors"
	"io"
	"math"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/file_systems/common"
	"github.com/dargueta/disko/file_systems/common/basicstream"
	"github.com/dargueta/disko/file_systems/common/blockcache"

	"disko-sim/core"
)

func main() {
	real := []string{"file_systems/common/basicstream", "file_systems/common/blockcache"}
	stub := []string{"block storage behind the cache (fetch/flush/resize) simulated in memory with injected faults and crashes"}
	p := func(id string, s settings, quick, thorough int, rule string) *core.Profile {
		return &core.Profile{Together: 12, Property: id, Run: func(r *core.Run) { runStream(r, s) }, Huge: func(r *core.Run) { runHuge(r, s) }, Quick: quick, Thorough: thorough, Real: real, Stub: stub, Rule: rule}
	}
	core.Main(
		p("C06", settings{id: "C06", results: true}, 2_000_000, 60_000_000,
			"Histories of reads, writes, positioned I/O, seeks, truncations and invalid requests on healthy storage whose unused parts hold leftovers; every result, position, size and the whole contents are compared with a reference byte array."),
		p("C07", settings{id: "C07", faults: true, durable: true}, 2_000_000, 60_000_000,
			"Histories with failing fetches, flushes (clean, torn, stored-but-reported) and resizes; after every successful sync, close or synchronous write the simulated medium is compared with the acknowledged contents, a failed sync must keep the data readable, and the machine crashes and reopens from the medium."),
		p("C08", settings{id: "C08", faults: true, results: true, durable: true}, 2_000_000, 60_000_000,
			"Histories with storage faults at any device call of any operation; the outcome of each failed operation must lie in the allowed set (error reported, bytes outside the target unchanged, size old or requested, pointer moved by the reported count) and later operations on recovered storage must be consistent with it."),
		p("C09", settings{id: "C09", faults: true, copies: true}, 1_500_000, 45_000_000,
			"Bulk copies between streams and simulated readers/writers which deliver in arbitrary chunks, end together with data, stop short, or fail, over storage which may fail; counts, transferred prefixes and error reporting are compared with what the simulated ends saw."),
		p("C10", settings{id: "C10", faults: true, modes: true}, 2_000_000, 60_000_000,
			"Streams opened with every combination of access mode, append, truncate and sync, driven with all calls; refused calls must fail as not permitted and leave size, contents, pointer and storage untouched, appended data must land at the end of file."),
	)
}

type settings struct {
	id      string
	faults  bool
	results bool // C06/C08: judge results and contents of every operation
	durable bool // C07/C08: judge the medium after synchronisation
	copies  bool // C09
	modes   bool // C10
}

// disk is the simulated block storage.
type disk struct {
	r         *core.Run
	bs        int
	store     [][]byte
	capacity  int
	rate      int
	healthy   bool
	failed    int
	writes    int
	resizes   int
	resizable bool
}

func (d *disk) fault(kind string) bool {
	if d.healthy || !d.r.Chance(d.rate, 100) {
		return false
	}
	d.failed++
	d.r.Fault(kind)
	return true
}

func (d *disk) fetch(i common.LogicalBlock, buf []byte) error {
	d.r.Step()
	d.r.Ev("  fetch", int(i))
	if uint64(i) >= uint64(len(d.store)) {
		d.failed++
		return errors.New("no such block")
	}
	if d.fault("fetch error") {
		if n := d.r.Int(d.bs + 1); n > 0 {
			copy(buf, core.Pattern(uint64(i)+5, n))
		}
		return d.r.DeviceCallError()
	}
	copy(buf, d.store[i])
	return nil
}

func (d *disk) flush(i common.LogicalBlock, buf []byte) error {
	d.r.Step()
	d.writes++
	d.r.EvB("  flush", buf, int(i))
	if uint64(i) >= uint64(len(d.store)) {
		d.failed++
		return errors.New("no such block")
	}
	if d.fault("flush error") {
		switch d.r.Pick(2, 2, 1) {
		case 1:
			copy(d.store[i], buf[:d.r.Int(d.bs)])
			d.r.Probe("torn flush")
		case 2:
			copy(d.store[i], buf)
		}
		return d.r.SimError()
	}
	copy(d.store[i], buf)
	return nil
}

func (d *disk) resize(n common.LogicalBlock) error {
	d.r.Step()
	d.resizes++
	d.r.Ev("  resize", int(n))
	if uint64(n) > uint64(d.capacity) {
		d.failed++
		d.r.Fault("resize: no space")
		return disko.ErrNoSpaceOnDevice
	}
	if d.fault("resize error") {
		return d.r.SimError()
	}
	for len(d.store) < int(n) {
		d.store = append(d.store, core.Pattern(uint64(len(d.store))+31, d.bs))
	}
	d.store = d.store[:n]
	return nil
}

// world is a stream under test and the file it must behave like.
type world struct {
	r     *core.Run
	s     settings
	d     *disk
	c     *blockcache.BlockCache
	st    *basicstream.BasicStream
	flags disko.IOFlags
	data  []byte // reference contents
	pos   int64  // reference pointer
	fixed bool
	max   int // bytes the file may grow to
}

func runStream(r *core.Run, s settings) {
	bs := []int{4, 1, 2, 3, 8, 16, 64, 512}[r.Pick(8, 3, 3, 2, 3, 2, 1, 1)]
	total := r.Pick(2, 3, 3, 3, 2, 2, 1, 1)
	most := 4096
	switch r.Pick(60, 1, 1) {
	case 1: // a big file
		bs, most = []int{512, 4096, 100, 32768, 40000}[r.Int(5)], 200_000
		if bs < 5000 {
			total += r.Int(20)
		}
		r.Probe("big file")
	case 2: // many blocks
		bs, total = []int{1, 3, 4}[r.Int(3)], 60+r.Int(100)
		r.Probe("file of many blocks")
	}
	d := &disk{r: r, bs: bs, capacity: 40 + most/bs}
	if s.faults {
		d.rate = r.FaultRate()
		if r.Chance(1, 6) {
			d.capacity = total + r.Int(4)
		}
	}
	for i := 0; i < total; i++ {
		d.store = append(d.store, core.Pattern(uint64(i)+1000, bs))
	}
	size := total * bs
	if size > 0 && r.Chance(1, 2) {
		size = r.Int(size + 1)
	}
	w := &world{r: r, s: s, d: d, max: most}
	flags := []disko.IOFlags{disko.O_RDWR, disko.O_RDWR | disko.O_SYNC, disko.O_RDWR | disko.O_APPEND, disko.O_WRONLY, disko.O_RDONLY}
	switch {
	case s.modes:
		w.flags = flags[r.Pick(1, 1, 3, 2, 3)]
		if r.Chance(1, 4) {
			w.flags |= disko.O_APPEND
		}
		if r.Chance(1, 5) {
			w.flags |= disko.O_TRUNC
		}
		if r.Chance(1, 5) {
			w.flags |= disko.O_SYNC
		}
	case s.durable && !s.results:
		w.flags = flags[r.Pick(4, 4, 1, 1)]
	case s.copies:
		w.flags = flags[r.Pick(5, 2, 2)]
	default:
		w.flags = flags[r.Pick(6, 1, 1, 1)]
	}
	w.data = make([]byte, 0, size)
	for _, b := range d.store {
		w.data = append(w.data, b...)
	}
	w.data = w.data[:size]
	if !s.faults && r.Chance(1, 12) {
		w.openBadSize(total * bs)
	}
	w.open(w.flags, size)
	if w.st == nil {
		return
	}
	avg := 8
	if r.Chance(1, 5) {
		avg = 30
	}
	limit := 300
	if r.Long() {
		r.Probe("very long history")
		avg, limit = 700, 4000
	}
	for r.More(avg) && r.OpsDone < limit {
		w.step()
		h := core.HashBytes(w.data)*31 + uint64(w.pos)*977 + uint64(len(d.store))
		for _, b := range d.store {
			h = h*1099511628211 ^ core.HashBytes(b)
		}
		r.State(h)
	}
	// Faults stop: the contents must be intact, syncable and durable.
	d.healthy = true
	w.verify("at the end")
	if s.durable {
		w.sync(false)
		w.crash()
		w.verify("after the final reopen")
	}
}

// openBadSize tries to open streams of sizes the storage doesn't have.
func (w *world) openBadSize(capacity int) {
	r, d := w.r, w.d
	r.BeginOp("open with a bad size")
	size := int64(-1 - r.Int(3))
	switch r.Int(4) {
	case 0, 1:
		size = int64(capacity + 1 + r.Int(2*d.bs))
	case 2:
		size = []int64{math.MinInt64, math.MaxInt64, math.MaxInt64 - 1, 1 << 32, -1 << 31}[r.Int(5)]
	}
	c := blockcache.New(uint(d.bs), uint(len(d.store)), d.fetch, d.flush, d.resize)
	before := len(d.store)
	d.writes = 0
	var err error
	r.Catch("New", func() { _, err = basicstream.New(size, c, w.flags) })
	r.EvErr("->", err, int(size))
	r.Check(err != nil, "bad-size", "opening a stream of %d bytes on a storage of %d succeeded", size, capacity)
	r.Check(d.writes == 0 && len(d.store) == before, "bad-size-writes", "refusing a stream of %d bytes wrote to the storage", size)
	r.Probe("open with a bad size refused")
}

// open creates the stream, with a new cache as after a restart.
func (w *world) open(flags disko.IOFlags, size int) {
	r, d := w.r, w.d
	d.failed, d.writes = 0, 0
	w.c = blockcache.New(uint(d.bs), uint(len(d.store)), d.fetch, d.flush, d.resize)
	var err error
	r.Ev("open", int(flags), size, d.bs, len(d.store))
	r.Catch("New", func() { w.st, err = basicstream.New(int64(size), w.c, flags) })
	r.EvErr("->", err)
	w.pos = 0
	if flags.Truncate() {
		if !flags.Write() {
			// Refusing this combination is fine; so is truncating or not.
			if err != nil {
				w.st = nil
				r.Check(d.writes == 0, "trunc-refused-writes", "opening read-only with truncation failed but wrote to storage")
				return
			}
			w.data = w.data[:w.st.Size()]
			return
		}
		if err != nil {
			if d.failed == 0 {
				r.Fail("unexpected-error", "opening with truncation failed although the storage did not: %v", err)
			}
			w.st = nil
			return
		}
		w.data = w.data[:0]
		r.Check(w.st.Size() == 0, "trunc-open", "a stream opened with truncation has size %d", w.st.Size())
		return
	}
	if err != nil {
		r.Fail("unexpected-error", "opening a stream of %d bytes failed: %v", size, err)
	}
}

func (w *world) step() {
	r := w.r
	w.d.failed, w.d.writes = 0, 0
	switch w.s.id {
	case "C09":
		switch r.Pick(4, 4, 2, 2, 1, 1, 1) {
		case 0:
			w.readFrom()
		case 1:
			w.writeTo()
		case 2:
			w.write(false)
		case 3:
			w.seek()
		case 4:
			w.read(false)
		case 5:
			w.truncate()
		case 6:
			w.copyStream()
		}
		return
	case "C07":
		switch r.Pick(5, 3, 1, 2, 2, 5, 1, 2) {
		case 0:
			w.write(false)
		case 1:
			w.write(true)
		case 2:
			w.read(false)
		case 3:
			w.seek()
		case 4:
			w.truncate()
		case 5:
			w.sync(r.Chance(1, 6))
		case 6:
			w.readFrom()
		case 7:
			w.crash()
		}
		return
	}
	switch r.Pick(5, 4, 4, 4, 4, 3, 2, 1, 1, 1) {
	case 0:
		w.write(false)
	case 1:
		w.write(true)
	case 2:
		w.read(false)
	case 3:
		w.read(true)
	case 4:
		w.seek()
	case 5:
		w.truncate()
	case 6:
		w.sync(r.Chance(1, 8))
	case 7:
		if w.s.modes {
			w.readFrom()
		} else {
			w.invalid()
		}
	case 8:
		if w.s.modes {
			w.writeTo()
		} else {
			w.invalid()
		}
	case 9:
		h := w.d.healthy
		w.d.healthy = true
		w.verify("during the run")
		w.d.healthy = h
	}
}

func (w *world) length() int {
	if w.max > 4096 && w.r.Chance(1, 4) {
		return w.r.Int(70_000)
	}
	switch w.r.Pick(4, 3, 2, 1) {
	case 0:
		return 1 + w.r.Int(6)
	case 1:
		return 1 + w.r.Int(3*w.d.bs)
	case 2:
		return max(1, w.d.bs*(1+w.r.Int(3))-w.r.Int(2))
	}
	return 0
}

func (w *world) offset() int64 {
	n := len(w.data)
	switch w.r.Pick(4, 3, 2, 1) {
	case 0:
		return int64(w.r.Int(n + 1))
	case 1:
		return int64(n + w.r.Int(2*w.d.bs+3))
	case 2:
		return int64(w.r.Int(n/w.d.bs+2) * w.d.bs)
	}
	return int64(n + w.r.Int(200))
}

// judge decides whether a failure is legitimate.
func (w *world) judge(err error, what string) {
	if err != nil && w.d.failed == 0 && (w.s.results || w.s.copies || w.s.modes) {
		w.r.Fail("unexpected-error", "%s failed although the storage did not: %v", what, err)
	}
}

// view reads the contents below the stream, on storage which works for now.
func (w *world) view() []byte {
	h := w.d.healthy
	w.d.healthy = true
	defer func() { w.d.healthy = h }()
	size := w.st.Size()
	if size == 0 {
		return nil
	}
	data, err := w.c.Data()
	if err != nil {
		w.r.Fail("unexpected-error", "the contents can't be read although the storage works: %v", err)
	}
	if size > int64(len(data)) {
		w.r.Fail("size", "the stream claims %d bytes but its storage holds %d", size, len(data))
	}
	return append([]byte(nil), data[:size]...)
}

// verify compares the whole stream with the reference.
func (w *world) verify(when string) {
	if !w.s.results && !w.s.durable && !w.s.modes && !w.s.copies {
		return
	}
	r := w.r
	r.Check(w.st.Size() == int64(len(w.data)), "size", "%s the size is %d, expected %d", when, w.st.Size(), len(w.data))
	if w.flags.Read() && r.Chance(1, 2) {
		buf := make([]byte, len(w.data)+3)
		h := w.d.healthy
		w.d.healthy = true
		var n int
		var err error
		r.Catch("ReadAt", func() { n, err = w.st.ReadAt(buf, 0) })
		w.d.healthy = h
		r.Check(n == len(w.data) && err == io.EOF, "contents", "%s reading everything returns (%d, %v), expected %d bytes and end of file", when, n, err, len(w.data))
		w.same(buf[:n], when)
		return
	}
	w.same(w.view(), when)
}

func (w *world) same(got []byte, when string) {
	if bytes.Equal(got, w.data) {
		return
	}
	for i := range got {
		if i < len(w.data) && got[i] != w.data[i] {
			w.r.Fail("contents", "%s byte %d is %#x, expected %#x (size %d)", when, i, got[i], w.data[i], len(w.data))
		}
	}
	w.r.Fail("contents", "%s there are %d bytes, expected %d", when, len(got), len(w.data))
}

// checkMedium: what's been acknowledged as durable is on the medium.
func (w *world) checkMedium(when string) {
	if !w.s.durable {
		return
	}
	for i, b := range w.data {
		blk := i / w.d.bs
		if blk >= len(w.d.store) {
			w.r.Fail("durable-size", "%s the storage has %d blocks of %d but the stream has %d bytes", when, len(w.d.store), w.d.bs, len(w.data))
		}
		if got := w.d.store[blk][i%w.d.bs]; got != b {
			w.r.Fail("not-durable", "%s byte %d of the stream is %#x on the medium, expected %#x", when, i, got, b)
		}
	}
}

// wrote updates the reference after a write-like operation at off which
// reported n bytes and err.
func (w *world) wrote(what string, off int64, buf []byte, n int, err error) {
	r := w.r
	if n < 0 || n > len(buf) {
		r.Fail("count", "%s of %d bytes returned %d", what, len(buf), n)
	}
	if err == nil && n != len(buf) {
		if w.s.results || w.s.copies || w.s.modes {
			r.Fail("count", "%s of %d bytes succeeded but reports %d", what, len(buf), n)
		}
	}
	old := w.data
	full := append([]byte(nil), old...)
	if len(buf) > 0 {
		for int64(len(full)) < off+int64(len(buf)) {
			full = append(full, 0)
		}
		copy(full[off:], buf)
	}
	if err == nil {
		w.data = full
		if w.s.results || w.s.modes {
			r.Check(w.st.Size() == int64(len(full)), "size", "after a successful %s the size is %d, expected %d", what, w.st.Size(), len(full))
		}
		r.Nontrivial = r.Nontrivial || w.r.OpsDone > 1
		if w.flags.Synchronous() && len(buf) > 0 {
			w.checkMedium("after a synchronous " + what)
		}
		return
	}
	r.Probe("write failed")
	w.adopt(what, off, int64(len(full)), full, int64(n))
}

// adopt accepts any allowed outcome of a failed operation which targeted the
// range [off, end): everything else keeps its contents, the first n bytes are
// new, the rest of the range may be old, new or zero.
func (w *world) adopt(what string, off, end int64, full []byte, n int64) {
	r := w.r
	old := w.data
	got := w.view()
	size := int64(len(got))
	judge := w.s.results || w.s.copies || w.s.durable
	if judge {
		lo, hi := min(int64(len(old)), end), max(int64(len(old)), end)
		r.Check(w.s.copies && size >= lo && size <= hi || size == lo || size == hi || size == int64(len(old)) || (size >= lo && size <= hi && n > 0), "failed-size",
			"after a failed %s the size is %d; it was %d and %d was requested", what, size, len(old), end)
		for i := range got {
			i64 := int64(i)
			var want string
			switch {
			case i64 >= off && i64 < off+n && i < len(full):
				if got[i] == full[i] {
					continue
				}
				want = "the new byte"
			case i < len(old) && got[i] == old[i]:
				continue
			case i64 >= off && i < len(full) && got[i] == full[i]:
				continue
			case i >= len(old) && got[i] == 0:
				continue
			default:
				want = "its old value"
			}
			r.Fail("failed-damage", "after a failed %s of [%d,%d) reporting %d bytes, byte %d is %#x instead of %s (old size %d)", what, off, end, n, i, got[i], want, len(old))
		}
		if n > 0 {
			r.Check(size >= min(off+n, int64(len(full))), "failed-size", "a failed %s reports %d bytes at %d but the size is %d", what, n, off, size)
		}
	}
	w.data = got
}

func (w *world) checkPos(what string) {
	if w.s.results || w.s.modes {
		w.r.Check(w.st.Tell() == w.pos, "position", "after %s the pointer is %d, expected %d", what, w.st.Tell(), w.pos)
	}
	w.pos = w.st.Tell()
}

// refused judges calls the open mode forbids.
func (w *world) refused(what string, err error, pos int64) {
	r := w.r
	r.Probe("refused by open mode")
	if !w.s.modes {
		w.adoptAll()
		return
	}
	r.Check(err != nil, "mode-not-refused", "%s succeeded on a stream opened with flags %#x", what, int(w.flags))
	r.Check(errors.Is(err, disko.ErrNotPermitted), "mode-error", "%s on a stream opened with flags %#x failed with %v, not the not-permitted error", what, int(w.flags), err)
	r.Check(w.d.writes == 0, "mode-writes", "a refused %s wrote to storage", what)
	r.Check(w.st.Size() == int64(len(w.data)), "mode-size", "a refused %s changed the size to %d", what, w.st.Size())
	r.Check(w.st.Tell() == pos, "mode-position", "a refused %s moved the pointer from %d to %d", what, pos, w.st.Tell())
	w.same(w.view(), "after a refused "+what)
}

// refusedCount judges what a refused transfer reports and did to its buffer.
func (w *world) refusedCount(what string, got int, buf, before []byte) {
	if w.s.modes {
		w.r.Check(got == 0, "mode-count", "a refused %s reports %d bytes", what, got)
		w.r.Check(bytes.Equal(buf, before), "mode-buffer", "a refused %s changed the buffer it was given", what)
	}
}

func (w *world) adoptAll() {
	w.data, w.pos = w.view(), w.st.Tell()
}

func (w *world) write(at bool) {
	r := w.r
	n := w.length()
	buf := r.Fill(n)
	var given []byte
	var got int
	var err error
	if at {
		r.BeginOp("write at")
		given = r.Lend("written to the stream", buf)
		off := w.offset()
		if int(off)+n > w.max {
			return
		}
		r.EvB("write at", buf, int(off))
		r.Catch("WriteAt", func() { got, err = w.st.WriteAt(given, off) })
		r.EvErr("->", err, got)
		if !w.flags.Write() || w.flags.Append() {
			if n > 0 {
				w.refused("WriteAt", err, w.pos)
				w.refusedCount("WriteAt", got, buf, given)
			}
			return
		}
		w.judge(err, "WriteAt")
		w.wrote("WriteAt", off, buf, got, err)
		w.checkPos("WriteAt")
		return
	}
	r.BeginOp("write")
	given = r.Lend("written to the stream", buf)
	off := w.pos
	if w.flags.Append() {
		off = int64(len(w.data))
	}
	if int(off)+n > w.max {
		return
	}
	r.EvB("write", buf, int(off))
	if r.Chance(1, 8) {
		r.Catch("WriteString", func() { got, err = w.st.WriteString(string(given)) })
	} else {
		r.Catch("Write", func() { got, err = w.st.Write(given) })
	}
	r.EvErr("->", err, got)
	if !w.flags.Write() {
		if n > 0 {
			w.refused("Write", err, w.pos)
			w.refusedCount("Write", got, buf, given)
		}
		return
	}
	w.judge(err, "Write")
	pos := w.pos
	w.wrote("Write", off, buf, got, err)
	if w.flags.Append() && (n == 0 || err != nil) {
		// Whether the pointer moves to the end first isn't specified.
		if t := w.st.Tell(); t == pos || t == off+int64(got) {
			w.pos = t
		} else {
			w.pos = off + int64(got)
		}
	} else {
		w.pos = off + int64(got)
	}
	w.checkPos("Write")
}

func (w *world) read(at bool) {
	r := w.r
	n := w.length()
	buf := bytes.Repeat([]byte{0xEE}, n)
	off := w.pos
	var got int
	var err error
	what := "Read"
	if at {
		what = "ReadAt"
		r.BeginOp("read at")
		off = w.offset()
		r.Ev("read at", int(off), n)
		r.Catch("ReadAt", func() { got, err = w.st.ReadAt(buf, off) })
	} else {
		r.BeginOp("read")
		r.Ev("read", n)
		r.Catch("Read", func() { got, err = w.st.Read(buf) })
	}
	r.EvErr("->", err, got)
	r.Keep("read from the stream", buf)
	if !w.flags.Read() {
		if n > 0 {
			w.refused(what, err, w.pos)
			w.refusedCount(what, got, buf, bytes.Repeat([]byte{0xEE}, n))
		}
		return
	}
	r.Check(got >= 0 && got <= n, "count", "%s into %d bytes returned %d", what, n, got)
	if err != nil && err != io.EOF {
		w.judge(err, what)
		r.Probe("read failed")
	}
	if w.s.results {
		avail := 0
		if off < int64(len(w.data)) {
			avail = len(w.data) - int(off)
		}
		want := min(n, avail)
		if err == nil || err == io.EOF {
			r.Check(got == want, "count", "%s of %d bytes at %d of %d returned (%d, %v)", what, n, off, len(w.data), got, err)
			if err == io.EOF {
				r.Check(got == avail, "false-eof", "%s of %d bytes at %d of %d reports end of file", what, n, off, len(w.data))
			} else if n > 0 {
				r.Check(got > 0, "missing-eof", "%s of %d bytes at %d of %d returned nothing and no end of file", what, n, off, len(w.data))
				if at {
					r.Check(got == n, "missing-eof", "ReadAt of %d bytes at %d of %d returned %d without end of file", n, off, len(w.data), got)
				}
			}
		}
		r.Check(got <= avail, "count", "%s returned %d bytes of %d available", what, got, avail)
		if !bytes.Equal(buf[:got], w.data[min(off, int64(len(w.data))):][:got]) {
			r.Fail("read-content", "%s of %d bytes at %d returned wrong data %x, expected %x", what, n, off, buf[:got], w.data[off:][:got])
		}
	}
	if !at {
		w.pos += int64(got)
	}
	w.checkPos(what)
}

func (w *world) seek() {
	r := w.r
	r.BeginOp("seek")
	whence := r.Int(3)
	base := []int64{0, w.pos, int64(len(w.data))}[whence]
	target := w.offset()
	off := target - base
	if w.s.id == "C06" && r.Chance(1, 8) {
		off = -base - 1 - int64(r.Int(5))
		r.Probe("seek before the start")
	}
	var got int64
	var err error
	r.Ev("seek", int(off), whence)
	r.Catch("Seek", func() { got, err = w.st.Seek(off, whence) })
	r.EvErr("->", err, int(got))
	if base+off < 0 {
		r.Check(err != nil, "seek-negative", "seeking to %d succeeded", base+off)
	} else {
		if w.s.results {
			r.Check(err == nil, "unexpected-error", "Seek(%d, %d) failed: %v", off, whence, err)
			r.Check(got == base+off, "position", "Seek(%d, %d) from %d of %d returned %d", off, whence, w.pos, len(w.data), got)
		}
		if err == nil {
			w.pos = base + off
		}
	}
	w.checkPos("Seek")
}

func (w *world) truncate() {
	r := w.r
	r.BeginOp("truncate")
	n := w.offset()
	if r.Chance(1, 4) {
		n = 0
	}
	var err error
	r.Ev("truncate", int(n))
	r.Catch("Truncate", func() { err = w.st.Truncate(n) })
	r.EvErr("->", err)
	if !w.flags.Write() {
		w.refused("Truncate", err, w.pos)
		return
	}
	w.judge(err, "Truncate")
	full := append([]byte(nil), w.data[:min(n, int64(len(w.data)))]...)
	for int64(len(full)) < n {
		full = append(full, 0)
	}
	if err != nil {
		r.Probe("truncate failed")
		w.adoptTruncate(n, full)
	} else {
		w.data = full
		if w.s.results {
			r.Check(w.st.Size() == n, "size", "after Truncate(%d) the size is %d", n, w.st.Size())
		}
		r.Nontrivial = r.Nontrivial || r.OpsDone > 1
		if w.flags.Synchronous() {
			w.checkMedium("after a synchronous truncate")
		}
	}
	w.checkPos("Truncate")
}

func (w *world) adoptTruncate(n int64, full []byte) {
	old := w.data
	got := w.view()
	if w.s.results || w.s.durable {
		size := int64(len(got))
		w.r.Check(size == n || size == int64(len(old)), "failed-size", "after a failed Truncate(%d) the size is %d; it was %d", n, size, len(old))
		want := old
		if size == n {
			want = full
		}
		for i := range got {
			if got[i] != want[i] {
				w.r.Fail("failed-damage", "after a failed Truncate(%d) byte %d is %#x, expected %#x", n, i, got[i], want[i])
			}
		}
	}
	w.data = got
}

func (w *world) sync(closing bool) {
	r := w.r
	w.d.failed = 0
	var err error
	if closing {
		r.BeginOp("close")
		r.Ev("close")
		r.Catch("Close", func() { err = w.st.Close() })
	} else {
		r.BeginOp("sync")
		r.Ev("sync")
		r.Catch("Sync", func() { err = w.st.Sync() })
	}
	r.EvErr("->", err)
	if !w.flags.Write() && w.s.modes {
		r.Check(w.d.writes == 0, "mode-writes", "syncing a read-only stream wrote to storage")
	}
	if err != nil {
		if w.d.failed == 0 {
			if w.s.durable || w.s.results {
				r.Fail("unexpected-error", "syncing failed although the storage did not: %v", err)
			}
		}
		r.Probe("sync failed")
		if w.s.durable {
			w.verify("after a failed sync")
			if r.Chance(1, 2) {
				h := w.d.healthy
				w.d.healthy = true
				w.d.failed = 0
				r.Catch("Sync", func() { err = w.st.Sync() })
				r.EvErr("retry sync ->", err)
				r.Check(err == nil, "unexpected-error", "repeating a failed sync on working storage failed: %v", err)
				w.checkMedium("after repeating a failed sync")
				w.d.healthy = h
			}
		}
		w.checkPos("Sync")
		return
	}
	w.checkMedium("after a successful sync")
	w.checkPos("Sync")
	if closing {
		// Go on with a new stream over the same cache.
		fl := w.flags &^ disko.O_TRUNC
		r.Catch("New", func() { w.st, err = basicstream.New(int64(len(w.data)), w.c, fl) })
		if err != nil {
			r.Fail("unexpected-error", "reopening a stream of %d bytes failed: %v", len(w.data), err)
		}
		w.pos = 0
	}
}

// crash syncs, loses everything in memory and reopens from the medium.
func (w *world) crash() {
	r := w.r
	r.BeginOp("sync, crash, reopen")
	var err error
	w.d.failed = 0
	r.Ev("sync before crash")
	r.Catch("Sync", func() { err = w.st.Sync() })
	r.EvErr("->", err)
	if err != nil {
		if w.d.failed == 0 && w.s.durable {
			r.Fail("unexpected-error", "syncing failed although the storage did not: %v", err)
		}
		return
	}
	w.checkMedium("after a successful sync")
	r.Fault("crash and restart")
	w.open(w.flags&^disko.O_TRUNC, len(w.data))
}

func (w *world) invalid() {
	r := w.r
	r.BeginOp("invalid request")
	neg := -1 - int64(r.Int(10))
	if r.Chance(1, 4) {
		neg = math.MinInt64 + int64(r.Int(3))
	}
	buf := make([]byte, 1+r.Int(8))
	size := w.st.Size()
	var err error
	var n int
	what := ""
	switch r.Int(6) {
	case 0:
		what = "ReadAt at a negative offset"
		r.Catch(what, func() { n, err = w.st.ReadAt(buf, neg) })
	case 1:
		what = "WriteAt at a negative offset"
		r.Catch(what, func() { n, err = w.st.WriteAt(buf, neg) })
	case 2:
		what = "Truncate to a negative size"
		r.Catch(what, func() { err = w.st.Truncate(neg) })
	case 3:
		what = "Seek with an unknown origin"
		wh := 3 + r.Int(4)
		if r.Chance(1, 2) {
			wh = -1 - r.Int(3)
		}
		r.Catch(what, func() { _, err = w.st.Seek(0, wh) })
	case 4:
		what = "Seek before the start"
		r.Catch(what, func() { _, err = w.st.Seek(neg, io.SeekStart) })
	case 5:
		what = "WriteAt at an offset whose end can't be represented"
		r.Catch(what, func() { n, err = w.st.WriteAt(buf, math.MaxInt64-int64(r.Int(len(buf)))) })
	}
	r.EvErr(what, err, n)
	if w.s.id != "C06" {
		w.adoptAll()
		return
	}
	r.Check(err != nil, "invalid-accepted", "%s succeeded", what)
	r.Check(n == 0, "invalid-count", "%s reports %d bytes", what, n)
	r.Check(w.st.Size() == size, "invalid-changed", "%s changed the size from %d to %d", what, size, w.st.Size())
	w.checkPos(what)
	if r.Chance(1, 2) {
		w.same(w.view(), "after a refused request")
	}
}
