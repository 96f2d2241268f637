// Simulation of the block cache (C01-C05).
package main

import (
	"bytes"
	"errors"
	"math"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/file_systems/common"
	"github.com/dargueta/disko/file_systems/common/blockcache"

	"disko-sim/core"
)

func main() {
	real := []string{"file_systems/common/blockcache"}
	stub := []string{"backing storage (fetch/flush/resize callbacks) simulated in memory with injected faults"}
	core.Main(
		&core.Profile{Together: 12, Property: "C01", Huge: func(r *core.Run) { runHuge(r, oracle{reads: true}, false) }, Run: func(r *core.Run) { runCache(r, oracle{reads: true}) },
			Quick: 2_000_000, Thorough: 60_000_000, Real: real, Stub: stub,
			Rule: "Histories of reads, writes, in-place edits, dirty marks, flushes and resizes on a block cache over a simulated device whose fetches and flushes fail cleanly, partially or torn; every successful read is compared with a reference block array."},
		&core.Profile{Together: 12, Property: "C02", Huge: func(r *core.Run) { runHuge(r, oracle{flushes: true}, false) }, Run: func(r *core.Run) { runCache(r, oracle{flushes: true}) },
			Quick: 2_000_000, Thorough: 60_000_000, Real: real, Stub: stub,
			Rule: "The same histories, flush-heavy; every device write is compared with the reference contents and pending set at the instant it happens (so the frozen storage at every crash point is judged), and the whole device is compared after each successful flush."},
		&core.Profile{Together: 12, Property: "C03", Run: runTwins,
			Quick: 2_000_000, Thorough: 60_000_000, Real: real, Stub: stub,
			Rule: "Two caches over two simulated devices execute the same history and the same faults, one of them with additional out-of-range calls (including start blocks and counts near the integer limits); the extra calls must fail as out of range without device I/O, and every later result, device call and device state of the twins must be identical."},
		&core.Profile{Together: 12, Property: "C04", Huge: func(r *core.Run) { runHuge(r, oracle{reads: true, flushes: true, resizes: true}, false) }, Run: func(r *core.Run) { runCache(r, oracle{reads: true, flushes: true, resizes: true}) },
			Quick: 2_000_000, Thorough: 60_000_000, Real: real, Stub: stub,
			Rule: "Resize-heavy histories on a simulated device which may refuse to resize; contents, sizes and pending sets after each resize are compared with the reference model."},
		&core.Profile{Together: 12, Property: "C05", Huge: func(r *core.Run) { runHuge(r, oracle{reads: true, flushes: true, resizes: true}, true) }, Run: runStream,
			Quick: 2_000_000, Thorough: 60_000_000, Real: real,
			Stub: []string{"seekable stream simulated in memory: short reads, short writes, seek/read/write/truncate errors, early end of file"},
			Rule: "Histories on a cache wrapped around a simulated stream (or a real byte slice) with short I/O and errors; every byte written to the stream is compared with the reference at the moment it's written, every read with the reference contents, and the stream's size with the number of blocks after each resize."},
	)
}

type oracle struct{ reads, flushes, resizes bool }

// model is the reference: what every block must contain and what must be or may
// be written back.
type model struct {
	r     *core.Run
	o     oracle
	bs    int
	cur   [][]byte // current contents
	alt   [][]byte // another possible content, after a write failed part-way
	must  []bool   // pending: the next successful flush has to store it
	may   []bool   // writing it back is allowed
	store [][]byte // what's on the simulated medium, per block
}

func (m *model) total() int { return len(m.cur) }

func (m *model) stateHash(extra uint64) uint64 {
	h := extra
	for i := range m.cur {
		h = h*1099511628211 ^ core.HashBytes(m.cur[i][:min(4, m.bs)])
		if m.must[i] {
			h ^= 0x5555
		}
		if m.alt[i] != nil {
			h ^= 0x777
		}
		h = h*31 + core.HashBytes(m.store[i][:min(4, m.bs)])
	}
	return h
}

// matches checks data read for block i, settling an ambiguity.
func (m *model) matches(i int, data []byte) bool {
	n := len(data)
	if bytes.Equal(data, m.cur[i][:n]) {
		if n == m.bs {
			m.alt[i] = nil
		}
		return true
	}
	if m.alt[i] != nil && bytes.Equal(data, m.alt[i][:n]) {
		if n == m.bs {
			m.cur[i], m.alt[i] = m.alt[i], nil
			m.must[i], m.may[i] = true, true
		}
		return true
	}
	return false
}

// wroteBack judges a device write of block i.
func (m *model) wroteBack(i int, data []byte) {
	if !m.o.flushes {
		return
	}
	m.r.Check(m.may[i], "flush-untouched", "block %d was written to storage although nothing changed in it since it last reached storage", i)
	m.r.Check(m.matches(i, data), "flush-content", "block %d was written to storage with the wrong contents", i)
}

// device is the simulated storage behind the callbacks.
type device struct {
	r       *core.Run
	m       *model
	rate    int
	healthy bool // no faults at all for now
	failed  int  // faults during the current operation
	calls   int  // device calls during the current operation
	bad     int  // a block whose fetches/flushes fail until the next heal; -1: none
	err     error
	noSpace int // resizing beyond this many blocks fails
	log     func(kind string, i int, data []byte)
}

func (d *device) fault(kind string, i int) bool {
	if d.healthy {
		return false
	}
	if i >= 0 && i == d.bad || d.r.Chance(d.rate, 100) {
		d.failed++
		d.err = d.r.DeviceCallError()
		d.r.Fault(kind)
		return true
	}
	return false
}

func (d *device) checkCall(what string, i common.LogicalBlock, buf []byte) {
	d.r.Step()
	d.calls++
	d.r.Check(uint64(i) < uint64(len(d.m.store)), "bad-block",
		"%s of block %d, which the storage doesn't have (%d blocks)", what, i, len(d.m.store))
	d.r.Check(len(buf) == d.m.bs, "bad-buffer", "%s of block %d with a buffer of %d bytes, not %d", what, i, len(buf), d.m.bs)
}

func (d *device) fetch(i common.LogicalBlock, buf []byte) error {
	d.checkCall("fetch", i, buf)
	d.r.Ev("  fetch", int(i))
	if d.log != nil {
		d.log("fetch", int(i), nil)
	}
	if d.fault("fetch error", int(i)) {
		if n := d.r.Int(d.m.bs + 1); n > 0 {
			copy(buf[:n], core.Pattern(uint64(i)+99999, n))
			d.r.Probe("failed fetch left partial data")
		}
		return d.err
	}
	copy(buf, d.m.store[i])
	return nil
}

func (d *device) flush(i common.LogicalBlock, buf []byte) error {
	d.checkCall("flush", i, buf)
	d.r.EvB("  flush", buf, int(i))
	if d.log != nil {
		d.log("flush", int(i), buf)
	}
	d.m.wroteBack(int(i), buf)
	if d.fault("flush error", int(i)) {
		switch n := d.r.Pick(2, 2, 1); n {
		case 1: // torn
			k := d.r.Int(d.m.bs)
			copy(d.m.store[i][:k], buf)
			d.r.Probe("torn flush")
		case 2: // stored, but reported as failed
			copy(d.m.store[i], buf)
		}
		return d.err
	}
	copy(d.m.store[i], buf)
	d.m.must[i], d.m.may[i] = false, false
	return nil
}

func (d *device) resize(n common.LogicalBlock) error {
	d.r.Step()
	d.calls++
	d.r.Ev("  resize", int(n))
	if d.log != nil {
		d.log("resize", int(n), nil)
	}
	if uint64(n) > math.MaxInt64/uint64(d.m.bs) && d.r.Chance(1, 2) {
		// A storage without limits; no memory can hold that many blocks.
		d.r.Probe("storage accepted an absurd size")
		return nil
	}
	if uint64(n) > uint64(d.noSpace) {
		d.failed++
		d.err = disko.ErrNoSpaceOnDevice
		d.r.Fault("resize: no space")
		return d.err
	}
	if d.fault("resize refused", -1) {
		return d.err
	}
	for len(d.m.store) < int(n) {
		// New blocks hold leftovers.
		d.m.store = append(d.m.store, core.Pattern(uint64(len(d.m.store))+4242, d.m.bs))
	}
	d.m.store = d.m.store[:n]
	return nil
}

func newModel(r *core.Run, o oracle, bs, total int) *model {
	m := &model{r: r, o: o, bs: bs}
	for i := 0; i < total; i++ {
		b := core.Pattern(uint64(i)+1000, bs)
		m.store = append(m.store, append([]byte(nil), b...))
		m.grow(b, false)
	}
	return m
}

func (m *model) grow(b []byte, pending bool) {
	m.cur = append(m.cur, b)
	m.alt = append(m.alt, nil)
	m.must = append(m.must, pending)
	m.may = append(m.may, pending)
}

func (m *model) shrink(n int) {
	m.cur, m.alt, m.must, m.may = m.cur[:n], m.alt[:n], m.must[:n], m.may[:n]
}

func sizes(r *core.Run) (bs, total int) {
	bs = []int{4, 1, 2, 3, 8, 16, 64, 512}[r.Pick(8, 3, 3, 2, 3, 2, 1, 1)]
	total = r.Pick(1, 2, 3, 3, 3, 2, 2, 2, 2, 2) // 0..9
	switch r.Pick(50, 10, 2, 1) {
	case 1:
		total = 8 + r.Int(25)
	case 2: // many blocks
		bs = []int{1, 2, 4, 7}[r.Int(4)]
		total = []int{64, 65, 128, 256, 257, 60 + r.Int(300)}[r.Int(6)]
		r.Probe("more than 60 blocks")
	case 3: // big blocks
		bs = []int{513, 1024, 4096, 32768, 65536, 70001}[r.Int(6)]
		total = 1 + r.Int(4)
		r.Probe("blocks bigger than 512 bytes")
	}
	return
}

func (m *model) blocksFor(n int) int { return (n + m.bs - 1) / m.bs }

// rng picks a non-empty in-range block range, or false on an empty cache.
func (m *model) rng() (start, count int, ok bool) {
	n := m.total()
	if n == 0 {
		return 0, 0, false
	}
	start = m.r.Int(n)
	count = 1 + m.r.Int(n-start)
	return start, count, true
}

// byteLen picks a buffer length which needs exactly `count` blocks.
func (m *model) byteLen(count int) int {
	n := count * m.bs
	if m.bs > 1 && m.r.Chance(1, 3) {
		n -= 1 + m.r.Int(m.bs-1)
	}
	return n
}

func runCache(r *core.Run, o oracle) {
	bs, total := sizes(r)
	m := newModel(r, o, bs, total)
	d := &device{r: r, m: m, rate: r.FaultRate(), bad: -1, noSpace: max(48, total+16)}
	if r.Chance(1, 4) {
		d.noSpace = total + r.Int(6)
	}
	resizable := o.resizes || r.Chance(3, 4)
	var cb blockcache.ResizeCallback
	if resizable {
		cb = d.resize
	}
	c := blockcache.New(uint(bs), uint(total), d.fetch, d.flush, cb)
	r.Ev("new", bs, total, d.rate)
	w := []int{6, 6, 4, 3, 3, 2, 2, 1, 1, 1}
	if o.flushes && !o.resizes {
		w = []int{2, 8, 4, 4, 6, 2, 1, 1, 1, 1}
	}
	if o.resizes {
		w = []int{4, 5, 3, 2, 3, 8, 2, 1, 1, 1}
	}
	mutations := 0
	avg := 8
	if r.Chance(1, 5) {
		avg = 40
	}
	most := 400
	if r.Long() {
		r.Probe("very long history")
		avg, most = 700, 4000
	}
	for r.More(avg) && r.OpsDone < most {
		d.failed, d.calls = 0, 0
		kind := r.Pick(w...)
		start, count, ok := m.rng()
		if !ok && kind < 4 {
			kind = 4 + r.Int(5)
		}
		switch kind {
		case 0:
			opRead(r, m, d, c, start, count)
		case 1:
			opWrite(r, m, d, c, start, count)
			mutations++
		case 2:
			opEdit(r, m, d, c, start, count)
			mutations++
		case 3:
			r.BeginOp("mark dirty")
			r.Ev("mark", start, count)
			var err error
			r.Catch("MarkBlockRangeDirty", func() { err = c.MarkBlockRangeDirty(common.LogicalBlock(start), uint(count)) })
			r.EvErr("->", err)
			m.noFault(d, err, "MarkBlockRangeDirty")
			for i := start; i < start+count; i++ {
				m.may[i] = true
				if err == nil {
					m.must[i] = true
				}
			}
			mutations++
		case 4:
			opFlush(r, m, d, c)
		case 5:
			opResize(r, m, d, c, resizable)
		case 6:
			opWhole(r, m, d, c)
		case 7: // the device heals or a block goes bad
			d.bad = -1
			if m.total() > 0 && r.Chance(1, 2) {
				d.bad = r.Int(m.total())
			}
			r.Ev("bad block", d.bad)
		case 8:
			opSizes(r, m, c)
		case 9: // everything must be intact once the device works
			d.healthy = true
			opWhole(r, m, d, c)
			opFlush(r, m, d, c)
			d.healthy = false
		}
		r.State(m.stateHash(uint64(m.total())))
	}
	if mutations > 1 {
		r.Nontrivial = true
	}
	// Faults stop: a read of everything and a flush must now succeed.
	d.healthy, d.bad = true, -1
	d.failed, d.calls = 0, 0
	if r.Chance(1, 2) {
		opWhole(r, m, d, c)
	}
	opFlush(r, m, d, c)
	opWhole(r, m, d, c)
	opFlush(r, m, d, c)
}

// noFault: without a fault an operation on existing blocks succeeds.
func (m *model) noFault(d *device, err error, what string) {
	if err != nil && d.failed == 0 {
		m.r.Fail("unexpected-error", "%s failed although the storage did not: %v", what, err)
	}
}

func opRead(r *core.Run, m *model, d *device, c *blockcache.BlockCache, start, count int) {
	r.BeginOp("read")
	n := m.byteLen(count)
	for attempt := 0; ; attempt++ {
		buf := bytes.Repeat([]byte{0xEE}, n)
		var got int
		var err error
		r.Ev("read", start, n)
		r.Catch("ReadAt", func() { got, err = c.ReadAt(buf, common.LogicalBlock(start)) })
		r.Keep("read from the cache", buf)
		r.EvErr("->", err, got)
		if m.o.reads {
			m.noFault(d, err, "ReadAt")
			if err == nil {
				r.Check(got == n, "read-count", "ReadAt into %d bytes returned %d", n, got)
			}
			r.Check(got >= 0 && got <= n, "read-count", "ReadAt into %d bytes returned %d", n, got)
			for i := start; i*m.bs < start*m.bs+got; i++ {
				lo := (i - start) * m.bs
				hi := min(lo+m.bs, got)
				if !m.matches(i, buf[lo:hi]) {
					r.Fail("read-content", "ReadAt returned wrong data for block %d: %x, expected %x", i, buf[lo:hi], m.cur[i][:hi-lo])
				}
			}
		}
		// Once the device works the same read has to succeed.
		if err == nil || attempt > 0 || !r.Chance(2, 3) {
			return
		}
		r.Probe("retried a failed read")
		was, bad := d.healthy, d.bad
		d.healthy, d.failed = true, 0
		defer func() { d.healthy, d.bad = was, bad }()
	}
}

func opWrite(r *core.Run, m *model, d *device, c *blockcache.BlockCache, start, count int) {
	r.BeginOp("write")
	n := m.byteLen(count)
	data := r.Fill(n)
	var got int
	var err error
	given := r.Lend("written to the cache", data)
	r.EvB("write", data, start, n)
	r.Catch("WriteAt", func() { got, err = c.WriteAt(given, common.LogicalBlock(start)) })
	r.EvErr("->", err, got)
	m.noFault(d, err, "WriteAt")
	if err == nil && m.o.reads {
		r.Check(got == n, "write-count", "WriteAt of %d bytes returned %d", n, got)
	}
	for i := start; i < start+count; i++ {
		next := append([]byte(nil), m.cur[i]...)
		lo := (i - start) * m.bs
		copy(next, data[lo:min(lo+m.bs, n)])
		m.may[i] = true
		if err == nil {
			if m.alt[i] != nil && min(lo+m.bs, n)-lo < m.bs {
				// Partially overwriting an ambiguous block.
				a := append([]byte(nil), m.alt[i]...)
				copy(a, data[lo:n])
				m.alt[i] = a
			} else {
				m.alt[i] = nil
			}
			m.cur[i], m.must[i] = next, true
		} else if m.alt[i] == nil && !bytes.Equal(next, m.cur[i]) {
			m.alt[i] = next
			r.Probe("write failed")
		} else if m.alt[i] != nil {
			// Two failed writes in a row: settle by reading it back.
			m.settle(d, c, i, next)
		}
	}
}

// settle reads an ambiguous block back once the device works.
func (m *model) settle(d *device, c *blockcache.BlockCache, i int, third []byte) {
	was, bad := d.healthy, d.bad
	d.healthy = true
	buf := make([]byte, m.bs)
	_, err := c.ReadAt(buf, common.LogicalBlock(i))
	d.healthy, d.bad = was, bad
	if err != nil {
		m.r.Fail("unexpected-error", "reading block %d failed although the storage did not: %v", i, err)
	}
	if bytes.Equal(buf, third) && !m.matches(i, buf) {
		m.cur[i], m.alt[i], m.must[i] = third, nil, true
		return
	}
	if !m.matches(i, buf) && m.o.reads {
		m.r.Fail("read-content", "block %d is %x after a failed write, expected the old or the new contents", i, buf)
	}
	m.cur[i], m.alt[i] = buf, nil
}

func opEdit(r *core.Run, m *model, d *device, c *blockcache.BlockCache, start, count int) {
	r.BeginOp("edit in place")
	var s []byte
	var err error
	r.Ev("slice", start, count)
	r.Catch("GetSlice", func() { s, err = c.GetSlice(common.LogicalBlock(start), uint(count)) })
	r.EvErr("->", err, len(s))
	m.noFault(d, err, "GetSlice")
	if err != nil {
		return
	}
	r.Check(len(s) == count*m.bs, "slice-length", "GetSlice of %d blocks returned %d bytes", count, len(s))
	for i := 0; i < count; i++ {
		got := s[i*m.bs : (i+1)*m.bs]
		if !m.matches(start+i, got) {
			if m.o.reads {
				r.Fail("read-content", "GetSlice returned wrong data for block %d: %x, expected %x", start+i, got, m.cur[start+i])
			}
			return
		}
	}
	if r.Chance(1, 4) {
		return
	}
	i := r.Int(count)
	k := 1 + r.Int(count-i)
	data := r.Fill(k * m.bs)
	off := 0
	if m.bs > 1 {
		off = r.Int(m.bs)
	}
	copy(s[i*m.bs+off:(i+k)*m.bs], data)
	d.failed = 0
	r.Ev("edit", start+i, k, off)
	r.Catch("MarkBlockRangeDirty", func() { err = c.MarkBlockRangeDirty(common.LogicalBlock(start+i), uint(k)) })
	r.EvErr("->", err)
	m.noFault(d, err, "MarkBlockRangeDirty")
	for b := 0; b < k; b++ {
		j := start + i + b
		m.cur[j] = append([]byte(nil), s[(i+b)*m.bs:(i+b+1)*m.bs]...)
		m.alt[j] = nil
		m.may[j] = true
		if err == nil {
			m.must[j] = true
		}
	}
}

func opFlush(r *core.Run, m *model, d *device, c *blockcache.BlockCache) {
	r.BeginOp("flush")
	d.failed, d.calls = 0, 0
	var err error
	r.Ev("flush all")
	r.Catch("Flush", func() { err = c.Flush() })
	r.EvErr("->", err)
	if !m.o.flushes {
		if err == nil {
			for i := range m.must {
				m.must[i] = false
			}
		}
		return
	}
	m.noFault(d, err, "Flush")
	if err != nil {
		r.Probe("flush failed")
		return
	}
	for i := range m.cur {
		if m.must[i] {
			r.Fail("flush-missing", "Flush succeeded but pending block %d did not reach storage", i)
		}
		if m.alt[i] != nil && !m.may[i] {
			m.alt[i] = nil
		}
	}
}

func opWhole(r *core.Run, m *model, d *device, c *blockcache.BlockCache) {
	r.BeginOp("read everything")
	d.failed, d.calls = 0, 0
	if r.Chance(1, 3) {
		var err error
		r.Ev("load all")
		r.Catch("LoadAll", func() { err = c.LoadAll() })
		r.EvErr("->", err)
		if m.o.reads {
			m.noFault(d, err, "LoadAll")
		}
		return
	}
	var s []byte
	var err error
	r.Ev("data")
	r.Catch("Data", func() { s, err = c.Data() })
	r.EvErr("->", err, len(s))
	if !m.o.reads {
		return
	}
	m.noFault(d, err, "Data")
	if err != nil {
		return
	}
	r.Check(len(s) == m.total()*m.bs, "data-length", "Data returned %d bytes for %d blocks of %d", len(s), m.total(), m.bs)
	for i := range m.cur {
		got := s[i*m.bs : (i+1)*m.bs]
		if !m.matches(i, got) {
			r.Fail("read-content", "Data returned wrong bytes for block %d: %x, expected %x", i, got, m.cur[i])
		}
	}
}

func opSizes(r *core.Run, m *model, c *blockcache.BlockCache) {
	r.BeginOp("sizes")
	if !m.o.resizes && !m.o.reads {
		return
	}
	r.Check(c.TotalBlocks() == uint(m.total()), "size", "TotalBlocks is %d, expected %d", c.TotalBlocks(), m.total())
	r.Check(c.Size() == int64(m.total()*m.bs), "size", "Size is %d, expected %d", c.Size(), m.total()*m.bs)
	r.Check(c.BytesPerBlock() == uint(m.bs), "size", "BytesPerBlock is %d, expected %d", c.BytesPerBlock(), m.bs)
}

func opResize(r *core.Run, m *model, d *device, c *blockcache.BlockCache, resizable bool) {
	r.BeginOp("resize")
	n := m.total()
	var absurd uint64
	switch r.Pick(6, 6, 2, 2, 1) {
	case 4:
		absurd = []uint64{math.MaxUint64, math.MaxInt64, 1 << 63, math.MaxUint64/uint64(m.bs) + 1}[r.Int(4)]
		if absurd <= math.MaxInt64/uint64(m.bs) || !m.o.resizes || !resizable {
			absurd = 0
		}
	case 0:
		n += 1 + r.Int(5)
	case 1:
		n -= r.Int(n + 1)
	case 3:
		n = max(49, n+17) + r.Int(1000000) // more than the device has
	}
	var err error
	before := d.calls
	if absurd != 0 {
		r.Ev("resize", int(absurd))
		r.Catch("Resize", func() { err = c.Resize(uint(absurd)) })
		r.EvErr("->", err)
		r.Check(err != nil, "resize-absurd", "resizing to %d blocks of %d succeeded", absurd, m.bs)
		opSizes(r, m, c)
		return
	}
	r.Ev("resize", n)
	r.Catch("Resize", func() { err = c.Resize(uint(n)) })
	r.EvErr("->", err)
	if err != nil {
		if !m.o.resizes {
			if d.failed == 0 && resizable {
				r.Fail("unexpected-error", "Resize failed although the storage did not: %v", err)
			}
			return
		}
		if !resizable {
			r.Check(errors.Is(err, disko.ErrNotSupported), "resize-error", "Resize of a fixed-size cache failed with %v", err)
			r.Check(d.calls == before, "resize-io", "Resize of a fixed-size cache accessed the storage")
		} else if d.failed == 0 {
			r.Fail("unexpected-error", "Resize failed although the storage did not: %v", err)
		} else {
			r.Check(errors.Is(err, d.err), "resize-error", "Resize failed with %v although the storage reported %v", err, d.err)
		}
		r.Probe("resize refused")
		opSizes(r, m, c)
		return
	}
	if m.o.resizes {
		r.Check(resizable, "resize-fixed", "Resize of a fixed-size cache succeeded")
		r.Check(len(m.store) == n, "resize-storage", "Resize to %d blocks succeeded but the storage has %d", n, len(m.store))
	} else if !resizable || len(m.store) != n {
		// Judged by C04's check.
		for len(m.store) < n {
			m.store = append(m.store, make([]byte, m.bs))
		}
	}
	if n < m.total() {
		r.Probe("shrunk")
		m.shrink(n)
	}
	for m.total() < n {
		r.Probe("grown")
		m.grow(make([]byte, m.bs), true)
	}
	r.Nontrivial = true
	opSizes(r, m, c)
}
