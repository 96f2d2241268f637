package main

import (
	"bytes"
	"errors"
	"math"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/file_systems/common"
	"github.com/dargueta/disko/file_systems/common/blockcache"

	"disko-sim/core"
)

// twinDevice is a storage whose faults are decided per operation, identically
// for both twins.
type twinDevice struct {
	r      *core.Run
	bs     int
	store  [][]byte
	log    []uint64
	calls  int
	failOn int // the nth call of an operation fails; 0 is never
	inOp   int
	err    error
	limit  int
}

func (d *twinDevice) call(kind string, i uint64, buf []byte) error {
	d.r.Step()
	d.calls++
	d.inOp++
	d.log = append(d.log, core.HashString(kind)^i*977, core.HashBytes(buf))
	if d.inOp == d.failOn {
		return d.err
	}
	return nil
}

func (d *twinDevice) fetch(i common.LogicalBlock, buf []byte) error {
	d.r.Check(uint64(i) < uint64(len(d.store)), "bad-block", "fetch of block %d of %d", i, len(d.store))
	if err := d.call("fetch", uint64(i), nil); err != nil {
		if len(buf) > 0 {
			buf[0] ^= 0x55
		}
		return err
	}
	copy(buf, d.store[i])
	return nil
}

func (d *twinDevice) flush(i common.LogicalBlock, buf []byte) error {
	d.r.Check(uint64(i) < uint64(len(d.store)), "bad-block", "flush of block %d of %d", i, len(d.store))
	if err := d.call("flush", uint64(i), buf); err != nil {
		return err
	}
	copy(d.store[i], buf)
	return nil
}

func (d *twinDevice) resize(n common.LogicalBlock) error {
	if err := d.call("resize", uint64(n), nil); err != nil {
		return err
	}
	if uint64(n) > uint64(d.limit) {
		return disko.ErrNoSpaceOnDevice
	}
	for len(d.store) < int(n) {
		d.store = append(d.store, core.Pattern(uint64(len(d.store))+4242, d.bs))
	}
	d.store = d.store[:n]
	return nil
}

// runTwins decides C03: out-of-range calls are refused and leave no trace.
func runTwins(r *core.Run) {
	bs, total := sizes(r)
	mk := func() (*twinDevice, *blockcache.BlockCache) {
		d := &twinDevice{r: r, bs: bs, limit: 40}
		for i := 0; i < total; i++ {
			d.store = append(d.store, core.Pattern(uint64(i)+1000, bs))
		}
		return d, blockcache.New(uint(bs), uint(total), d.fetch, d.flush, d.resize)
	}
	da, a := mk()
	db, b := mk()
	r.Ev("new", bs, total)
	rate := r.FaultRate()
	n := total // current size
	refusedOps := 0
	for r.More(8) && r.OpsDone < 300 {
		// The extra, invalid calls, on twin a only.
		for k := r.Int(3); k > 0; k-- {
			badCall(r, da, a, bs, n)
			refusedOps++
		}
		// One valid operation on both.
		r.BeginOp("common operation")
		da.inOp, db.inOp, da.failOn, db.failOn = 0, 0, 0, 0
		if r.Chance(rate, 100) {
			da.failOn = 1 + r.Int(4)
			da.err = r.DeviceCallError()
			db.failOn, db.err = da.failOn, da.err
		}
		kind := r.Pick(4, 4, 2, 2, 3, 3, 1)
		start, count := 0, 0
		if n > 0 {
			start = r.Int(n)
			count = 1 + r.Int(n-start)
		} else if kind < 4 {
			kind = 4
		}
		length := count * bs
		if length > 0 {
			length -= r.Int(bs)
		}
		data := r.Fill(length)
		newSize := n
		if kind == 5 {
			newSize = r.Int(n + 6)
		}
		do := func(c *blockcache.BlockCache) (out []byte, k int, err error) {
			lb := common.LogicalBlock(start)
			switch kind {
			case 0:
				out = make([]byte, length)
				k, err = c.ReadAt(out, lb)
			case 1:
				k, err = c.WriteAt(append([]byte(nil), data...), lb)
			case 2:
				err = c.MarkBlockRangeDirty(lb, uint(count))
			case 3:
				var s []byte
				s, err = c.GetSlice(lb, uint(count))
				out = append(out, s...)
				if err == nil {
					copy(s, data)
					err = c.MarkBlockRangeDirty(lb, uint(count))
				}
			case 4:
				err = c.Flush()
			case 5:
				err = c.Resize(uint(newSize))
			case 6:
				var s []byte
				s, err = c.Data()
				out = append(out, s...)
			}
			return
		}
		var oa, ob []byte
		var ka, kb int
		var ea, eb error
		r.Ev("op", kind, start, count, newSize, da.failOn)
		r.Catch("operation", func() { ob, kb, eb = do(b) })
		r.Catch("operation", func() { oa, ka, ea = do(a) })
		r.EvErr("->", eb, kb)
		if da.failOn > 0 && da.inOp >= da.failOn {
			r.Fault([]string{"fetch error", "mixed error", "mixed error", "fetch error", "flush error", "resize error", "fetch error"}[kind])
		}
		same := bytes.Equal(oa, ob) && ka == kb && (ea == nil) == (eb == nil) && a.TotalBlocks() == b.TotalBlocks()
		if ea != nil && eb != nil {
			same = same && ea.Error() == eb.Error()
		}
		r.Check(same, "twin-result", "after refused calls an operation (kind %d) behaves differently: (%d, %v) instead of (%d, %v)", kind, ka, ea, kb, eb)
		r.Check(len(da.log) == len(db.log), "twin-io", "after refused calls the storage sees %d calls instead of %d", len(da.log), len(db.log))
		for i := range da.log {
			r.Check(da.log[i] == db.log[i], "twin-io", "after refused calls storage call %d differs", i)
		}
		da.log, db.log = da.log[:0], db.log[:0]
		r.Check(len(da.store) == len(db.store), "twin-storage", "after refused calls the storage size differs")
		for i := range da.store {
			r.Check(bytes.Equal(da.store[i], db.store[i]), "twin-storage", "after refused calls block %d differs in storage", i)
		}
		n = int(b.TotalBlocks())
		h := uint64(n)
		for i := range db.store {
			h = h*31 + core.HashBytes(db.store[i][:1])
		}
		r.State(h ^ uint64(kind)<<50)
	}
	r.Nontrivial = r.Nontrivial || refusedOps > 1
}

func bigNumber(r *core.Run, n, bs int) uint64 {
	base := []uint64{0, uint64(n), 1 << 32, math.MaxInt64, math.MaxUint64, math.MaxUint64 / uint64(bs), 1 << 63, math.MaxInt64 / uint64(bs), 1 << 31}[r.Pick(3, 6, 1, 1, 1, 1, 1, 1, 1)]
	switch off := uint64(r.Int(4)); r.Int(2) {
	case 0:
		return base + off
	default:
		return base - off
	}
}

func badCall(r *core.Run, d *twinDevice, c *blockcache.BlockCache, bs, n int) {
	r.BeginOp("refused call")
	start := bigNumber(r, n, bs)
	calls := d.calls
	var err error
	lb := common.LogicalBlock(start)
	// outside reports whether `count` blocks at `start` leave the cache; calls
	// which refer to no block at all may either fail or succeed.
	outside := func(count uint64) bool {
		if count == 0 {
			return false
		}
		return start >= uint64(n) || count > uint64(n)-start
	}
	what := ""
	must := false
	var count uint64
	switch kind := r.Pick(3, 3, 2, 2, 2); kind {
	case 0, 1:
		blocks := uint64(1 + r.Int(n+3))
		if start < uint64(n) {
			blocks = uint64(n) - start + uint64(r.Int(3))
		}
		ln := int(blocks)*bs - r.Int(bs)
		count = uint64((ln + bs - 1) / bs)
		must = outside(count)
		buf := bytes.Repeat([]byte{0xA7}, ln)
		if !must {
			return // would be a valid call
		}
		if kind == 0 {
			what = "ReadAt"
			r.Ev("bad read", int(start), ln)
			r.Catch(what, func() { _, err = c.ReadAt(buf, lb) })
			r.Check(bytes.Count(buf, []byte{0xA7}) == ln, "buffer-changed", "a refused ReadAt changed the caller's buffer")
		} else {
			what = "WriteAt"
			r.Ev("bad write", int(start), ln)
			r.Catch(what, func() { _, err = c.WriteAt(buf, lb) })
		}
	case 2, 3:
		count = bigNumber(r, n, bs)
		must = outside(count)
		if !must {
			return
		}
		if kind == 2 {
			what = "GetSlice"
			r.Ev("bad slice", int(start), int(count))
			r.Catch(what, func() { _, err = c.GetSlice(lb, uint(count)) })
		} else {
			what = "MarkBlockRangeDirty"
			r.Ev("bad mark", int(start), int(count))
			r.Catch(what, func() { err = c.MarkBlockRangeDirty(lb, uint(count)) })
		}
	case 4:
		size := bigNumber(r, n*bs, bs)
		count = size / uint64(bs)
		if size%uint64(bs) != 0 {
			count++
		}
		must = outside(count)
		what = "CheckBounds"
		r.Ev("check bounds", int(start), int(size))
		r.Catch(what, func() { err = c.CheckBounds(lb, uint(size)) })
		if !must {
			if count > 0 {
				r.Check(err == nil, "bounds-refused", "CheckBounds(%d, %d) failed for a range inside %d blocks of %d: %v", start, size, n, bs, err)
			}
			r.Check(d.calls == calls, "refused-io", "CheckBounds accessed the storage")
			return
		}
	}
	r.EvErr("->", err)
	r.Check(err != nil, "not-refused", "%s of %d blocks at block %d succeeded on a cache of %d blocks", what, count, start, n)
	r.Check(errors.Is(err, disko.ErrArgumentOutOfRange), "wrong-error", "%s outside the cache failed with %v, not the out-of-range error", what, err)
	r.Check(d.calls == calls, "refused-io", "a refused %s accessed the storage", what)
}
