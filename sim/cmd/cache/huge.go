package main

import (
	"bytes"
	"errors"
	"io"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/file_systems/common"
	"github.com/dargueta/disko/file_systems/common/blockcache"

	"disko-sim/core"
)

// hugeDisk is a storage of more than 4 GiB, as callbacks or as a stream.
type hugeDisk struct {
	r       *core.Run
	bs      int64
	data    *core.Sparse
	pos     int64
	pending map[int64]bool
	flushes bool // judge what's written
	fail    bool
	failed  int
	resized int64 // the last size asked for
	most    int64
}

func (d *hugeDisk) fault(kind string) bool {
	if d.fail && d.r.Chance(1, 3) {
		d.failed++
		d.r.Fault(kind)
		return true
	}
	return false
}

func (d *hugeDisk) read(p []byte, off int64) error {
	d.r.Step()
	d.r.Ev("  storage read", int(off), len(p))
	if d.fault("read error") {
		return d.r.SimError()
	}
	copy(p, d.data.Read(off, len(p)))
	return nil
}

func (d *hugeDisk) write(p []byte, off int64) error {
	d.r.Step()
	d.r.EvB("  storage write", p, int(off))
	if d.flushes {
		d.r.Check(off+int64(len(p)) <= d.data.Size, "write-outside", "%d bytes were written at offset %d of a storage of %d", len(p), off, d.data.Size)
		for i := off / d.bs; i <= (off+int64(len(p))-1)/d.bs; i++ {
			d.r.Check(d.pending[i], "write-untouched", "block %d was written although nothing is pending in it", i)
		}
	}
	if d.fault("write error") {
		return d.r.SimError()
	}
	d.data.Write(off, p)
	return nil
}

func (d *hugeDisk) resize(size int64) error {
	d.r.Step()
	d.r.Ev("  resize storage", int(size))
	d.resized = size
	if size > d.most {
		d.failed++
		d.r.Fault("resize: no space")
		return disko.ErrNoSpaceOnDevice
	}
	d.data.Resize(size)
	return nil
}

func (d *hugeDisk) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += d.pos
	case io.SeekEnd:
		off += d.data.Size
	}
	if off < 0 {
		return d.pos, errors.New("negative position")
	}
	d.pos = off
	return off, nil
}

func (d *hugeDisk) Read(p []byte) (int, error) {
	n := int(min(int64(len(p)), d.data.Size-d.pos))
	if n <= 0 {
		return 0, io.EOF
	}
	if err := d.read(p[:n], d.pos); err != nil {
		return 0, err
	}
	d.pos += int64(n)
	return n, nil
}

func (d *hugeDisk) Write(p []byte) (int, error) {
	if err := d.write(p, d.pos); err != nil {
		return 0, err
	}
	d.pos += int64(len(p))
	return len(p), nil
}

func (d *hugeDisk) Truncate(size int64) error { return d.resize(size) }

// runHuge uses a cache of somewhat more than 4 GiB. Only a little of that is ever used.
func runHuge(r *core.Run, o oracle, stream bool) {
	grows := r.Int(4)%2 == 1
	bs := []int64{65536, 32768, 40000}[r.Int(3)]
	total := 1<<32/bs + 1 + int64(r.Int(100))
	blocks := total // now
	if grows {
		blocks = 1 + int64(r.Int(4))
	}
	disk := core.NewSparse(7, blocks*bs)
	now := core.NewSparse(7, blocks*bs) // what the cache must hold
	d := &hugeDisk{r: r, bs: bs, data: disk, pending: map[int64]bool{}, flushes: o.flushes, most: total * bs}
	var c *blockcache.BlockCache
	r.Ev("huge", int(bs), int(blocks), int(total))
	r.Catch("New", func() {
		if stream {
			if r.Chance(1, 2) {
				c = blockcache.WrapStreamWithInferredSize(d, uint(bs), true)
			} else {
				c = blockcache.WrapStream(d, uint(bs), uint(blocks), true)
			}
			return
		}
		c = blockcache.New(uint(bs), uint(blocks),
			func(i common.LogicalBlock, b []byte) error { return d.read(b, int64(i)*bs) },
			func(i common.LogicalBlock, b []byte) error { return d.write(b, int64(i)*bs) },
			func(n common.LogicalBlock) error { return d.resize(int64(n) * bs) })
	})
	size := func() {
		r.Check(int64(c.TotalBlocks()) == blocks && c.Size() == blocks*bs, "size", "a cache of %d blocks of %d says it has %d and %d bytes", blocks, bs, c.TotalBlocks(), c.Size())
	}
	size()
	judge := func(err error, what string) {
		r.EvErr("->", err)
		if err != nil && d.failed == 0 {
			r.Fail("unexpected-error", "%s failed although the storage did not: %v", what, err)
		}
	}
	resize := func(n int64) bool {
		core.Collect()
		r.BeginOp("resize")
		r.Ev("resize", int(n))
		var err error
		r.Catch("Resize", func() { err = c.Resize(uint(n)) })
		judge(err, "Resize")
		r.Check(d.resized == n*bs, "resize-size", "resizing to %d blocks of %d asked for a size of %d", n, bs, d.resized)
		r.Check((err == nil) == (n*bs <= d.most), "resize-swallowed", "resizing to %d blocks of %d gave %v", n, bs, err)
		if err == nil {
			for i := blocks; i < n && i < blocks+20; i++ {
				d.pending[i] = true
			}
			now.Resize(n * bs)
			blocks = n
			for i := range d.pending {
				if i >= n {
					delete(d.pending, i)
				}
			}
		}
		size()
		return err == nil
	}
	pick := func() (start, count int64) {
		marks := []int64{0, 1 << 31 / bs, 1<<32/bs - 1, blocks / 2, blocks - 1}
		start = marks[r.Int(len(marks))] + int64(r.Int(7)) - 3
		start = max(0, min(start, blocks-1))
		return start, 1 + int64(r.Int(int(min(3, blocks-start))))
	}
	flush := func(judged bool) {
		r.BeginOp("flush")
		r.Ev("flush")
		d.failed = 0
		d.fail = judged && r.Chance(1, 3)
		var err error
		r.Catch("Flush", func() { err = c.Flush() })
		judge(err, "Flush")
		d.fail = false
		if err != nil || !o.flushes {
			return
		}
		r.Check(d.failed == 0, "flush-swallowed", "Flush succeeded although the storage failed")
		at := disk.Differ(now, blocks*bs)
		r.Check(at < 0, "flush-missing", "after a successful flush the storage differs from what was written at offset %d", at)
		clear(d.pending)
	}
	if grows {
		resize(total + 1 + int64(r.Int(1<<20)))
		d.failed = 0
		resize(total)
	}
	for n := 20 + r.Int(20); n > 0; n-- {
		d.failed, d.fail = 0, false
		start, count := pick()
		length := int(count * bs)
		if r.Chance(1, 3) {
			length -= r.Int(int(bs))
		}
		switch k := r.Pick(6, 6, 2, 2); {
		case k == 0:
			r.BeginOp("read")
			r.Ev("read", int(start), length)
			d.fail = r.Chance(1, 6)
			buf := make([]byte, length)
			var err error
			r.Catch("ReadAt", func() { _, err = c.ReadAt(buf, common.LogicalBlock(start)) })
			judge(err, "ReadAt")
			if err == nil && o.reads {
				r.Check(bytes.Equal(buf, now.Read(start*bs, length)), "read-content", "%d bytes at block %d of %d aren't what was written there", length, start, blocks)
			}
		case k == 1:
			r.BeginOp("write")
			data := r.Fill(length)
			r.EvB("write", data, int(start))
			for i := start; i < start+count; i++ {
				d.pending[i] = true
			}
			var err error
			r.Catch("WriteAt", func() { _, err = c.WriteAt(data, common.LogicalBlock(start)) })
			judge(err, "WriteAt")
			now.Write(start*bs, data)
			r.Nontrivial = true
		case k == 2:
			r.BeginOp("edit")
			r.Ev("edit", int(start), int(count))
			var slice []byte
			var err error
			r.Catch("GetSlice", func() { slice, err = c.GetSlice(common.LogicalBlock(start), uint(count)) })
			judge(err, "GetSlice")
			if o.reads {
				r.Check(bytes.Equal(slice, now.Read(start*bs, int(count*bs))), "read-content", "the slice of %d blocks from block %d of %d isn't what was written there", count, start, blocks)
			}
			r.Check(int64(len(slice)) == count*bs, "read-content", "the slice of %d blocks of %d has %d bytes", count, bs, len(slice))
			data := r.Fill(1 + r.Int(len(slice)))
			at := r.Int(len(slice) - len(data) + 1)
			copy(slice[at:], data)
			for i := start; i < start+count; i++ {
				d.pending[i] = true
			}
			r.Catch("MarkBlockRangeDirty", func() { err = c.MarkBlockRangeDirty(common.LogicalBlock(start), uint(count)) })
			judge(err, "MarkBlockRangeDirty")
			now.Write(start*bs+int64(at), data)
		case !grows:
			flush(true)
		}
	}
	d.failed, d.fail = 0, false
	if !grows {
		flush(false)
		return
	}
	resize(int64(r.Int(10)))
	flush(false)
	if o.reads {
		buf := make([]byte, blocks*bs)
		if blocks > 0 {
			var err error
			r.Catch("ReadAt", func() { _, err = c.ReadAt(buf, 0) })
			judge(err, "ReadAt")
		}
		r.Check(bytes.Equal(buf, now.Read(0, len(buf))), "read-content", "the first %d blocks aren't what was written there after shrinking to that", blocks)
	}
}
