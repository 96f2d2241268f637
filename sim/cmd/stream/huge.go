package main

import (
	"bytes"
	"io"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/file_systems/common"
	"github.com/dargueta/disko/file_systems/common/basicstream"
	"github.com/dargueta/disko/file_systems/common/blockcache"

	"disko-sim/core"
)

// runHuge uses a file of somewhat more than 4 GiB (or one which becomes that large), of
// which only a little is ever touched. The storage works.
func runHuge(r *core.Run, s settings) {
	kind := r.Int(4)
	grows := kind%2 == 1
	bs := []int64{65536, 32768, 40000}[r.Int(3)]
	total := 1<<32/bs + 1 + int64(r.Int(100))
	flags := disko.O_RDWR
	if kind >= 2 && s.id == "C10" {
		flags |= disko.O_APPEND
	}
	if !grows && r.Chance(1, 3) {
		flags |= disko.O_SYNC
	}
	blocks := total
	if grows {
		blocks = 1 + int64(r.Int(4))
	}
	size := blocks*bs - int64(r.Int(int(bs)))
	disk := core.NewSparse(11, blocks*bs)
	now := core.NewSparse(11, size)
	now.Resize(size)
	c := blockcache.New(uint(bs), uint(blocks),
		func(i common.LogicalBlock, b []byte) error {
			r.Step()
			r.Ev("  fetch", int(i))
			r.Check(int64(i) < disk.Size/bs, "fetch-outside", "block %d of %d was fetched", i, disk.Size/bs)
			copy(b, disk.Read(int64(i)*bs, len(b)))
			return nil
		},
		func(i common.LogicalBlock, b []byte) error {
			r.Step()
			r.EvB("  flush", b, int(i))
			r.Check(int64(i) < disk.Size/bs, "flush-outside", "block %d of %d was written", i, disk.Size/bs)
			disk.Write(int64(i)*bs, b)
			return nil
		},
		func(n common.LogicalBlock) error {
			r.Step()
			r.Ev("  resize", int(n))
			if int64(n) > total {
				r.Fault("resize: no space")
				return disko.ErrNoSpaceOnDevice
			}
			disk.Resize(int64(n) * bs)
			return nil
		})
	var st *basicstream.BasicStream
	var err error
	r.Ev("huge", int(bs), int(blocks), int(size), int(flags))
	r.Catch("New", func() { st, err = basicstream.New(size, c, flags) })
	must := func(what string) {
		r.EvErr("->", err)
		if err != nil {
			r.Fail("unexpected-error", "%s failed although the storage did not: %v", what, err)
		}
	}
	must("New")
	pos := int64(0)
	check := func(what string) {
		r.Check(st.Size() == size, "size", "after %s the size is %d instead of %d", what, st.Size(), size)
		r.Check(st.Tell() == pos, "position", "after %s the position is %d instead of %d", what, st.Tell(), pos)
	}
	check("opening")
	truncate := func(n int64) {
		core.Collect()
		r.BeginOp("truncate")
		r.Ev("truncate", int(n))
		r.Catch("Truncate", func() { err = st.Truncate(n) })
		if n > total*bs {
			r.EvErr("->", err)
			r.Check(err != nil, "truncate-swallowed", "truncating to %d bytes succeeded though the storage can't be larger than %d", n, total*bs)
		} else {
			must("Truncate")
			size = n
			now.Resize(n)
		}
		check("Truncate")
	}
	offset := func() int64 {
		marks := []int64{0, 1 << 31, 1 << 32, size, size / 2, size - 1}
		n := marks[r.Int(len(marks))] + int64(r.Int(4000)) - 2000
		if r.Chance(1, 4) {
			n = size
		}
		return max(0, min(n, size))
	}
	far := int64(-1)
	if grows {
		if r.Chance(1, 2) {
			truncate(total*bs + 1 + int64(r.Int(1<<30)))
		}
		if r.Chance(1, 2) {
			truncate(total*bs - int64(r.Int(int(bs))))
		} else {
			far = total*bs - int64(r.Int(int(bs)))
		}
	}
	written := func(off int64, data []byte) {
		now.Write(off, data)
		if end := off + int64(len(data)); end > size {
			size, now.Size = end, end
		}
		r.Nontrivial = true
	}
	for n := 20 + r.Int(20); n > 0; n-- {
		off := offset()
		length := 1 + r.Int(3000)
		room := total*bs - off
		switch r.Pick(5, 5, 5, 5, 3, 1, 1) {
		case 0, 1: // positioned or not
			positioned := r.Chance(1, 2)
			r.BeginOp("read")
			r.Ev("read", int(off), length)
			buf := make([]byte, length)
			var got int
			if positioned {
				r.Catch("ReadAt", func() { got, err = st.ReadAt(buf, off) })
			} else {
				off = pos
				r.Catch("Read", func() { got, err = st.Read(buf) })
			}
			r.EvErr("->", err, got)
			want := int(max(0, min(int64(length), size-off)))
			if !positioned {
				pos += int64(want)
			}
			r.Check(got == want, "count", "reading %d bytes at %d of %d gave %d", length, off, size, got)
			r.Check((err == nil) == (want == length) && (err == nil || err == io.EOF), "eof", "reading %d bytes at %d of %d gave %v", length, off, size, err)
			r.Check(bytes.Equal(buf[:want], now.Read(off, want)), "content", "the %d bytes at %d of %d aren't what was written there", want, off, size)
		case 2, 3:
			positioned := flags&disko.O_APPEND == 0 && r.Chance(1, 2)
			if flags&disko.O_APPEND != 0 {
				off, room = size, total*bs-size
			} else if !positioned {
				off, room = pos, total*bs-pos
			}
			if length = int(min(int64(length), room)); length <= 0 {
				continue
			}
			if far >= 0 && positioned {
				// Makes the file that large.
				off, far = far, -1
				length = int(max(1, min(int64(length), total*bs-off)))
				off = min(off, total*bs-int64(length))
				now.Resize(off)
				core.Collect()
			}
			data := r.Fill(length)
			r.BeginOp("write")
			r.EvB("write", data, int(off))
			var got int
			if positioned {
				r.Catch("WriteAt", func() { got, err = st.WriteAt(data, off) })
			} else {
				r.Catch("Write", func() { got, err = st.Write(data) })
				pos = off + int64(length)
			}
			must("writing")
			r.Check(got == length, "count", "writing %d bytes reported %d", length, got)
			written(off, data)
		case 4:
			r.BeginOp("seek")
			whence := r.Int(3)
			rel := off - []int64{0, pos, size}[whence]
			r.Ev("seek", int(rel), whence)
			var got int64
			r.Catch("Seek", func() { got, err = st.Seek(rel, whence) })
			must("Seek")
			pos = off
			r.Check(got == off, "position", "seeking to %d gave %d", off, got)
		case 5:
			if grows || flags&disko.O_SYNC != 0 {
				continue
			}
			r.BeginOp("sync")
			r.Ev("sync")
			r.Catch("Sync", func() { err = st.Sync() })
			must("Sync")
			at := disk.Differ(now, size)
			r.Check(at < 0, "not-durable", "after Sync the storage differs from the contents at offset %d", at)
		case 6:
			// Copy what comes after, or add to it.
			if pos = max(0, size-int64(r.Int(5000))); r.Chance(1, 2) {
				r.BeginOp("copy out")
				r.Ev("copy out", int(pos))
				_, err = st.Seek(pos, io.SeekStart)
				must("Seek")
				var out bytes.Buffer
				var got int64
				r.Catch("WriteTo", func() { got, err = st.WriteTo(&out) })
				must("WriteTo")
				r.Check(got == size-pos && bytes.Equal(out.Bytes(), now.Read(pos, int(size-pos))), "copy", "copying what's after %d of %d gave %d bytes, or others", pos, size, got)
				pos = size
				break
			}
			if flags&disko.O_APPEND != 0 {
				pos = size
			}
			data := r.Fill(int(min(int64(r.Int(5000)), total*bs-pos)))
			r.BeginOp("copy in")
			r.EvB("copy in", data, int(pos))
			_, err = st.Seek(pos, io.SeekStart)
			must("Seek")
			var got int64
			r.Catch("ReadFrom", func() { got, err = st.ReadFrom(bytes.NewReader(data)) })
			must("ReadFrom")
			r.Check(got == int64(len(data)), "copy", "copying %d bytes in reported %d", len(data), got)
			written(pos, data)
			pos += int64(len(data))
		}
		check("the operation")
		if flags&disko.O_SYNC != 0 {
			at := disk.Differ(now, size)
			r.Check(at < 0, "not-durable", "the storage differs from what was written synchronously at offset %d", at)
		}
	}
	if grows {
		truncate(int64(r.Int(20_000)))
	}
	r.BeginOp("close")
	r.Ev("close")
	r.Catch("Close", func() { err = st.Close() })
	must("Close")
	at := disk.Differ(now, size)
	r.Check(at < 0, "not-durable", "after Close the storage differs from the contents at offset %d", at)
	r.Check(disk.Size >= size, "not-durable", "after Close the storage has %d bytes for contents of %d", disk.Size, size)
}
