package main

import (
	"bytes"
	"io"
	"os"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/driver"
	"github.com/dargueta/disko/file_systems/common"

	"disko-sim/core"
)

// hugeFS is an implementation whose root directory has a single file, of any size.
type hugeFS struct {
	r    *core.Run
	bs   int64
	most int64
	data *core.Sparse // the file
}

func (fs *hugeFS) Mount(disko.MountFlags) disko.DriverError { return nil }
func (fs *hugeFS) Flush() disko.DriverError                 { return nil }
func (fs *hugeFS) Unmount() disko.DriverError               { return nil }
func (fs *hugeFS) FSStat() disko.FSStat                     { return disko.FSStat{BlockSize: uint(fs.bs)} }
func (fs *hugeFS) GetFSFeatures() disko.FSFeatures          { return disko.FSFeatures{HasDirectories: true} }

func (fs *hugeFS) CreateObject(string, disko.ObjectHandle, os.FileMode) (disko.ObjectHandle, disko.DriverError) {
	return nil, disko.ErrNoSpaceOnDevice
}

func (fs *hugeFS) GetRootDirectory() disko.ObjectHandle { return &hugeObject{fs: fs, root: true} }

func (fs *hugeFS) GetObject(name string, parent disko.ObjectHandle) (disko.ObjectHandle, disko.DriverError) {
	if name != "f" {
		return nil, disko.ErrNotFound
	}
	return &hugeObject{fs: fs}, nil
}

type hugeObject struct {
	fs   *hugeFS
	root bool
}

func (o *hugeObject) Stat() disko.FileStat {
	st := disko.FileStat{DeviceID: 1, Nlinks: 1, BlockSize: o.fs.bs}
	if o.root {
		st.InodeNumber, st.ModeFlags = 1, os.ModeDir|0o777
		return st
	}
	st.InodeNumber, st.ModeFlags, st.Size = 2, 0o666, o.fs.data.Size
	st.NumBlocks = (st.Size + o.fs.bs - 1) / o.fs.bs
	return st
}

func (o *hugeObject) Resize(size uint64) disko.DriverError {
	fs := o.fs
	fs.r.Step()
	fs.r.Ev("  Resize", int(size))
	if size > uint64(fs.most) {
		fs.r.Fault("out of space")
		return disko.ErrNoSpaceOnDevice
	}
	fs.data.Resize(int64(size))
	return nil
}

func (o *hugeObject) bounds(what string, i common.LogicalBlock, n int) {
	fs := o.fs
	fs.r.Step()
	fs.r.Ev("  "+what, int(i), n)
	blocks := (fs.data.Size + fs.bs - 1) / fs.bs
	fs.r.Check(!o.root && n > 0 && int64(n)%fs.bs == 0 && int64(i) <= blocks && int64(i)+int64(n)/fs.bs <= blocks,
		"out-of-bounds", "%s of %d bytes at block %d of an object of %d blocks of %d", what, n, i, blocks, fs.bs)
}

func (o *hugeObject) ReadBlocks(i common.LogicalBlock, b []byte) disko.DriverError {
	o.bounds("ReadBlocks", i, len(b))
	copy(b, o.fs.data.Read(int64(i)*o.fs.bs, len(b)))
	return nil
}

func (o *hugeObject) WriteBlocks(i common.LogicalBlock, b []byte) disko.DriverError {
	o.bounds("WriteBlocks", i, len(b))
	o.fs.data.Write(int64(i)*o.fs.bs, b)
	return nil
}

func (o *hugeObject) ZeroOutBlocks(i common.LogicalBlock, n uint) disko.DriverError {
	o.bounds("ZeroOutBlocks", i, int(n)*int(o.fs.bs))
	o.fs.data.Write(int64(i)*o.fs.bs, make([]byte, int64(n)*o.fs.bs))
	return nil
}

func (o *hugeObject) Unlink() disko.DriverError { return disko.ErrNotSupported }
func (o *hugeObject) Close() error              { return nil }

func (o *hugeObject) Name() string {
	if o.root {
		return "/"
	}
	return "f"
}

func (o *hugeObject) SameAs(other disko.ObjectHandle) bool {
	p, ok := other.(*hugeObject)
	return ok && o.root == p.root
}

// runHuge uses a file of somewhat more than 4 GiB, of which only a little is ever touched.
func runHuge(r *core.Run) {
	grows := r.Int(4)%2 == 1
	bs := []int64{65536, 32768, 40000}[r.Int(3)]
	total := 1<<32/bs + 1 + int64(r.Int(100))
	size := total*bs - int64(r.Int(int(bs)))
	if grows {
		size = int64(r.Int(3 * int(bs)))
	}
	fs := &hugeFS{r: r, bs: bs, most: total * bs, data: core.NewSparse(13, size)}
	now := core.NewSparse(13, size)
	d := driver.New(fs, disko.MountFlagsAllowAll)
	var f driver.File
	var err error
	must := func(what string) {
		r.EvErr("->", err)
		if err != nil {
			r.Fail("unexpected-error", "%s failed on a healthy implementation: %v", what, err)
		}
	}
	stored := func(when string) {
		r.Check(fs.data.Size == size, "size", "%s the object has %d bytes instead of %d", when, fs.data.Size, size)
		at := fs.data.Differ(now, size)
		r.Check(at < 0, "content", "%s the object differs from what was written at offset %d of %d", when, at, size)
		var st disko.FileStat
		st, err = d.Stat("/f")
		must("Stat")
		r.Check(st.Size == size, "size", "%s Stat gives %d bytes instead of %d", when, st.Size, size)
	}
	for opens := 1 + r.Int(3); opens > 0; opens-- {
		flags := disko.O_RDWR
		if !grows && r.Chance(1, 3) {
			flags |= disko.O_SYNC
		}
		core.Collect()
		r.BeginOp("open")
		r.Ev("open", int(flags), int(size), int(bs))
		r.Catch("OpenFile", func() { f, err = d.OpenFile("/f", flags, 0o666) })
		must("OpenFile")
		pos := int64(0)
		check := func() {
			r.Check(f.Size() == size, "size", "the size of the open file is %d instead of %d", f.Size(), size)
			var st os.FileInfo
			st, err = f.Stat()
			must("File.Stat")
			r.Check(st.Size() == size, "size", "the open file's Stat gives %d bytes instead of %d", st.Size(), size)
			r.Check(f.Tell() == pos, "position", "the position of the open file is %d instead of %d", f.Tell(), pos)
		}
		check()
		if grows {
			to := total*bs - int64(r.Int(int(bs)))
			core.Collect()
			r.BeginOp("grow")
			r.Ev("grow", int(to))
			data := r.Fill(r.Int(3000))
			now.Resize(to)
			if len(data) > 0 && r.Chance(1, 2) {
				r.Catch("WriteAt", func() { _, err = f.WriteAt(data, to-int64(len(data))) })
				must("WriteAt")
				now.Write(to-int64(len(data)), data)
			} else {
				r.Catch("Truncate", func() { err = f.Truncate(to) })
				must("Truncate")
			}
			r.Check(fs.data.Size == size || fs.data.Size >= to && fs.data.Size < to+bs, "size", "growing an open file from %d to %d bytes made the object's size %d", size, to, fs.data.Size)
			size = to
			check()
		}
		for n := 5 + r.Int(20); n > 0; n-- {
			marks := []int64{0, 1 << 31, 1 << 32, size, size / 2}
			off := max(0, min(size, marks[r.Int(len(marks))]+int64(r.Int(4000))-2000))
			length := 1 + r.Int(3000)
			plain := r.Chance(1, 2)
			if plain {
				whence := r.Int(3)
				rel := off - []int64{0, pos, size}[whence]
				r.BeginOp("seek")
				r.Ev("seek", int(rel), whence)
				var got int64
				r.Catch("Seek", func() { got, err = f.Seek(rel, whence) })
				must("Seek")
				r.Check(got == off, "position", "seeking to %d gave %d", off, got)
				pos = off
			}
			if r.Chance(1, 2) {
				r.BeginOp("read")
				r.Ev("read", int(off), length)
				buf := make([]byte, length)
				want := int(min(int64(length), size-off))
				var got int
				if plain {
					r.Catch("Read", func() { got, err = f.Read(buf) })
					pos += int64(want)
				} else {
					r.Catch("ReadAt", func() { got, err = f.ReadAt(buf, off) })
				}
				r.EvErr("->", err, got)
				r.Check(got == want && (err == nil || want < length && err == io.EOF), "count", "reading %d bytes at %d of %d gave %d, %v", length, off, size, got, err)
				r.Check(bytes.Equal(buf[:want], now.Read(off, want)), "content", "the %d bytes at %d of %d aren't what was written there", want, off, size)
			} else if length = int(min(int64(length), total*bs-off)); length > 0 {
				data := r.Fill(length)
				r.BeginOp("write")
				r.EvB("write", data, int(off))
				var got int
				if plain {
					r.Catch("Write", func() { got, err = f.Write(data) })
					pos += int64(length)
				} else {
					r.Catch("WriteAt", func() { got, err = f.WriteAt(data, off) })
				}
				must("writing")
				r.Check(got == length, "count", "writing %d bytes reported %d", length, got)
				now.Write(off, data)
				if end := off + int64(length); end > size {
					size, now.Size = end, end
				}
				r.Nontrivial = true
			}
			check()
			if flags&disko.O_SYNC != 0 {
				stored("after a synchronous operation")
			}
		}
		if grows || opens == 1 && r.Chance(1, 2) {
			size = int64(r.Int(20_000))
			r.BeginOp("shrink")
			r.Ev("shrink", int(size))
			r.Catch("Truncate", func() { err = f.Truncate(size) })
			must("Truncate")
			now.Resize(size)
			check()
		}
		r.BeginOp("close")
		r.Ev("close")
		r.Catch("Close", func() { err = f.Close() })
		must("Close")
		stored("after closing the file")
	}
	if size < 1<<20 {
		var data []byte
		r.Catch("ReadFile", func() { data, err = d.ReadFile("/f") })
		must("ReadFile")
		r.Check(bytes.Equal(data, now.Read(0, int(size))), "content", "the whole file reads as something else than was written")
	}
	if r.Chance(1, 2) {
		r.BeginOp("truncate")
		r.Catch("Truncate", func() { err = d.Truncate("/f") })
		must("Truncate")
		size = 0
		now.Resize(0)
		stored("after truncating by path")
	}
}
