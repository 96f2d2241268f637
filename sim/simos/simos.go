// Package simos is a simulated kernel: files held in memory which real *os.File
// objects operate on, through the seam the build puts under package syscall
// (see seam/prepare.py). Every call can fail, transfer less than asked, hit the
// end of the disk, or be the last one before a crash.
package simos

import (
	"path"
	"sort"
	"syscall"

	"disko-sim/core"
)

// File is a file of the simulated machine.
type File struct {
	Data    []byte
	Dir     bool
	NoRead  bool
	NoWrite bool
	Std     bool // not on the disk
	ino     uint64

	durable []byte
	pending []change // not durable yet, in order
}

type change struct {
	size int64 // the new size, if data is nil
	off  int64
	data []byte
}

// Call is a system call about to be made.
type Call struct {
	Name string // open, close, read, write, pread, pwrite, seek, ftruncate, fsync, fstat, stat, unlink, rename
	Path string
	Off  int64
	N    int
	Size int64 // of the file
}

// Action is what happens to a call. The zero value lets it pass.
type Action struct {
	Err   error
	Limit int  // at most this many bytes are transferred, if Partial
	Part  bool // apply Limit
	Lose  bool // the data never reaches the file
	Crash bool // the machine stops in the middle of this call
}

// Crashed is what the panic of a crash carries.
type Crashed struct{}

// Exited is what the panic of a process that exits carries.
type Exited struct{ Code int }

// Kernel is a simulated machine's kernel.
type Kernel struct {
	R      *core.Run
	Files  map[string]*File
	Plan   func(c *Call) Action
	Room   int64 // bytes the disk can still take; negative is no limit
	Calls  int
	Writes int // calls which change a file's contents or size
	Opened int // calls to open
	Full   int // writes the disk had no room for

	fds    map[int]*desc
	frozen bool
	ino    uint64
}

type desc struct {
	name  string
	file  *File
	flags int
	pos   int64
}

var nextFD = syscall.SimFirstFD

// New makes a machine without any files.
func New(r *core.Run) *Kernel {
	return &Kernel{R: r, Files: map[string]*File{"/sim": {Dir: true, ino: 1}}, Room: -1, fds: map[int]*desc{}, ino: 2}
}

// Put creates a file.
func (k *Kernel) Put(name string, data []byte) *File {
	f := &File{Data: append([]byte{}, data...), durable: append([]byte{}, data...), ino: k.ino}
	k.ino++
	k.Files[name] = f
	return f
}

// Mkdir creates a directory.
func (k *Kernel) Mkdir(name string) *File {
	f := k.Put(name, nil)
	f.Dir = true
	return f
}

func init() {
	core.Context = func() func() {
		k := syscall.Sim
		syscall.Sim = nil
		return func() { syscall.Sim = k }
	}
}

// Start makes the machine the one real system calls reach, until the returned
// function is called.
func (k *Kernel) Start() func() {
	if syscall.Sim != nil {
		panic("simos: already running")
	}
	syscall.Sim = k
	return func() { syscall.Sim = nil }
}

// Freeze lets nothing through any more.
func (k *Kernel) Freeze() { k.frozen = true }

// Names lists all files.
func (k *Kernel) Names() []string {
	var out []string
	for n := range k.Files {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

func (k *Kernel) plan(c *Call) Action {
	k.R.Step()
	k.Calls++
	k.R.EvS("    "+c.Name, c.Path, int(c.Off), c.N)
	if k.Plan == nil {
		return Action{}
	}
	a := k.Plan(c)
	if a.Crash {
		k.R.Ev("    *crash*")
	}
	return a
}

func (k *Kernel) crash() {
	k.frozen = true
	panic(Crashed{})
}

func (k *Kernel) get(fd int) (*desc, error) {
	d := k.fds[fd]
	if d == nil || k.frozen {
		return nil, syscall.EBADF
	}
	return d, nil
}

// Open implements syscall.SimLayer.
func (k *Kernel) Open(name string, flags int, perm uint32) (int, error) {
	if k.frozen {
		return -1, syscall.EIO
	}
	full := path.Clean(name)
	a := k.plan(&Call{Name: "open", Path: full})
	if a.Err != nil {
		return -1, a.Err
	}
	k.Opened++
	f := k.Files[full]
	write := flags&syscall.O_ACCMODE != syscall.O_RDONLY
	switch {
	case f == nil && flags&syscall.O_CREAT == 0:
		return -1, syscall.ENOENT
	case f == nil:
		if p := k.Files[path.Dir(full)]; p == nil {
			return -1, syscall.ENOENT
		} else if !p.Dir {
			return -1, syscall.ENOTDIR
		} else if p.NoWrite {
			return -1, syscall.EACCES
		}
		f = k.Put(full, nil)
	case flags&syscall.O_CREAT != 0 && flags&syscall.O_EXCL != 0:
		return -1, syscall.EEXIST
	case f.Dir && write:
		return -1, syscall.EISDIR
	case f.NoWrite && write, f.NoRead && flags&syscall.O_ACCMODE != syscall.O_WRONLY:
		return -1, syscall.EACCES
	}
	if flags&syscall.O_TRUNC != 0 && write {
		k.setSize(f, 0)
	}
	if a.Crash {
		k.crash()
	}
	fd := nextFD
	nextFD++
	k.fds[fd] = &desc{name: full, file: f, flags: flags}
	return fd, nil
}

// Close implements syscall.SimLayer.
func (k *Kernel) Close(fd int) error {
	d, err := k.get(fd)
	if err != nil {
		return err
	}
	a := k.plan(&Call{Name: "close", Path: d.name, Size: int64(len(d.file.Data))})
	delete(k.fds, fd)
	if a.Crash {
		k.crash()
	}
	if a.Lose && d.flags&syscall.O_ACCMODE != syscall.O_RDONLY {
		// The delayed write of the file's last data failed.
		d.file.Data = d.file.Data[:max(0, len(d.file.Data)-1-a.Limit)]
	}
	return a.Err
}

func (k *Kernel) read(d *desc, op string, p []byte, off int64) (int, error) {
	if d.file.Dir {
		return -1, syscall.EISDIR
	}
	if d.flags&syscall.O_ACCMODE == syscall.O_WRONLY {
		return -1, syscall.EBADF
	}
	if off < 0 {
		return -1, syscall.EINVAL
	}
	a := k.plan(&Call{Name: op, Path: d.name, Off: off, N: len(p), Size: int64(len(d.file.Data))})
	if a.Crash {
		k.crash()
	}
	n := 0
	if off < int64(len(d.file.Data)) {
		n = min(len(p), len(d.file.Data)-int(off))
	}
	if a.Part {
		n = min(n, a.Limit)
	}
	if a.Err != nil {
		return -1, a.Err
	}
	copy(p, d.file.Data[min(int(off), len(d.file.Data)):][:n])
	return n, nil
}

func (k *Kernel) write(d *desc, op string, p []byte, off int64) (int, error) {
	if d.flags&syscall.O_ACCMODE == syscall.O_RDONLY {
		return -1, syscall.EBADF
	}
	if off < 0 {
		return -1, syscall.EINVAL
	}
	a := k.plan(&Call{Name: op, Path: d.name, Off: off, N: len(p), Size: int64(len(d.file.Data))})
	n := len(p)
	if a.Part {
		n = min(n, a.Limit)
	} else if a.Err != nil {
		n = 0
	}
	full := false
	if grow := off + int64(n) - int64(len(d.file.Data)); grow > 0 && k.Room >= 0 && !d.file.Std {
		if grow > k.Room {
			n = max(0, n-int(grow-k.Room))
			full = true
			k.Full++
			k.R.Fault("disk full")
		}
	}
	if n > 0 && !a.Lose {
		if end := off + int64(n); end > int64(len(d.file.Data)) {
			if k.Room >= 0 && !d.file.Std {
				k.Room -= end - int64(len(d.file.Data))
			}
		}
		d.file.store(off, p[:n])
	}
	if n > 0 {
		k.Writes++
	}
	if a.Crash {
		k.crash()
	}
	if a.Err != nil {
		return -1, a.Err
	}
	if full && n == 0 {
		return -1, syscall.ENOSPC
	}
	return n, nil
}

func (f *File) store(off int64, p []byte) {
	if end := int(off) + len(p); end > len(f.Data) {
		f.Data = append(f.Data, make([]byte, end-len(f.Data))...)
	}
	copy(f.Data[off:], p)
	f.pending = append(f.pending, change{off: off, data: append([]byte{}, p...)})
}

func (k *Kernel) setSize(f *File, n int64) {
	k.Writes++
	if n <= int64(len(f.Data)) {
		f.Data = f.Data[:n:n]
	} else {
		f.Data = append(f.Data, make([]byte, int(n)-len(f.Data))...)
	}
	f.pending = append(f.pending, change{size: n})
}

// Read implements syscall.SimLayer.
func (k *Kernel) Read(fd int, p []byte) (int, error) {
	d, err := k.get(fd)
	if err != nil {
		return -1, err
	}
	n, err := k.read(d, "read", p, d.pos)
	if err == nil {
		d.pos += int64(n)
	}
	return n, err
}

// Write implements syscall.SimLayer.
func (k *Kernel) Write(fd int, p []byte) (int, error) {
	d, err := k.get(fd)
	if err != nil {
		return -1, err
	}
	if d.flags&syscall.O_APPEND != 0 {
		d.pos = int64(len(d.file.Data))
	}
	n, err := k.write(d, "write", p, d.pos)
	if err == nil {
		d.pos += int64(n)
	}
	return n, err
}

// Pread implements syscall.SimLayer.
func (k *Kernel) Pread(fd int, p []byte, off int64) (int, error) {
	d, err := k.get(fd)
	if err != nil {
		return -1, err
	}
	return k.read(d, "pread", p, off)
}

// Pwrite implements syscall.SimLayer.
func (k *Kernel) Pwrite(fd int, p []byte, off int64) (int, error) {
	d, err := k.get(fd)
	if err != nil {
		return -1, err
	}
	return k.write(d, "pwrite", p, off)
}

// Seek implements syscall.SimLayer.
func (k *Kernel) Seek(fd int, off int64, whence int) (int64, error) {
	d, err := k.get(fd)
	if err != nil {
		return -1, err
	}
	a := k.plan(&Call{Name: "seek", Path: d.name, Off: off, N: whence})
	if a.Crash {
		k.crash()
	}
	if a.Err != nil {
		return -1, a.Err
	}
	switch whence {
	case 1:
		off += d.pos
	case 2:
		off += int64(len(d.file.Data))
	}
	if off < 0 || whence < 0 || whence > 2 {
		return -1, syscall.EINVAL
	}
	d.pos = off
	return off, nil
}

// Ftruncate implements syscall.SimLayer.
func (k *Kernel) Ftruncate(fd int, size int64) error {
	d, err := k.get(fd)
	if err != nil {
		return err
	}
	if d.flags&syscall.O_ACCMODE == syscall.O_RDONLY || size < 0 {
		return syscall.EINVAL
	}
	a := k.plan(&Call{Name: "ftruncate", Path: d.name, Off: size, Size: int64(len(d.file.Data))})
	if a.Err == nil && !a.Lose {
		k.setSize(d.file, size)
	}
	if a.Crash {
		k.crash()
	}
	return a.Err
}

// Truncate implements syscall.SimLayer.
func (k *Kernel) Truncate(name string, size int64) error {
	f := k.Files[path.Clean(name)]
	if f == nil || k.frozen {
		return syscall.ENOENT
	}
	a := k.plan(&Call{Name: "ftruncate", Path: path.Clean(name), Off: size, Size: int64(len(f.Data))})
	if a.Err == nil && !a.Lose {
		k.setSize(f, size)
	}
	if a.Crash {
		k.crash()
	}
	return a.Err
}

// Fsync implements syscall.SimLayer.
func (k *Kernel) Fsync(fd int) error {
	d, err := k.get(fd)
	if err != nil {
		return err
	}
	a := k.plan(&Call{Name: "fsync", Path: d.name})
	if a.Crash {
		k.crash()
	}
	if a.Err == nil {
		d.file.settle()
	}
	return a.Err
}

func (f *File) settle() {
	f.durable = append([]byte{}, f.Data...)
	f.pending = nil
}

func (k *Kernel) fill(f *File, st *syscall.Stat_t) {
	*st = syscall.Stat_t{Dev: 1, Ino: f.ino, Nlink: 1, Mode: syscall.S_IFREG | 0o644, Size: int64(len(f.Data)), Blksize: 4096, Blocks: int64(len(f.Data)+511) / 512}
	if f.Dir {
		st.Mode = syscall.S_IFDIR | 0o755
	}
}

// Fstat implements syscall.SimLayer.
func (k *Kernel) Fstat(fd int, st *syscall.Stat_t) error {
	d, err := k.get(fd)
	if err != nil {
		return err
	}
	a := k.plan(&Call{Name: "fstat", Path: d.name})
	if a.Err != nil {
		return a.Err
	}
	k.fill(d.file, st)
	return nil
}

// Stat implements syscall.SimLayer.
func (k *Kernel) Stat(name string, st *syscall.Stat_t) error {
	if k.frozen {
		return syscall.EIO
	}
	full := path.Clean(name)
	a := k.plan(&Call{Name: "stat", Path: full})
	if a.Err != nil {
		return a.Err
	}
	f := k.Files[full]
	if f == nil {
		return syscall.ENOENT
	}
	k.fill(f, st)
	return nil
}

// Unlink implements syscall.SimLayer.
func (k *Kernel) Unlink(name string) error {
	if k.frozen {
		return syscall.EIO
	}
	full := path.Clean(name)
	a := k.plan(&Call{Name: "unlink", Path: full})
	if a.Err != nil {
		return a.Err
	}
	if k.Files[full] == nil {
		return syscall.ENOENT
	}
	delete(k.Files, full)
	return nil
}

// Rename implements syscall.SimLayer.
func (k *Kernel) Rename(from, to string) error {
	if k.frozen {
		return syscall.EIO
	}
	from, to = path.Clean(from), path.Clean(to)
	a := k.plan(&Call{Name: "rename", Path: from + " " + to})
	if a.Err != nil {
		return a.Err
	}
	f := k.Files[from]
	if f == nil {
		return syscall.ENOENT
	}
	if t := k.Files[to]; t != nil && t.Dir {
		return syscall.EISDIR
	}
	delete(k.Files, from)
	k.Files[to] = f
	return nil
}

// Exit implements syscall.SimLayer.
func (k *Kernel) Exit(code int) {
	k.frozen = true
	panic(Exited{code})
}

// AfterCrash decides what a crash leaves of a file: each change since the last
// sync reached the disk wholly, in part (by sectors of the given size, in any
// order) or not at all.
func (k *Kernel) AfterCrash(f *File, sector int) []byte {
	out := append([]byte{}, f.durable...)
	mode := k.R.Pick(2, 1, 2) // everything issued reached it, a prefix did, anything goes
	cut := len(f.pending)
	if mode == 1 {
		cut = k.R.Int(len(f.pending) + 1)
	}
	for i, c := range f.pending {
		if i >= cut {
			k.R.Probe("writes lost in a crash")
			break
		}
		if c.data == nil {
			if int(c.size) <= len(out) {
				out = out[:c.size]
			} else {
				out = append(out, make([]byte, int(c.size)-len(out))...)
			}
			continue
		}
		if end := int(c.off) + len(c.data); end > len(out) {
			out = append(out, make([]byte, end-len(out))...)
		}
		how := 0
		if mode == 2 {
			how = k.R.Pick(3, 2, 1)
		}
		switch how {
		case 0:
			copy(out[c.off:], c.data)
		case 1:
			k.R.Probe("write torn by a crash")
			for s := 0; s < len(c.data); s += sector {
				if k.R.Chance(1, 2) {
					copy(out[int(c.off)+s:], c.data[s:min(len(c.data), s+sector)])
				}
			}
		case 2:
			k.R.Probe("writes lost in a crash")
		}
	}
	f.Data = out
	f.settle()
	return out
}

// Thaw starts the machine again, without any open file.
func (k *Kernel) Thaw() {
	k.frozen = false
	k.fds = map[int]*desc{}
}

// Replace gives a file other contents, durably, from outside the machine.
func (k *Kernel) Replace(f *File, data []byte) {
	f.Data = append([]byte{}, data...)
	f.settle()
}
