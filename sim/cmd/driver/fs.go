package main

import (
	"errors"
	"math"
	"os"
	"sort"
	"strings"
	"time"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/driver"
	"github.com/dargueta/disko/file_systems/common"

	"disko-sim/core"
)

// inode is an object of the simulated file system.
type inode struct {
	ino       int
	mode      os.FileMode
	uid, gid  uint32
	size      int64
	data      []byte // allocated blocks
	names     []string
	kids      map[string]*inode
	nlink     int
	at, mt    time.Time
	extraBlks int // blocks reported beyond those the size needs
}

func (n *inode) isDir() bool { return n.mode.IsDir() }

// simFS is the simulated file system implementation the driver runs on.
type simFS struct {
	r        *core.Run
	c        *config
	root     *inode
	nextIno  int
	bs       int
	quota    int // blocks in total
	used     int
	features disko.FSFeatures
	bare     bool // handles don't implement the optional interfaces
	dots     bool // listings contain "." and ".."
	dotStyle int
	picky    bool // unlinking checks that directories are empty
	garbage  bool // newly allocated blocks aren't zeroed
	open     map[*handle]bool
	opened   int

	// Fault plan of the current operation.
	faultAt    int // the call which fails; -1: none
	faultAll   bool
	closeAt    int  // the handle release which fails
	partial    bool // growing which fails may have changed the size
	closeWrote bool // releasing the handle of a file that was written fails
	closes     int
	calls      int
	fired      int
	firedLate  int
	modified   int    // modifying calls since the operation began
	modKind    string // the first of them
	wrote      map[*inode]bool

	countDirs bool // directories have a link for each directory in them

	nop bool // handles without optional interfaces are based on the no-op one

	hollow bool // handles of files leave everything to the no-op one

	injected []*builtError // what the current operation's faults reported
	built    []*builtError // all errors the run made
	errCount int
}

type handle struct {
	fs     *simFS
	node   *inode
	parent *inode
	name   string
	closed bool
	wrote  bool
}

// fullHandle implements the optional interfaces, too.
type fullHandle struct{ *handle }

// dirHandle implements only directory listing.
type dirHandle struct{ *handle }

func (fs *simFS) newHandle(n, parent *inode, name string) disko.ObjectHandle {
	h := &handle{fs: fs, node: n, parent: parent, name: name}
	fs.open[h] = true
	fs.opened++
	if fs.hollow && !n.isDir() {
		return hollow{h: h}
	}
	if !fs.bare {
		return fullHandle{h}
	}
	if n.isDir() {
		if fs.nop {
			return nopDir{nopFile{h: h}}
		}
		return dirHandle{h}
	}
	if fs.nop {
		return nopFile{h: h}
	}
	return h
}

// nopFile is based on the handle the driver offers for that, and implements only
// what's needed.
type nopFile struct {
	driver.NopObjectHandle
	h *handle
}

func (n nopFile) Stat() disko.FileStat                 { return n.h.Stat() }
func (n nopFile) Resize(size uint64) disko.DriverError { return n.h.Resize(size) }
func (n nopFile) Unlink() disko.DriverError            { return n.h.Unlink() }
func (n nopFile) Name() string                         { return n.h.Name() }
func (n nopFile) SameAs(other disko.ObjectHandle) bool { return n.h.SameAs(other) }
func (n nopFile) Close() error                         { return n.h.Close() }
func (n nopFile) ReadBlocks(i common.LogicalBlock, b []byte) disko.DriverError {
	return n.h.ReadBlocks(i, b)
}
func (n nopFile) WriteBlocks(i common.LogicalBlock, b []byte) disko.DriverError {
	return n.h.WriteBlocks(i, b)
}
func (n nopFile) ZeroOutBlocks(i common.LogicalBlock, count uint) disko.DriverError {
	return n.h.ZeroOutBlocks(i, count)
}

type nopDir struct{ nopFile }

func (n nopDir) ListDir() ([]string, disko.DriverError) { return n.h.listDir() }

// hollow is all based on it.
type hollow struct {
	driver.NopObjectHandle
	h *handle
}

func (o hollow) Close() error { return o.h.Close() }

// checkNop checks that the handle offered as a base refuses everything.
func (fs *simFS) checkNop() {
	var o disko.ObjectHandle = driver.NopObjectHandle{}
	refuses := func(name string, f func() error) {
		var err error
		fs.r.Catch(name+" of a no-op handle", func() { err = f() })
		fs.contract(errors.Is(err, disko.ErrNotImplemented), "nop", "%s of a no-op handle gave %v", name, err)
	}
	plain := func(err disko.DriverError) error {
		if err == nil {
			return nil
		}
		return err
	}
	buf := make([]byte, fs.bs)
	refuses("Resize", func() error { return plain(o.Resize(5)) })
	refuses("ReadBlocks", func() error { return plain(o.ReadBlocks(0, buf)) })
	refuses("WriteBlocks", func() error { return plain(o.WriteBlocks(0, buf)) })
	refuses("ZeroOutBlocks", func() error { return plain(o.ZeroOutBlocks(0, 1)) })
	refuses("Unlink", func() error { return plain(o.Unlink()) })
	refuses("Close", func() error { return o.Close() })
	fs.r.Catch("comparing a no-op handle", func() {
		fs.contract(!o.SameAs(o), "nop", "a no-op handle takes another object for itself")
		fs.contract(o.Name() == "" && o.Stat() == (disko.FileStat{}), "nop", "a no-op handle has a name or status")
	})
	if x, ok := o.(disko.SupportsChmodHandle); ok {
		refuses("Chmod", func() error { return plain(x.Chmod(0o600)) })
	}
	if x, ok := o.(disko.SupportsChownHandle); ok {
		refuses("Chown", func() error { return plain(x.Chown(1, 2)) })
	}
	if x, ok := o.(disko.SupportsListDirHandle); ok {
		refuses("ListDir", func() error {
			names, err := x.ListDir()
			fs.contract(len(names) == 0, "nop", "a no-op handle lists %q", names)
			return plain(err)
		})
	}
	x, ok := o.(disko.SupportsChtimesHandle)
	fs.contract(ok, "nop", "a no-op handle doesn't support Chtimes in a way the driver recognises")
	if ok {
		var t time.Time
		refuses("Chtimes", func() error { return plain(x.Chtimes(t, t, t, t, t)) })
	}
}

// rawHandle gets the simulator's handle back from what the driver passed.
func (fs *simFS) rawHandle(what string, o disko.ObjectHandle) *handle {
	switch h := o.(type) {
	case *handle:
		return h
	case fullHandle:
		return h.handle
	case dirHandle:
		return h.handle
	case nopFile:
		return h.h
	case nopDir:
		return h.h
	case hollow:
		return h.h
	}
	fs.contract(false, "foreign-handle", "%s was given a handle which the implementation didn't create (%T)", what, o)
	// Elsewhere, cope with it.
	ino := int(o.Stat().InodeNumber)
	for h := range fs.open {
		if h.node.ino == ino {
			return h
		}
	}
	fs.r.Fail("foreign-handle", "%s was given an unknown handle (%T)", what, o)
	return nil
}

func (fs *simFS) contract(cond bool, key, format string, args ...any) {
	if !cond && fs.c.contract {
		fs.r.Fail(key, format, args...)
	}
}

// enter begins a call into the implementation and decides whether it fails.
func (fs *simFS) enter(kind, detail string, modifies bool) disko.DriverError {
	fs.r.Step()
	fs.r.EvS("  "+kind, detail)
	if modifies {
		if fs.modified == 0 {
			fs.modKind = kind + " " + detail
		}
		fs.modified++
	}
	n := fs.calls
	fs.calls++
	if n == fs.faultAt || fs.faultAll && fs.faultAt >= 0 && n > fs.faultAt {
		fs.fired++
		if modifies {
			fs.firedLate++
		}
		fs.r.Fault(kind + " error")
		return fs.makeError(kind, modifies)
	}
	return nil
}

func (h *handle) use(what string) {
	if h.closed && h.fs.c.handles {
		h.fs.r.Fail("use-after-close", "%s on a handle of %q after it was closed", what, h.name)
	}
}

// disko.FileSystemImplementer

func (fs *simFS) Mount(disko.MountFlags) disko.DriverError { return nil }
func (fs *simFS) Flush() disko.DriverError                 { return nil }
func (fs *simFS) Unmount() disko.DriverError               { return nil }
func (fs *simFS) GetFSFeatures() disko.FSFeatures          { return fs.features }

func (fs *simFS) FSStat() disko.FSStat {
	return disko.FSStat{BlockSize: uint(fs.bs), TotalBlocks: uint64(fs.quota), BlocksFree: uint64(fs.quota - fs.used), MaxNameLength: math.MaxUint}
}

func (fs *simFS) GetRootDirectory() disko.ObjectHandle {
	fs.r.Step()
	fs.r.Ev("  GetRootDirectory")
	return fs.newHandle(fs.root, fs.root, "/")
}

func (fs *simFS) checkName(what, name string) {
	fs.contract(name != "" && name != "." && name != ".." && !strings.Contains(name, "/"), "bad-name",
		"%s was given the name %q, which isn't a single path component", what, name)
}

func (fs *simFS) dirOf(what string, o disko.ObjectHandle) *inode {
	h := fs.rawHandle(what, o)
	h.use(what)
	fs.contract(h.node.isDir(), "parent-not-dir", "%s with a parent (%q) which isn't a directory", what, h.name)
	fs.contract(h.node == fs.root || h.node.nlink > 0, "parent-gone", "%s in the deleted directory %q", what, h.name)
	return h.node
}

func (fs *simFS) GetObject(name string, parent disko.ObjectHandle) (disko.ObjectHandle, disko.DriverError) {
	err := fs.enter("GetObject", name, false)
	d := fs.dirOf("GetObject", parent)
	fs.checkName("GetObject", name)
	if err != nil {
		return nil, err
	}
	if !d.isDir() {
		return nil, disko.ErrNotADirectory
	}
	n := d.kids[name]
	if n == nil {
		return nil, disko.ErrNotFound.WithMessage(name)
	}
	return fs.newHandle(n, d, name), nil
}

func (fs *simFS) CreateObject(name string, parent disko.ObjectHandle, perm os.FileMode) (disko.ObjectHandle, disko.DriverError) {
	err := fs.enter("CreateObject", name, true)
	d := fs.dirOf("CreateObject", parent)
	fs.checkName("CreateObject", name)
	fs.contract(d.kids[name] == nil, "create-existing", "CreateObject of %q, which already exists", name)
	fs.contract(perm&os.ModeType == 0 || perm&os.ModeType == os.ModeDir, "create-type", "CreateObject of %q with mode %v, which neither a file nor a directory has", name, perm)
	if err != nil {
		return nil, err
	}
	if d.kids[name] != nil {
		return nil, disko.ErrExists
	}
	n := fs.makeNode(perm)
	fs.attach(d, name, n)
	return fs.newHandle(n, d, name), nil
}

func (fs *simFS) makeNode(mode os.FileMode) *inode {
	n := &inode{ino: fs.nextIno, mode: mode}
	if mode.IsDir() {
		n.kids = map[string]*inode{}
	}
	fs.nextIno++
	return n
}

func (fs *simFS) attach(d *inode, name string, n *inode) {
	d.kids[name] = n
	d.names = append(d.names, name)
	n.nlink++
}

// linkFS also supports hard links.
type linkFS struct{ *simFS }

func (fs linkFS) CreateHardLink(source, targetParent disko.ObjectHandle, name string) (disko.ObjectHandle, disko.DriverError) {
	err := fs.enter("CreateHardLink", name, true)
	s := fs.rawHandle("CreateHardLink", source)
	s.use("CreateHardLink")
	d := fs.dirOf("CreateHardLink", targetParent)
	fs.checkName("CreateHardLink", name)
	fs.contract(d.kids[name] == nil, "create-existing", "CreateHardLink as %q, which already exists", name)
	fs.contract(!s.node.isDir(), "link-dir", "CreateHardLink of the directory %q", s.name)
	if err != nil {
		return nil, err
	}
	if d.kids[name] != nil {
		return nil, disko.ErrExists
	}
	if s.node.isDir() {
		// As real file systems do; a cycle of directories could never be walked.
		return nil, disko.ErrIsADirectory
	}
	fs.attach(d, name, s.node)
	return fs.newHandle(s.node, d, name), nil
}

// disko.ObjectHandle

func (h *handle) blocks() int { return (int(h.node.size) + h.fs.bs - 1) / h.fs.bs }

func (h *handle) Stat() disko.FileStat {
	h.use("Stat")
	return h.fs.statOf(h.node)
}

// linkCount is how many links the implementation says something has.
func (fs *simFS) linkCount(n *inode) uint64 {
	if fs.countDirs && n.isDir() {
		// As Unix does it.
		count := uint64(n.nlink) + 1
		for _, k := range n.kids {
			if k.isDir() {
				count++
			}
		}
		return count
	}
	return uint64(n.nlink)
}

func (fs *simFS) statOf(n *inode) disko.FileStat {
	return disko.FileStat{
		DeviceID: 1, InodeNumber: uint64(n.ino), Nlinks: fs.linkCount(n), ModeFlags: n.mode, Uid: n.uid, Gid: n.gid,
		Size: n.size, BlockSize: int64(fs.bs), NumBlocks: int64(len(n.data)/fs.bs + n.extraBlks),
		CreatedAt: time.Unix(1_000_000+int64(n.ino), 0), LastAccessed: n.at, LastModified: n.mt,
	}
}

// setSize allocates or frees blocks.
func (fs *simFS) setSize(n *inode, size int64) bool {
	blocks := int((size + int64(fs.bs) - 1) / int64(fs.bs))
	have := len(n.data) / fs.bs
	if fs.used+blocks-have > fs.quota {
		return false
	}
	fs.used += blocks - have
	old := n.data
	n.data = make([]byte, blocks*fs.bs)
	k := copy(n.data, old)
	if fs.garbage {
		for i := k; i < len(n.data); i++ {
			n.data[i] = 0xEE
		}
	}
	n.size = size
	return true
}

func (h *handle) Resize(size uint64) disko.DriverError {
	err := h.fs.enter("Resize", h.name, true)
	h.use("Resize")
	h.fs.r.Ev("    to", int(size))
	if err != nil {
		if more := int64(size) - h.node.size; h.fs.partial && size < 1<<30 && more > 0 && h.fs.r.Chance(1, 3) {
			// It got part of the way.
			h.wrote = true
			if h.fs.setSize(h.node, h.node.size+int64(h.fs.r.Int(int(more)+1))) {
				h.fs.r.Probe("resizing failed part of the way")
			}
		}
		return err
	}
	h.wrote = true
	if size > 1<<40 || !h.fs.setSize(h.node, int64(size)) {
		h.fs.fired++
		h.fs.r.Fault("out of space")
		return disko.ErrNoSpaceOnDevice
	}
	return nil
}

func (h *handle) rangeOf(what string, index common.LogicalBlock, n int) (int, bool) {
	bs := h.fs.bs
	h.fs.contract(n > 0 && n%bs == 0, "bad-buffer", "%s of %q with a buffer of %d bytes, not a positive multiple of the block size %d", what, h.name, n, bs)
	ok := uint64(index) <= uint64(h.blocks()) && int(index)+n/bs <= h.blocks()
	h.fs.contract(ok, "out-of-bounds", "%s of blocks %d+%d of %q, which has %d blocks", what, index, n/bs, h.name, h.blocks())
	if uint64(index) > 1<<30 {
		return 0, false
	}
	off := int(index) * bs
	return off, off+n <= len(h.node.data)
}

func (h *handle) ReadBlocks(index common.LogicalBlock, buffer []byte) disko.DriverError {
	err := h.fs.enter("ReadBlocks", h.name, false)
	h.use("ReadBlocks")
	h.fs.r.Ev("    block", int(index), len(buffer))
	off, ok := h.rangeOf("ReadBlocks", index, len(buffer))
	if err != nil {
		if k := h.fs.r.Int(len(buffer) + 1); k > 0 {
			copy(buffer[:k], core.Pattern(5, k))
		}
		return err
	}
	if !ok {
		return disko.ErrArgumentOutOfRange
	}
	copy(buffer, h.node.data[off:])
	return nil
}

func (h *handle) WriteBlocks(index common.LogicalBlock, data []byte) disko.DriverError {
	err := h.fs.enter("WriteBlocks", h.name, true)
	h.use("WriteBlocks")
	h.fs.r.EvB("    data", data, int(index))
	off, ok := h.rangeOf("WriteBlocks", index, len(data))
	h.wrote = true
	if err != nil {
		if k := h.fs.r.Int(len(data) + 1); k > 0 && ok {
			copy(h.node.data[off:], data[:k])
			h.fs.r.Probe("torn write")
		}
		return err
	}
	if !ok {
		return disko.ErrArgumentOutOfRange
	}
	copy(h.node.data[off:], data)
	return nil
}

func (h *handle) ZeroOutBlocks(index common.LogicalBlock, count uint) disko.DriverError {
	err := h.fs.enter("ZeroOutBlocks", h.name, true)
	h.use("ZeroOutBlocks")
	off, ok := h.rangeOf("ZeroOutBlocks", index, int(count)*h.fs.bs)
	if err != nil {
		return err
	}
	if !ok {
		return disko.ErrArgumentOutOfRange
	}
	clear(h.node.data[off : off+int(count)*h.fs.bs])
	return nil
}

func (h *handle) Unlink() disko.DriverError {
	err := h.fs.enter("Unlink", h.name, true)
	h.use("Unlink")
	h.fs.contract(h.node != h.fs.root, "unlink-root", "Unlink of the root directory")
	h.fs.contract(h.parent.kids[h.name] == h.node, "unlink-gone", "Unlink of %q, which doesn't exist any more", h.name)
	h.fs.contract(len(h.node.kids) == 0, "unlink-not-empty", "Unlink of the directory %q, which contains %d entries", h.name, len(h.node.kids))
	if err != nil {
		return err
	}
	if h.node == h.fs.root && h.fs.c.semantics {
		h.fs.r.Fail("root-removed", "the root directory was removed")
	}
	if h.node == h.fs.root || h.parent.kids[h.name] != h.node {
		return disko.ErrInvalidArgument
	}
	if h.fs.picky && len(h.node.kids) > 0 {
		return disko.ErrDirectoryNotEmpty
	}
	// An implementation may not check that a directory is empty.
	h.fs.drop(h.parent, h.name)
	return nil
}

func (fs *simFS) drop(d *inode, name string) {
	n := d.kids[name]
	delete(d.kids, name)
	for i, x := range d.names {
		if x == name {
			d.names = append(d.names[:i:i], d.names[i+1:]...)
			break
		}
	}
	n.nlink--
	if n.nlink == 0 {
		fs.used -= len(n.data) / fs.bs
		for len(n.names) > 0 {
			fs.drop(n, n.names[0])
		}
	}
}

func (h *handle) Name() string {
	h.use("Name")
	return h.name
}

func (h *handle) SameAs(other disko.ObjectHandle) bool {
	h.use("SameAs")
	o := h.fs.rawHandle("SameAs", other)
	o.use("SameAs")
	return o.node == h.node
}

func (h *handle) Close() error {
	h.fs.r.Step()
	h.fs.r.EvS("  Close", h.name)
	if h.closed {
		if h.fs.c.handles {
			h.fs.r.Fail("double-close", "the handle of %q was closed twice", h.name)
		}
		return disko.ErrFileDescriptorBadState
	}
	h.closed = true
	delete(h.fs.open, h)
	n := h.fs.closes
	h.fs.closes++
	if n == h.fs.closeAt || h.fs.closeWrote && h.wrote {
		h.fs.fired++
		h.fs.r.Fault("Close error")
		if h.fs.r.Chance(1, 2) {
			return errors.New("simulated close error")
		}
		return disko.ErrIOFailed
	}
	return nil
}

func (h *handle) listDir() ([]string, disko.DriverError) {
	err := h.fs.enter("ListDir", h.name, false)
	h.use("ListDir")
	if err != nil {
		return nil, err
	}
	if !h.node.isDir() {
		return nil, disko.ErrNotADirectory
	}
	out := append([]string{}, h.node.names...)
	if h.fs.dots {
		// Some have only one of them, and they needn't be the first.
		at := len(out) * (h.fs.dotStyle & 1)
		dots := [][]string{{".", ".."}, {".", ".."}, {"..", "."}, {"."}, {".."}}[h.fs.dotStyle>>1]
		out = append(out[:at:at], append(append([]string{}, dots...), out[at:]...)...)
	}
	return out, nil
}

func (h dirHandle) ListDir() ([]string, disko.DriverError)  { return h.listDir() }
func (h fullHandle) ListDir() ([]string, disko.DriverError) { return h.listDir() }

func (h fullHandle) Chmod(mode os.FileMode) disko.DriverError {
	err := h.fs.enter("Chmod", h.name, true)
	h.use("Chmod")
	h.fs.contract(mode&^os.ModePerm == 0, "chmod-bits", "Chmod of %q with %v, which has more than permission bits", h.name, mode)
	if err != nil {
		return err
	}
	h.node.mode = h.node.mode&^os.ModePerm | mode
	return nil
}

func (h fullHandle) Chown(uid, gid int) disko.DriverError {
	err := h.fs.enter("Chown", h.name, true)
	h.use("Chown")
	if err != nil {
		return err
	}
	h.node.uid, h.node.gid = uint32(uid), uint32(gid)
	return nil
}

func (h fullHandle) Chtimes(created, accessed, modified, changed, deleted time.Time) disko.DriverError {
	err := h.fs.enter("Chtimes", h.name, true)
	h.use("Chtimes")
	f := h.fs.features
	h.fs.contract((f.HasCreatedTime || created.IsZero()) && (f.HasAccessedTime || accessed.IsZero()) &&
		(f.HasModifiedTime || modified.IsZero()) && (f.HasChangedTime || changed.IsZero()) && deleted.IsZero(),
		"chtimes-unsupported", "Chtimes of %q with a timestamp the file system doesn't support", h.name)
	if err != nil {
		return err
	}
	if f.HasAccessedTime && !accessed.IsZero() {
		h.node.at = accessed
	}
	if f.HasModifiedTime && !modified.IsZero() {
		h.node.mt = modified
	}
	return nil
}

// image is a snapshot of the whole tree, also used as the reference model.
type image struct {
	ent  map[string]int // canonical path -> inode number
	attr map[int]attr
	next int
}

type attr struct {
	mode     os.FileMode
	uid, gid uint32
	data     string // up to the size; a symbolic link's text
	at, mt   time.Time
}

func (fs *simFS) snapshot() *image {
	im := &image{ent: map[string]int{}, attr: map[int]attr{}, next: fs.nextIno}
	im.add(fs.root, "/")
	return im
}

func (im *image) add(n *inode, path string) {
	im.ent[path] = n.ino
	if _, ok := im.attr[n.ino]; !ok {
		im.attr[n.ino] = attr{n.mode, n.uid, n.gid, string(n.data[:min(int(n.size), len(n.data))]), n.at, n.mt}
	}
	for name, k := range n.kids {
		im.add(k, join(path, name))
	}
}

func (im *image) clone() *image {
	o := &image{ent: make(map[string]int, len(im.ent)), attr: make(map[int]attr, len(im.attr)), next: im.next}
	for k, v := range im.ent {
		o.ent[k] = v
	}
	for k, v := range im.attr {
		o.attr[k] = v
	}
	return o
}

func (im *image) paths() []string {
	out := make([]string, 0, len(im.ent))
	for p := range im.ent {
		out = append(out, p)
	}
	sort.Strings(out)
	return out
}

func join(dir, name string) string {
	if dir == "/" {
		return "/" + name
	}
	return dir + "/" + name
}
