// Simulation of the driver (C17-C24): the real driver, streams and caches run on
// a simulated file system implementation.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	posixpath "path"
	"sort"
	"strings"
	"time"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/driver"

	"disko-sim/core"
)

type config struct {
	semantics bool // results and effects of every operation
	content   bool // file contents
	linksOnly bool // judge only what involves symbolic links
	rmOnly    bool // judge only removals
	swallow   bool // injected errors have to be reported
	handles   bool // handle accounting
	flags     bool // mount flags
	osflags   bool // files are opened with the operating system's flags
	contract  bool // what the implementation is promised
	identity  bool // errors reach the user with all they carry
	faults    bool
	closes    bool // inject errors when any handle is released
	links     int  // how many symbolic links trees have
	w         [nOps]int
}

const (
	opStat = iota
	opLstat
	opReadFile
	opReadDir
	opReadlink
	opWriteFile
	opOpen
	opFile
	opClose
	opMkdir
	opMkdirAll
	opRemove
	opRemoveAll
	opLink
	opTruncate
	opChmod
	opChown
	opChtimes
	opChdir
	opSameFile
	opDirFile
	nOps
)

var opNames = [nOps]string{"Stat", "Lstat", "ReadFile", "ReadDir", "Readlink", "WriteFile", "OpenFile", "file I/O", "Close", "Mkdir", "MkdirAll",
	"Remove", "RemoveAll", "Link", "Truncate", "Chmod", "Chown", "Chtimes", "Chdir", "SameFile", "directory file"}

func main() {
	all := [nOps]int{3, 2, 3, 3, 2, 4, 4, 8, 4, 4, 3, 4, 2, 3, 2, 2, 2, 2, 3, 1, 0}
	withDirs := all
	withDirs[opDirFile] = 1
	files := [nOps]int{2, 0, 5, 0, 0, 5, 8, 30, 8, 1, 0, 1, 0, 1, 2, 0, 0, 0, 0, 0}
	opens := [nOps]int{1, 0, 3, 0, 0, 2, 14, 24, 8, 2, 0, 3, 0, 3, 1, 0, 0, 0, 0, 0}
	links := [nOps]int{6, 4, 4, 3, 4, 4, 4, 1, 3, 3, 2, 3, 1, 2, 2, 2, 2, 2, 3, 0}
	rms := [nOps]int{0, 0, 0, 1, 0, 2, 1, 0, 2, 4, 5, 8, 8, 3, 0, 0, 0, 0, 2, 0}
	real := []string{"driver", "file_systems/common/basicstream", "file_systems/common/blockcache", "errors, flags and path handling of package disko"}
	stub := []string{"the file system implementation (inodes, directories, links, handles, block storage) is simulated in memory"}
	p := func(id string, c config, quick int, rule string) *core.Profile {
		p := &core.Profile{Together: 12, Property: id, Quick: quick, Thorough: quick * 40, Real: real, Stub: stub, Rule: rule,
			Run: func(r *core.Run) { runDriver(r, &c) }}
		if id == "C18" {
			p.Huge = runHuge
		}
		return p
	}
	core.Main(
		p("C17", config{semantics: true, content: true, links: 2, w: withDirs}, 250_000,
			"Histories of every driver operation with noisy absolute and relative paths on a generated tree; each result, error kind and the whole resulting tree are compared with a reference tree."),
		p("C18", config{content: true, links: 1, w: files}, 250_000,
			"File-heavy histories: several files open at once, every kind of read and write, all lengths around the block size; contents and sizes on the implementation are compared with the reference after each close and on every read path."),
		p("C19", config{semantics: true, swallow: true, faults: true, links: 1, w: withDirs}, 250_000,
			"The histories of C17 with errors returned from chosen calls into the implementation (and a device that fills up); a call that failed has to make the operation, or the close of the file, fail, the tree may differ only where the operation was aimed, and operations without faults have to work."),
		p("C20", config{handles: true, faults: true, closes: true, links: 2, w: withDirs}, 250_000,
			"The same histories with errors from any call, including handle releases; every handle the implementation gave out has to be released exactly once by the end of the operation or of the open file, and never used after."),
		p("C21", config{flags: true, faults: true, links: 1, w: all}, 250_000,
			"The same histories on mounts with every combination of permissions; operations lacking a permission have to fail without any modifying call, permitted ones may not be refused."),
		p("C22", config{contract: true, faults: true, links: 2, w: all}, 250_000,
			"The same histories, with and without errors; the simulated implementation checks every promise of its contract at each call."),
		p("C23", config{semantics: true, linksOnly: true, links: 9, w: links}, 80_000,
			"Trees full of symbolic links (chains, cycles, dangling, to and through directories, absolute and relative); what every operation resolves to is compared with a component-by-component reference walk."),
		p("C36", config{identity: true, faults: true, links: 1, w: all}, 200_000,
			"Histories of driver operations in which chosen calls into the implementation (including those made for reading and writing an open file) fail with errors built up, to any depth and from one another, from predefined errors, messages and foreign causes; what reaches the user has to be recognised as the predefined error and every cause and to contain every message, and no error built before may change."),
		p("C37", config{content: true, osflags: true, faults: true, links: 1, w: opens}, 250_000,
			"Files in every state (existing, missing, empty, links to either) are opened with every combination of the operating system's flags and then read, written, resized and closed; what each handle may do and what opening and every write did to the tree is compared with a reference that interprets the operating system's flags itself."),
		p("C24", config{semantics: true, rmOnly: true, swallow: true, faults: true, links: 3, w: rms}, 250_000,
			"Removal-heavy histories with errors at any step; after each removal the whole tree is compared with the reference, a failed recursive removal is repeated without faults and has to finish the job."),
	)
}

// permissions are what a mount permits.
type permissions uint

const (
	mayWrite permissions = 1 << iota
	mayInsert
	mayDelete
	mayAdminister
	mayAll = 1<<iota - 1
)

// mountFlags chooses what the mount permits.
func (s *sim) mountFlags(low bool) {
	r := s.r
	s.flags, s.granted = disko.MountFlagsAllowRead, 0
	for i, f := range []disko.MountFlags{disko.MountFlagsAllowWrite, disko.MountFlagsAllowInsert, disko.MountFlagsAllowDelete, disko.MountFlagsAllowAdminister} {
		if low && r.Chance(1, 2) || !low && r.Chance(2, 3) {
			s.flags |= f
			s.granted |= 1 << i
		}
	}
	switch r.Int(16) {
	case 0:
		s.flags, s.granted = disko.MountFlagsAllowReadWrite, mayWrite
	case 1:
		s.flags, s.granted = disko.MountFlagsAllowAll, mayAll
	}
	if r.Chance(1, 8) {
		s.flags |= disko.MountFlagsPreserveTimestamps
	}
	if r.Chance(1, 8) {
		// Nobody knows these.
		s.flags |= disko.MountFlagsCustomStart << r.Int(20)
	}
}

// oflags are what a file is opened with, interpreted independently of the driver.
type oflags disko.IOFlags

func (f oflags) Read() bool        { return f&3 != oflags(disko.O_WRONLY) }
func (f oflags) Write() bool       { return f&3 != oflags(disko.O_RDONLY) }
func (f oflags) Append() bool      { return f&oflags(disko.O_APPEND) != 0 }
func (f oflags) Create() bool      { return f&oflags(disko.O_CREATE) != 0 }
func (f oflags) Truncate() bool    { return f&oflags(disko.O_TRUNC) != 0 }
func (f oflags) Exclusive() bool   { return f&oflags(disko.O_EXCL) != 0 }
func (f oflags) Synchronous() bool { return f&oflags(disko.O_SYNC) != 0 }
func (f oflags) NoFollow() bool    { return f&oflags(disko.O_NOFOLLOW) != 0 }

// osFlags makes flags as an application passes them to os.OpenFile, and says
// what they mean.
func (s *sim) osFlags() (given int, mean oflags) {
	r := s.r
	switch r.Pick(3, 2, 3) {
	case 0:
		given, mean = os.O_RDWR, oflags(disko.O_RDWR)
	case 1:
		given, mean = os.O_RDONLY, oflags(disko.O_RDONLY)
	case 2:
		given, mean = os.O_WRONLY, oflags(disko.O_WRONLY)
	}
	for _, x := range []struct {
		os   int
		mean disko.IOFlags
	}{{os.O_APPEND, disko.O_APPEND}, {os.O_CREATE, disko.O_CREATE}, {os.O_EXCL, disko.O_EXCL}, {os.O_TRUNC, disko.O_TRUNC}, {os.O_SYNC, disko.O_SYNC}} {
		if r.Chance(2, 5) {
			given |= x.os
			mean |= oflags(x.mean)
		}
	}
	if !mean.Write() && mean.Truncate() {
		// What truncating without write access does isn't specified.
		given &^= os.O_TRUNC
		mean &^= oflags(disko.O_TRUNC)
	}
	if mean.Exclusive() && !mean.Create() {
		// Neither is this.
		given &^= os.O_EXCL
		mean &^= oflags(disko.O_EXCL)
	}
	if r.Chance(1, 8) {
		// Flags which mean nothing here.
		given |= []int{0x800, 0x100, 0x80000, 0x40000}[r.Int(4)]
	}
	return
}

// oFile is an open file.
type oFile struct {
	f     driver.File
	ino   int
	path  string
	flags oflags
	ref   []byte
	pos   int64
	fuzzy bool // a failed operation left the contents uncertain

	pending bool // written to since it was last synced
	stale   bool // the file was changed otherwise since; this must not undo that
}

type sim struct {
	r     *core.Run
	c     *config
	fs    *simFS
	d     *driver.BaseDriver
	flags disko.MountFlags

	granted permissions // what the flags permit
	hard    bool
	cwd     string
	pre     *image
	files   []*oFile
	desc    string
	judge   bool // this operation's outcome is judged
	scale   int  // what is larger than usual
}

var nameSet = []string{"a", "b", "c", "d", "e", "...", ".h", "x y", "ü", "A", "b.TXT", "b\\c", strings.Repeat("long", 70)}

// How much larger than usual something is.
const (
	usual = iota
	bigFiles
	deepTree
	wideDirectory
	longChain
)

func runDriver(r *core.Run, c *config) {
	fs := &simFS{r: r, c: c, nextIno: 2, open: map[*handle]bool{}, faultAt: -1, closeAt: -1, quota: 1 << 20, partial: c.swallow && !c.rmOnly || c.osflags}
	s := &sim{r: r, c: c, fs: fs, cwd: "/", flags: disko.MountFlagsAllowAll, granted: mayAll}
	fs.bs = []int{16, 4, 7, 64, 512}[r.Pick(6, 2, 1, 2, 1)]
	s.scale = r.Pick(90, 1, 1, 2, 1)
	fs.features = disko.FSFeatures{HasDirectories: true, HasSymbolicLinks: true, HasHardLinks: true, HasCreatedTime: true,
		HasAccessedTime: !r.Chance(1, 8), HasModifiedTime: !r.Chance(1, 8), DefaultBlockSize: fs.bs}
	fs.bare = r.Chance(1, 12)
	fs.nop = r.Chance(1, 2)
	fs.countDirs = r.Chance(1, 2)
	if c.contract && r.Chance(1, 8) {
		fs.checkNop()
	}
	fs.dots = r.Chance(1, 3)
	fs.dotStyle = r.Int(10)
	fs.garbage = r.Chance(1, 2)
	fs.picky = r.Chance(1, 2)
	s.hard = !r.Chance(1, 12)
	if !c.linksOnly && r.Chance(1, 16) {
		fs.features.HasSymbolicLinks = false
	}
	if c.faults && r.Chance(1, 4) {
		fs.quota = r.Range(4, 40)
		r.Ev("quota", fs.quota)
	}
	if c.flags || r.Chance(1, 8) {
		s.mountFlags(c.flags)
	}
	s.buildTree()
	var impl disko.FileSystemImplementer = fs
	if s.hard {
		impl = linkFS{fs}
	}
	s.d = driver.New(impl, s.flags)
	s.pre = fs.snapshot()
	r.Ev("setup", fs.bs, int(s.flags), b2i(fs.bare), b2i(s.hard))
	for _, p := range s.pre.paths() {
		a := s.pre.attr[s.pre.ent[p]]
		if s.pre.isLink(p) {
			r.EvS("link", p+" -> "+a.data)
		} else {
			r.EvS("entry "+a.mode.String(), p, len(a.data), s.pre.ent[p])
		}
	}
	rate := 0
	if c.faults && (!c.flags || r.Chance(1, 3)) {
		rate = []int{0, 5, 15, 40}[r.Pick(1, 2, 3, 2)]
		if c.identity {
			rate += 30
		}
	}
	avg, most := 12, 60
	if r.Long() {
		r.Probe("very long history")
		avg, most = 400, 3000
	}
	for n := 0; n < most && r.More(avg); n++ {
		s.step(rate)
		s.r.State(s.stateHash())
	}
	r.Check(s.d.GetFSFeatures() == fs.features, "features", "the driver reports features %+v instead of %+v", s.d.GetFSFeatures(), fs.features)
	for len(s.files) > 0 {
		s.begin(opClose, 0)
		s.closeFile(0)
	}
	if c.contract && r.Chance(1, 12) {
		s.hollowFile()
	}
	if c.handles {
		r.Check(len(fs.open) == 0, "leak", "%d handles are still open after all files were closed", len(fs.open))
	}
	r.Nontrivial = r.Nontrivial || r.OpsDone > 2
}

// hollowFile lets the driver have to do with a file of which the implementation leaves
// everything to the base it's offered.
func (s *sim) hollowFile() {
	r, fs := s.r, s.fs
	var files []string
	for _, p := range s.pre.paths() {
		if m := s.pre.attr[s.pre.ent[p]].mode; m.IsRegular() {
			files = append(files, p)
		}
	}
	if len(files) == 0 {
		return
	}
	fs.faultAt, fs.closeAt, fs.hollow = -1, -1, true
	r.Probe("file without an implementation")
	path := files[r.Int(len(files))]
	var t time.Time
	d := s.d
	for _, x := range []struct {
		name string
		f    func() error
	}{
		{"ReadFile", func() error { _, err := d.ReadFile(path); return err }},
		{"Open", func() error { _, err := d.Open(path); return err }},
		{"OpenFile", func() error { _, err := d.OpenFile(path, disko.O_RDWR, 0o600); return err }},
		{"WriteFile", func() error { return d.WriteFile(path, []byte("x"), 0o600) }},
		{"Truncate", func() error { return d.Truncate(path) }},
		{"Chmod", func() error { return d.Chmod(path, 0o600) }},
		{"Chown", func() error { return d.Chown(path, 1, 2) }},
		{"Chtimes", func() error { return d.Chtimes(path, t, t) }},
		{"Remove", func() error { return d.Remove(path) }},
		{"Chdir", func() error { return d.Chdir(path) }},
		{"ReadDir", func() error { _, err := d.ReadDir(path); return err }},
	} {
		var err error
		r.EvS("hollow "+x.name, path)
		r.Catch(x.name+" of a file the implementation doesn't implement", func() { err = x.f() })
		fs.contract(err != nil, "nop", "%s of a file the implementation doesn't implement succeeded", x.name)
	}
	fs.hollow = false
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (s *sim) stateHash() uint64 {
	h := uint64(len(s.files)) + core.HashString(s.cwd)
	for p, i := range s.pre.ent {
		a := s.pre.attr[i]
		h += core.HashString(p) * (uint64(a.mode) + 31*uint64(len(a.data)) + 7)
	}
	return h
}

// Trees ---------------------------------------------------------------------

func (s *sim) buildTree() {
	fs, r := s.fs, s.r
	fs.root = &inode{ino: 1, mode: os.ModeDir | 0o755, kids: map[string]*inode{}, nlink: 1}
	type place struct {
		n    *inode
		path string
	}
	dirs := []place{{fs.root, "/"}}
	paths := []string{"/"}
	switch s.scale {
	case bigFiles:
		fs.bs = []int{512, 4096, 1000, 33000}[r.Int(4)]
		fs.features.DefaultBlockSize = fs.bs
		r.Probe("big files")
	case deepTree:
		at := dirs[0]
		for i := r.Range(8, 40); i > 0; i-- {
			name := nameSet[r.Int(3)]
			k := fs.makeNode(os.ModeDir | 0o755)
			fs.attach(at.n, name, k)
			at = place{k, join(at.path, name)}
			dirs, paths = append(dirs, at), append(paths, at.path)
		}
		r.Probe("deep tree")
	case wideDirectory:
		at := dirs[0]
		if r.Chance(3, 4) {
			k := fs.makeNode(os.ModeDir | 0o755)
			fs.attach(at.n, "a", k)
			at = place{k, "/a"}
			dirs, paths = append(dirs, at), append(paths, at.path)
		}
		for i := r.Range(20, 150); i > 0; i-- {
			name := fmt.Sprintf("f%d", i)
			k := fs.makeNode([]os.FileMode{0o644, 0o600, os.ModeDir | 0o700}[r.Pick(4, 1, 1)])
			fs.attach(at.n, name, k)
			paths = append(paths, join(at.path, name))
		}
		r.Probe("wide directory")
	case longChain:
		if !fs.features.HasSymbolicLinks {
			break
		}
		target := "/a"
		for i := r.Range(5, 60); i > 0; i-- {
			name := fmt.Sprintf("k%d", i)
			k := fs.makeNode(os.ModeSymlink | 0o777)
			fs.attach(fs.root, name, k)
			text := target
			if r.Chance(1, 2) {
				text = relative("/", target)
			}
			fs.fill(k, []byte(text))
			target = "/" + name
			paths = append(paths, target)
		}
		r.Probe("long chain of links")
	}
	n := r.Int(14)
	for i := 0; i < n; i++ {
		d := dirs[r.Int(len(dirs))]
		name := nameSet[r.Pick(36, 32, 28, 16, 12, 4, 4, 4, 4, 3, 2, 2, 1)]
		if d.n.kids[name] != nil {
			continue
		}
		path := join(d.path, name)
		kind := r.Pick(5, 4, s.c.links*2, 1)
		if kind == 2 && !fs.features.HasSymbolicLinks {
			kind = 0
		}
		switch kind {
		case 0:
			k := fs.makeNode(os.ModeDir | 0o755)
			fs.attach(d.n, name, k)
			dirs = append(dirs, place{k, path})
		case 1:
			k := fs.makeNode(0o644)
			fs.attach(d.n, name, k)
			fs.fill(k, r.Fill(s.size()))
		case 2:
			k := fs.makeNode(os.ModeSymlink | 0o777)
			fs.attach(d.n, name, k)
			fs.fill(k, []byte(s.linkText(d.path, paths)))
		case 3:
			// Another name for an existing file.
			var files []*inode
			for _, x := range dirs {
				for _, nm := range x.n.names {
					if k := x.n.kids[nm]; k.mode.IsRegular() {
						files = append(files, k)
					}
				}
			}
			if len(files) == 0 {
				continue
			}
			fs.attach(d.n, name, files[r.Int(len(files))])
		}
		paths = append(paths, path)
	}
}

func (fs *simFS) fill(n *inode, data []byte) {
	quota := fs.quota
	fs.quota = 1 << 30
	fs.setSize(n, int64(len(data)))
	fs.quota = max(quota, fs.used)
	copy(n.data, data)
	if fs.garbage {
		for i := len(data); i < len(n.data); i++ {
			n.data[i] = 0xDD
		}
	}
	if fs.r.Chance(1, 8) {
		n.extraBlks = 1
	}
}

// linkText makes the target of a symbolic link in dir. ".." appears only at the
// beginning, where its meaning doesn't depend on how paths are cleaned.
func (s *sim) linkText(dir string, paths []string) string {
	r := s.r
	var target string
	switch r.Pick(8, 3, 1, 1) {
	case 0:
		target = paths[r.Int(len(paths))]
		if r.Chance(1, 3) {
			target = join(target, nameSet[r.Int(5)])
		}
	case 1:
		target = join(dir, nameSet[r.Int(5)])
	case 2:
		target = "/"
	case 3:
		target = dir
	}
	text := target
	if r.Chance(1, 2) {
		text = relative(dir, target)
	} else if r.Chance(1, 8) {
		text = "/.." + target
	}
	if r.Chance(1, 8) {
		text = strings.Replace(text, "/", "//", 1)
	}
	if r.Chance(1, 8) && !strings.HasPrefix(text, "/") {
		text = "./" + text
	}
	return text
}

// relative is the path of target as seen from the directory dir.
func relative(dir, target string) string {
	d := strings.FieldsFunc(dir, func(c rune) bool { return c == '/' })
	t := strings.FieldsFunc(target, func(c rune) bool { return c == '/' })
	for len(d) > 0 && len(t) > 0 && d[0] == t[0] {
		d, t = d[1:], t[1:]
	}
	out := append(strings.Split(strings.Repeat("../", len(d)), "/"), t...)
	text := strings.Join(out[max(0, len(d)-len(d)):], "/")
	text = strings.ReplaceAll(text, "//", "/")
	text = strings.Trim(text, "/")
	if text == "" {
		return "."
	}
	return text
}

func (s *sim) size() int {
	bs := s.fs.bs
	if s.scale == bigFiles && s.r.Chance(1, 2) {
		return s.r.Int(150_000)
	}
	switch s.r.Pick(3, 4, 3, 2) {
	case 0:
		return s.r.Int(bs)
	case 1:
		return s.r.Int(3*bs + 1)
	case 2:
		return max(0, s.r.Range(1, 4)*bs+s.r.Range(-1, 1))
	}
	return s.r.Int(8*bs + 1)
}

// path makes an argument; clean is what it means.
func (s *sim) path() (arg, clean string) {
	r := s.r
	paths := s.pre.paths()
	p := paths[r.Int(len(paths))]
	if s.scale == wideDirectory && r.Chance(1, 3) {
		p = "/a"
	}
	switch r.Pick(6, 4, 2, 1) {
	case 1:
		p = join(p, nameSet[r.Pick(20, 20, 16, 16, 12, 4, 4, 4, 4, 3, 2, 2, 1)])
	case 2:
		// A sibling, often in an existing directory.
		p = join(posixpath.Dir(p), nameSet[r.Pick(20, 20, 16, 16, 12, 4, 4, 4, 4, 3, 2, 2, 1)])
	case 3:
		for i := r.Range(1, 3); i > 0; i-- {
			p = join(p, nameSet[r.Int(5)])
		}
	}
	if s.c.links > 5 && r.Chance(1, 3) {
		// Go through a link.
		var ls []string
		for _, q := range paths {
			if s.pre.isLink(q) {
				ls = append(ls, q)
			}
		}
		if len(ls) > 0 {
			p = ls[r.Int(len(ls))]
			for i := r.Int(4); i > 0; i-- {
				p = join(p, nameSet[r.Int(5)])
			}
		}
	}
	arg = p
	if r.Chance(1, 3) {
		arg = relative(s.cwd, p)
	}
	if r.Chance(1, 4) {
		arg = s.noise(arg)
	}
	clean = posixpath.Clean(arg)
	if !posixpath.IsAbs(clean) {
		clean = posixpath.Join(s.cwd, clean)
	}
	return arg, clean
}

// noise adds things to a path which don't change where it leads.
func (s *sim) noise(p string) string {
	comps := strings.Split(p, "/")
	i := s.r.Int(len(comps)) // before component i
	if posixpath.IsAbs(p) && i == 0 {
		i = 1
	}
	var extra []string
	switch s.r.Int(4) {
	case 0:
		extra = []string{"."}
	case 1:
		extra = []string{nameSet[s.r.Int(5)], ".."}
	case 2:
		if i == 0 {
			extra = []string{"."}
		} else {
			extra = []string{""}
		}
	case 3:
		extra = []string{nameSet[s.r.Int(5)], nameSet[s.r.Int(5)], "..", ".", ".."}
	}
	out := append(append(append([]string{}, comps[:i]...), extra...), comps[i:]...)
	return strings.Join(out, "/")
}

// Judging -------------------------------------------------------------------

func (s *sim) begin(op, rate int) {
	fs := s.fs
	s.r.BeginOp(opNames[op])
	fs.calls, fs.closes, fs.fired, fs.firedLate, fs.modified = 0, 0, 0, 0, 0
	fs.faultAt, fs.closeAt, fs.faultAll, fs.closeWrote = -1, -1, false, false
	fs.injected = nil
	if s.r.Chance(rate, 100) {
		fs.faultAt = s.r.Int([]int{10, 10, 10, 30, 150}[s.r.Int(5)])
		fs.faultAll = s.r.Chance(1, 4)
		if s.c.closes && s.r.Chance(1, 2) {
			fs.closeAt = s.r.Int(6)
		} else if s.c.swallow && s.r.Chance(1, 3) && (op == opClose || op == opWriteFile || op == opTruncate) {
			fs.closeAt = -1
			fs.closeWrote = true
			fs.faultAt = -1
		}
	}
}

func (s *sim) busy() map[int]bool {
	m := map[int]bool{}
	for _, f := range s.files {
		if f.flags.Write() && !f.stale {
			m[f.ino] = true
		}
	}
	return m
}

// pending tells whether a file is open other than as o with changes which may or
// may not have been stored.
func (s *sim) pending(ino int, o *oFile) bool {
	for _, f := range s.files {
		if f.ino == ino && f != o && (f.pending || f.fuzzy && f.flags.Write()) {
			return true
		}
	}
	return false
}

// outdate notes that a file is changed by other means than those it's open as.
func (s *sim) outdate(ino int, o *oFile) {
	for _, f := range s.files {
		if f.ino == ino && f != o {
			f.stale = true
			s.r.Probe("file changed while it is open elsewhere")
		}
	}
}

func (s *sim) isOpen(ino int) bool {
	for _, f := range s.files {
		if f.ino == ino {
			return true
		}
	}
	return false
}

// call runs an operation and judges its outcome. It returns whether the
// operation went as the reference expects it to succeed.
func (s *sim) call(what string, e expect, loose bool, judge bool, f func() error) (error, bool) {
	s.desc = what
	s.r.EvS("> "+what, "")
	nOpen := len(s.fs.open)
	_ = nOpen
	var err error
	s.r.Catch(what, func() { err = f() })
	s.r.EvErr("<", err)
	fs, r, c := s.fs, s.r, s.c
	fs.faultAt, fs.closeAt, fs.closeWrote = -1, -1, false
	got := fs.snapshot()
	pre := s.pre
	s.pre = got
	denied := e.need&^s.granted != 0
	e = s.onMount(e, pre)
	if loose {
		e.ok, e.canFail, e.errs = true, true, nil
	}
	if e.post == nil {
		e.post = pre
	}
	if c.flags {
		if denied {
			r.Probe("refused for lack of a permission")
			r.Check(err != nil, "not-refused", "%s succeeded on a mount without the permission it needs (flags %#x)", what, int(s.flags))
			r.Check(fs.modified == 0, "modified", "%s needs a permission the mount lacks (flags %#x) but reached the implementation: %s", what, int(s.flags), fs.modKind)
		} else if e.ok && !e.canFail && err != nil && fs.fired == 0 {
			r.Check(!errors.Is(err, disko.ErrReadOnlyFileSystem) && !errors.Is(err, disko.ErrNotPermitted) && !errors.Is(err, disko.ErrPermissionDenied),
				"refused", "%s was refused although the mount permits it (flags %#x): %v", what, int(s.flags), err)
		}
		if e.need == 0 {
			r.Check(fs.modified == 0, "modified", "%s called %s although nothing it asked for modifies anything", what, fs.modKind)
		}
	}
	if fs.fired > 0 {
		if c.identity {
			s.checkIdentity(what, err, e.ok && !e.canFail && !denied)
		}
		if c.swallow && judge {
			r.Check(err != nil, "swallowed", "%s succeeded although the implementation failed while it ran", what)
		}
		if c.swallow && judge {
			skip := s.busy()
			if e.ino != 0 {
				skip[e.ino] = true
			}
			if d := blast(pre, e.post, got, skip); d != "" {
				r.Fail("collateral", "%s failed but changed something else: %s", what, d)
			}
		}
		return err, false
	}
	if c.semantics && judge {
		if m := e.judge(err); m != "" {
			key := "should-work"
			if err == nil {
				key = "should-fail"
			} else if e.canFail {
				key = "wrong-error"
			}
			r.Fail(key, "%s %s", what, m)
		}
		want := pre
		if err == nil {
			want = e.post
		}
		if d := diff(want, got, s.busy()); d != "" {
			r.Fail("tree", "after %s (%v): %s", what, err, d)
		}
	}
	return err, err == nil && e.ok && !loose
}

// onMount adjusts what's expected of an operation to what the mount permits.
func (s *sim) onMount(e expect, pre *image) expect {
	if e.need&^s.granted != 0 {
		return expect{canFail: true, post: pre, need: e.need}
	}
	if len(e.errs) > 0 && s.granted != mayAll {
		e.errs = append(append([]error{}, e.errs...), disko.ErrReadOnlyFileSystem)
	}
	return e
}

// settle checks the handle accounting after an operation.
func (s *sim) settle() {
	if s.c.handles {
		s.r.Check(len(s.fs.open) == len(s.files), "leak", "after %s %d handles are open for %d open files", s.desc, len(s.fs.open), len(s.files))
	}
}

func (s *sim) judged(links int, removal bool) bool {
	if s.c.linksOnly {
		return links > 0
	}
	if s.c.rmOnly {
		return removal
	}
	return true
}

// Operations ----------------------------------------------------------------

func (s *sim) perm() os.FileMode {
	p := os.FileMode([]int{0o644, 0o755, 0o600, 0, 0o777, 0o421}[s.r.Int(6)])
	// What gets created is decided by the operation, never by the type bits.
	if s.r.Chance(1, 10) {
		p |= []os.FileMode{os.ModeDir, os.ModeSymlink, os.ModeNamedPipe, os.ModeDevice | os.ModeCharDevice, os.ModeSocket}[s.r.Int(5)]
	}
	return p
}

func (s *sim) node(ino int) *inode {
	var find func(n *inode) *inode
	find = func(n *inode) *inode {
		if n.ino == ino {
			return n
		}
		for _, name := range n.names {
			if x := find(n.kids[name]); x != nil {
				return x
			}
		}
		return nil
	}
	return find(s.fs.root)
}

func (s *sim) step(rate int) {
	op := s.r.Pick(s.c.w[:]...)
	if len(s.files) == 0 && op == opFile {
		op = opOpen
	} else if len(s.files) == 0 && op == opClose {
		op = opWriteFile
	} else if len(s.files) >= 3 && op == opOpen {
		op = opFile
	}
	s.begin(op, rate)
	switch op {
	case opFile:
		s.fileOp(s.r.Int(len(s.files)))
	case opClose:
		s.closeFile(s.r.Int(len(s.files)))
	case opOpen:
		s.openFile()
	case opWriteFile:
		s.writeFile()
	case opDirFile:
		s.dirFile()
	default:
		s.pathOp(op)
	}
	s.settle()
}

const looseLinks = 40

// pathOp performs an operation on paths.
func (s *sim) pathOp(op int) {
	r, d, pre := s.r, s.d, s.pre
	arg, path := s.path()
	follow := pre.resolve(path, true)
	nofollow := pre.resolve(path, false)
	isLoose := func(x res) bool { return x.links > looseLinks && x.err != disko.ErrLinkCycleDetected }
	what := fmt.Sprintf("%s(%q)", opNames[op], arg)
	// on applies a change to the object a path resolves to.
	on := func(x res, f func(post *image)) expect {
		if x.err != nil {
			return failWith(x.err)
		}
		post := pre
		if f != nil {
			post = pre.clone()
			f(post)
		}
		e := succeed(post)
		e.ino = x.ino
		return e
	}
	switch op {
	case opStat, opLstat:
		x := follow
		f := d.Stat
		if op == opLstat {
			x, f = nofollow, d.Lstat
		}
		var st disko.FileStat
		j := s.judged(follow.links, false)
		_, ok := s.call(what, on(x, nil), isLoose(x), j, func() (err error) { st, err = f(arg); return })
		if ok && s.c.semantics && j {
			want := s.fs.statOf(s.node(x.ino))
			r.Check(sameStat(st, want), "stat", "%s returned %+v instead of %+v", what, st, want)
		}
	case opReadFile:
		x := follow
		if x.err == nil && s.pending(x.ino, nil) {
			return
		}
		e := on(x, nil)
		loose := isLoose(x)
		if x.err == nil && pre.isDir(x.path) {
			loose = true
		}
		var data []byte
		j := s.judged(x.links, false)
		_, ok := s.call(what, e, loose, j || s.c.content, func() (err error) { data, err = d.ReadFile(arg); s.r.Keep("read by ReadFile", data); return })
		if ok && (s.c.semantics && j || s.c.content) {
			s.compare(what, data, []byte(pre.attr[x.ino].data))
		} else if s.c.content && x.err == nil && !loose && s.fs.fired == 0 {
			r.Check(ok, "should-work", "%s of an existing file failed", what)
		}
	case opReadDir:
		x := follow
		e := on(x, nil)
		if x.err == nil && !pre.isDir(x.path) {
			e = failWith(disko.ErrNotADirectory)
		}
		var list []disko.DirectoryEntry
		j := s.judged(x.links, false)
		_, ok := s.call(what, e, isLoose(x), j, func() (err error) { list, err = d.ReadDir(arg); return })
		if ok && s.c.semantics && j {
			s.checkListing(what, list, x)
		}
	case opReadlink:
		x := nofollow
		e := on(x, nil)
		if x.err == nil && !pre.isLink(x.path) || !s.fs.features.HasSymbolicLinks {
			e = failWith()
		}
		var text string
		j := s.judged(follow.links, false)
		_, ok := s.call(what, e, isLoose(x), j, func() (err error) { text, err = d.Readlink(arg); return })
		if ok && s.c.semantics && j {
			r.Check(text == pre.attr[x.ino].data, "readlink", "%s returned %q instead of %q", what, text, pre.attr[x.ino].data)
		}
	case opMkdir:
		perm := s.perm()
		x := nofollow
		e := failWith(disko.ErrExists)
		if x.err != nil && x.site == "" {
			e = failWith(x.err)
		} else if x.err != nil {
			post := pre.clone()
			post.create(x.site, perm&os.ModePerm|os.ModeDir, "")
			e = succeed(post)
		}
		e.need = mayInsert
		s.call(what, e, isLoose(x), s.judged(follow.links, false), func() error { return d.Mkdir(arg, perm) })
	case opMkdirAll:
		s.mkdirAll(arg, path)
	case opRemove:
		x := nofollow
		if x.err == nil && s.isOpen(x.ino) {
			return
		}
		e := on(x, func(post *image) { post.remove(x.path) })
		if path == "/" {
			e = failWith()
		} else if x.err == nil && pre.isDir(x.path) && len(pre.children(x.path)) > 0 {
			e = failWith(disko.ErrDirectoryNotEmpty)
		}
		e.ino = 0
		e.need = mayDelete
		s.call(what, e, isLoose(x), s.judged(follow.links, true), func() error { return d.Remove(arg) })
	case opRemoveAll:
		x := nofollow
		if x.err == nil {
			for p, i := range pre.ent {
				if (p == x.path || strings.HasPrefix(p, x.path+"/")) && s.isOpen(i) {
					return
				}
			}
		}
		e := on(x, func(post *image) { post.remove(x.path) })
		switch {
		case path == "/":
			e = failWith()
		case x.err == disko.ErrNotFound:
			e = expect{ok: true, canFail: true, errs: []error{disko.ErrNotFound}}
		case x.err == nil && !pre.isDir(x.path):
			e.canFail, e.errs = true, []error{disko.ErrNotADirectory}
		}
		e.ino = 0
		e.need = mayDelete
		j := s.judged(follow.links, true)
		err, _ := s.call(what, e, isLoose(x), j, func() error { return d.RemoveAll(arg) })
		if s.c.rmOnly && s.fs.fired > 0 && x.err == nil && pre.isDir(x.path) && path != "/" && err != nil {
			// Once the fault is gone, repeating it has to finish the job. The
			// directory itself may have been removed already.
			r.Probe("failed recursive removal repeated")
			s.fs.fired, s.fs.modified = 0, 0
			mid := s.pre
			if again := mid.resolve(path, false); mid.ent[x.path] != 0 {
				if again.err != nil || again.path != x.path {
					// The path led through a link that was in the tree and is gone now.
					arg = x.path
				}
				s.call(what+" again", succeed(e.post), false, true, func() error { return d.RemoveAll(arg) })
			} else if dd := diff(e.post, mid, nil); dd != "" {
				r.Fail("tree", "%s removed the directory itself but: %s", what, dd)
			}
		}
	case opLink:
		arg2, path2 := s.path()
		what = fmt.Sprintf("Link(%q, %q)", arg, arg2)
		y := pre.resolve(path2, false)
		var errs []error
		anyErr := !s.hard
		if follow.err != nil {
			errs = append(errs, follow.err)
		} else if pre.isDir(follow.path) {
			anyErr = true
		}
		if y.err == nil {
			errs = append(errs, disko.ErrExists)
		} else if y.site == "" {
			errs = append(errs, y.err)
		}
		e := failWith(errs...)
		if anyErr {
			e = failWith()
		} else if len(errs) == 0 {
			post := pre.clone()
			post.ent[y.site] = follow.ino
			e = succeed(post)
		}
		e.need = mayInsert
		s.call(what, e, isLoose(follow) || isLoose(y), s.judged(follow.links+pre.resolve(path2, true).links, false), func() error { return d.Link(arg, arg2) })
	case opTruncate:
		x := follow
		if x.err == nil && s.pending(x.ino, nil) {
			return
		}
		if x.err == nil {
			s.outdate(x.ino, nil)
		}
		e := on(x, func(post *image) { post.set(x.ino, func(a *attr) { a.data = "" }) })
		if x.err == nil && pre.isDir(x.path) {
			e = failWith(disko.ErrIsADirectory)
		}
		e.need = mayWrite
		s.call(what, e, isLoose(x), s.judged(x.links, false) || s.c.content, func() error { return d.Truncate(arg) })
	case opChmod:
		m := s.perm()
		if r.Chance(1, 8) {
			m |= os.ModeSetuid | os.ModeSymlink
		}
		x := follow
		e := on(x, func(post *image) { post.set(x.ino, func(a *attr) { a.mode = a.mode&^os.ModePerm | m&os.ModePerm }) })
		if s.fs.bare {
			e = failWith()
		}
		e.need = mayAdminister
		s.call(what, e, isLoose(x), s.judged(x.links, false), func() error { return d.Chmod(arg, m) })
	case opChown:
		x, f := follow, d.Chown
		if r.Chance(1, 2) {
			x, f = nofollow, d.Lchown
			what = "L" + what
		}
		uid, gid := r.Int(1000), r.Int(1000)
		e := on(x, func(post *image) {
			post.set(x.ino, func(a *attr) { a.uid, a.gid = uint32(uid), uint32(gid) })
		})
		if s.fs.bare {
			e = failWith()
		}
		e.need = mayAdminister
		s.call(what, e, isLoose(x), s.judged(follow.links, false), func() error { return f(arg, uid, gid) })
	case opChtimes:
		x := follow
		at, mt := s.time(), s.time()
		e := on(x, func(post *image) {
			post.set(x.ino, func(a *attr) {
				if s.fs.features.HasAccessedTime && !at.IsZero() {
					a.at = at
				}
				if s.fs.features.HasModifiedTime && !mt.IsZero() {
					a.mt = mt
				}
			})
		})
		if s.fs.bare {
			e = failWith()
		}
		e.need = mayWrite
		s.call(what, e, isLoose(x), s.judged(x.links, false), func() error { return d.Chtimes(arg, at, mt) })
	case opChdir:
		x := follow
		e := on(x, nil)
		if x.err == nil && !pre.isDir(x.path) {
			e = failWith(disko.ErrNotADirectory)
		}
		j := s.judged(x.links, false)
		s.call(what, e, isLoose(x), j, func() error { return d.Chdir(arg) })
		cwd, err := d.Getwd()
		if s.c.semantics && j && s.fs.fired == 0 && !isLoose(x) {
			want := s.cwd
			if x.err == nil && pre.isDir(x.path) {
				want = x.path
			}
			r.Check(err == nil && cwd == want, "getwd", "after %s the working directory is %q (%v) instead of %q", what, cwd, err, want)
		}
		s.cwd = cwd
	case opSameFile:
		s.sameFile(arg, follow, isLoose(follow))
	}
}

func (s *sim) time() time.Time {
	if s.r.Chance(1, 4) {
		return time.Time{}
	}
	t := time.Unix(int64(s.r.Int(1<<31)), 0).UTC()
	switch s.r.Int(8) {
	case 0:
		t = t.AddDate(-s.r.Int(400), 0, 0) // before any epoch
	case 1:
		t = t.AddDate(s.r.Int(8000), 0, 0)
	case 2:
		t = t.Add(time.Duration(s.r.Int(1_000_000_000)))
	case 3:
		t = t.In(time.FixedZone("", s.r.Range(-12, 14)*3600))
	}
	return t
}

func sameStat(a, b disko.FileStat) bool {
	return a.InodeNumber == b.InodeNumber && a.Nlinks == b.Nlinks && a.ModeFlags == b.ModeFlags && a.Uid == b.Uid && a.Gid == b.Gid &&
		a.Size == b.Size && a.BlockSize == b.BlockSize && a.NumBlocks == b.NumBlocks && a.LastAccessed.Equal(b.LastAccessed) && a.LastModified.Equal(b.LastModified)
}

func (s *sim) compare(what string, got, want []byte) {
	if bytes.Equal(got, want) {
		return
	}
	if len(got) != len(want) {
		s.r.Fail("content", "%s returned %d bytes instead of %d", what, len(got), len(want))
	}
	i := 0
	for got[i] == want[i] {
		i++
	}
	s.r.Fail("content", "%s returned wrong data at %d of %d", what, i, len(want))
}

func (s *sim) checkListing(what string, list []disko.DirectoryEntry, x res) {
	var names []string
	for _, e := range list {
		names = append(names, e.Name())
		p := join(x.path, e.Name())
		ino, ok := s.pre.ent[p]
		s.r.Check(ok, "listing", "%s lists %q, which doesn't exist", what, e.Name())
		st := s.fs.statOf(s.node(ino))
		info, err := e.Info()
		s.r.Check(err == nil && info != nil, "listing", "%s: Info of %q failed: %v", what, e.Name(), err)
		s.r.Check(sameStat(e.Stat(), st) && e.IsDir() == st.IsDir() && e.Type()&os.ModeType == st.ModeFlags&os.ModeType &&
			info.Size() == st.Size && info.Mode() == st.ModeFlags && info.Name() == e.Name() && info.IsDir() == st.IsDir() && info.ModTime().Equal(st.LastModified),
			"listing", "%s has the wrong attributes for %q: %+v", what, e.Name(), e.Stat())
	}
	sort.Strings(names)
	want := s.pre.children(x.path)
	s.r.Check(strings.Join(names, "\x00") == strings.Join(want, "\x00"), "listing", "%s lists %q instead of %q", what, names, want)
}

func (s *sim) mkdirAll(arg, path string) {
	perm := s.perm()
	pre := s.pre
	what := fmt.Sprintf("MkdirAll(%q)", arg)
	post := pre.clone()
	x := pre.resolve(path, true)
	links := x.links
	loose := x.links > looseLinks && x.err != disko.ErrLinkCycleDetected
	e := succeed(post)
	if x.err == nil {
		if !pre.isDir(x.path) {
			e = failWith(disko.ErrNotADirectory, disko.ErrExists)
		}
	} else if x.err != disko.ErrNotFound {
		e = failWith(x.err)
	} else {
		e.need = mayInsert
		prefix := "/"
	loop:
		for _, c := range strings.Split(path, "/") {
			if c == "" {
				continue
			}
			prefix = join(prefix, c)
			y := post.resolve(prefix, true)
			z := post.resolve(prefix, false)
			links = max(links, y.links)
			switch {
			case y.err == nil && post.isDir(y.path):
			case y.err == nil:
				e = failWith(disko.ErrNotADirectory, disko.ErrExists)
				break loop
			case z.err == nil:
				// A dangling link is in the way.
				e = failWith(disko.ErrExists, disko.ErrNotFound, y.err)
				break loop
			case z.site == "":
				e = failWith(z.err)
				break loop
			default:
				post.create(z.site, perm&os.ModePerm|os.ModeDir, "")
			}
		}
		if !e.ok && len(diff(pre, post, nil)) > 0 {
			loose = true // can't happen: what's missing has nothing beneath it
		}
	}
	s.call(what, e, loose, s.judged(links, false), func() error { return s.d.MkdirAll(arg, perm) })
}

func (s *sim) sameFile(arg string, x res, loose bool) {
	if loose || x.err != nil || !s.pre.isDir(x.path) {
		return
	}
	var l1, l2 []disko.DirectoryEntry
	arg2, path2 := s.path()
	y := s.pre.resolve(path2, true)
	if y.err != nil || !s.pre.isDir(y.path) || y.links > looseLinks {
		return
	}
	s.call(fmt.Sprintf("SameFile of entries of %q and %q", arg, arg2), succeed(nil), false, s.judged(0, false), func() (err error) {
		if l1, err = s.d.ReadDir(arg); err == nil {
			l2, err = s.d.ReadDir(arg2)
		}
		return
	})
	if !s.c.semantics || s.c.linksOnly || s.c.rmOnly || s.fs.fired > 0 {
		return
	}
	if len(l1) > 0 && s.r.Chance(1, 4) {
		// Information on a file somewhere else.
		var i, j os.FileInfo = foreign{}, foreign{}
		k := s.r.Int(3)
		if k > 0 {
			i, _ = l1[s.r.Int(len(l1))].Info()
		}
		if k > 1 {
			i, j = j, i
		}
		same := true
		s.r.Catch("SameFile", func() { same = s.d.SameFile(i, j) })
		s.r.Check(!same, "samefile", "SameFile of files of which at least one is on another file system is true")
		s.r.Probe("compared with a file elsewhere")
	}
	for _, a := range l1 {
		for _, b := range l2 {
			i, _ := a.Info()
			j, _ := b.Info()
			p, q := s.pre.ent[join(x.path, a.Name())], s.pre.ent[join(y.path, b.Name())]
			var same bool
			s.r.Catch("SameFile", func() { same = s.d.SameFile(i, j) })
			s.r.Check(same == (p == q), "samefile", "SameFile of %q and %q is %v", a.Name(), b.Name(), same)
		}
	}
}

// foreign is information on a file which no driver of disko has.
type foreign struct{}

func (foreign) Name() string       { return "elsewhere" }
func (foreign) Size() int64        { return 0 }
func (foreign) Mode() os.FileMode  { return 0 }
func (foreign) ModTime() time.Time { return time.Time{} }
func (foreign) IsDir() bool        { return false }
func (foreign) Sys() any           { return nil }

// extHandle lets a directory be opened as a file, which OpenFile doesn't do.
type extHandle struct {
	fullHandle
	path string
}

func (h extHandle) AbsolutePath() string { return h.path }

// dirFile lists a directory through a file object, in pieces.
func (s *sim) dirFile() {
	r := s.r
	var dirs []string
	for _, p := range s.pre.paths() {
		if s.pre.isDir(p) {
			dirs = append(dirs, p)
		}
	}
	path := dirs[r.Int(len(dirs))]
	x := s.pre.resolve(path, true)
	n := s.node(x.ino)
	h := &handle{fs: s.fs, node: n, parent: n, name: posixpath.Base(path)}
	s.fs.open[h] = true
	var f driver.File
	_, ok := s.call(fmt.Sprintf("NewFileFromObjectHandle(%q)", path), succeed(nil), false, true, func() (err error) {
		f, err = driver.NewFileFromObjectHandle(s.d, extHandle{fullHandle{h}, path}, disko.O_RDONLY)
		return
	})
	if !ok {
		return
	}
	want := len(s.pre.children(path))
	{
		var names []string
		for ended := false; !ended; {
			k := r.Range(-1, 3)
			var got []string
			var infos []any
			var err error
			how := r.Int(3)
			if s.c.faults && r.Chance(1, 6) {
				s.fs.faultAt = s.fs.calls + r.Int(4)
			}
			s.call(fmt.Sprintf("ReadDir(%d) of %q", k, path), succeed(nil), false, true, func() error {
				switch how {
				case 0:
					var l []os.DirEntry
					l, err = f.ReadDir(k)
					for _, e := range l {
						got = append(got, e.Name())
						infos = append(infos, e)
					}
				case 1:
					got, err = f.Readdirnames(k)
				case 2:
					var l []os.FileInfo
					l, err = f.Readdir(k)
					for _, e := range l {
						got = append(got, e.Name())
						infos = append(infos, e)
					}
				}
				if err == io.EOF {
					return nil
				}
				return err
			})
			names = append(names, got...)
			if s.fs.fired > 0 {
				s.fs.fired = 0
				r.Probe("listing in pieces failed and was continued")
				if err != nil {
					continue
				}
			}
			for _, e := range infos {
				ino, ok := s.pre.ent[join(path, e.(interface{ Name() string }).Name())]
				if !ok || !s.c.semantics || s.c.linksOnly || s.c.rmOnly {
					break
				}
				st := s.fs.statOf(s.node(ino))
				switch e := e.(type) {
				case os.FileInfo:
					s.checkInfo(path, e, st)
				case os.DirEntry:
					r.Check(e.IsDir() == st.IsDir() && e.Type()&os.ModeType == st.ModeFlags&os.ModeType, "listing", "listing %q in pieces gives the wrong kind for %q", path, e.Name())
				}
			}
			left := want - len(names)
			r.Check(left >= 0, "listing", "listing %q in pieces gives too many entries: %q", path, names)
			if k <= 0 {
				r.Check(err == nil && left == 0, "listing", "listing the rest of %q leaves %d entries (%v)", path, left, err)
				ended = true
			} else if err == io.EOF {
				r.Check(len(got) == 0 && left == 0, "listing", "listing %q ended with %d entries left", path, left)
				ended = true
			} else {
				r.Check(len(got) == min(k, left+len(got)) && len(got) > 0, "listing", "ReadDir(%d) of %q returned %d entries", k, path, len(got))
			}
		}
		sort.Strings(names)
		r.Check(strings.Join(names, "/") == strings.Join(s.pre.children(path), "/"), "listing", "listing %q in pieces gives %q", path, names)
		if r.Chance(1, 3) {
			s.relist(&f, n, path)
		}
	}
	if r.Chance(1, 3) {
		s.call(fmt.Sprintf("File.Chdir of %q", path), succeed(nil), false, true, func() error { return f.Chdir() })
		cwd, _ := s.d.Getwd()
		r.Check(cwd == path, "getwd", "after File.Chdir the working directory is %q instead of %q", cwd, path)
		s.cwd = cwd
	}
	s.call(fmt.Sprintf("Close of %q", path), succeed(nil), false, true, func() error { return f.Close() })
}

// relist goes on listing a directory which has been listed completely and has
// changed since then.
func (s *sim) relist(f *driver.File, n *inode, path string) {
	r := s.r
	if len(n.names) > 0 && n.kids[n.names[0]].isDir() == false && !s.isOpen(n.kids[n.names[0]].ino) && r.Chance(1, 2) {
		s.fs.drop(n, n.names[0])
	} else {
		s.fs.attach(n, fmt.Sprintf("late%d", s.fs.nextIno), s.fs.makeNode(0o644))
	}
	s.pre = s.fs.snapshot()
	want := strings.Join(s.pre.children(path), "/")
	for i := 0; i < 3; i++ {
		var got []string
		var err error
		s.call(fmt.Sprintf("ReadDir(-1) of %q after its end", path), succeed(nil), false, true, func() error {
			got, err = f.Readdirnames(-1)
			return err
		})
		sort.Strings(got)
		r.Check(len(got) == 0 || strings.Join(got, "/") == want, "listing", "%q was listed to the end and changed; listing it again gives %q instead of %q", path, got, want)
		if len(got) > 0 {
			r.Probe("directory listed again after its end")
			return
		}
	}
}

// Files ---------------------------------------------------------------------

// opening works out what opening a path has to do.
func (s *sim) opening(path string, flags oflags, perm os.FileMode) (e expect, loose bool, links int) {
	pre := s.pre
	x := pre.resolve(path, true)
	links = x.links
	create := func(site string) {
		post := pre.clone()
		e = succeed(post)
		e.ino, e.created = post.next, true
		post.create(site, perm&os.ModePerm, "")
		e.need = mayInsert
	}
	if flags.Create() && flags.Exclusive() {
		y := pre.resolve(path, false)
		loose = y.links > looseLinks && y.err != disko.ErrLinkCycleDetected
		switch {
		case y.err == nil:
			e = failWith(disko.ErrExists)
		case y.site != "":
			create(y.site)
		default:
			e = failWith(y.err)
		}
		return
	}
	if flags.NoFollow() {
		y := pre.resolve(path, false)
		loose = y.links > looseLinks && y.err != disko.ErrLinkCycleDetected
		if y.err == nil && pre.isLink(y.path) {
			s.r.Probe("opened a link which must not be followed")
			e, links = failWith(), max(links, 1)
			return
		}
	}
	loose = loose || x.links > looseLinks && x.err != disko.ErrLinkCycleDetected
	switch {
	case x.err == nil && pre.isDir(x.path):
		e = failWith(disko.ErrIsADirectory)
		if flags.Write() || flags.Truncate() {
			e.errs = append(e.errs, disko.ErrReadOnlyFileSystem)
			if s.granted&mayWrite == 0 {
				e.need = mayWrite
			}
		}
	case x.err == nil:
		post := pre.clone()
		if flags.Truncate() {
			post.set(x.ino, func(a *attr) { a.data = "" })
		}
		e = succeed(post)
		e.ino = x.ino
		if flags.Write() || flags.Truncate() {
			e.need = mayWrite
		}
	case x.site != "" && flags.Create():
		create(x.site)
	default:
		e = failWith(x.err)
	}
	return
}

func (s *sim) openFile() {
	r := s.r
	arg, path := s.path()
	perm := s.perm()
	var flags oflags
	var given int
	switch r.Pick(3, 3, 2, 2) {
	case 0:
		flags = oflags(disko.O_RDWR)
	case 1:
		flags = oflags(disko.O_RDONLY)
	case 2:
		flags = oflags(disko.O_WRONLY)
	case 3:
		flags = oflags(disko.O_RDWR | disko.O_CREATE | disko.O_EXCL)
		perm = 0
	}
	how := r.Pick(6, 1, 1)
	if how == 0 && s.c.osflags {
		how = 3
		given, flags = s.osFlags()
	} else if how == 1 {
		flags = oflags(disko.O_RDONLY) // Open
	} else if how == 2 {
		flags, perm = oflags(disko.O_RDWR|disko.O_CREATE|disko.O_EXCL), 0 // Create
	} else {
		if r.Chance(1, 2) {
			flags |= oflags(disko.O_CREATE)
		}
		if r.Chance(1, 8) {
			flags |= oflags(disko.O_EXCL)
		}
		if r.Chance(1, 4) && flags.Write() {
			flags |= oflags(disko.O_TRUNC)
		}
		if r.Chance(1, 5) && flags.Write() {
			flags |= oflags(disko.O_APPEND)
		}
		if r.Chance(1, 6) && flags.Write() {
			flags |= oflags(disko.O_SYNC)
		}
		if r.Chance(1, 6) {
			flags |= oflags(disko.O_NOFOLLOW)
		}
	}
	emptying := s.c.flags && how == 0 && r.Chance(1, 12)
	if emptying {
		// What this does isn't specified, except on a mount which can't be
		// written to.
		flags = oflags(disko.O_TRUNC)
	}
	e, loose, links := s.opening(path, flags, perm)
	if emptying && (e.need&^s.granted == 0 || !e.ok) {
		return
	}
	if loose {
		return
	}
	if e.ino != 0 && s.pending(e.ino, nil) {
		return
	}
	if e.errs != nil && e.errs[0] == disko.ErrIsADirectory && !flags.Write() && !flags.Create() {
		// Whether directories can be opened for reading is left open.
		return
	}
	what := fmt.Sprintf("OpenFile(%q, %#x)", arg, int(flags))
	if how == 3 {
		what = fmt.Sprintf("OpenFile(%q, OSFlagsToIOFlags(%#x))", arg, given)
	}
	var f driver.File
	// Truncating through the stream leaves the object's size to the close.
	opened := &oFile{path: path, flags: flags, ino: e.ino}
	pre := s.pre
	e = s.onMount(e, pre)
	if e.ok && flags.Write() {
		if flags.Truncate() {
			s.outdate(e.ino, nil)
			opened.pending = true
		}
		s.files = append(s.files, opened) // busy while judging
	}
	err, ok := s.call(what, e, false, s.judged(links, false) || s.c.content, func() (err error) {
		switch how {
		case 1:
			f, err = s.d.Open(arg)
		case 2:
			f, err = s.d.Create(arg)
		case 3:
			f, err = s.d.OpenFile(arg, disko.OSFlagsToIOFlags(given), perm)
		default:
			f, err = s.d.OpenFile(arg, disko.IOFlags(flags), perm)
		}
		return
	})
	if e.ok && flags.Write() {
		s.files = s.files[:len(s.files)-1]
	}
	if s.c.content && s.fs.fired == 0 {
		if m := e.judge(err); m != "" {
			r.Fail("should-work", "%s %s", what, m)
		}
	}
	if err != nil {
		return
	}
	opened.f = f
	if !ok {
		opened.fuzzy = true
		if !e.ok {
			// It opened although it shouldn't have; not this property's concern.
			opened.ino = -1
		}
	}
	if !flags.Truncate() && !e.created {
		opened.ref = []byte(pre.attr[e.ino].data)
	}
	s.files = append(s.files, opened)
	if s.c.content && ok {
		r.Check(f.Size() == int64(len(opened.ref)), "size", "%s has size %d, not %d", what, f.Size(), len(opened.ref))
		r.Check(f.Name() == posixpath.Base(s.pathOf(e.ino)) || s.node(e.ino).nlink > 1 || links > 0, "name", "%s is called %q", what, f.Name())
	}
}

func (s *sim) pathOf(ino int) string {
	for _, p := range s.pre.paths() {
		if s.pre.ent[p] == ino {
			return p
		}
	}
	return ""
}

func (s *sim) writeFile() {
	arg, path := s.path()
	perm := s.perm()
	data := s.r.Fill(s.size())
	e, loose, links := s.opening(path, oflags(disko.O_WRONLY|disko.O_CREATE|disko.O_TRUNC), perm)
	if loose || e.ino != 0 && s.pending(e.ino, nil) {
		return
	}
	e = s.onMount(e, s.pre)
	if e.ok {
		s.outdate(e.ino, nil)
		e.post.set(e.ino, func(a *attr) { a.data = string(data) })
	}
	what := fmt.Sprintf("WriteFile(%q, %d bytes)", arg, len(data))
	j := s.judged(links, false)
	err, _ := s.call(what, e, false, j, func() error { return s.d.WriteFile(arg, s.r.Lend("given to WriteFile", data), perm) })
	if s.fs.fired > 0 {
		return
	}
	if s.c.content {
		if m := e.judge(err); m != "" {
			s.r.Fail("should-work", "%s %s", what, m)
		}
		if e.ok {
			if d := diff(e.post, s.pre, s.busy()); d != "" {
				s.r.Fail("tree", "after %s: %s", what, d)
			}
		}
	}
	if s.c.contract && err == nil && e.ok {
		if n := s.node(e.ino); n != nil {
			s.r.Check(n.size == int64(len(data)), "resize-units", "after %s the object has been resized to %d", what, n.size)
		}
	}
}

// fileOp performs an operation on an open file.
func (s *sim) fileOp(i int) {
	r := s.r
	o := s.files[i]
	f := &o.f
	var e expect
	e.ino = o.ino
	canRead, canWrite := o.flags.Read(), o.flags.Write()
	if canWrite {
		// Writing to an open file needs no further permission than opening it did.
		e.need = 0
	}
	var n int
	var n64 int64
	var wantN int64
	var after func()
	writes := func(data []byte, at int64) {
		end := at + int64(len(data))
		if len(data) == 0 {
			return
		}
		for int64(len(o.ref)) < end {
			o.ref = append(o.ref, make([]byte, end-int64(len(o.ref)))...)
		}
		copy(o.ref[at:], data)
	}
	off := func() int64 { return int64(r.Int(len(o.ref) + 2*s.fs.bs + 1)) }
	kind := r.Pick(4, 4, 3, 3, 3, 2, 2, 3, 3, 2, 1, 1, 1)
	what := ""
	var call func() error
	mod := false
	switch kind {
	case 0: // Write
		data := r.Fill(s.size())
		what = fmt.Sprintf("Write(%d bytes)", len(data))
		str := r.Chance(1, 4)
		call = func() (err error) {
			if str {
				n, err = f.WriteString(string(data))
			} else {
				n, err = f.Write(r.Lend("given to Write", data))
			}
			return
		}
		e.ok, e.canFail, mod = canWrite, !canWrite, true
		wantN = int64(len(data))
		after = func() {
			if o.flags.Append() {
				o.pos = int64(len(o.ref))
			}
			writes(data, o.pos)
			o.pos += int64(len(data))
			n64 = int64(n)
		}
	case 1: // Read
		buf := make([]byte, s.size())
		what = fmt.Sprintf("Read(%d bytes)", len(buf))
		var rerr error
		call = func() error {
			n, rerr = f.Read(buf)
			r.Keep("read by Read", buf)
			if rerr == io.EOF {
				return nil
			}
			return rerr
		}
		e.ok, e.canFail = canRead, !canRead
		wantN = max(0, min(int64(len(buf)), int64(len(o.ref))-o.pos))
		after = func() {
			n64 = int64(n)
			if s.c.content && n64 == wantN && wantN > 0 {
				s.compare(what, buf[:n], o.ref[o.pos:o.pos+wantN])
			}
			if s.c.content && len(buf) > 0 && wantN == 0 {
				r.Check(rerr == io.EOF, "eof", "%s at the end of the file doesn't report it", what)
			}
			o.pos += wantN
		}
	case 2: // ReadAt
		at := off()
		buf := make([]byte, s.size())
		what = fmt.Sprintf("ReadAt(%d bytes, %d)", len(buf), at)
		call = func() (err error) {
			n, err = f.ReadAt(buf, at)
			r.Keep("read by ReadAt", buf)
			if err == io.EOF {
				return nil
			}
			return
		}
		e.ok, e.canFail = canRead, !canRead
		wantN = max(0, min(int64(len(buf)), int64(len(o.ref))-at))
		after = func() {
			n64 = int64(n)
			if s.c.content && n64 == wantN && wantN > 0 {
				s.compare(what, buf[:n], o.ref[at:at+wantN])
			}
		}
	case 3: // WriteAt
		at := off()
		data := r.Fill(s.size())
		what = fmt.Sprintf("WriteAt(%d bytes, %d)", len(data), at)
		call = func() (err error) { n, err = f.WriteAt(r.Lend("given to WriteAt", data), at); return }
		ok := canWrite && !o.flags.Append()
		e.ok, e.canFail, mod = ok, !ok, true
		wantN = int64(len(data))
		after = func() { writes(data, at); n64 = int64(n) }
	case 4: // Seek
		at := off()
		whence := r.Int(3)
		arg := at
		if whence == io.SeekCurrent {
			arg = at - o.pos
		} else if whence == io.SeekEnd {
			arg = at - int64(len(o.ref))
		}
		what = fmt.Sprintf("Seek(%d, %d)", arg, whence)
		call = func() (err error) { n64, err = f.Seek(arg, whence); return }
		e.ok = true
		wantN = at
		after = func() { o.pos = at }
	case 5: // Truncate
		size := off()
		what = fmt.Sprintf("Truncate(%d)", size)
		call = func() error { return f.Truncate(size) }
		e.ok, e.canFail, mod = canWrite, !canWrite, true
		after = func() {
			if size <= int64(len(o.ref)) {
				o.ref = append([]byte{}, o.ref[:size]...)
			} else {
				o.ref = append(o.ref, make([]byte, size-int64(len(o.ref)))...)
			}
		}
	case 6: // Sync
		what = "Sync()"
		call = func() error { return f.Sync() }
		e.ok = true
		after = func() { s.stored(what, o) }
	case 7: // ReadFrom
		data := r.Fill(s.size())
		what = fmt.Sprintf("ReadFrom(%d bytes)", len(data))
		call = func() (err error) { n64, err = f.ReadFrom(onlyReader{bytes.NewReader(data)}); return }
		e.ok, e.canFail, mod = canWrite, !canWrite, true
		wantN = int64(len(data))
		after = func() {
			if o.flags.Append() {
				o.pos = int64(len(o.ref))
			}
			writes(data, o.pos)
			o.pos += int64(len(data))
		}
	case 8: // WriteTo
		var buf bytes.Buffer
		what = "WriteTo"
		call = func() (err error) { n64, err = f.WriteTo(&buf); return }
		e.ok, e.canFail = canRead, !canRead
		wantN = max(0, int64(len(o.ref))-o.pos)
		after = func() {
			if s.c.content && wantN > 0 {
				s.compare(what, buf.Bytes(), o.ref[o.pos:])
			}
			o.pos = max(o.pos, int64(len(o.ref)))
		}
	case 9: // Stat
		what = "File.Stat()"
		var info os.FileInfo
		call = func() (err error) { info, err = f.Stat(); return }
		e.ok = true
		after = func() {
			if s.c.content {
				r.Check(info.Size() == int64(len(o.ref)), "size", "File.Stat gives size %d instead of %d", info.Size(), len(o.ref))
			}
			if s.c.semantics && !s.c.linksOnly && !s.c.rmOnly {
				st, _ := info.Sys().(disko.FileStat)
				r.Check(st.InodeNumber == uint64(o.ino), "stat", "File.Stat gives inode %d instead of %d", st.InodeNumber, o.ino)
				r.Check(!info.IsDir(), "stat", "File.Stat says that a file is a directory")
				if a, ok := s.pre.attr[o.ino]; ok {
					r.Check(st.ModeFlags == a.mode && st.Uid == a.uid && st.Gid == a.gid && st.LastAccessed.Equal(a.at) && st.LastModified.Equal(a.mt),
						"stale-status", "File.Stat of %q gives mode %s, owner %d/%d, times %s and %s instead of %s, %d/%d, %s and %s", o.path, st.ModeFlags, st.Uid, st.Gid,
						st.LastAccessed, st.LastModified, a.mode, a.uid, a.gid, a.at, a.mt)
				}
				s.checkInfo(what, info, st)
				r.Check(info.Name() == f.Name() || s.judgedName(o), "name", "File.Stat says that %q is called %q, but its name is %q", o.path, info.Name(), f.Name())
			}
		}
	case 10: // Chmod
		m := s.perm()
		what = "File.Chmod"
		call = func() error { return f.Chmod(m) }
		post := s.pre.clone()
		post.set(o.ino, func(a *attr) { a.mode = a.mode&^os.ModePerm | m&os.ModePerm })
		e.ok, e.canFail, e.post = !s.fs.bare, s.fs.bare, post
		e.need = mayAdminister
	case 11: // Chown
		uid, gid := r.Int(1000), r.Int(1000)
		what = "File.Chown"
		call = func() error { return f.Chown(uid, gid) }
		post := s.pre.clone()
		post.set(o.ino, func(a *attr) { a.uid, a.gid = uint32(uid), uint32(gid) })
		e.ok, e.canFail, e.post = !s.fs.bare, s.fs.bare, post
		e.need = mayAdminister
	case 12: // not for files
		what = "File.Chdir/ReadDir"
		call = func() error {
			if err := f.Chdir(); err == nil {
				return nil
			}
			_, err := f.ReadDir(r.Range(-1, 2))
			return err
		}
		e = failWith(disko.ErrNotADirectory)
		e.ino = o.ino
	}
	if o.ino == -1 {
		return
	}
	what = fmt.Sprintf("%s of %q", what, o.path)
	if mod && canWrite {
		if o.stale || s.pending(o.ino, o) {
			return
		}
		s.outdate(o.ino, o)
		o.pending = true
	}
	if o.stale {
		// What it reads is what there was or what there is now, or it fails.
		e.ok, e.canFail, e.errs, after = true, kind != 6, nil, nil
	}
	old := append([]byte{}, o.ref...)
	oldPos := o.pos
	s.runFileOp(o, what, e, mod, canWrite, call, after, &n64, &wantN, kind, old, oldPos)
}

// checkInfo checks that all the ways of asking about a file agree.
func (s *sim) checkInfo(what string, info os.FileInfo, st disko.FileStat) {
	r := s.r
	r.Check(info.Mode() == st.ModeFlags && info.Size() == st.Size && info.IsDir() == st.IsDir() && info.ModTime().Equal(st.LastModified),
		"stat", "%s: mode %s, size %d, modified %s, but the status behind it says %s, %d and %s", what, info.Mode(), info.Size(), info.ModTime(), st.ModeFlags, st.Size, st.LastModified)
	e, ok := info.(os.DirEntry)
	if !ok {
		return
	}
	again, err := e.Info()
	r.Check(err == nil && again != nil, "stat", "%s: getting the information behind an entry failed: %v", what, err)
	r.Check(e.Name() == info.Name() && e.IsDir() == info.IsDir() && e.Type()&os.ModeType == info.Mode()&os.ModeType &&
		again.Name() == info.Name() && again.Mode() == info.Mode() && again.Size() == info.Size(), "stat", "%s: the entry and the information behind it differ", what)
	if x, ok := info.(interface{ Stat() disko.FileStat }); ok {
		r.Check(sameStat(x.Stat(), st), "stat", "%s: status %+v, but %+v behind it", what, x.Stat(), st)
	}
}

// judgedName tells that what an open file is called isn't certain.
func (s *sim) judgedName(o *oFile) bool {
	n := s.node(o.ino)
	return n == nil || n.nlink > 1 || s.pathOf(o.ino) != o.path
}

// useClosed uses a file after it was closed. Whatever that is, it can't work.
func (s *sim) useClosed(o *oFile, name string) {
	r, f := s.r, &o.f
	buf := []byte("xyz")
	var err error
	var n int64
	var k int
	var call func() error
	what := ""
	switch r.Int(15) {
	case 0:
		what, call = "Write", func() (err error) { k, err = f.Write(buf); return }
	case 1:
		what, call = "WriteAt", func() (err error) { k, err = f.WriteAt(buf, 0); return }
	case 2:
		what, call = "ReadFrom", func() (err error) { n, err = f.ReadFrom(bytes.NewReader(buf)); return }
	case 3:
		what, call = "Truncate", func() error { return f.Truncate(int64(len(o.ref)) + int64(r.Range(-1, 40))) }
	case 4:
		what, call = "Sync", func() error { return f.Sync() }
	case 5:
		what, call = "Chmod", func() error { return f.Chmod(0o600) }
	case 6:
		what, call = "Chown", func() error { return f.Chown(7, 8) }
	case 7:
		what, call = "Chdir", func() error { return f.Chdir() }
	case 8:
		what, call = "ReadDir", func() (err error) { _, err = f.ReadDir(1); return }
	case 9:
		what, call = "Read", func() (err error) { k, err = f.Read(buf); return }
	case 10:
		what, call = "ReadAt", func() (err error) { k, err = f.ReadAt(buf, 0); return }
	case 11:
		what, call = "WriteTo", func() (err error) { n, err = f.WriteTo(&bytes.Buffer{}); return }
	case 12:
		what, call = "Stat", func() (err error) { _, err = f.Stat(); return }
	case 13:
		what, call = "Seek", func() (err error) { _, err = f.Seek(0, io.SeekStart); return }
	case 14:
		what, call = "Name", func() error { f.Name(); return io.ErrClosedPipe }
	}
	what = fmt.Sprintf("%s of %q, which is closed,", what, name)
	r.EvS("> "+what, "")
	before := s.fs.snapshot()
	calls := s.fs.calls
	r.Catch(what, func() { err = call() })
	r.EvErr("<", err)
	r.Probe("used a closed file")
	r.Check(err != nil, "closed-file", "%s succeeded", what)
	r.Check(s.fs.calls == calls, "closed-file", "%s reached the implementation", what)
	r.Check(n == 0 && k == 0, "closed-file", "%s failed but reports %d bytes", what, n+int64(k))
	if d := diff(before, s.fs.snapshot(), nil); d != "" {
		r.Fail("closed-file", "%s changed something: %s", what, d)
	}
}

type onlyReader struct{ io.Reader }

func (s *sim) runFileOp(o *oFile, what string, e expect, mod, canWrite bool, call func() error, after func(), n64, wantN *int64, kind int, old []byte, oldPos int64) {
	r := s.r
	e = s.onMount(e, s.pre)
	before := s.pre.attr[o.ino].data
	var err error
	var ok bool
	if s.c.flags && e.need == 0 && canWrite {
		// Flushing may happen at any time.
		saved := s.c
		cc := *s.c
		cc.flags = false
		s.c = &cc
		err, ok = s.call(what, e, o.fuzzy, s.judged(0, false), call)
		s.c = saved
	} else {
		err, ok = s.call(what, e, o.fuzzy, s.judged(0, false), call)
	}
	s.idle(what, o, before)
	if kind == 6 && err == nil && s.fs.fired == 0 {
		o.pending = false
	}
	if o.fuzzy {
		return
	}
	if s.fs.fired > 0 {
		if mod || kind == 7 || kind == 8 || kind == 1 {
			o.fuzzy = true
		}
		return
	}
	if s.c.content {
		if m := e.judge(err); m != "" {
			r.Fail("should-work", "%s %s", what, m)
		}
	}
	if o.stale {
		return
	}
	if !ok {
		if e.ok {
			o.fuzzy = true
		}
		return
	}
	if after != nil {
		after()
	}
	if mod && o.flags.Synchronous() && s.c.content {
		r.Probe("synchronous write")
		s.stored(what, o)
	}
	if s.c.content && (kind <= 4 || kind == 7 || kind == 8) {
		r.Check(*n64 == *wantN, "count", "%s reports %d instead of %d", what, *n64, *wantN)
	}
	if s.c.content {
		r.Check(o.f.Size() == int64(len(o.ref)), "size", "after %s the file has size %d instead of %d", what, o.f.Size(), len(o.ref))
		r.Check(o.f.Tell() == o.pos, "position", "after %s the position is %d instead of %d", what, o.f.Tell(), o.pos)
	}
}

// idle checks that a file which something else has changed since isn't changed back
// by way of o.
func (s *sim) idle(what string, o *oFile, before string) {
	if !o.stale || o.pending || !s.c.content && !(s.c.semantics && !s.c.linksOnly && !s.c.rmOnly) {
		return
	}
	a, ok := s.pre.attr[o.ino]
	if !ok {
		return
	}
	if a.data != before {
		s.r.Fail("undone", "%s, which nothing was written to, changed the file's contents from %d to %d bytes", what, len(before), len(a.data))
	}
}

// stored checks that an open file's contents have reached the implementation.
func (s *sim) stored(what string, o *oFile) {
	if !o.flags.Write() || o.fuzzy || o.stale || o.ino < 0 {
		return
	}
	a, ok := s.pre.attr[o.ino]
	if !ok {
		return
	}
	if s.c.content || s.c.semantics && !s.c.linksOnly && !s.c.rmOnly {
		if len(a.data) != len(o.ref) {
			s.r.Fail("stored-size", "after %s the object's size is %d instead of %d", what, len(a.data), len(o.ref))
		}
		if a.data != string(o.ref) {
			s.r.Fail("stored-content", "after %s the object's contents are wrong", what)
		}
	}
	if s.c.contract {
		s.r.Check(len(a.data) == len(o.ref), "resize-units", "after %s the object has been resized to %d, not %d", what, len(a.data), len(o.ref))
	}
}

// view reads all of a file on which something has failed, and tells whether that's
// what has to be stored once the file could be closed.
func (s *sim) view(o *oFile) (string, bool) {
	if !o.fuzzy || o.stale || o.ino < 0 || !o.flags.Write() || s.fs.faultAt >= 0 || s.fs.closeWrote || s.pending(o.ino, o) ||
		!(s.c.content || s.c.semantics && !s.c.linksOnly && !s.c.rmOnly) {
		return "", false
	}
	if _, ok := s.pre.attr[o.ino]; !ok || o.f.Size() > 1<<20 {
		return "", false
	}
	b := make([]byte, o.f.Size())
	var n int
	var err error
	s.r.Catch("ReadAt", func() { n, err = o.f.ReadAt(b, 0) })
	return string(b), s.fs.fired == 0 && (err == nil || err == io.EOF) && n == len(b)
}

func (s *sim) closeFile(i int) {
	o := s.files[i]
	e := succeed(nil)
	e.ino = o.ino
	if o.fuzzy {
		e.canFail = true
	}
	what := fmt.Sprintf("Close of %q", o.path)
	if s.fs.closeWrote {
		s.fs.closeAt = 0
	}
	var flagsSaved *config
	if s.c.flags && o.flags.Write() {
		flagsSaved = s.c
		cc := *s.c
		cc.flags = false
		s.c = &cc
	}
	before := s.pre.attr[o.ino].data
	view, seen := s.view(o)
	err, _ := s.call(what, e, false, s.judged(0, false), func() error { return o.f.Close() })
	if seen && err == nil && s.fs.fired == 0 {
		a := s.pre.attr[o.ino]
		s.r.Probe("file closed after a failure")
		s.r.Check(len(a.data) == len(view), "incoherent", "an operation on %q failed before; %s succeeded but left the object with a size of %d, although the file's was %d", o.path, what, len(a.data), len(view))
		s.r.Check(a.data == view, "incoherent", "an operation on %q failed before; %s succeeded but the object's contents aren't what was read from the file", o.path, what)
	}
	s.idle(what, o, before)
	if flagsSaved != nil {
		s.c = flagsSaved
	}
	s.files = append(s.files[:i:i], s.files[i+1:]...)
	if s.c.content && s.fs.fired == 0 && !o.fuzzy {
		s.r.Check(err == nil, "should-work", "%s failed: %v", what, err)
	}
	if err == nil && s.fs.fired == 0 {
		s.stored(what, o)
	}
	if s.c.handles && s.r.Chance(1, 4) {
		s.settle()
		s.r.Check(o.f.Close() != nil, "double-close", "%s a second time succeeded", what)
	}
	if (s.c.handles || s.c.swallow && !s.c.rmOnly) && s.r.Chance(1, 4) {
		s.useClosed(o, o.path)
	}
}
