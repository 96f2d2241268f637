package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"runtime/debug"
	"strings"
	"time"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/file_systems/fat"

	"disko-sim/core"
)

type scene struct {
	r *core.Run
	p profile
	v *volume
	b *builder
	d *fat.FATDriver

	rate    int
	kinds   [nFaults]bool
	crashIn int     // calls until a crash, if positive
	hit     int     // faults during the current operation
	hitMut  int     // of which of calls that change something
	causes  []error // of those
	damaged bool
	infos   []os.FileInfo // listed while nothing has changed
	ids     []uint32      // their first clusters
	loose   bool          // the target's path ends with a slash or dot
}

const (
	fError = iota
	fShort
	fPartial
	fEOF
	fTable
	fRoot
	fDone // reported as failed, but done
	nFaults
)

func play(r *core.Run, p profile) {
	s := &scene{r: r, p: p}
	s.v, s.b = build(r)
	s.d = newDriver(s.v)
	if r.Chance(p.faults, 100) {
		s.rate = []int{1, 3, 8, 25}[r.Int(4)]
		for i := range s.kinds {
			s.kinds[i] = r.Chance(1, 2)
		}
	}
	s.v.plan = s.plan
	ops := 3 + r.Int(14)
	if r.Long() {
		r.Probe("very long history")
		ops = 200 + r.Int(800)
	}
	for i := 0; i < ops; i++ {
		r.Mark()
		damage := p.damage
		if s.damaged {
			damage = 1
		}
		switch r.Pick(p.read, p.list, p.stat, p.same, p.remove, p.meta, p.refused, damage, p.times) {
		case 0:
			s.readFile()
		case 1:
			s.readdir()
		case 2:
			s.stat()
		case 3:
			s.sameFile()
		case 4:
			s.remove()
		case 5:
			s.change()
		case 6:
			s.refused()
		case 7:
			s.damage()
		case 8:
			s.entryTimes()
		}
		r.State(s.v.hash())
	}
}

// plan decides what happens to a call to the volume.
func (s *scene) plan(name string) (f fault) {
	r := s.r
	mut := name == "free cluster" || name == "delete entry" || name == "update entry" || name == "set cluster"
	if s.crashIn > 0 {
		s.crashIn--
		if s.crashIn == 0 {
			r.Fault("crash")
			f.crash = true
			f.applied = mut && r.Chance(1, 2)
			return
		}
	}
	if s.rate == 0 || !r.Chance(s.rate, 100) {
		return
	}
	switch {
	case mut && s.kinds[fError] && (!s.kinds[fDone] || r.Chance(1, 2)):
		r.Fault("failed " + name)
		f.err = r.DeviceError()
		s.hitMut++
	case mut && s.kinds[fDone]:
		r.Fault("failed " + name + " after doing it")
		f.err, f.applied = r.DeviceError(), true
		s.hitMut++
	case name == "get cluster" && s.kinds[fTable]:
		r.Fault("failed table access")
		f.err = r.DeviceError()
	case name == "list root" && s.kinds[fRoot]:
		r.Fault("failed root listing")
		f.err = r.DeviceError()
	case name == "disk read":
		switch {
		case s.kinds[fShort] && r.Chance(1, 2):
			r.Fault("short disk read")
			f.short = 1 + r.Int(s.v.g.bps)
			f.applied = r.Chance(1, 2)
		case s.kinds[fEOF] && r.Chance(1, 2):
			r.Fault("disk ends early")
			f.err, f.short = io.EOF, r.Int(s.v.g.bps)
		case s.kinds[fPartial] && r.Chance(1, 2):
			r.Fault("disk read failed half-way")
			f.err, f.short = r.DeviceError(), r.Int(s.v.g.bps)
		case s.kinds[fError]:
			r.Fault("disk read error")
			f.err = r.DeviceError()
		default:
			return
		}
	default:
		return
	}
	s.hit++
	s.causes = append(s.causes, f.err)
	return
}

// do runs one operation of the driver. It tells whether it got to its end.
func (s *scene) do(name string, f func()) (done bool) {
	s.r.BeginOp(name)
	s.hit, s.hitMut, s.causes = 0, 0, nil
	s.v.dead = false
	defer func() {
		s.crashIn = 0
		if p := recover(); p != nil {
			switch p.(type) {
			case crashed:
				s.d = newDriver(s.v)
				s.v.dead = false
			case *core.Violation:
				panic(p)
			default:
				panic(&core.Violation{Key: "panic", Msg: fmt.Sprintf("%s crashed: %v", name, p), Stack: string(debug.Stack())})
			}
		}
	}()
	f()
	return true
}

// target draws a path, and gives its plain components.
func (s *scene) target(dirs, files int) (path string, parts []string) {
	r, b := s.r, s.b
	s.loose = false
	var pick []string
	for _, n := range b.nodes {
		if n.dir {
			pick = append(pick, n.path)
		}
	}
	nDirs := len(pick)
	for _, n := range b.nodes {
		if !n.dir {
			pick = append(pick, n.path)
		}
	}
	if nDirs == 0 {
		dirs = 0
	}
	if nDirs == len(pick) {
		files = 0
	}
	nDel := 0
	if len(b.deleted) > 0 {
		nDel = 1
	}
	switch r.Pick(1, dirs*4, files*4, 1, nDel, files) {
	case 0:
		path = ""
	case 1:
		path = pick[r.Int(nDirs)]
	case 2:
		path = pick[nDirs+r.Int(len(pick)-nDirs)]
	case 3: // there's no such entry
		if nDirs > 0 && r.Chance(1, 2) {
			path = pick[r.Int(nDirs)]
		}
		path += "/" + []string{"NOPE", "F", "NAMEX0.TXT", "Z-99", "\xe5", "F1.", "A/B"}[r.Int(7)]
	case 4:
		path = b.deleted[r.Int(len(b.deleted))]
		if r.Chance(1, 3) { // as it's found on the disk
			i := strings.LastIndexByte(path, '/')
			path = path[:i+1] + "\xe5" + path[i+2:]
		}
	case 5: // a file used as a directory
		path = pick[nDirs+r.Int(len(pick)-nDirs)] + "/" + []string{"F1", "NOPE", "X/Y"}[r.Int(3)]
	}
	parts = strings.FieldsFunc(path, func(c rune) bool { return c == '/' })

	// The same in other words.
	if path == "" {
		return []string{"/", "//", "/.", ".", "/./"}[r.Pick(6, 1, 1, 1, 1)], parts
	}
	switch r.Pick(10, 2, 1, 1, 2, 1, 1) {
	case 5:
		path = "/.." + path
	case 6:
		path += []string{"/", "/.", "//", "/./"}[r.Int(4)]
		s.loose = true
	case 1:
		path = path[1:]
	case 2:
		path = strings.ReplaceAll(path, "/", "//")
	case 3:
		path = strings.ReplaceAll(path, "/", "/./")
	case 4:
		if nDirs > 0 {
			d := pick[r.Int(nDirs)]
			path = d + strings.Repeat("/..", strings.Count(d, "/")) + path
		}
	}
	return
}

// judgeLookup checks an error against what the lookup of a path should have found,
// and tells whether the operation may go on to be judged.
func (s *scene) judgeLookup(f *found, err error, what, path string) bool {
	r := s.r
	if f.ambiguous {
		return false
	}
	switch {
	case f.missing || f.notDir || f.broken:
		r.Check(err != nil, "ghost", "%s of %q succeeded, but there's no such entry", what, path)
		if s.hit > 0 || f.iffy {
			return false
		}
		if f.broken {
			r.Check(!errors.Is(err, disko.ErrNotFound), "wrong-error", "%s of %q says it doesn't exist (%s), but a directory on the way couldn't be read", what, path, err)
			return false
		}
		r.Probe("not found reported")
		if f.missing {
			r.Check(errors.Is(err, disko.ErrNotFound), "wrong-error", "%s of %q, which doesn't exist, gave: %s", what, path, err)
		} else {
			r.Check(errors.Is(err, disko.ErrNotADirectory), "wrong-error", "%s of %q, where a file is used as a directory, gave: %s", what, path, err)
		}
		return false
	}
	if err != nil && s.loose && s.hit == 0 && !f.e.dir() && errors.Is(err, disko.ErrNotADirectory) {
		return false // the path says it's a directory
	}
	if err != nil {
		r.Check(!s.says(err, disko.ErrNotFound), "lost-entry", "%s of %q says it doesn't exist: %s", what, path, err)
		if f.e.dir() {
			r.Check(!s.says(err, disko.ErrNotADirectory), "wrong-kind", "%s of the directory %q says it isn't one: %s", what, path, err)
		} else {
			r.Check(!s.says(err, disko.ErrIsADirectory), "wrong-kind", "%s of the file %q says it's a directory: %s", what, path, err)
		}
	}
	return true
}

// says tells whether an error is of a kind which no injected fault was of.
func (s *scene) says(err error, kind disko.DriverError) bool {
	for _, cause := range s.causes {
		if cause != nil && errors.Is(cause, kind) {
			return false
		}
	}
	return errors.Is(err, kind)
}

func (s *scene) readFile() {
	r, v := s.r, s.v
	path, parts := s.target(1, 8)
	f := v.lookup(parts)
	var got []byte
	var err error
	r.EvS("> ReadFile", path)
	s.do("ReadFile", func() { got, err = s.d.ReadFile(path) })
	r.EvErr("< ReadFile", err, len(got))
	r.Keep("read by ReadFile", got)
	if !s.judgeLookup(&f, err, "reading", path) {
		return
	}
	e := f.e
	if e.attr&labAttr != 0 {
		return
	}
	if e.dir() {
		r.Check(err != nil, "directory-read", "reading the directory %q as a file succeeded", path)
		r.Check(s.hit > 0 || f.iffy || errors.Is(err, disko.ErrIsADirectory), "wrong-error", "reading the directory %q gave: %s", path, err)
		return
	}
	chain, bad := v.walk(e.first)
	need := int((e.size + int64(v.g.bpc()) - 1) / int64(v.g.bpc()))
	if e.size == 0 {
		if err == nil {
			r.Check(len(got) == 0, "wrong-data", "the empty file %q read as %d bytes", path, len(got))
		} else {
			r.Check(s.hit > 0 || f.iffy || e.first != 0 && (bad || len(chain) == 0), "spurious-error", "the empty file %q can't be read: %s", path, err)
		}
		return
	}
	if len(chain) < need {
		r.Probe("file with too short a chain")
		r.Check(err != nil, "short-data", "reading %q succeeded with %d bytes, but its chain has %d of the %d clusters its size of %d needs", path, len(got), len(chain), need, e.size)
		return
	}
	if err != nil {
		if bad {
			r.Probe("chain broken behind the file's end")
		}
		r.Check(s.hit > 0 || f.iffy || bad, "spurious-error", "reading %q failed on a healthy volume: %s", path, err)
		return
	}
	r.Check(int64(len(got)) == e.size, "wrong-size", "reading %q gave %d bytes instead of %d", path, len(got), e.size)
	bpc := v.g.bpc()
	for i, c := range chain[:need] {
		part := got[i*bpc : min(len(got), (i+1)*bpc)]
		r.Check(bytes.Equal(part, v.cluster(c)[:len(part)]), "wrong-data", "the contents of %q differ from the disk's in cluster %d (the %dth)", path, c, i)
	}
	r.Nontrivial = true
	if need > 1 {
		r.Probe("read a file of several clusters")
	}
}

// plain tells whether an entry's name and kind leave no doubt about how it's listed.
func plain(e *entry) bool {
	if e.attr&(labAttr|devAttr) != 0 {
		return false
	}
	b := e.raw[0]
	if b == ' ' {
		return false
	}
	for i, c := range e.raw[:11] {
		if c == '/' || c == '.' || c < ' ' && !(i == 0 && c == 5) || c >= 0x7f && i > 0 || c >= 0x7f && c != 0xe5 {
			return e.name == "." || e.name == ".."
		}
	}
	return true
}

type listed struct {
	name string
	size int64
	dir  bool
}

func (s *scene) readdir() {
	r, v := s.r, s.v
	path, parts := s.target(8, 1)
	f := v.lookup(parts)
	var got []os.FileInfo
	var err error
	r.EvS("> Readdir", path)
	s.do("Readdir", func() { got, err = s.d.Readdir(path) })
	r.EvErr("< Readdir", err, len(got))
	if !s.judgeLookup(&f, err, "listing", path) {
		return
	}
	e := f.e
	if !e.dir() {
		r.Check(err != nil, "file-listed", "listing the file %q succeeded", path)
		r.Check(s.hit > 0 || f.iffy || errors.Is(err, disko.ErrNotADirectory), "wrong-error", "listing the file %q gave: %s", path, err)
		return
	}
	odd := !e.root && (e.first == 0 || e.first >= v.eocMin() || e.attr&labAttr != 0)
	live, before, after := v.list(e)
	if odd {
		return
	}
	if before {
		r.Probe("listing of a broken directory")
		r.Check(err != nil, "short-listing", "listing %q succeeded, but its chain is broken after %d entries", path, len(live))
		return
	}
	if err != nil {
		r.Check(s.hit > 0 || f.iffy || after, "spurious-error", "listing %q failed on a healthy volume: %s", path, err)
		return
	}
	r.Nontrivial = true
	if len(live) > v.g.bpc()/32 {
		r.Probe("listed a directory of several clusters")
	}
	left := map[listed][]os.FileInfo{}
	for _, i := range got {
		k := listed{i.Name(), i.Size(), i.IsDir()}
		if k.dir {
			k.size = 0
		}
		left[k] = append(left[k], i)
		r.Check(i.Mode().IsDir() == i.IsDir(), "wrong-kind", "%q in %q has mode %s but IsDir gives %v", i.Name(), path, i.Mode(), i.IsDir())
	}
	all := true
	if len(s.infos) == 0 || len(s.infos) > 60 {
		s.infos, s.ids = s.infos[:0], s.ids[:0]
	}
	for _, x := range live {
		if !plain(x) {
			all = false
			continue
		}
		k := listed{x.name, x.size, x.dir()}
		if k.dir {
			k.size = 0
		}
		c := left[k]
		hit := -1
		t, valid := x.modified()
		for i, fi := range c {
			if !valid || fi.ModTime().Equal(t) {
				hit = i
				break
			}
		}
		if len(c) > 0 && hit < 0 {
			r.Fail("wrong-time", "%q in %q was modified at %s, but is listed with %s", x.name, path, t, c[0].ModTime())
		}
		if hit < 0 {
			for _, i := range got {
				if i.Name() == x.name {
					r.Fail("wrong-entry", "%q in %q (%d bytes, directory %v) is listed with %d bytes, directory %v, or not as often as it's there", x.name, path, x.size, x.dir(), i.Size(), i.IsDir())
				}
			}
			r.Fail("lost-entry", "%q isn't in the listing of %q", x.name, path)
		}
		if !x.dir() {
			r.Check(c[hit].Mode().IsRegular(), "wrong-kind", "the file %q in %q has mode %s", x.name, path, c[hit].Mode())
		}
		s.readOnly(x, c[hit].Mode(), path)
		if len(c) == 1 {
			s.attributes(x, c[hit], path)
		}
		s.infos = append(s.infos, c[hit])
		s.ids = append(s.ids, x.first)
		left[k] = append(append([]os.FileInfo{}, c[:hit]...), c[hit+1:]...)
	}
	for _, x := range live {
		if x.attr&(labAttr|devAttr|dirAttr) != devAttr {
			continue
		}
		x.attr &^= devAttr
		if !plain(x) {
			continue
		}
		x.attr |= devAttr
		var device os.FileInfo
		found := left[listed{x.name, x.size, false}]
		for _, c := range found {
			if c.Mode()&os.ModeDevice != 0 {
				device = c
			}
		}
		r.Probe("listed a device")
		r.Check(device != nil, "wrong-kind", "the device %q in %q isn't listed as one", x.name, path)
		if len(found) == 1 {
			s.attributes(x, device, path)
		}
	}
	if all {
		for k, c := range left {
			r.Check(len(c) == 0, "ghost", "the listing of %q has %q, which isn't there (or is, but only once)", path, k.name)
		}
	}
}

func (s *scene) stat() {
	r, v := s.r, s.v
	path, parts := s.target(4, 4)
	f := v.lookup(parts)
	var st disko.FileStat
	var err error
	r.EvS("> Stat", path)
	name := []string{"Stat", "Lstat"}[r.Int(2)]
	s.do(name, func() {
		if name == "Stat" {
			st, err = s.d.Stat(path)
		} else {
			st, err = s.d.Lstat(path)
		}
	})
	r.EvErr("< Stat", err, int(st.Size))
	if !s.judgeLookup(&f, err, "status", path) {
		return
	}
	e := f.e
	if err != nil {
		r.Check(s.hit > 0 || f.iffy, "spurious-error", "the status of %q can't be had on a healthy volume: %s", path, err)
		return
	}
	r.Check(st.ModeFlags.IsDir() == e.dir(), "wrong-kind", "%q has mode %s, but directory: %v", path, st.ModeFlags, e.dir())
	if e.root || !plain(e) {
		return
	}
	r.Nontrivial = true
	r.Check(e.dir() || st.ModeFlags.IsRegular(), "wrong-kind", "the file %q has mode %s", path, st.ModeFlags)
	r.Check(e.dir() || st.Size == e.size, "wrong-size", "%q has %d bytes instead of %d", path, st.Size, e.size)
	s.readOnly(e, st.ModeFlags, path)
	if !e.dir() {
		n := (e.size + int64(v.g.bpc()) - 1) / int64(v.g.bpc())
		chain, _ := v.walk(e.first)
		r.Check(st.BlockSize != int64(v.g.bpc()) || st.NumBlocks == n || st.NumBlocks == int64(len(chain)), "wrong-size", "%q has %d bytes in %d clusters of %d", path, e.size, st.NumBlocks, st.BlockSize)
	}
	for _, t := range []struct {
		name string
		got  time.Time
		want func() (time.Time, bool)
	}{{"modified", st.LastModified, e.modified}, {"created", st.CreatedAt, e.created}, {"accessed", st.LastAccessed, e.accessed}} {
		if want, valid := t.want(); valid {
			r.Check(t.got.Equal(want), "wrong-time", "%q was %s at %s, not %s", path, t.name, want, t.got)
		}
	}
}

func (s *scene) sameFile() {
	r := s.r
	if len(s.infos) == 0 {
		return
	}
	i, j := r.Int(len(s.infos)), r.Int(len(s.infos))
	if r.Chance(1, 2) {
		for k := range s.infos {
			if k != i && s.ids[k] == s.ids[i] {
				j = k
			}
		}
	}
	a, b := s.infos[i], s.infos[j]
	var got bool
	r.Ev("> SameFile", i, j)
	s.do("SameFile", func() { got = s.d.SameFile(a, b) })
	if s.ids[i] == 0 || s.ids[j] == 0 {
		return // nothing tells empty files apart
	}
	want := s.ids[i] == s.ids[j]
	r.Check(got == want, "same-file", "%q (first cluster %d) and %q (first cluster %d): same file is %v", a.Name(), s.ids[i], b.Name(), s.ids[j], got)
	r.Nontrivial = true
}

func (s *scene) snapshot() (table map[uint32]uint32) {
	table = make(map[uint32]uint32, len(s.v.table))
	for k, x := range s.v.table {
		table[k] = x
	}
	return
}

func (s *scene) remove() {
	r, v := s.r, s.v
	path, parts := s.target(1, 10)
	f := v.lookup(parts)
	e := f.e
	if f.ambiguous || e.attr&labAttr != 0 {
		return // a volume label isn't a file
	}
	normal := !f.missing && !f.notDir && !f.broken && !e.dir()
	var chain []uint32
	var bad bool
	at := map[uint32]int{}
	if normal {
		if e.first != 0 || e.size != 0 {
			chain, bad = v.walk(e.first)
			if e.first >= v.eocMin() {
				bad = true
			}
		}
		for i, c := range chain {
			at[c] = i
		}
	}
	table := s.snapshot()
	last, freed, deletes, muts := len(chain), 0, 0, 0
	deleted := func() bool { return e.raw[0] == 0xe5 }
	failed := false // the entry couldn't be deleted
	v.onMut = func(kind string, c uint32, d, parent *fat.Dirent) {
		muts++
		if !normal {
			r.Fail("refused-change", "removing %q, which has to be refused, changed the volume (%s)", path, kind)
		}
		switch kind {
		case "delete":
			x := v.find(d, parent)
			if x != nil && &x.raw[0] == &e.raw[0] {
				deletes++
				failed = true // until it's known to be done
				return
			}
			if deletes > 0 && x == nil {
				return // a second attempt
			}
			r.Fail("wrong-entry", "removing %q deletes the entry %q with cluster %d of the directory with cluster %d", path, d.Name(), d.FirstCluster, parent.FirstCluster)
		case "free":
			r.Check(deleted(), "freed-first", "removing %q frees cluster %d while its entry still refers to it", path, c)
			r.Check(!failed || deleted(), "freed-first", "removing %q frees cluster %d though its entry couldn't be deleted", path, c)
			i, ok := at[c]
			r.Check(ok, "freed-foreign", "removing %q frees cluster %d, which isn't in its chain", path, c)
			r.Check(i <= last, "wrong-order", "removing %q frees cluster %d (the %dth of its chain) after the %dth", path, c, i, last)
			r.Check(i < last || s.hitMut > 0, "freed-twice", "removing %q frees cluster %d twice", path, c)
			last = i
			freed++
		default:
			r.Fail("wrong-change", "removing %q changes something else (%s %d)", path, kind, c)
		}
	}
	if s.p.crash && r.Chance(1, 3) {
		s.crashIn = 1 + r.Int(6+2*len(chain))
	}
	var err error
	r.EvS("> Remove", path)
	done := s.do("Remove", func() { err = s.d.Remove(path) })
	v.onMut = nil
	r.EvErr("< Remove", err, freed)
	s.infos, s.ids = nil, nil
	for c := range v.table {
		_, own := at[c]
		r.Check(v.table[c] == table[c] || own && v.table[c] == 0, "wrong-change", "removing %q changed the table's entry of cluster %d from %d to %d", path, c, table[c], v.table[c])
	}
	if !done {
		if freed > 0 {
			r.Probe("crash while clusters are freed")
		}
		return
	}
	if !s.judgeLookup(&f, err, "removing", path) || e.attr&labAttr != 0 {
		return
	}
	if e.dir() {
		r.Check(err != nil, "directory-removed", "removing the directory %q succeeded", path)
		r.Check(s.hit > 0 || f.iffy || e.root || errors.Is(err, disko.ErrIsADirectory), "wrong-error", "removing the directory %q gave: %s", path, err)
		return
	}
	if err != nil {
		r.Check(s.hit > 0 || f.iffy || bad, "spurious-error", "removing %q failed on a healthy volume: %s", path, err)
		return
	}
	r.Check(s.hitMut == 0, "swallowed-error", "removing %q succeeded though a change of the volume failed", path)
	r.Check(deleted(), "not-removed", "removing %q succeeded, but its entry is still there", path)
	r.Check(!bad || f.iffy || e.size == 0 || e.first >= v.eocMin(), "damage-ignored", "removing %q succeeded though its chain is damaged", path)
	for _, c := range chain {
		r.Check(v.table[c] == 0, "leaked-cluster", "removing %q succeeded, but its cluster %d is still in use", path, c)
	}
	r.Nontrivial = true
	if len(chain) > 1 {
		r.Probe("removed a file of several clusters")
	}
}

// readOnly checks what a mode says about writing.
func (s *scene) readOnly(e *entry, mode os.FileMode, path string) {
	if e.attr&1 != 0 {
		s.r.Check(mode&0o222 == 0, "wrong-mode", "%q (in %q) is read-only, but has mode %s", e.name, path, mode)
	} else {
		s.r.Check(mode&0o222 != 0, "wrong-mode", "%q (in %q) isn't read-only, but has mode %s", e.name, path, mode)
	}
	s.r.Check(mode&0o444 == 0o444, "wrong-mode", "%q (in %q) can't be read: it has mode %s", e.name, path, mode)
}

// attributes checks that an entry which was listed has its attribute flags.
func (s *scene) attributes(e *entry, i os.FileInfo, path string) {
	var flags int
	var st disko.FileStat
	switch x := i.(type) {
	case fat.Dirent:
		flags, st = int(x.AttributeFlags), x.Stat()
	case *fat.Dirent:
		flags, st = int(x.AttributeFlags), x.Stat()
	default:
		return
	}
	s.r.Check(st.ModeFlags == i.Mode() && st.Size == i.Size() && st.LastModified.Equal(i.ModTime()), "wrong-status",
		"%q (in %q) is listed with %d bytes, mode %s, modified %s, but its status says %+v", e.name, path, i.Size(), i.Mode(), i.ModTime(), st)
	if sys, ok := i.Sys().(disko.FileStat); ok {
		s.r.Check(sys.InodeNumber == st.InodeNumber && sys.Size == st.Size && sys.ModeFlags == st.ModeFlags, "wrong-status", "%q (in %q) has the status %+v, but underlying %+v", e.name, path, st, sys)
	}
	if want, valid := e.created(); valid {
		s.r.Check(st.CreatedAt.Equal(want), "wrong-time", "%q (in %q) was created at %s, but is listed with %s", e.name, path, want, st.CreatedAt)
	}
	if want, valid := e.accessed(); valid {
		s.r.Check(st.LastAccessed.Equal(want), "wrong-time", "%q (in %q) was accessed at %s, but is listed with %s", e.name, path, want, st.LastAccessed)
	}
	for _, f := range []struct {
		name       string
		has, wants bool
	}{
		{"read-only", flags&fat.AttrReadOnly != 0, e.attr&1 != 0},
		{"hidden", flags&fat.AttrHidden != 0, e.attr&2 != 0},
		{"system", flags&fat.AttrSystem != 0, e.attr&4 != 0},
		{"volume label", flags&fat.AttrVolumeLabel != 0, e.attr&8 != 0},
		{"directory", flags&fat.AttrDirectory != 0, e.attr&16 != 0},
		{"archived", flags&fat.AttrArchived != 0, e.attr&32 != 0},
		{"device", flags&fat.AttrDevice != 0, e.attr&64 != 0},
		{"reserved", flags&fat.AttrReserved != 0, e.attr&128 != 0},
	} {
		s.r.Check(f.has == f.wants, "wrong-flags", "%q (in %q) is listed with the attribute %s %v, but it's %v", e.name, path, f.name, f.has, f.wants)
	}
}

// change is a change of an entry's mode or times.
func (s *scene) change() {
	r, v := s.r, s.v
	path, parts := s.target(3, 8)
	f := v.lookup(parts)
	e := f.e
	exists := !f.missing && !f.notDir && !f.broken
	epoch := time.Date(1980, 1, 1, 0, 0, 0, 0, time.Local)
	when := func() time.Time {
		switch r.Pick(6, 1, 1, 1, 1) {
		case 1:
			return epoch.Add(-time.Nanosecond)
		case 2:
			return epoch.Add(-time.Duration(1+r.Int(1<<30)) * time.Second)
		case 3:
			return epoch
		case 4:
			return time.Time{}
		}
		return epoch.Add(time.Duration(r.Int(1<<31)) * time.Second).Add(time.Duration(r.Int(2)) * 10_000_000)
	}
	name := []string{"Chmod", "Chtimes"}[r.Int(2)]
	var mode os.FileMode
	var atime, mtime time.Time
	invalid := false
	if name == "Chmod" {
		mode = os.FileMode(r.Int(512))
		if r.Chance(1, 3) {
			mode = []os.FileMode{0, 0o222, 0o555, 0o644, 0o002, 0o020, 0o200, 0o111, 0o444, 0o777}[r.Int(10)]
		}
		r.EvS("> Chmod", path, int(mode))
	} else {
		atime, mtime = when(), when()
		invalid = atime.Before(epoch) || mtime.Before(epoch)
		r.EvS("> Chtimes", path, int(atime.Unix()), int(mtime.Unix()))
	}
	stored, tries := false, 0
	v.onMut = func(kind string, c uint32, d, parent *fat.Dirent) {
		r.Check(kind == "update", "wrong-change", "%s of %q changes something else (%s)", name, path, kind)
		r.Check(exists && !invalid, "refused-change", "%s of %q, which has to be refused, changes an entry", name, path)
		tries++
		if e.root {
			return
		}
		r.Check(d.Name() == e.name && uint32(d.FirstCluster) == e.first && (e.dir() || d.Size() == e.size) && d.IsDir() == e.dir(), "wrong-entry", "%s of %q changes the entry %q with cluster %d", name, path, d.Name(), d.FirstCluster)
		r.Check(!stored, "changed-twice", "%s of %q changes the entry twice", name, path)
		st := d.Stat()
		old := modeOf(e)
		flags := int(e.raw[11])
		if name == "Chmod" {
			flags &^= 1
			if mode&0o222 == 0 {
				flags |= 1
			}
		}
		r.Check(d.AttributeFlags == flags, "wrong-flags", "%s of %q (mode %s), which has the attribute flags %#x, asks the volume to store %#x", name, path, mode, e.raw[11], d.AttributeFlags)
		r.Check(d.Mode() == st.ModeFlags, "wrong-mode", "%s of %q stores an entry which has mode %s, but %s in its status", name, path, d.Mode(), st.ModeFlags)
		r.Check(d.NTReserved == int(e.raw[12]), "wrong-flags", "%s of %q changed the reserved byte from %#x to %#x", name, path, e.raw[12], d.NTReserved)
		if name == "Chmod" {
			r.Check((st.ModeFlags&0o222 != 0) == (mode&0o222 != 0), "wrong-mode", "changing the mode of %q to %s made it %s", path, mode, st.ModeFlags)
			r.Check(st.ModeFlags&^0o777 == old&^0o777, "wrong-mode", "changing the mode of %q to %s made it %s, it was %s", path, mode, st.ModeFlags, old)
		} else {
			r.Check(st.ModeFlags.IsDir() == e.dir(), "wrong-mode", "changing the times of %q changed its mode to %s", path, st.ModeFlags)
			r.Check(close(st.LastAccessed, atime, 24*time.Hour) && close(d.GetLastAccessedAt(), atime, 24*time.Hour), "wrong-time", "changing the access time of %q to %s made it %s", path, atime, st.LastAccessed)
			r.Check(close(st.LastModified, mtime, 2*time.Second) && close(d.ModTime(), mtime, 2*time.Second), "wrong-time", "changing the modification time of %q to %s made it %s", path, mtime, st.LastModified)
		}
		if t, ok := e.created(); ok {
			r.Check(st.CreatedAt.Equal(t), "wrong-time", "%s of %q changed its creation time from %s to %s", name, path, t, st.CreatedAt)
		}
		if t, ok := e.modified(); ok && name == "Chmod" {
			r.Check(st.LastModified.Equal(t), "wrong-time", "%s of %q changed its modification time from %s to %s", name, path, t, st.LastModified)
		}
		if t, ok := e.accessed(); ok && name == "Chmod" {
			r.Check(st.LastAccessed.Equal(t), "wrong-time", "%s of %q changed its access time from %s to %s", name, path, t, st.LastAccessed)
		}
		v.store = func() {
			stored = true
			if name == "Chtimes" {
				putTimes(e.raw, st.LastAccessed, st.LastModified)
			} else if st.ModeFlags&0o222 == 0 {
				e.raw[11] |= 1
			} else {
				e.raw[11] &^= 1
			}
		}
	}
	if s.p.crash && r.Chance(1, 6) {
		s.crashIn = 1 + r.Int(6)
	}
	var err error
	done := s.do(name, func() {
		if name == "Chmod" {
			err = s.d.Chmod(path, mode)
		} else {
			err = s.d.Chtimes(path, atime, mtime)
		}
	})
	v.onMut, v.store = nil, nil
	r.EvErr("< "+name, err, tries)
	s.infos, s.ids = nil, nil
	if !done || f.ambiguous {
		return
	}
	if !s.judgeLookup(&f, err, name, path) {
		return
	}
	if invalid {
		r.Check(err != nil, "invalid-accepted", "changing the times of %q to ones FAT can't represent succeeded", path)
		return
	}
	if e.root {
		return // there's no entry to change
	}
	if err != nil {
		r.Check(s.hit > 0 || f.iffy, "spurious-error", "%s of %q failed on a healthy volume: %s", name, path, err)
		return
	}
	r.Check(s.hitMut == 0, "swallowed-error", "%s of %q succeeded though changing the entry failed", name, path)
	r.Check(stored, "not-changed", "%s of %q succeeded without changing the entry", name, path)
	r.Nontrivial = true
}

// entryTimes is a history of getting and setting the times of an entry taken from a
// listing.
func (s *scene) entryTimes() {
	r := s.r
	if len(s.infos) == 0 {
		s.readdir()
	}
	if len(s.infos) == 0 {
		return
	}
	var d *fat.Dirent
	at := r.Int(len(s.infos))
	switch x := s.infos[at].(type) {
	case fat.Dirent:
		d = &x
	case *fat.Dirent:
		c := *x
		d = &c
	default:
		return
	}
	epoch := time.Date(1980, 1, 1, 0, 0, 0, 0, time.Local)
	names := []string{"accessed", "modified", "created", "deleted"}
	grain := []time.Duration{24 * time.Hour, 2 * time.Second, 10 * time.Millisecond, 2 * time.Second}
	type view struct {
		t  [4]time.Time
		ok [4]bool
	}
	look := func() (x view) {
		var ce, de error
		r.Catch("reading times", func() {
			x.t[0], x.t[1] = d.GetLastAccessedAt(), d.GetLastModifiedAt()
			x.t[2], ce = d.GetCreatedAt()
			x.t[3], de = d.GetDeletedAt()
		})
		x.ok = [4]bool{true, true, ce == nil, de == nil}
		return
	}
	name, size, cluster, flags, mode := d.Name(), d.Size(), d.FirstCluster, d.AttributeFlags, d.Mode()
	now := look()
	r.Check(now.ok[2], "created-refused", "the creation time of %q, which isn't deleted, can't be had", name)
	r.Check(!now.ok[3], "deleted-given", "%q, which isn't deleted, has a deletion time: %s", name, now.t[3])
	st := d.Stat()
	r.Check(st.LastAccessed.Equal(now.t[0]) && st.LastModified.Equal(now.t[1]) && st.CreatedAt.Equal(now.t[2]), "times-disagree", "%q has the times %s, but its status has %s, %s and %s", name, now.t[:3], st.LastAccessed, st.LastModified, st.CreatedAt)
	gone := false
	for n := 1 + r.Int(8); n > 0; n-- {
		r.Step()
		which := r.Pick(3, 3, 3, 2)
		var t time.Time
		switch r.Pick(6, 1, 1, 1, 1) {
		case 0:
			t = epoch.Add(time.Duration(r.Int(1<<31)) * time.Second).Add(time.Duration(r.Int(2)) * 10_000_000)
		case 1:
			t = epoch
		case 2:
			t = epoch.Add(-time.Nanosecond)
		case 3:
			t = epoch.Add(-time.Duration(1+r.Int(1<<30)) * time.Second)
		}
		r.EvS("> set "+names[which], name, int(t.Unix()))
		var err error
		r.Catch("setting a time", func() {
			switch which {
			case 0:
				err = d.SetLastAccessedAt(t)
			case 1:
				err = d.SetLastModifiedAt(t)
			case 2:
				err = d.SetCreatedAt(t)
			case 3:
				err = d.SetDeletedAt(t)
			}
		})
		r.EvErr("< set", err, 0)
		want := now
		early := t.Before(epoch)
		switch {
		case early:
			r.Check(err != nil, "invalid-accepted", "setting the time %q was %s to %s, which FAT can't represent, succeeded", name, names[which], t)
			r.Check(gone && which == 2 || errors.Is(err, disko.ErrArgumentOutOfRange), "wrong-error", "setting the time %q was %s to %s gave: %s", name, names[which], t, err)
		case which == 2 && gone:
			r.Check(err != nil, "invalid-accepted", "setting the time %q, which is deleted, was created succeeded", name)
			r.Check(errors.Is(err, disko.ErrNotFound), "wrong-error", "setting the time %q, which is deleted, was created gave: %s", name, err)
		default:
			r.Check(err == nil, "spurious-error", "setting the time %q was %s to %s failed: %v", name, names[which], t, err)
			want.t[which] = t
			if which == 3 {
				gone = true
				want.ok[2], want.ok[3] = false, true
				r.Probe("entry marked as deleted")
			}
		}
		got := look()
		for i := range names {
			r.Check(got.ok[i] == want.ok[i], "wrong-time", "after setting the time %q was %s (deleted: %v): the time it was %s available: %v", name, names[which], gone, names[i], got.ok[i])
			if !want.ok[i] {
				r.Check(i != 3 || got.t[i].Equal(disko.UndefinedTimestamp), "wrong-time", "the time %q was %s is refused, but given as %s", name, names[i], got.t[i])
				continue
			}
			g := time.Duration(0)
			if i == which && !early {
				g = grain[i]
			}
			r.Check(got.t[i].Equal(want.t[i]) || close(got.t[i], want.t[i], g), "wrong-time", "after setting the time %q was %s to %s: it was %s at %s instead of %s", name, names[which], t, names[i], got.t[i], want.t[i])
		}
		if want.ok[1] {
			r.Check(d.ModTime().Equal(got.t[1]), "times-disagree", "%q was modified at %s, but %s according to ModTime", name, got.t[1], d.ModTime())
		}
		now = got
		r.Check(d.Name() == name && d.Size() == size && d.FirstCluster == cluster && d.AttributeFlags == flags && d.Mode() == mode, "wrong-entry", "setting the time %q was %s changed something else of it", name, names[which])
	}
	// The listing the entry was copied from is as before.
	if x, ok := s.infos[at].(fat.Dirent); ok {
		t, err := x.GetCreatedAt()
		r.Check(err == nil && t.Equal(st.CreatedAt) && x.GetLastModifiedAt().Equal(st.LastModified), "wrong-time", "changing the times of a copy of %q changed it", name)
	}
	r.Nontrivial = true
}

func modeOf(e *entry) os.FileMode {
	if e.dir() {
		return os.ModeDir
	}
	return 0
}

// close tells whether a time is the wanted one, or that rounded to what FAT can hold.
func close(got, want time.Time, grain time.Duration) bool {
	d := want.Sub(got)
	return d == 0 || d > 0 && d < grain
}

func putTimes(e []byte, atime, mtime time.Time) {
	date := func(t time.Time) uint16 {
		return uint16(t.Year()-1980)<<9 | uint16(t.Month())<<5 | uint16(t.Day())
	}
	put := func(at int, x uint16) { e[at], e[at+1] = byte(x), byte(x>>8) }
	put(18, date(atime))
	put(24, date(mtime))
	put(22, uint16(mtime.Hour())<<11|uint16(mtime.Minute())<<5|uint16(mtime.Second()/2))
}

// refused is an operation FAT volumes don't have.
func (s *scene) refused() {
	r, v := s.r, s.v
	path, _ := s.target(2, 4)
	other, _ := s.target(1, 1)
	k := r.Int(5)
	name := []string{"Readlink", "Chown", "Lchown", "Link", "Symlink"}[k]
	r.EvS("> "+name, path)
	v.onMut = func(kind string, c uint32, d, parent *fat.Dirent) {
		r.Fail("refused-change", "%s of %q changed the volume (%s)", name, path, kind)
	}
	var err error
	s.do(name, func() {
		switch k {
		case 0:
			_, err = s.d.Readlink(path)
		case 1:
			err = s.d.Chown(path, r.Int(3), r.Int(3))
		case 2:
			err = s.d.Lchown(path, r.Int(3), r.Int(3))
		case 3:
			err = s.d.Link(path, other)
		case 4:
			err = s.d.Symlink(path, other)
		}
	})
	v.onMut = nil
	r.EvErr("< "+name, err)
	r.Check(err != nil, "unsupported-accepted", "%s of %q succeeded, but FAT has nothing like that", name, path)
	r.Check(s.hit > 0 || errors.Is(err, disko.ErrNotSupported), "wrong-error", "%s of %q gave: %s", name, path, err)
}

// damage changes the volume behind the driver's back, which is then mounted anew.
func (s *scene) damage() {
	r, v, b := s.r, s.v, s.b
	if len(b.nodes) == 0 {
		return
	}
	n := b.nodes[r.Int(len(b.nodes))]
	f := v.lookup(strings.FieldsFunc(n.path, func(c rune) bool { return c == '/' }))
	if f.missing || f.notDir || f.broken || f.ambiguous {
		return
	}
	e := f.e
	chain, _ := v.walk(e.first)
	lo := 0
	if s.p.bytes {
		lo = 2
	}
	switch r.Pick(6, 2, lo) {
	case 0: // the table
		if len(chain) == 0 {
			return
		}
		c := chain[r.Int(len(chain))]
		n := uint32(v.g.clusters)
		x := []uint32{
			0, 1, c, chain[r.Int(len(chain))], n + 2, v.eocMin() - 1, v.eocMin() + uint32(r.Int(8)),
			2 + uint32(r.Int(int(n))), n + 2 + uint32(r.Int(int(v.eocMin()-n-2))), chain[0],
		}[r.Int(10)]
		r.Ev("damage: table", int(c), int(x))
		r.Fault("damaged table")
		v.table[c] = x
	case 1: // the entry
		if r.Chance(1, 2) {
			other := v.lookup(strings.FieldsFunc(b.nodes[r.Int(len(b.nodes))].path, func(c rune) bool { return c == '/' })).e
			x := []uint32{0, 1, uint32(v.g.clusters) + 2, 0xffffffff, v.eocMin(), 2 + uint32(r.Int(v.g.clusters)), other.first, other.first}[r.Int(8)]
			e.raw[26], e.raw[27], e.raw[20], e.raw[21] = byte(x), byte(x>>8), byte(x>>16), byte(x>>24)
		} else {
			x := []uint32{0, 1, uint32(e.size) + 1, uint32(max(0, e.size-1)), 0xffffffff, uint32(e.size) + uint32(v.g.bpc()), 0x80000000}[r.Int(7)]
			e.raw[28], e.raw[29], e.raw[30], e.raw[31] = byte(x), byte(x>>8), byte(x>>16), byte(x>>24)
		}
		r.EvB("damage: entry", e.raw)
		r.Fault("damaged entry")
	case 2: // a directory's contents
		d := f.parent
		if e.dir() {
			d = e
		}
		slots, _ := v.slots(d)
		if len(slots) == 0 {
			return
		}
		for k := 1 + r.Int(6); k > 0; k-- {
			x := slots[r.Int(min(len(slots), 24))]
			switch r.Int(5) {
			case 4:
				x[11] = byte([]int{0x40, 0x41, 0x60, 0x46, 0x50, 0x10, 0x48, 0x80}[r.Int(8)])
			case 0:
				x[r.Int(32)] = byte(r.Int(256))
			case 1:
				copy(x, r.Fill(32))
			case 2:
				copy(x, "           ")
			case 3:
				x[0] = []byte{0, 0xe5, 5, ' ', '.', '/'}[r.Int(6)]
			}
		}
		r.Fault("damaged directory")
		r.Ev("damage: directory")
	}
	s.damaged = true
	s.infos, s.ids = nil, nil
	s.d = newDriver(v)
}
