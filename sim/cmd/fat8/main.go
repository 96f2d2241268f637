// Simulation of the FAT8 driver (C25-C28): the real driver works on a real
// *os.File, below which the system calls reach a simulated kernel and disk.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"syscall"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/disks"
	"github.com/dargueta/disko/file_systems/fat8"

	"disko-sim/core"
	"disko-sim/simos"
)

var (
	real = []string{"file_systems/fat8", "disks (options interface)", "package os above the system calls"}
	stub = []string{"the kernel and the disk: open, seek, pread, pwrite, ftruncate, stat and close act on an image in memory"}
)

const rule = "Each run draws an image (any previous contents and size), then a history of operations on the real driver, device faults at any system call, external corruption, and crashes which keep, tear or lose unsynced writes; every result and every byte of the image is compared with an independent description of the format."

func main() {
	p := func(id string, run func(r *core.Run), n int, extra string) *core.Profile {
		return &core.Profile{
			Together: 12,
			Property: id, Run: run, Quick: n, Thorough: 40 * n, Real: real, Stub: stub, Rule: rule + " " + extra,
			Assume: []string{"a device which reports a write as done has done it, except for the explicitly injected lost writes and crashes"},
		}
	}
	core.Main(
		p("C25", func(r *core.Run) { play(r, profile{format: 8, mount: 2, grow: 2, faults: 60, sizes: true}) }, 90_000,
			"Weighted towards formatting images of every previous content and size."),
		p("C26", func(r *core.Run) {
			play(r, profile{format: 2, mount: 6, flush: 3, blocks: 1, grow: 1, corrupt: 5, crash: 3, faults: 40, lose: true, sizes: true})
		}, 90_000, "Weighted towards corruption, crashes, mounting and flushing."),
		p("C27", func(r *core.Run) { play(r, profile{mount: 1, blocks: 20, flush: 1, faults: 50}) }, 90_000,
			"Weighted towards sector and cluster access."),
		p("C28", func(r *core.Run) {
			play(r, profile{format: 4, mount: 6, flush: 2, blocks: 2, corrupt: 2, grow: 1, stat: 6, crash: 1, faults: 40, sizes: true})
		}, 90_000, "Weighted towards state changes and statistics."),
	)
}

// profile gives the weights of a property's simulation.
type profile struct {
	format, mount, flush, blocks, grow, corrupt, crash, stat int

	faults int // percentage of runs with device faults
	lose   bool
	sizes  bool // unusual image sizes
}

// layout is the independent description of the format's geometry.
type layout struct {
	sectors  int // of the image
	clusters int
	perClust int // sectors
	dirFirst int // first sector of the directory
	info     int // information sector
	fats     int // first sector of the first table
	perFAT   int // sectors
	reserved [2]int
}

var layouts = map[int]layout{
	640:  {sectors: 640, clusters: 80, perClust: 8, dirFirst: 272, info: 284, fats: 285, perFAT: 1, reserved: [2]int{34, 35}},
	1898: {sectors: 1898, clusters: 146, perClust: 13, dirFirst: 884, info: 903, fats: 904, perFAT: 2, reserved: [2]int{68, 69}},
	2002: {sectors: 2002, clusters: 146, perClust: 13, dirFirst: 884, info: 903, fats: 904, perFAT: 2, reserved: [2]int{68, 69}},
}

var supported = []int{640, 1898, 2002}

type options struct{ size int64 }

func (o options) Metadata() any         { return nil }
func (o options) TotalSizeBytes() int64 { return o.size }

type scene struct {
	r   *core.Run
	k   *simos.Kernel
	p   profile
	img *simos.File
	f   *os.File
	d   *fat8.FAT8Driver

	mounted bool
	lay     layout
	fat     []byte // as found when mounting
	rawFAT  bool   // the tables have been written to as ordinary sectors since
	stat    disko.FSStat

	rate  int
	kinds [nFaults]bool
	hard  []string // faults which the current operation has to report
	lost  bool     // a write of the current operation was lost silently
}

const (
	fSeek = iota
	fRead
	fWrite
	fTorn
	fTrunc
	fEOF
	fShortRead
	fShortWrite
	fIntr
	fLose
	nFaults
)

var errs = []error{syscall.EIO, syscall.ENOSPC, syscall.EDQUOT, syscall.EFBIG, syscall.ENXIO, syscall.EROFS, syscall.EACCES, syscall.EBUSY, syscall.ENODEV, syscall.ENOMEM, syscall.ETIMEDOUT, syscall.ESTALE}

func play(r *core.Run, p profile) {
	s := &scene{r: r, k: simos.New(r), p: p}
	if r.Chance(p.faults, 100) {
		s.rate = []int{1, 3, 8, 20}[r.Int(4)]
		for i := range s.kinds {
			s.kinds[i] = r.Chance(1, 3)
		}
		s.kinds[fLose] = s.kinds[fLose] && p.lose
	}
	s.k.Plan = s.plan
	defer s.k.Start()()
	s.img = s.k.Put("/sim/img", s.initial())
	s.open()

	ops := 2 + r.Int(16)
	if r.Long() {
		r.Probe("very long history")
		ops = 200 + r.Int(800)
	}
	for n := ops; n > 0; n-- {
		r.Mark()
		mount, unmount := p.mount, 1
		if s.mounted {
			mount, unmount = 1, p.mount
		}
		if p.blocks > 10 && !s.mounted {
			mount = 60
		}
		crash := p.crash > 0 && r.Chance(p.crash, 20)
		switch r.Pick(p.format, mount, p.flush, p.blocks, p.grow, p.corrupt, p.stat, unmount, 1) {
		case 0:
			s.maybeCrash(crash, s.format)
		case 1:
			s.maybeCrash(crash, s.mount)
		case 2:
			if s.mounted {
				s.maybeCrash(crash, s.flush)
			} else {
				s.idleFlush()
			}
		case 3:
			if s.mounted {
				s.maybeCrash(crash, s.blocks)
			}
		case 4:
			if !s.mounted {
				s.resize()
			}
		case 5:
			if !s.mounted {
				s.corrupt()
			} else if r.Chance(1, 4) {
				s.rot()
			}
		case 6:
			s.checkStat()
		case 7:
			if s.mounted {
				s.unmount()
			}
		case 8:
			s.begin("reopen")
			s.open()
		}
		h := core.HashBytes(s.img.Data[:min(len(s.img.Data), 64)]) ^ uint64(len(s.img.Data))<<8
		if l, ok := layouts[len(s.img.Data)/128]; ok {
			h ^= core.HashBytes(s.img.Data[l.dirFirst*128 : (l.fats+3*l.perFAT)*128])
		}
		if s.mounted {
			h++
		}
		r.State(h)
	}
}

// initial makes the image's first contents.
func (s *scene) initial() []byte {
	r := s.r
	if s.p.blocks > 10 || r.Chance(1, 3) {
		return blank(r, supported[r.Int(3)])
	}
	size := 0
	switch r.Pick(2, 3, 2) {
	case 0:
		size = 128 * supported[r.Int(3)]
	case 1:
		size = s.oddSize()
	}
	return r.Fill(size)
}

// blank makes a valid volume with arbitrary contents, without the driver.
func blank(r *core.Run, sectors int) []byte {
	l := layouts[sectors]
	b := r.Fill(128 * sectors)
	fat := bytes.Repeat([]byte{0xff}, l.perFAT*128)
	for i, n := 0, r.Int(8); i < n; i++ {
		fat[r.Int(l.clusters)] = byte(r.Int(256))
	}
	fat[l.reserved[0]], fat[l.reserved[1]] = 0xfe, 0xfe
	if r.Chance(1, 4) {
		fat[0], fat[l.clusters-1] = 1, 0xc3
	}
	copy(b[l.fats*128:], bytes.Repeat(fat, 3))
	return b
}

// oddSize is an image size that need not be a supported one.
func (s *scene) oddSize() int {
	r := s.r
	switch r.Pick(3, 2, 2, 2) {
	case 0:
		n := 128 * supported[r.Int(3)]
		return n + []int{-129, -128, -127, -1, 1, 127, 128, 129, 256}[r.Int(9)]
	case 1:
		return 128 * supported[r.Int(3)]
	case 2:
		return r.Int(3000)
	}
	return r.Int(2100) * 128
}

// open makes a new driver for the image.
func (s *scene) open() {
	s.k.Plan = nil
	f, err := os.OpenFile("/sim/img", os.O_RDWR, 0)
	if err != nil {
		panic(err)
	}
	s.k.Plan = s.plan
	d := fat8.NewDriverFromFile(f)
	s.f, s.d = f, &d
	s.mounted = false
}

// plan decides what happens to a system call.
func (s *scene) plan(c *simos.Call) (a simos.Action) {
	r := s.r
	fire := func(kind int) bool { return s.rate > 0 && s.kinds[kind] && r.Chance(s.rate, 100) }
	fail := func(name string) simos.Action {
		r.Fault(name)
		s.hard = append(s.hard, name)
		return simos.Action{Err: errs[r.Int(len(errs))]}
	}
	switch c.Name {
	case "seek":
		if fire(fSeek) {
			return fail("seek error")
		}
	case "read", "pread":
		if fire(fIntr) {
			r.Fault("interrupted call")
			return simos.Action{Err: syscall.EINTR}
		}
		if fire(fRead) {
			return fail("read error")
		}
		if fire(fEOF) && c.N > 0 {
			fail("premature end of the image")
			return simos.Action{Part: true, Limit: 0}
		}
		if c.N > 1 && fire(fShortRead) {
			r.Fault("short read")
			return simos.Action{Part: true, Limit: 1 + r.Int(c.N-1)}
		}
	case "write", "pwrite":
		if fire(fIntr) {
			r.Fault("interrupted call")
			return simos.Action{Err: syscall.EINTR}
		}
		if fire(fWrite) {
			return fail("write error")
		}
		if fire(fTorn) {
			a = fail("torn write")
			a.Part, a.Limit = true, r.Int(c.N+1)
			return a
		}
		if fire(fLose) {
			r.Fault("lost write")
			s.lost = true
			return simos.Action{Lose: true}
		}
		if c.N > 1 && fire(fShortWrite) {
			r.Fault("short write")
			return simos.Action{Part: true, Limit: 1 + r.Int(c.N-1)}
		}
	case "ftruncate":
		if fire(fTrunc) {
			return fail("truncate error")
		}
	case "fsync":
		if fire(fWrite) {
			return fail("sync error")
		}
	}
	return
}

func (s *scene) begin(name string, args ...int) {
	s.r.BeginOp(name)
	s.r.Ev("> "+name, args...)
	s.hard, s.lost = nil, false
}

// do runs a call to the driver.
func (s *scene) do(what string, f func()) {
	defer func() {
		switch p := recover().(type) {
		case nil:
		case *core.Violation, simos.Crashed:
			panic(p)
		default:
			panic(&core.Violation{Key: "panic", Msg: fmt.Sprintf("%s crashed: %v", what, p), Stack: string(debug.Stack())})
		}
	}()
	f()
}

// maybeCrash performs an operation which may be cut short by a crash.
func (s *scene) maybeCrash(crash bool, op func()) {
	if !crash {
		op()
		return
	}
	at, plan := s.r.Int(8), s.plan
	if s.r.Chance(1, 3) {
		at += s.r.Int(20)
	}
	s.k.Plan = func(c *simos.Call) simos.Action {
		at--
		a := plan(c)
		if at < 0 {
			a.Crash = true
			if strings.Contains(c.Name, "write") && !a.Part {
				a.Part, a.Limit = true, s.r.Int(c.N+1)
			}
		}
		return a
	}
	crashed := false
	func() {
		defer func() {
			switch p := recover().(type) {
			case nil:
			case simos.Crashed:
				crashed = true
			default:
				panic(p)
			}
		}()
		op()
	}()
	s.k.Plan = s.plan
	if !crashed {
		return
	}
	s.r.Fault("crash")
	s.k.AfterCrash(s.img, 128)
	s.k.Thaw()
	s.open()
	s.mount()
}

func (s *scene) errText(err error) string {
	if err == nil {
		return "no error"
	}
	return err.Error()
}

// untouched requires that an operation didn't change the image.
func (s *scene) untouched(what string, before []byte) {
	s.r.Check(bytes.Equal(before, s.img.Data), "image-touched", "%s changed the image (%d to %d bytes)", what, len(before), len(s.img.Data))
}

// reported requires that an operation's device faults led to an error.
func (s *scene) reported(what string, err error) {
	s.r.Check(err != nil || len(s.hard) == 0, "swallowed", "%s succeeded although the device failed: %s", what, strings.Join(s.hard, ", "))
}

func (s *scene) snapshot() []byte { return append([]byte{}, s.img.Data...) }

func (s *scene) format() {
	r := s.r
	size := int64(128 * supported[r.Int(3)])
	if r.Chance(1, 5) {
		size = int64(s.oddSize())
		if r.Chance(1, 6) {
			size = []int64{-1, -128, -640 * 128, 1 << 40, 1<<62 + 640*128, 0, 128 * (1<<32 + 640)}[r.Int(7)]
		}
	}
	s.begin("format", int(size))
	l, ok := layouts[int(size/128)]
	ok = ok && size%128 == 0
	before := s.snapshot()
	var err error
	// What describes an image can be anything, such as the statistics of an
	// existing volume.
	var o disks.BasicFormatterOptions = options{size}
	if size > 0 && r.Chance(1, 4) {
		if bs := int64([]int{1, 64, 128, 256, 512, 26}[r.Int(6)]); size%bs == 0 {
			o = disko.FSStat{BlockSize: uint(bs), TotalBlocks: uint64(size / bs), BlocksFree: uint64(r.Int(100)), Files: uint64(r.Int(100))}
		}
	}
	s.do("FormatImage", func() { err = s.d.FormatImage(o) })
	r.EvErr("< format", err)
	if s.mounted {
		r.Probe("format while mounted")
		r.Check(errors.Is(err, disko.ErrBusy), "not-busy", "formatting a mounted volume gave %s", s.errText(err))
		s.untouched("a refused format", before)
		return
	}
	if !ok {
		r.Probe("format with an unsupported size")
		r.Check(err != nil, "unsupported-accepted", "formatting with %d bytes succeeded", size)
		s.untouched("a refused format", before)
		return
	}
	s.reported("FormatImage", err)
	if err != nil {
		r.Check(!errors.Is(err, disko.ErrBusy), "still-busy", "formatting an unmounted volume gave %s", err)
		r.Check(len(s.hard) > 0, "needless-failure", "formatting failed although nothing was wrong: %s", err)
		r.Probe("format failed")
		return
	}
	r.Probe(fmt.Sprintf("formatted %d sectors", l.sectors))
	if s.lost {
		return
	}
	b := s.img.Data
	r.Check(len(b) == l.sectors*128, "format-size", "the formatted image has %d bytes instead of %d", len(b), l.sectors*128)
	for i := l.dirFirst * 128; i < l.info*128; i++ {
		r.Check(b[i] == 0xff, "format-directory", "byte %d of the formatted directory is %#x", i-l.dirFirst*128, b[i])
	}
	for i := l.info * 128; i < l.fats*128; i++ {
		r.Check(b[i] == 0, "format-info", "byte %d of the formatted information sector is %#x", i-l.info*128, b[i])
	}
	n := l.perFAT * 128
	for c := 0; c < 3; c++ {
		fat := b[l.fats*128+c*n:][:n]
		r.Check(bytes.Equal(fat, b[l.fats*128:][:n]), "format-tables", "table %d of the formatted image differs from the first", c+1)
		for i := 0; i < l.clusters; i++ {
			want := byte(0xff)
			if i == l.reserved[0] || i == l.reserved[1] {
				want = 0xfe
			}
			r.Check(fat[i] == want, "format-tables", "entry %d of table %d is %#x instead of %#x", i, c+1, fat[i], want)
		}
	}
	// It must mount, in this driver and in others.
	plan, rate := s.k.Plan, s.rate
	s.rate, s.k.Plan = 0, s.plan
	if r.Chance(1, 2) {
		s.open()
	}
	s.mount()
	r.Check(s.mounted, "unmountable", "the formatted image doesn't mount")
	if r.Chance(1, 2) {
		s.unmount()
	}
	s.rate, s.k.Plan = rate, plan
}

// healthy tells whether the image can be mounted: 1 yes, 0 no, -1 unspecified.
func (s *scene) healthy() (layout, int) {
	b := s.img.Data
	l, ok := layouts[len(b)/128]
	if !ok {
		return l, 0
	}
	n := l.perFAT * 128
	fats := b[l.fats*128:][:3*n]
	if !bytes.Equal(fats[:n], fats[n:2*n]) || !bytes.Equal(fats[:n], fats[2*n:]) {
		return l, 0
	}
	if len(b)%128 != 0 {
		return l, -1
	}
	return l, 1
}

func (s *scene) mount() {
	r := s.r
	s.begin("mount")
	before, writes := s.snapshot(), s.k.Writes
	var err error
	flags := []disko.MountFlags{disko.MountFlagsAllowRead, disko.MountFlagsAllowAll, 0}[r.Int(3)]
	s.do("Mount", func() { err = s.d.Mount(flags) })
	r.EvErr("< mount", err)
	s.untouched("mounting", before)
	r.Check(s.k.Writes == writes, "mount-writes", "mounting wrote to the image")
	if s.mounted {
		r.Probe("second mount")
		r.Check(errors.Is(err, disko.ErrAlreadyInProgress), "mounted-twice", "mounting a mounted volume gave %s", s.errText(err))
		s.checkStat()
		return
	}
	l, ok := s.healthy()
	s.reported("Mount", err)
	if err == nil {
		r.Probe("mounted")
		_, size := layouts[len(s.img.Data)/128]
		r.Check(size, "bad-size-mounted", "an image of %d bytes was mounted", len(s.img.Data))
		r.Check(ok != 0, "corruption-missed", "a volume whose table copies differ was mounted")
		s.mounted, s.lay, s.rawFAT = true, l, false
		s.fat = append([]byte{}, before[l.fats*128:][:l.perFAT*128]...)
		s.stat = s.d.FSStat()
		free := uint64(bytes.Count(s.fat[:l.clusters], []byte{0xff}) * l.perClust)
		st := s.stat
		r.Check(st.BlockSize == 128 && st.TotalBlocks == uint64(len(before)/128) && st.BlocksFree == free && st.BlocksAvailable == free,
			"wrong-stat", "after mounting %d sectors with %d of them free, FSStat gives block size %d, %d blocks, %d free, %d available",
			len(before)/128, free, st.BlockSize, st.TotalBlocks, st.BlocksFree, st.BlocksAvailable)
		if dir := before[l.dirFirst*128 : l.info*128]; bytes.Count(dir, []byte{0xff}) == len(dir) {
			r.Probe("mounted with an erased directory")
			r.Check(st.Files == 0 && st.FilesFree == uint64(len(dir)/16),
				"wrong-stat-files", "after mounting a volume with room for %d files and none in it, FSStat gives %d files, %d free", len(dir)/16, st.Files, st.FilesFree)
		}
		return
	}
	r.Probe("mount failed")
	r.Check(!errors.Is(err, disko.ErrAlreadyInProgress), "still-mounted", "mounting an unmounted volume gave %s", err)
	r.Check(ok != 1 || len(s.hard) > 0, "needless-failure", "mounting a sound image failed: %s", err)
	if _, size := layouts[len(s.img.Data)/128]; size && ok == 0 && len(s.hard) == 0 {
		r.Probe("differing tables detected")
		r.Check(len(s.img.Data)%128 != 0 || errors.Is(err, disko.ErrFileSystemCorrupted), "not-corrupted", "mounting a volume whose table copies differ gave %s", err)
	}
}

func (s *scene) unmount() {
	s.begin("unmount")
	before := s.snapshot()
	var err error
	s.do("Unmount", func() { err = s.d.Unmount() })
	s.r.EvErr("< unmount", err)
	s.reported("Unmount", err)
	s.r.Check(err == nil || len(s.hard) > 0, "needless-failure", "unmounting failed: %s", s.errText(err))
	s.onlyTables("unmounting", before)
	if err != nil {
		// What state this leaves isn't specified.
		s.open()
	}
	s.mounted = false
}

// onlyTables requires that nothing outside the allocation tables changed.
func (s *scene) onlyTables(what string, before []byte) {
	a, b := s.lay.fats*128, (s.lay.fats+3*s.lay.perFAT)*128
	s.r.Check(len(before) == len(s.img.Data), "image-touched", "%s resized the image from %d to %d bytes", what, len(before), len(s.img.Data))
	s.r.Check(bytes.Equal(before[:a], s.img.Data[:a]) && bytes.Equal(before[b:], s.img.Data[b:]), "image-touched", "%s changed sectors outside the allocation tables", what)
}

func (s *scene) flush() {
	r := s.r
	s.begin("flush")
	before := s.snapshot()
	var err error
	s.do("Flush", func() { err = s.d.Flush() })
	r.EvErr("< flush", err)
	s.reported("Flush", err)
	s.onlyTables("flushing", before)
	if err != nil {
		r.Check(len(s.hard) > 0, "needless-failure", "flushing failed although nothing was wrong: %s", err)
		r.Probe("flush failed")
		return
	}
	if s.lost {
		r.Probe("flush with a lost write")
		return
	}
	r.Probe("flushed")
	n := s.lay.perFAT * 128
	fats := s.img.Data[s.lay.fats*128:][:3*n]
	r.Check(bytes.Equal(fats[:n], fats[n:2*n]) && bytes.Equal(fats[:n], fats[2*n:]), "flush-tables", "the table copies differ after a flush")
	r.Check(s.rawFAT || bytes.Equal(fats[:n], s.fat), "flush-tables", "flushing changed the allocation table although nothing was allocated")
}

// idleFlush flushes while no volume is mounted, when there is nothing to write.
func (s *scene) idleFlush() {
	r := s.r
	s.begin("flush of nothing")
	before := s.snapshot()
	var err error
	what := "flushing"
	if r.Chance(1, 4) {
		what = "unmounting"
		s.do("Unmount", func() { err = s.d.Unmount() })
	} else {
		s.do("Flush", func() { err = s.d.Flush() })
	}
	r.EvErr("< "+what, err)
	r.Probe(what + " without a volume")
	r.Check(bytes.Equal(before, s.img.Data), "image-touched", "%s while no volume is mounted changed the image", what)
}

func (s *scene) checkStat() {
	if !s.mounted {
		return
	}
	s.r.EvS("stat", fmt.Sprint(s.d.FSStat()))
	s.r.Check(s.d.FSStat() == s.stat, "stat-changed", "the volume's statistics changed from %+v to %+v", s.stat, s.d.FSStat())
}

// resize is somebody else changing the image's size.
func (s *scene) resize() {
	s.begin("resize")
	b := s.img.Data
	n := s.oddSize()
	if !s.p.sizes {
		return
	}
	if n > len(b) {
		b = append(append([]byte{}, b...), s.r.Fill(n-len(b))...)
	}
	s.k.Replace(s.img, b[:n])
	s.r.Ev("  resized", n)
}

// corrupt damages or repairs the tables behind the driver's back.
func (s *scene) corrupt() {
	r := s.r
	s.begin("corrupt")
	b := s.snapshot()
	l, ok := layouts[len(b)/128]
	if !ok || s.p.sizes && r.Chance(1, 10) {
		b = blank(r, supported[r.Int(3)])
		l = layouts[len(b)/128]
	}
	n := l.perFAT * 128
	fats := b[l.fats*128:][:3*n]
	switch r.Pick(4, 3, 3, 1) {
	case 0: // bits flipped
		for i := 1 + r.Int(2); i > 0; i-- {
			at := r.Int(3 * n)
			if r.Chance(1, 3) {
				at = at / n * n
				if r.Chance(1, 2) {
					at += n - 1
				}
			}
			fats[at] ^= 1 << r.Int(8)
		}
		r.Fault("bit flip in a table")
	case 1: // repaired
		c := r.Int(3)
		fat := append([]byte{}, fats[c*n:][:n]...)
		copy(fats, bytes.Repeat(fat, 3))
		r.Probe("tables repaired")
	case 2: // one whole copy is different
		c := r.Int(3)
		for i := 0; i < n; i++ {
			fats[c*n+i] = byte(r.Int(2)) * 0xff
			if i > 8 {
				break
			}
		}
		r.Fault("stale table copy")
	case 3: // allocations by another driver
		fat := fats[:n]
		fat[r.Int(l.clusters)] = byte(r.Int(256))
		copy(fats, bytes.Repeat(append([]byte{}, fat...), 3))
		r.Probe("tables changed consistently")
	}
	s.k.Replace(s.img, b)
}

// rot changes an ordinary sector while the volume is mounted.
func (s *scene) rot() {
	s.begin("rot")
	b := s.snapshot()
	b[s.r.Int(s.lay.dirFirst*128)] ^= 1 << s.r.Int(8)
	s.k.Replace(s.img, b)
	s.r.Fault("bit flip in a data sector")
}
