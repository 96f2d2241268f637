package main

import (
	"encoding/binary"
	"fmt"
	"io"
	"reflect"
	"strings"
	"time"
	"unsafe"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/file_systems/fat"

	"disko-sim/core"
)

// volume is a simulated FAT volume: the disk, and the low-level functions the
// driver's base relies on for each FAT version.
type volume struct {
	r     *core.Run
	g     *geom
	bs    *fat.FATBootSector
	table map[uint32]uint32
	disk  map[int][]byte    // by sector; others are zero
	fill  map[uint32]uint64 // contents of clusters which nobody has looked at yet
	rootC uint32            // FAT32's root directory
	order int               // how clusters are allocated
	last  uint32
	used  map[uint32]bool

	eocValid    bool // IsValidCluster accepts end-of-chain markers
	rootDeleted bool // ListRootDirectory includes deleted entries

	plan   func(call string) fault
	onMut  func(kind string, cluster uint32, d *fat.Dirent, parent *fat.Dirent) // before a change takes effect
	store  func()                                                               // makes an update of an entry
	writes int
	dead   bool // after a crash
}

// fault is what happens to a call.
type fault struct {
	err     error
	applied bool // the change was made before the failure
	short   int  // bytes not transferred
	crash   bool
}

type crashed struct{}

const (
	dirAttr = 0x10
	labAttr = 0x08
	devAttr = 0x40
)

func (v *volume) eocMin() uint32 {
	return map[int]uint32{12: 0xff8, 16: 0xfff8, 32: 0x0ffffff8}[v.g.version]
}

func (v *volume) ok(c uint32) bool { return c >= 2 && c < uint32(v.g.clusters)+2 }

func (v *volume) firstSector(c uint32) int { return v.g.firstData + int(c-2)*v.g.spc }

func (v *volume) cluster(c uint32) []byte {
	out := make([]byte, 0, v.g.bpc())
	for i := 0; i < v.g.spc; i++ {
		out = append(out, v.sector(v.firstSector(c)+i)...)
	}
	return out
}

func (v *volume) sector(n int) []byte {
	if b := v.disk[n]; b != nil {
		return b
	}
	if n >= v.g.firstData {
		c := uint32((n-v.g.firstData)/v.g.spc + 2)
		if seed, ok := v.fill[c]; ok {
			delete(v.fill, c)
			v.putCluster(c, core.Pattern(seed, v.g.bpc()))
			return v.disk[n]
		}
	}
	return make([]byte, v.g.bps)
}

func (v *volume) putCluster(c uint32, data []byte) {
	for i := 0; i < v.g.spc; i++ {
		b := make([]byte, v.g.bps)
		copy(b, data[min(len(data), i*v.g.bps):])
		v.disk[v.firstSector(c)+i] = b
	}
}

// walk follows a chain. bad tells whether it is broken after what is returned.
func (v *volume) walk(first uint32) (chain []uint32, bad bool) {
	seen := map[uint32]bool{}
	for c := first; c < v.eocMin(); c = v.table[c] {
		if !v.ok(c) || seen[c] {
			return chain, true
		}
		seen[c] = true
		chain = append(chain, c)
	}
	return chain, false
}

// entry is a directory entry as found on the disk.
type entry struct {
	raw   []byte // where it is stored
	name  string
	attr  byte
	size  int64
	first uint32
	root  bool // stands for the root directory
}

func (e *entry) dir() bool { return e.root || e.attr&dirAttr != 0 }

// parseEntry reads 32 bytes.
func parseEntry(b []byte) *entry {
	le := binary.LittleEndian
	e := &entry{raw: b, attr: b[11], size: int64(le.Uint32(b[28:])), first: uint32(le.Uint16(b[20:]))<<16 | uint32(le.Uint16(b[26:]))}
	base := append([]byte{}, b[:8]...)
	if base[0] == 5 {
		base[0] = 0xe5
	}
	e.name = strings.TrimRight(string(base), " ")
	if ext := strings.TrimRight(string(b[8:11]), " "); ext != "" {
		e.name += "." + ext
	}
	return e
}

func (e *entry) modified() (time.Time, bool) {
	le := binary.LittleEndian
	return stamp(le.Uint16(e.raw[24:]), le.Uint16(e.raw[22:]), 0)
}

func (e *entry) created() (time.Time, bool) {
	le := binary.LittleEndian
	return stamp(le.Uint16(e.raw[16:]), le.Uint16(e.raw[14:]), e.raw[13])
}

func (e *entry) accessed() (time.Time, bool) {
	return stamp(binary.LittleEndian.Uint16(e.raw[18:]), 0, 0)
}

// stamp converts a time, and tells whether it is a valid one.
func stamp(d, t uint16, hundredths byte) (time.Time, bool) {
	day, month, year := int(d&31), int(d>>5&15), 1980+int(d>>9)
	hour, minute, second := int(t>>11), int(t>>5&63), 2*int(t&31)
	valid := day >= 1 && day <= 28 && month >= 1 && month <= 12 && hour < 24 && minute < 60 && second < 60 && hundredths < 200
	ms := 10 * int(hundredths)
	return time.Date(year, time.Month(month), day, hour, minute, second+ms/1000, ms%1000*1e6, time.Local), valid
}

// slots gives the raw entries of a directory, up to where its chain breaks, and at
// least up to its end.
func (v *volume) slots(e *entry) (out [][]byte, bad bool) {
	limit := 1 << 40
	area := func(n int) (more bool) {
		if v.disk[n] == nil {
			v.disk[n] = v.sector(n)
		}
		more = true
		for i, a := 0, v.disk[n]; i+32 <= len(a) && len(out) < limit; i += 32 {
			out = append(out, a[i:i+32])
			more = more && a[i] != 0
		}
		return
	}
	if e.root && v.g.version != 32 {
		limit = v.g.rootEnts
		for i := 0; i < v.g.rootSecs && area(v.g.firstData-v.g.rootSecs+i); i++ {
		}
		return
	}
	first := e.first
	if e.root {
		first = v.rootC
	}
	var chain []uint32
	chain, bad = v.walk(first)
	for _, c := range chain {
		for i := 0; i < v.g.spc; i++ {
			if !area(v.firstSector(c) + i) {
				return
			}
		}
	}
	return out, bad || len(chain) == 0 // a directory needs a cluster
}

// list gives the live entries of a directory. before tells whether its chain
// breaks before the directory ends, after whether it does so later.
func (v *volume) list(e *entry) (live []*entry, before, after bool) {
	slots, bad := v.slots(e)
	for _, b := range slots {
		if b[0] == 0 {
			return live, false, bad
		}
		if b[0] != 0xe5 {
			live = append(live, parseEntry(b))
		}
	}
	return live, bad, false
}

// lookup finds a path. It tells how sure that result is: whether reporting an
// error instead would be right too, or the only right thing.
type found struct {
	e         *entry
	parent    *entry
	missing   bool // no such entry
	notDir    bool // a component is a file
	broken    bool // can't be found because a directory is damaged
	iffy      bool // found, but a directory on the way is damaged
	ambiguous bool // more than one entry has the name
}

func (v *volume) lookup(parts []string) (f found) {
	f.e = &entry{root: true, attr: dirAttr}
	for _, p := range parts {
		if !f.e.dir() {
			f.notDir = true
			return
		}
		live, before, after := v.list(f.e)
		f.iffy = f.iffy || before || after
		var hit *entry
		for _, x := range live {
			if x.name == p {
				if hit != nil {
					f.ambiguous = true
				}
				if hit == nil {
					hit = x
				}
			}
		}
		if hit == nil {
			f.broken = before
			f.missing = !before
			return
		}
		f.parent, f.e = f.e, hit
	}
	return
}

// The functions FATDriver relies on.

func (v *volume) call(name string, args ...int) fault {
	if v.dead {
		panic(crashed{})
	}
	v.r.Step()
	v.r.Ev("    "+name, args...)
	if v.plan == nil {
		return fault{}
	}
	f := v.plan(name)
	if f.crash {
		v.r.Ev("    *crash*")
		if !f.applied {
			v.dead = true
			panic(crashed{})
		}
	}
	return f
}

// done ends a call which changes something.
func (v *volume) done(f fault) error {
	if f.crash {
		v.dead = true
		panic(crashed{})
	}
	return f.err
}

func (v *volume) GetBootSector() *fat.FATBootSector { return v.bs }

func (v *volume) GetClusterAtIndex(i uint) (fat.ClusterID, error) {
	if f := v.call("get cluster", int(i)); f.err != nil {
		return 0, f.err
	}
	if i >= uint(v.g.clusters)+2 {
		return 0, disko.ErrArgumentOutOfRange
	}
	return fat.ClusterID(v.table[uint32(i)]), nil
}

func (v *volume) GetNextClusterInChain(c fat.ClusterID) (fat.ClusterID, error) {
	return v.GetClusterAtIndex(uint(c))
}

func (v *volume) SetClusterAtIndex(i uint, c fat.ClusterID) error {
	if c == 0 {
		return v.FreeCluster(fat.ClusterID(i))
	}
	f := v.call("set cluster", int(i), int(c))
	v.mutate("set", uint32(i), nil, nil)
	if f.err == nil || f.applied {
		v.table[uint32(i)] = uint32(c)
	}
	return v.done(f)
}

func (v *volume) IsValidCluster(c fat.ClusterID) bool {
	return v.ok(uint32(c)) || v.eocValid && uint32(c) >= v.eocMin()
}

func (v *volume) IsEndOfChain(c fat.ClusterID) bool { return uint32(c) >= v.eocMin() }

func (v *volume) ListRootDirectory() ([]fat.Dirent, error) {
	if f := v.call("list root"); f.err != nil {
		return nil, f.err
	}
	slots, bad := v.slots(&entry{root: true})
	var out []fat.Dirent
	for _, b := range slots {
		if b[0] == 0 {
			bad = false
			break
		}
		if b[0] == 0xe5 && !v.rootDeleted {
			continue
		}
		raw, err := fat.NewRawDirentFromBytes(b)
		if err != nil {
			return nil, err
		}
		d, err := fat.NewDirentFromRaw(v.bs, &raw)
		if err != nil {
			return nil, err
		}
		out = append(out, d)
	}
	if bad {
		return nil, disko.ErrFileSystemCorrupted
	}
	return out, nil
}

func (v *volume) AllocateCluster(count uint) ([]fat.ClusterID, error) {
	v.mutate("allocate", 0, nil, nil)
	return nil, disko.ErrNoSpaceOnDevice
}

func (v *volume) mutate(kind string, c uint32, d, parent *fat.Dirent) {
	v.writes++
	if v.onMut != nil {
		v.onMut(kind, c, d, parent)
	}
}

func (v *volume) FreeCluster(c fat.ClusterID) error {
	f := v.call("free cluster", int(c))
	if !v.ok(uint32(c)) {
		v.mutate("free", uint32(c), nil, nil)
		return disko.ErrArgumentOutOfRange
	}
	v.mutate("free", uint32(c), nil, nil)
	if f.err == nil || f.applied {
		v.table[uint32(c)] = 0
	}
	return v.done(f)
}

func (v *volume) UpdateDirent(d *fat.Dirent) error {
	f := v.call("update entry")
	v.r.EvS("    ", d.Name(), int(d.FirstCluster))
	v.mutate("update", 0, d, nil)
	if v.store != nil && (f.err == nil || f.applied) {
		v.store()
	}
	return v.done(f)
}

// find locates the entry a driver means.
func (v *volume) find(d, parent *fat.Dirent) *entry {
	p := &entry{first: uint32(parent.FirstCluster), attr: dirAttr}
	if parent.FirstCluster == 0 || v.g.version == 32 && uint32(parent.FirstCluster) == v.rootC {
		p = &entry{root: true, attr: dirAttr}
	}
	live, _, _ := v.list(p)
	for _, e := range live {
		if e.name == d.Name() && e.first == uint32(d.FirstCluster) {
			return e
		}
	}
	return nil
}

func (v *volume) DeleteDirent(d, parent *fat.Dirent) error {
	f := v.call("delete entry", int(d.FirstCluster), int(parent.FirstCluster))
	v.mutate("delete", 0, d, parent)
	e := v.find(d, parent)
	if e == nil {
		return disko.ErrNotFound
	}
	if f.err == nil || f.applied {
		e.raw[0] = 0xe5
	}
	return v.done(f)
}

// ReadAt is the disk.
func (v *volume) ReadAt(p []byte, off int64) (int, error) {
	f := v.call("disk read", int(off), len(p))
	if off < 0 {
		return 0, disko.ErrInvalidArgument
	}
	want := p
	p = make([]byte, len(want))
	n := 0
	defer func() { copy(want, p[:n]) }() // no more than what's reported
	for n < len(p) {
		at := int(off) + n
		if at >= v.g.total*v.g.bps {
			return n, io.EOF
		}
		n += copy(p[n:], v.sector(at / v.g.bps)[at%v.g.bps:])
	}
	if f.err != nil {
		n = min(n, f.short)
		return n, f.err
	}
	if f.short > 0 {
		// Fewer bytes, with or without saying so.
		n = max(0, n-f.short)
		if f.applied {
			return n, nil
		}
		return n, io.ErrUnexpectedEOF
	}
	if int(off)+n == v.g.total*v.g.bps && v.eocValid {
		return n, io.EOF
	}
	return n, nil
}

// newDriver makes a driver for a volume. There is no exported way to do that yet,
// so the fields are found by what they can hold.
func newDriver(v *volume) *fat.FATDriver {
	d := &fat.FATDriver{}
	rv := reflect.ValueOf(d).Elem()
	for i := 0; i < rv.NumField(); i++ {
		f := rv.Field(i)
		if f.Kind() == reflect.Interface && reflect.TypeOf(v).AssignableTo(f.Type()) {
			reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Set(reflect.ValueOf(v))
		}
	}
	return d
}

// Building volumes.

// node is a file or directory being generated.
type node struct {
	name string
	path string
	dir  bool
	size int
}

type builder struct {
	v       *volume
	r       *core.Run
	nodes   []*node // everything but the root
	deleted []string
	names   int
	big     bool
	spare   int // clusters to leave for directories which are being made
}

func build(r *core.Run) (*volume, *builder) {
	bps, spc := 512, 1
	if r.Chance(2, 5) {
		bps, spc = clusterSize(r)
	} else {
		spc = 1 << r.Int(3)
	}
	clusters := 0
	switch r.Pick(6, 2, 2) {
	case 0:
		clusters = 40 + r.Int(120)
	case 1:
		clusters = 4085 + r.Int(20)
	case 2:
		clusters = 65525 + r.Int(20)
		if r.Chance(1, 4) {
			// Beyond 4 GiB.
			clusters = 65525 + r.Int(300_000)
			bps, spc = 4096, 8
		}
	}
	whole := r.Chance(1, 80)
	if whole {
		clusters, bps, spc = 1+r.Int(20), 512, 1
	}
	g := randomGeom(r, clusters, bps, spc)
	bs, err := fat.NewFATBootSectorFromStream(&source{r: r, data: g.header, failAt: -1})
	r.Check(err == nil, "valid-rejected", "a valid boot sector was rejected: %v", err)
	v := &volume{r: r, g: g, bs: bs, table: map[uint32]uint32{}, disk: map[int][]byte{}, fill: map[uint32]uint64{}, used: map[uint32]bool{}}
	v.order = r.Int(4)
	v.eocValid = r.Chance(1, 4)
	v.rootDeleted = r.Chance(1, 2)
	b := &builder{v: v, r: r}
	v.disk[0] = append(append([]byte{}, g.header...), make([]byte, bps-len(g.header))...)
	r.Ev("volume", g.version, g.bps, g.spc, g.clusters, g.rootEnts)
	if whole {
		b.whole()
	} else {
		b.directory("", nil, 0)
	}
	return v, b
}

// whole builds a volume with a single file or directory which takes up every cluster.
func (b *builder) whole() {
	r, v := b.r, b.v
	name := b.newName()
	n := &node{name: name, path: "/" + name}
	chain := b.chain(v.g.clusters)
	b.nodes = append(b.nodes, n)
	var e []byte
	if r.Chance(1, 3) {
		n.dir = true
		e = rawEntry(name, dirAttr, chain[0], 0)
		raw := append(rawEntry(".", dirAttr, chain[0], 0), rawEntry("..", dirAttr, 0, 0)...)
		for last := r.Int(2); len(raw) < len(chain)*v.g.bpc()-32*last; {
			x := rawEntry(b.newName(), 0x20, 0, 0)
			b.times(x)
			p := parseEntry(x)
			b.nodes = append(b.nodes, &node{name: p.name, path: n.path + "/" + p.name})
			raw = append(raw, x...)
		}
		for i, c := range chain {
			v.putCluster(c, raw[min(len(raw), i*v.g.bpc()):])
		}
	} else {
		n.size = len(chain)*v.g.bpc() - r.Int(2)*r.Int(v.g.bpc())
		e = rawEntry(name, 0x20, chain[0], n.size)
		seed := uint64(r.Int(1 << 30))
		for i, c := range chain {
			v.fill[c] = seed + uint64(i)<<32
		}
	}
	b.times(e)
	area := make([]byte, v.g.bps)
	copy(area, e)
	v.disk[v.g.firstData-v.g.rootSecs] = area
	r.Probe("everything in one chain")
}

// alloc takes a free cluster.
func (b *builder) alloc() uint32 {
	v, n := b.v, uint32(b.v.g.clusters)
	var c uint32
	switch {
	case v.order == 0:
		c = 2 + v.last%n
	case v.order == 1:
		c = n + 1 - v.last%n
	default:
		c = 2 + uint32(b.r.Int(int(n)))
	}
	v.last++
	for v.used[c] {
		c++
		if c >= n+2 {
			c = 2
		}
	}
	v.used[c] = true
	return c
}

func (b *builder) room() int { return b.v.g.clusters - len(b.v.used) }

// chain allocates and links clusters.
func (b *builder) chain(n int) []uint32 {
	var out []uint32
	for i := 0; i < n; i++ {
		out = append(out, b.alloc())
	}
	for i, c := range out {
		if i+1 < n {
			b.v.table[c] = out[i+1]
		} else {
			b.v.table[c] = b.v.eocMin() + uint32(b.r.Int(8))
		}
	}
	return out
}

// newName makes an 8.3 name, unlike all others.
func (b *builder) newName() string {
	b.names++
	n := fmt.Sprintf("%s%d", []string{"F", "AB C", "NAMEX", "\xe5", "Z-"}[b.r.Int(5)], b.names)
	if b.r.Chance(1, 2) {
		n += []string{".TXT", ".C", ".B N"}[b.r.Int(3)]
	}
	return n
}

func (b *builder) times(e []byte) {
	le := binary.LittleEndian
	r := b.r
	date := func() uint16 { return uint16(r.Int(128))<<9 | uint16(1+r.Int(12))<<5 | uint16(1+r.Int(28)) }
	clock := func() uint16 { return uint16(r.Int(24))<<11 | uint16(r.Int(60))<<5 | uint16(r.Int(30)) }
	e[12] = byte([]int{0, 0, 8, 16, 24, 255}[r.Int(6)])
	e[13] = byte(r.Int(200))
	le.PutUint16(e[14:], clock())
	le.PutUint16(e[16:], date())
	le.PutUint16(e[18:], date())
	le.PutUint16(e[22:], clock())
	le.PutUint16(e[24:], date())
}

func rawEntry(name string, attr byte, first uint32, size int) []byte {
	e := make([]byte, 32)
	copy(e, "           ")
	base, ext := name, ""
	if name != "." && name != ".." {
		if i := strings.LastIndexByte(name, '.'); i >= 0 {
			base, ext = name[:i], name[i+1:]
		}
	}
	copy(e[:8], base)
	copy(e[8:11], ext)
	if e[0] == 0xe5 {
		e[0] = 5
	}
	le := binary.LittleEndian
	e[11] = attr
	le.PutUint16(e[20:], uint16(first>>16))
	le.PutUint16(e[26:], uint16(first))
	le.PutUint32(e[28:], uint32(size))
	return e
}

// directory generates a directory and everything below it, and returns its first
// cluster.
func (b *builder) directory(path string, parent []uint32, depth int) uint32 {
	r, v := b.r, b.v
	root := depth == 0
	perClust := v.g.bpc() / 32
	var slots [][]byte
	limit := 1 << 30
	if root && v.g.version != 32 {
		limit = v.g.rootEnts
	}
	var self []uint32
	if !root || v.g.version == 32 {
		self = b.chain(1)
	}
	if !root {
		up := uint32(0)
		if len(parent) > 0 {
			up = parent[0]
		}
		slots = append(slots, rawEntry(".", dirAttr, self[0], 0), rawEntry("..", dirAttr, up, 0))
		b.times(slots[0])
		b.times(slots[1])
	}
	up := self
	if root {
		up = nil // ".." of the root's children holds 0
	}
	attrs := func() byte { return byte([]int{0x20, 0, 1, 2, 4, 0x27, 0xa0}[r.Pick(6, 6, 6, 6, 6, 6, 1)]) }
	add := func() {
		name := b.newName()
		switch r.Pick(5, 2, 2, 1) {
		case 0, 3:
			n := &node{name: name, path: path + "/" + name}
			first := b.file(n)
			b.nodes = append(b.nodes, n)
			slots = append(slots, rawEntry(name, attrs(), first, n.size))
		case 1:
			if depth < 3 && b.room() > 12+b.spare {
				n := &node{name: name, path: path + "/" + name, dir: true}
				b.nodes = append(b.nodes, n)
				slots = append(slots, rawEntry(name, dirAttr|attrs()&^0x20, b.directory(n.path, up, depth+1), 0))
			} else {
				slots = append(slots, rawEntry(name, attrs(), 0, 0))
				b.nodes = append(b.nodes, &node{name: name, path: path + "/" + name})
			}
		case 2: // deleted
			e := rawEntry(name, attrs(), uint32(2+r.Int(v.g.clusters)), r.Int(5000))
			b.deleted = append(b.deleted, path+"/"+name)
			if r.Chance(1, 2) {
				// The first character is kept where some systems put it.
				e[13] = e[0]
			}
			k := e[13]
			b.times(e)
			e[13] = k
			e[0] = 0xe5
			slots = append(slots, e)
			return
		}
		b.times(slots[len(slots)-1])
	}
	n := r.Int(7)
	if r.Chance(1, 100) && b.room() > 100+b.spare {
		n = 20 + r.Int(60)
		b.spare += 12 // for the directory itself, later
		defer func() { b.spare -= 12 }()
		r.Probe("directory of many entries")
	}
	for ; n > 0 && len(slots) < limit; n-- {
		add()
	}
	if perClust <= 64 && r.Chance(1, 3) {
		// Fill whole clusters exactly, or all but a slot.
		want := (len(slots) + perClust - 1) / perClust * perClust
		if r.Chance(1, 3) {
			want += perClust
		}
		want -= r.Int(2)
		for len(slots) < want && len(slots) < limit {
			if r.Chance(1, 3) || b.room() < 20+b.spare {
				e := rawEntry(b.newName(), 0x20, 0, 0)
				b.times(e)
				if r.Chance(1, 2) {
					e[0] = 0xe5
				} else {
					x := parseEntry(e)
					b.nodes = append(b.nodes, &node{name: x.name, path: path + "/" + x.name})
				}
				slots = append(slots, e)
				continue
			}
			add()
		}
		r.Probe("directory fills its clusters")
	}
	raw := make([]byte, 0, (len(slots)+4)*32)
	for _, s := range slots {
		raw = append(raw, s...)
	}
	if root && v.g.version != 32 {
		if len(slots) < limit && r.Chance(1, 2) {
			raw = append(raw, b.junk(limit-len(slots))...)
		}
		for i := 0; i*v.g.bps < len(raw); i++ {
			area := make([]byte, v.g.bps)
			copy(area, raw[i*v.g.bps:])
			v.disk[v.g.firstData-v.g.rootSecs+i] = area
		}
		return 0
	}
	need := max(1, (len(slots)+perClust-1)/perClust)
	if r.Chance(1, 6) {
		need++ // with a cluster to spare, or more
		if r.Chance(1, 3) && b.room() > need+20+b.spare {
			need += 1 + r.Int(3)
		}
	}
	if len(slots) < need*perClust && r.Chance(1, 2) {
		raw = append(raw, b.junk(need*perClust-len(slots))...)
	}
	if need > 1 {
		rest := b.chain(need - 1)
		v.table[self[0]] = rest[0]
		self = append(self, rest...)
	}
	for i, c := range self {
		v.putCluster(c, raw[min(len(raw), i*v.g.bpc()):])
	}
	if root {
		v.rootC = self[0]
	}
	return self[0]
}

// junk makes an end marker, followed by what earlier entries left behind, at most n
// slots in all.
func (b *builder) junk(n int) []byte {
	if n = min(n, 3+61*b.r.Pick(3, 1)); n > 3 {
		b.r.Probe("directory with much behind its end")
	}
	out := make([]byte, 32)
	for ; n > 1; n-- {
		e := rawEntry(b.newName(), 0x20, uint32(b.r.Int(100)), 77)
		out = append(out, e...)
	}
	return out
}

// file allocates and fills a file.
func (b *builder) file(n *node) uint32 {
	r, v := b.r, b.v
	bpc := v.g.bpc()
	k := r.Int(6)
	if bpc > 8192 {
		k = min(k, 2)
	} else if r.Chance(1, 60) {
		k = 6 + r.Int(80)
	}
	switch r.Pick(2, 3, 2, 2) {
	case 0:
		n.size = k * bpc
	case 1:
		n.size = k*bpc + 1 + r.Int(bpc-1)
	case 2:
		n.size = k*bpc + 1
	case 3:
		n.size = max(0, k*bpc-1)
	}
	need := (n.size + bpc - 1) / bpc
	if b.room() < need+8+b.spare {
		n.size, need = 0, 0
	}
	if r.Chance(1, 10) && b.room() > 20+b.spare {
		need++ // allocated in advance
	}
	if need == 0 {
		return 0
	}
	chain := b.chain(need)
	seed := uint64(r.Int(1 << 30))
	for i, c := range chain {
		v.fill[c] = seed + uint64(i)<<32
	}
	return chain[0]
}

// hash summarises a volume.
func (v *volume) hash() uint64 {
	h := uint64(v.g.version)
	for c, x := range v.table {
		k := (uint64(c)<<32 | uint64(x)) * 0x9e3779b97f4a7c15
		h += k ^ k>>29
	}
	return h
}
