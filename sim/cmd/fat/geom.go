package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/file_systems/fat"

	"disko-sim/core"
)

// geom is a volume's geometry, computed without the code under test.
type geom struct {
	bps, spc, rsvd, nfats, rootEnts, spf, total int

	version   int
	clusters  int
	rootSecs  int
	dataSecs  int
	firstData int // sector
	header    []byte
}

func (g *geom) bpc() int { return g.bps * g.spc }

// finish derives the rest from the basic fields.
func (g *geom) finish() {
	g.rootSecs = (g.rootEnts*32 + g.bps - 1) / g.bps
	g.firstData = g.rsvd + g.nfats*g.spf + g.rootSecs
	g.dataSecs = g.total - g.firstData
	g.clusters = g.dataSecs / g.spc
	switch {
	case g.clusters < 4085:
		g.version = 12
	case g.clusters < 65525:
		g.version = 16
	default:
		g.version = 32
	}
}

// parse reads a header as the FAT specification says, and tells whether it has to
// be rejected.
func parse(h []byte) (g geom, reject string) {
	le := binary.LittleEndian
	g = geom{
		bps: int(le.Uint16(h[11:])), spc: int(h[13]), rsvd: int(le.Uint16(h[14:])), nfats: int(h[16]),
		rootEnts: int(le.Uint16(h[17:])), total: int(le.Uint16(h[19:])), spf: int(le.Uint16(h[22:])), header: h,
	}
	if g.total == 0 {
		g.total = int(le.Uint32(h[32:]))
	}
	if g.spf == 0 {
		g.spf = int(le.Uint32(h[36:]))
	}
	switch {
	case g.bps != 512 && g.bps != 1024 && g.bps != 2048 && g.bps != 4096:
		return g, "bytes per sector"
	case g.spc == 0 || g.spc&(g.spc-1) != 0:
		return g, "sectors per cluster"
	case g.bps*g.spc > 32768:
		return g, "cluster size"
	case g.rsvd == 0:
		return g, "no reserved sectors"
	case g.nfats == 0:
		return g, "no tables"
	case g.spf == 0:
		return g, "empty tables"
	case g.total == 0:
		return g, "no sectors"
	}
	g.finish()
	if g.dataSecs < 0 {
		return g, "larger than the volume"
	}
	if g.version == 32 && g.rootSecs != 0 {
		return g, "FAT32 with a root directory area"
	}
	return g, ""
}

// encode makes a boot sector for a geometry.
func (g *geom) encode(r *core.Run) {
	h := make([]byte, 64)
	copy(h, "\xeb\x3c\x90MSDOS5.0")
	le := binary.LittleEndian
	le.PutUint16(h[11:], uint16(g.bps))
	h[13] = byte(g.spc)
	le.PutUint16(h[14:], uint16(g.rsvd))
	h[16] = byte(g.nfats)
	le.PutUint16(h[17:], uint16(g.rootEnts))
	if g.total < 65536 && g.version != 32 && !r.Chance(1, 4) {
		le.PutUint16(h[19:], uint16(g.total))
	} else {
		le.PutUint32(h[32:], uint32(g.total))
	}
	h[21] = []byte{0xf8, 0xf0, 0xf9, 0xff}[r.Int(4)]
	le.PutUint16(h[24:], uint16(r.Int(64)))
	le.PutUint16(h[26:], uint16(r.Int(256)))
	le.PutUint32(h[28:], uint32(r.Int(5000)))
	if g.version == 32 {
		le.PutUint32(h[36:], uint32(g.spf))
	} else {
		le.PutUint16(h[22:], uint16(g.spf))
		copy(h[36:], r.Fill(4)) // drive number and so on
	}
	g.header = h
}

// randomGeom draws a valid geometry with the given number of clusters.
func randomGeom(r *core.Run, clusters, bps, spc int) *geom {
	g := &geom{bps: bps, spc: spc, clusters: clusters}
	entry := 24 // bits per two entries
	switch {
	case clusters >= 65525:
		entry = 64
		g.rsvd = 32
	case clusters >= 4085:
		entry = 32
		g.rsvd = 1
	default:
		g.rsvd = 1
	}
	if r.Chance(1, 3) {
		g.rsvd = 1 + r.Int(40)
	}
	g.nfats = []int{2, 1, 3, 255}[r.Pick(6, 3, 1, 1)]
	if g.nfats == 255 && clusters > 5000 {
		g.nfats = 4
	}
	if clusters < 65525 {
		g.rootEnts = []int{16, 112, 224, 512, 1 + r.Int(600), 2048, 4096, 65535}[r.Pick(3, 3, 3, 3, 2, 1, 1, 1)]
	}
	g.spf = (((clusters+2)*entry+15)/16+bps-1)/bps + r.Int(3)
	g.total = g.rsvd + g.nfats*g.spf + (g.rootEnts*32+bps-1)/bps + clusters*spc + r.Int(spc)
	g.finish()
	if g.clusters != clusters {
		panic("geometry: cluster count")
	}
	g.encode(r)
	return g
}

// clusterSize draws a sector and cluster size.
func clusterSize(r *core.Run) (bps, spc int) {
	bps = []int{512, 1024, 2048, 4096}[r.Int(4)]
	for spc = 1 << r.Int(8); bps*spc > 32768; spc /= 2 {
	}
	return
}

// source is the stream a boot sector is read from.
type source struct {
	r      *core.Run
	data   []byte
	pos    int
	failAt int // -1: never
	chunks bool
	once   bool // fails only once
	failed bool
	err    error
	zeros  int
}

func (s *source) Read(p []byte) (int, error) {
	s.r.Step()
	if s.failAt >= 0 && s.pos >= s.failAt {
		if !s.failed {
			s.r.Fault("read error")
			s.err = s.r.DeviceError()
		}
		s.failed = true
		if s.once {
			s.failAt = -1
		}
		return 0, s.err
	}
	if s.pos == len(s.data) {
		return 0, io.EOF
	}
	n := min(len(p), len(s.data)-s.pos)
	if s.failAt >= 0 {
		n = min(n, s.failAt-s.pos)
	}
	if s.chunks && n > 1 {
		n = 1 + s.r.Int(n)
		s.r.Fault("short read")
	}
	if s.chunks && s.zeros < 3 && s.r.Chance(1, 8) {
		s.zeros++
		return 0, nil
	}
	copy(p, s.data[s.pos:s.pos+n])
	s.pos += n
	if s.pos == len(s.data) && s.chunks && s.r.Chance(1, 2) {
		return n, io.EOF
	}
	return n, nil
}

// bootSector is the simulation for C29.
func bootSector(r *core.Run) {
	for n := 1 + r.Int(4); n > 0; n-- {
		oneBootSector(r)
	}
}

func oneBootSector(r *core.Run) {
	bps, spc := clusterSize(r)
	var clusters int
	switch r.Pick(4, 4, 2, 3) {
	case 0:
		clusters = 1 + r.Int(4084)
	case 1:
		clusters = 4085 + r.Int(65525-4085)
	case 2:
		clusters = 65525 + r.Int(1<<20)
		if r.Chance(1, 3) {
			clusters = 65525 + r.Int(1<<28-70000)
		}
		for clusters > (1<<32-1<<26)/spc {
			clusters /= 2
		}
		clusters = max(clusters, 65525)
	case 3:
		clusters = []int{1, 4084, 4085, 4086, 65524, 65525, 65526, 4083}[r.Int(8)]
	}
	g := randomGeom(r, clusters, bps, spc)
	h := g.header
	valid := true
	le := binary.LittleEndian
	kind := r.Pick(5, 5, 1, 1)
	switch kind {
	case 1: // a field or two are wrong
		valid = false
		for i := 1 + r.Int(2); i > 0; i-- {
			v := []int{0, 1, 2, 3, 255, 256, 512, 0x7fff, 0xffff, r.Int(65536)}[r.Int(10)]
			switch r.Int(11) {
			case 0:
				le.PutUint16(h[11:], uint16(v))
			case 1:
				h[13] = byte([]int{0, 3, 5, 96, 255, 128, 64, v}[r.Int(8)])
			case 2:
				le.PutUint16(h[14:], uint16(v))
			case 3:
				h[16] = byte(v)
			case 4:
				le.PutUint16(h[17:], uint16(v))
			case 5:
				le.PutUint16(h[19:], uint16(v))
			case 6:
				le.PutUint16(h[22:], uint16(v))
			case 7:
				le.PutUint32(h[32:], uint32(v))
				le.PutUint16(h[19:], 0)
			case 8:
				le.PutUint32(h[36:], uint32(v*[]int{1, 65536, 65535}[r.Int(3)]))
			case 9:
				// Exactly as large as its metadata, or almost.
				gg, _ := parse(h)
				if gg.bps > 0 && gg.spc > 0 {
					gg.finish()
					le.PutUint16(h[19:], 0)
					le.PutUint32(h[32:], uint32(max(0, gg.firstData+r.Int(5)-3)))
				}
			case 10:
				h[r.Int(40)] = byte(v)
			}
		}
	case 2:
		valid = false
		copy(h, r.Fill(40))
		if r.Chance(1, 2) {
			le.PutUint16(h[11:], uint16(bps))
			h[13] = byte(spc)
		}
	}
	src := &source{r: r, data: h, failAt: -1, chunks: r.Chance(1, 2)}
	short := false
	if kind == 3 || r.Chance(1, 6) {
		k := r.Int(40)
		short = true
		if r.Chance(1, 2) {
			src.failAt = k
			src.once = r.Chance(1, 2)
		} else {
			src.data = h[:k]
			r.Fault("input truncated")
		}
	}
	want, reject := parse(h)
	r.BeginOp("decode")
	r.EvB("> decode", h[:40], src.failAt, len(src.data))
	var bs *fat.FATBootSector
	var err error
	r.Catch("NewFATBootSectorFromStream", func() { bs, err = fat.NewFATBootSectorFromStream(src) })
	r.EvErr("< decode", err)
	if short {
		r.Check(err != nil, "truncated-accepted", "a boot sector of which only part could be read was accepted")
		r.Check(errors.Is(err, disko.ErrIOFailed), "wrong-error", "a boot sector of which only part could be read gave %s instead of an I/O error", err)
		if src.failed {
			r.Check(errors.Is(err, src.err), "wrong-cause", "a boot sector which couldn't be read because of %q gave %q", src.err, err)
		}
		return
	}
	if reject != "" {
		r.Probe("rejected: " + reject)
		r.Check(err != nil, "invalid-accepted", "an invalid boot sector was accepted (%s)", reject)
		return
	}
	if err != nil {
		r.Check(!valid, "valid-rejected", "a valid boot sector was rejected: %s", err)
		return
	}
	r.Probe(fmt.Sprintf("FAT%d decoded", want.version))
	r.Nontrivial = true
	r.State(core.HashBytes(h[:40]))
	same(r, bs, &want)
}

// same compares what was decoded with what the specification says.
func same(r *core.Run, bs *fat.FATBootSector, want *geom) {
	r.Check(bs != nil, "wrong-field", "decoding succeeded without a result")
	for _, f := range []struct {
		name      string
		got, want int
	}{
		{"BytesPerSector", int(bs.BytesPerSector), want.bps},
		{"SectorsPerCluster", int(bs.SectorsPerCluster), want.spc},
		{"ReservedSectors", int(bs.ReservedSectors), want.rsvd},
		{"NumFATs", int(bs.NumFATs), want.nfats},
		{"RootEntryCount", int(bs.RootEntryCount), want.rootEnts},
		{"SectorsPerFAT", int(bs.SectorsPerFAT), want.spf},
		{"TotalFATSectors", int(bs.TotalFATSectors), want.spf * want.nfats},
		{"RootDirSectors", int(bs.RootDirSectors), want.rootSecs},
		{"BytesPerCluster", int(bs.BytesPerCluster), want.bpc()},
		{"TotalClusters", int(bs.TotalClusters), want.clusters},
		{"TotalDataSectors", int(bs.TotalDataSectors), want.dataSecs},
		{"FirstDataSector", int(bs.FirstDataSector), want.firstData},
		{"FATVersion", bs.FATVersion, want.version},
		{"DirentsPerCluster", bs.DirentsPerCluster, want.bpc() / 32},
		{"Media", int(bs.Media), int(want.header[21])},
		{"SectorsPerTrack", int(bs.SectorsPerTrack), int(binary.LittleEndian.Uint16(want.header[24:]))},
		{"NumHeads", int(bs.NumHeads), int(binary.LittleEndian.Uint16(want.header[26:]))},
		{"HiddenSectors", int(bs.HiddenSectors), int(binary.LittleEndian.Uint32(want.header[28:]))},
	} {
		r.Check(f.got == f.want, "wrong-field", "%s was decoded as %d instead of %d", f.name, f.got, f.want)
	}
}
