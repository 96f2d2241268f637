package main

import (
	"bytes"
	"reflect"
	"unsafe"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/file_systems/fat8"

	"errors"
)

// blocks is one access to sectors or clusters of the mounted volume.
func (s *scene) blocks() {
	switch s.r.Pick(4, 5, 4, 5, 1, 2) {
	case 0:
		s.readBlocks()
	case 1:
		s.writeBlocks()
	case 2:
		s.readCluster()
	case 3:
		s.writeCluster()
	case 4:
		s.validity()
	case 5:
		s.getFAT()
	}
}

const huge = ^uint(0)

// where draws a sector range, which may lie outside the image.
func (s *scene) where() (start, count uint) {
	r := s.r
	total := uint(len(s.img.Data) / 128)
	switch r.Pick(4, 3, 3, 2) {
	case 0:
		start = uint(r.Int(int(total)))
	case 1:
		start = total - 1 - uint(r.Int(4))
	case 2:
		start = uint(s.lay.dirFirst - 1 + r.Int(s.lay.fats+3*s.lay.perFAT-s.lay.dirFirst+2))
	case 3:
		start = uint(r.Int(3))
	}
	switch r.Pick(6, 3, 1, 1) {
	case 0:
		count = 1 + uint(r.Int(3))
	case 1:
		count = 1 + uint(r.Int(30))
	case 2:
		count = 0
	case 3:
		count = total - uint(r.Int(3)) + 1
	}
	if r.Chance(1, 12) {
		switch r.Int(5) {
		case 0:
			start = total + uint(r.Int(3))
		case 1:
			start = huge - uint(r.Int(4))
		case 2:
			start, count = total-1, 2+uint(r.Int(2))
		case 3:
			start = 1<<57 + uint(r.Int(10))
		case 4:
			start = 1<<32 + start
		}
	}
	return
}

// inside tells whether a sector range is part of the image.
func (s *scene) inside(start, count uint) bool {
	total := uint(len(s.img.Data) / 128)
	return count <= total && start <= total-count
}

func (s *scene) readBlocks() {
	r := s.r
	start, count := s.where()
	if r.Chance(1, 30) {
		count = []uint{1 << 57, 1<<57 + 1, huge, huge - start + 1, huge - 100, huge - start + 2}[r.Int(6)]
	}
	s.begin("read sectors", int(start), int(count))
	before := s.snapshot()
	var got []byte
	var err error
	s.do("ReadDiskBlocks", func() { got, err = s.d.ReadDiskBlocks(fat8.PhysicalBlock(start), count) })
	r.EvErr("< read", err, len(got))
	s.untouched("reading", before)
	s.judgeRead("ReadDiskBlocks", start, count, got, err)
}

func (s *scene) judgeRead(what string, start, count uint, got []byte, err error) {
	r := s.r
	r.Keep("read by "+what, got)
	if !s.inside(start, count) {
		r.Probe("read outside the image")
		r.Check(err != nil || count == 0 && len(got) == 0, "outside-read", "%s of %d sectors at %d of an image of %d succeeded", what, count, start, len(s.img.Data)/128)
		return
	}
	s.reported(what, err)
	if err != nil {
		r.Check(len(s.hard) > 0, "needless-failure", "%s of %d sectors at %d of an image of %d failed: %s", what, count, start, len(s.img.Data)/128, err)
		return
	}
	if start+count == uint(len(s.img.Data)/128) && count > 0 {
		r.Probe("last sector read")
	}
	r.Check(bytes.Equal(got, s.img.Data[start*128:(start+count)*128]), "wrong-data", "%s of %d sectors at %d gave other data (%d bytes)", what, count, start, len(got))
}

func (s *scene) writeBlocks() {
	r := s.r
	start, count := s.where()
	n := int(count) * 128
	if r.Chance(1, 10) {
		n = max(0, n+[]int{-127, -1, 1, 64, 127}[r.Int(5)])
	}
	data := r.Fill(n)
	s.begin("write sectors", int(start), n)
	before := s.snapshot()
	var err error
	s.do("WriteDiskBlocks", func() { err = s.d.WriteDiskBlocks(fat8.PhysicalBlock(start), r.Lend("written", data)) })
	r.EvErr("< write", err)
	s.judgeWrite("WriteDiskBlocks", start, data, before, n%128 == 0 && s.inside(start, count), err)
}

func (s *scene) judgeWrite(what string, start uint, data, before []byte, ok bool, err error) {
	r := s.r
	after := s.img.Data
	if !ok {
		r.Probe("write refused")
		r.Check(err != nil || len(data) == 0, "bad-write-accepted", "%s of %d bytes at sector %d of an image of %d succeeded", what, len(data), start, len(before)/128)
		s.untouched("a refused write", before)
		return
	}
	a, b := int(start)*128, int(start)*128+len(data)
	if a < (s.lay.fats+3*s.lay.perFAT)*128 && b > s.lay.fats*128 {
		s.rawFAT = true
	}
	if len(data) > 0 {
		r.Nontrivial = true
	}
	s.reported(what, err)
	r.Check(len(before) == len(after), "image-touched", "%s of %d bytes at sector %d resized the image from %d to %d bytes", what, len(data), start, len(before), len(after))
	r.Check(bytes.Equal(before[:a], after[:a]) && bytes.Equal(before[b:], after[b:]), "other-sectors", "%s of %d bytes at sector %d changed other sectors", what, len(data), start)
	if err != nil {
		r.Check(len(s.hard) > 0, "needless-failure", "%s of %d bytes at sector %d of an image of %d failed: %s", what, len(data), start, len(before)/128, err)
		for i := a; i < b; i++ {
			r.Check(after[i] == before[i] || after[i] == data[i-a], "wrong-data", "a failed %s of %d bytes at sector %d stored something else", what, len(data), start)
		}
		return
	}
	if b == len(before) && len(data) > 0 {
		r.Probe("last sector written")
	}
	if !s.lost {
		r.Check(bytes.Equal(after[a:b], data), "wrong-data", "%s of %d bytes at sector %d stored something else", what, len(data), start)
	}
}

// cluster draws a cluster number, which may be invalid.
func (s *scene) cluster() uint {
	r := s.r
	n := uint(s.lay.clusters)
	switch r.Pick(6, 2, 2, 1, 1) {
	case 0:
		return 1 + uint(r.Int(int(n)))
	case 1:
		return 1
	case 2:
		return n - uint(r.Int(2))
	case 3:
		return []uint{0, n + 1, n + 2, 154, 155, 255, 256, 257}[r.Int(8)]
	}
	return []uint{huge, 1 << 32, 1<<32 + 1, 1 << 60, 1<<61 + 1, 1<<63 + 1}[r.Int(6)]
}

func (s *scene) validCluster(c uint) bool { return c >= 1 && c <= uint(s.lay.clusters) }

// file makes a file some cluster of which is c. If it hasn't got that many, index is
// past its end.
func (s *scene) file(c uint) (d *fat8.DirectoryEntry, index fat8.LogicalCluster, inside bool) {
	r := s.r
	d = &fat8.DirectoryEntry{}
	x := reflect.ValueOf(d).Elem()
	for i := 0; i < x.NumField(); i++ {
		clusters, ok := reflect.NewAt(x.Field(i).Type(), unsafe.Pointer(x.Field(i).UnsafeAddr())).Interface().(*[]fat8.PhysicalCluster)
		if !ok {
			continue
		}
		n := r.Int(5)
		k := r.Int(n + 1)
		for j := 0; j <= n; j++ {
			*clusters = append(*clusters, fat8.PhysicalCluster(s.cluster()))
		}
		(*clusters)[k] = fat8.PhysicalCluster(c)
		if r.Chance(1, 8) {
			return d, fat8.LogicalCluster([]uint{uint(n) + 1, uint(n) + 2, uint(n) + 200, 1<<63 - 1, 1 << 63, huge}[r.Int(6)]), false
		}
		r.Probe("access by way of a file")
		return d, fat8.LogicalCluster(k), true
	}
	return nil, 0, false
}

func (s *scene) readCluster() {
	r := s.r
	c := s.cluster()
	s.begin("read cluster", int(c))
	before := s.snapshot()
	var got []byte
	var err error
	what := "ReadAbsoluteCluster"
	if r.Chance(1, 4) {
		if f, index, inside := s.file(c); f != nil {
			what = "ReadFileCluster"
			s.do(what, func() { got, err = s.d.ReadFileCluster(f, index) })
			if !inside {
				r.Check(err != nil, "bad-cluster", "reading past the last cluster of a file succeeded")
				s.untouched("reading", before)
				return
			}
		}
	}
	if what == "ReadAbsoluteCluster" {
		s.do(what, func() { got, err = s.d.ReadAbsoluteCluster(fat8.PhysicalCluster(c)) })
	}
	r.EvErr("< read", err, len(got))
	s.untouched("reading", before)
	if !s.validCluster(c) {
		r.Probe("invalid cluster")
		r.Check(err != nil, "bad-cluster", "reading cluster %d of %d succeeded", c, s.lay.clusters)
		return
	}
	n := uint(s.lay.perClust)
	s.judgeRead(what, (c-1)*n, n, got, err)
}

func (s *scene) writeCluster() {
	r := s.r
	c := s.cluster()
	n := s.lay.perClust * 128
	if r.Chance(1, 8) {
		n = []int{0, 1, 128, n - 1, n + 1, n - 128, n + 128, 2 * n, 13 * 128, 8 * 128}[r.Int(10)]
	}
	data := r.Fill(n)
	s.begin("write cluster", int(c), n)
	before := s.snapshot()
	var err error
	what := "WriteAbsoluteCluster"
	if r.Chance(1, 4) {
		if f, index, inside := s.file(c); f != nil {
			what = "WriteFileCluster"
			s.do(what, func() { err = s.d.WriteFileCluster(f, index, r.Lend("written", data)) })
			if !inside {
				r.Check(err != nil, "bad-cluster", "writing past the last cluster of a file succeeded")
				s.untouched("a refused write", before)
				return
			}
		}
	}
	if what == "WriteAbsoluteCluster" {
		s.do(what, func() { err = s.d.WriteAbsoluteCluster(fat8.PhysicalCluster(c), r.Lend("written", data)) })
	}
	r.EvErr("< write", err)
	ok := s.validCluster(c) && n == s.lay.perClust*128
	if !ok {
		r.Check(err != nil, "bad-cluster", "writing %d bytes to cluster %d of %d succeeded", n, c, s.lay.clusters)
		s.untouched("a refused write", before)
		return
	}
	s.judgeWrite(what, (c-1)*uint(s.lay.perClust), data, before, true, err)
}

func (s *scene) validity() {
	c := s.cluster()
	s.begin("validity", int(c))
	got := s.d.IsValidCluster(fat8.PhysicalCluster(c))
	s.r.Check(got == s.validCluster(c), "bad-cluster", "IsValidCluster(%d) is %v on a volume with %d clusters", c, got, s.lay.clusters)
}

// getFAT reads the tables as mounting does.
func (s *scene) getFAT() {
	r := s.r
	s.begin("get table")
	before := s.snapshot()
	var got []byte
	var err error
	s.do("GetFAT", func() { got, err = s.d.GetFAT() })
	r.EvErr("< table", err, len(got))
	s.untouched("reading the tables", before)
	s.reported("GetFAT", err)
	_, ok := s.healthy()
	if err == nil {
		n := s.lay.perFAT * 128
		r.Check(ok != 0, "corruption-missed", "GetFAT succeeded although the table copies differ")
		r.Check(bytes.Equal(got, before[s.lay.fats*128:][:n]), "wrong-data", "GetFAT returned something else than the table")
		return
	}
	r.Check(ok != 1 || len(s.hard) > 0, "needless-failure", "GetFAT failed on a sound volume: %s", err)
	if ok == 0 && len(s.hard) == 0 {
		r.Check(errors.Is(err, disko.ErrFileSystemCorrupted), "not-corrupted", "GetFAT on a volume whose table copies differ gave %s", err)
	}
}
