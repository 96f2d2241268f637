# Plants the FAT bugs: python3 fat_seeds.py [id...]
import sys, os
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here + "/..")
from mkseed import mk
HEAD = '''package fat

import (
	"bytes"
	"encoding/binary"
	"errors"
	"io"
	"testing"
	"time"
)

var _ = errors.New
var _ = bytes.Equal
var _ = time.Now

var errDemo = errors.New("demo failure")

// header makes a boot sector.
func header(bps, spc, rsvd, fats, root, total, spf int) []byte {
	h := make([]byte, 64)
	le := binary.LittleEndian
	le.PutUint16(h[11:], uint16(bps))
	h[13] = byte(spc)
	le.PutUint16(h[14:], uint16(rsvd))
	h[16] = byte(fats)
	le.PutUint16(h[17:], uint16(root))
	le.PutUint16(h[19:], uint16(total))
	h[21] = 0xf8
	le.PutUint16(h[22:], uint16(spf))
	return h
}

// volume is a FAT12 volume in memory.
type volume struct {
	boot    *FATBootSector
	table   map[ClusterID]ClusterID
	root    [][]byte
	disk    []byte
	freed   []ClusterID
	updated []Dirent
	fail    func(call string) error
}

func newVolume(t *testing.T) (*volume, *FATDriver) {
	boot, err := NewFATBootSectorFromStream(bytes.NewReader(header(512, 1, 1, 2, 16, 80, 1)))
	if err != nil {
		t.Fatal(err)
	}
	v := &volume{boot: boot, table: map[ClusterID]ClusterID{}, disk: make([]byte, 80*512), fail: func(string) error { return nil }}
	return v, &FATDriver{fs: v, diskFile: v}
}

func entry(name string, attr byte, first, size int) []byte {
	e := append([]byte(name), make([]byte, 21)...)
	e[11] = attr
	for _, at := range []int{16, 18, 24} {
		binary.LittleEndian.PutUint16(e[at:], 20<<9|5<<5|17)
	}
	binary.LittleEndian.PutUint16(e[26:], uint16(first))
	binary.LittleEndian.PutUint32(e[28:], uint32(size))
	return e
}

// chain links clusters and fills each with its number.
func (v *volume) chain(clusters ...ClusterID) {
	for i, c := range clusters {
		v.table[c] = 0xfff
		if i+1 < len(clusters) {
			v.table[c] = clusters[i+1]
		}
		copy(v.at(c), bytes.Repeat([]byte{byte(c)}, 512))
	}
}

func (v *volume) at(c ClusterID) []byte {
	off := (int(v.boot.FirstDataSector) + int(c) - 2) * 512
	return v.disk[off : off+512]
}

func (v *volume) GetBootSector() *FATBootSector { return v.boot }
func (v *volume) GetClusterAtIndex(i uint) (ClusterID, error) {
	return v.table[ClusterID(i)], v.fail("table")
}
func (v *volume) SetClusterAtIndex(i uint, c ClusterID) error {
	v.table[ClusterID(i)] = c
	return nil
}
func (v *volume) GetNextClusterInChain(c ClusterID) (ClusterID, error) {
	return v.GetClusterAtIndex(uint(c))
}
func (v *volume) IsValidCluster(c ClusterID) bool { return c >= 2 && uint(c) < v.boot.TotalClusters+2 }
func (v *volume) IsEndOfChain(c ClusterID) bool   { return c >= 0xff8 }
func (v *volume) ListRootDirectory() ([]Dirent, error) {
	var out []Dirent
	for _, b := range v.root {
		raw, err := NewRawDirentFromBytes(b)
		if err != nil {
			return nil, err
		}
		d, err := NewDirentFromRaw(v.boot, &raw)
		if err != nil {
			return nil, err
		}
		out = append(out, d)
	}
	return out, nil
}
func (v *volume) AllocateCluster(uint) ([]ClusterID, error) { return nil, errDemo }
func (v *volume) FreeCluster(c ClusterID) error {
	if err := v.fail("free"); err != nil {
		return err
	}
	v.freed = append(v.freed, c)
	v.table[c] = 0
	return nil
}
func (v *volume) UpdateDirent(d *Dirent) error {
	v.updated = append(v.updated, *d)
	return v.fail("update")
}
func (v *volume) DeleteDirent(d, parent *Dirent) error {
	entries := v.root
	if parent.FirstCluster != 0 {
		entries = nil
		for b := v.at(parent.FirstCluster); len(b) > 0; b = b[32:] {
			entries = append(entries, b[:32])
		}
	}
	for _, b := range entries {
		if b[0] == d.name[0] && binary.LittleEndian.Uint16(b[26:]) == uint16(d.FirstCluster) {
			b[0] = 0xe5
		}
	}
	return v.fail("delete")
}
func (v *volume) ReadAt(p []byte, off int64) (int, error) {
	if err := v.fail("read"); err != nil {
		return 0, err
	}
	n := copy(p, v.disk[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}
'''
D, C, E = ("file_systems/fat/%s.go" % n for n in ("driverbase", "common", "dirent"))
P = "file_systems/fat"
S = {}
def seed(id, prop, needs, breaks, edits, test): S[id] = (prop, needs, breaks, edits, test)
seed("c29-largest-cluster", "C29", "a volume with the largest clusters the specification allows, 32 KiB",
  "volumes with clusters of exactly 32 KiB are rejected",
  [(C, "	if bytesPerCluster > 32768 {", "	if bytesPerCluster >= 32768 {")],
  '''
func TestDemo(t *testing.T) {
	if _, err := NewFATBootSectorFromStream(bytes.NewReader(header(512, 64, 1, 2, 512, 64000, 4))); err != nil {
		t.Fatal(err)
	}
}
''')
seed("c29-version-by-table", "C29", "a volume near a boundary between FAT versions, whose tables have room to spare",
  "the version is determined from how many clusters the tables have room for rather than how many there are",
  [(C, "	if totalClusters < 4085 {", "	if totalClusters+2 < 4085 { // with the two reserved ones")],
  '''
func TestDemo(t *testing.T) {
	bs, err := NewFATBootSectorFromStream(bytes.NewReader(header(512, 1, 1, 1, 16, 1+12+1+4084, 12)))
	if err != nil {
		t.Fatal(err)
	}
	if bs.TotalClusters != 4084 || bs.FATVersion != 12 {
		t.Fatalf("%d clusters, FAT%d", bs.TotalClusters, bs.FATVersion)
	}
}
''')
seed("c30-cached-after-failure", "C30", "a disk read which fails, followed by another read of the same cluster",
  "the last cluster read is remembered even if reading it failed, so that trying again gives zeros as if they were the file's contents",
  [(D, "	diskFile any\n", "	diskFile any\n\n	lastCluster ClusterID\n	lastData    []byte\n"),
   (D, "	bootSector := drv.fs.GetBootSector()\n	return drv.readAbsoluteSectors(sectorID, uint(bootSector.SectorsPerCluster))\n", '''	if cluster == drv.lastCluster && drv.lastData != nil {
		return drv.lastData, nil
	}

	bootSector := drv.fs.GetBootSector()
	data, err := drv.readAbsoluteSectors(sectorID, uint(bootSector.SectorsPerCluster))
	drv.lastCluster, drv.lastData = cluster, data
	return data, err
''')],
  '''
func TestDemo(t *testing.T) {
	v, d := newVolume(t)
	v.chain(5)
	v.root = [][]byte{entry("A          ", 0, 5, 300)}
	v.fail = func(call string) error {
		if call == "read" {
			return errDemo
		}
		return nil
	}
	if _, err := d.ReadFile("/A"); err == nil {
		t.Fatal("the failure wasn't reported")
	}
	v.fail = func(string) error { return nil }
	got, err := d.ReadFile("/A")
	if err != nil || !bytes.Equal(got, bytes.Repeat([]byte{5}, 300)) {
		t.Fatal("wrong contents", err, got)
	}
}
''')
seed("c30-contiguous", "C30", "a file of three or more clusters of which only some are next to each other",
  "clusters next to each other are taken from one read, but how many there are is determined from the ends of the chain only",
  [(D, "	for _, clusterID := range allClusters {\n", '''	contiguous := len(allClusters) > 2 &&
		int(allClusters[len(allClusters)-1])-int(allClusters[0]) == len(allClusters)-1
	for i, clusterID := range allClusters {
		if contiguous {
			clusterID = allClusters[0] + ClusterID(i)
		}
''')],
  '''
func TestDemo(t *testing.T) {
	v, d := newVolume(t)
	v.chain(5, 20, 7)
	v.root = [][]byte{entry("A          ", 0, 5, 1400)}
	got, err := d.ReadFile("/A")
	want := append(append(bytes.Repeat([]byte{5}, 512), bytes.Repeat([]byte{20}, 512)...), bytes.Repeat([]byte{7}, 376)...)
	if err != nil || !bytes.Equal(got, want) {
		t.Fatal("wrong contents", err)
	}
}
''')
seed("c31-kanji-name", "C31", "a file whose name begins with the character 0xE5, which is stored as 0x05",
  "the stored form of the first character is translated before checking whether the entry is deleted, so that such files can't be found",
  [(E, "	isDeleted := rawDirent.Name[0] == 0xE5\n", '''	name := rawDirent.Name
	if name[0] == 0x05 {
		// First character of the filename is E5.
		name[0] = 0xE5
	}
	isDeleted := name[0] == 0xE5
''')],
  '''
func TestDemo(t *testing.T) {
	v, d := newVolume(t)
	v.root = [][]byte{entry("\\x05BC        ", 0, 0, 0)}
	if _, err := d.Stat("/\\xe5BC"); err != nil {
		t.Fatal(err)
	}
}
''')
seed("c31-stale-directory", "C31", "removing a file after the directory it's in has been listed, then looking again",
  "a directory's contents are remembered by its first cluster and never forgotten, so removed files keep showing up",
  [(D, "	diskFile any\n", "	diskFile any\n\n	directories map[ClusterID][]Dirent\n"),
   (D, "	bootSector := drv.fs.GetBootSector()\n	allDirents := []Dirent{}\n", '''	if known, ok := drv.directories[directoryDirent.FirstCluster]; ok {
		return known, nil
	}

	bootSector := drv.fs.GetBootSector()
	allDirents := []Dirent{}
'''),
   (D, "	return allDirents, nil\n}\n\n// withoutDeleted", '''	if drv.directories == nil {
		drv.directories = map[ClusterID][]Dirent{}
	}
	drv.directories[directoryDirent.FirstCluster] = allDirents
	return allDirents, nil
}

// withoutDeleted'''),
   (D, "	dirContents, err := drv.listDirectory(&dirent)\n	if err != nil {\n		return nil, err\n	}\n\n	fileInfos := make([]os.FileInfo, len(dirContents))\n", '''	dirContents, err := drv.listDirectory(&dirent)
	if err != nil {
		return nil, err
	}

	// Keep callers from changing what's remembered.
	fileInfos := make([]os.FileInfo, len(dirContents), len(dirContents)+1)
''')],
  '''
func TestDemo(t *testing.T) {
	v, d := newVolume(t)
	v.chain(5)
	copy(v.at(5), make([]byte, 512))
	copy(v.at(5), append(append(entry(".          ", 16, 5, 0), entry("..         ", 16, 0, 0)...), entry("F          ", 0, 0, 0)...))
	v.root = [][]byte{entry("D          ", 16, 5, 0)}
	if _, err := d.Stat("/D/F"); err != nil {
		t.Fatal(err)
	}
	if err := d.Remove("/D/F"); err != nil {
		t.Fatal(err)
	}
	if _, err := d.Stat("/D/F"); err == nil {
		t.Fatal("the file is still there")
	}
}
''')
seed("c32-preallocated", "C32", "removing a file with more clusters than its size needs",
  "only as many clusters are freed as the file's size needs; those allocated in advance are lost",
  [(D, "	for i := len(fileClusters) - 1; i >= 0; i-- {\n", '''	last := len(fileClusters) - 1
	if needed := int(dirent.stat.NumBlocks); needed > 0 && needed <= last {
		last = needed - 1
	}
	for i := last; i >= 0; i-- {
''')],
  '''
func TestDemo(t *testing.T) {
	v, d := newVolume(t)
	v.chain(5, 6)
	v.root = [][]byte{entry("A          ", 0, 5, 300)}
	if err := d.Remove("/A"); err != nil {
		t.Fatal(err)
	}
	if len(v.freed) != 2 {
		t.Fatal("freed", v.freed)
	}
}
''')
seed("c32-last-error", "C32", "a failure to free a cluster which isn't the file's first one",
  "the rest is freed after a failure, and only the result of freeing the first cluster counts",
  [(D, "		err = drv.fs.FreeCluster(fileClusters[i])\n		if err != nil {\n			return err\n		}\n	}\n\n	return nil\n", "		// Release as many clusters as possible.\n		err = drv.fs.FreeCluster(fileClusters[i])\n	}\n\n	return err\n")],
  '''
func TestDemo(t *testing.T) {
	v, d := newVolume(t)
	v.chain(5, 6)
	v.root = [][]byte{entry("A          ", 0, 5, 900)}
	v.fail = func(call string) error {
		if call == "free" && v.table[6] != 0 && len(v.freed) == 0 {
			v.fail = func(string) error { return nil }
			return errDemo
		}
		return nil
	}
	if err := d.Remove("/A"); err == nil {
		t.Fatal("the failure wasn't reported")
	}
}
''')
seed("c38-times-backwards", "C38", "setting an access time which is earlier than the present one",
  "the access time is only ever moved forwards; setting an earlier one succeeds without doing so",
  [(E, "	d.stat.LastAccessed = t\n", "	if t.After(d.stat.LastAccessed) {\n		d.stat.LastAccessed = t\n	}\n")],
  '''
func TestDemo(t *testing.T) {
	v, d := newVolume(t)
	v.root = [][]byte{entry("A          ", 0, 0, 0)}
	at, mt := time.Date(1990, 1, 2, 0, 0, 0, 0, time.Local), time.Date(1991, 1, 2, 0, 0, 0, 0, time.Local)
	if err := d.Chtimes("/A", at, mt); err != nil {
		t.Fatal(err)
	}
	if len(v.updated) != 1 || !v.updated[0].stat.LastAccessed.Equal(at) {
		t.Fatal("the access time wasn't changed")
	}
}
''')
seed("c38-reserved-flags", "C38", "changing an entry which has attribute flags FAT leaves undefined",
  "only the defined attribute flags are kept, so that any change of an entry clears the others, which tools mustn't touch",
  [(E, "		AttributeFlags: int(rawDirent.AttributeFlags),\n", "		AttributeFlags: int(rawDirent.AttributeFlags &^ AttrReserved),\n")],
  '''
func TestDemo(t *testing.T) {
	v, d := newVolume(t)
	v.root = [][]byte{entry("A          ", 0xa0, 0, 0)}
	if err := d.Chmod("/A", 0o444); err != nil {
		t.Fatal(err)
	}
	if len(v.updated) != 1 || v.updated[0].AttributeFlags != 0xa1 {
		t.Fatal("the attribute flags were changed")
	}
}
''')
seed("c38-owner-only", "C38", "giving write permission to the group or others, but not to the owner",
  "only the owner's permission makes a file writable",
  [(D, "	if (mode & 0b010010010) == 0 {\n", "	if (mode & 0b010000000) == 0 {\n")],
  '''
func TestDemo(t *testing.T) {
	v, d := newVolume(t)
	v.root = [][]byte{entry("A          ", 1, 0, 0)}
	if err := d.Chmod("/A", 0o060); err != nil {
		t.Fatal(err)
	}
	if len(v.updated) != 1 || v.updated[0].stat.ModeFlags&0o222 == 0 {
		t.Fatal("the file wasn't made writable")
	}
}
''')
seed("c38-created-moves-modified", "C38", "setting a creation time later than the entry's modification time",
  "a modification time earlier than the new creation time is changed too",
  [(E, "	d.stat.CreatedAt = t\n", """	d.stat.CreatedAt = t
	if d.stat.LastModified.Before(t) {
		// Nothing can be modified before it's created.
		d.stat.LastModified = t
	}
""")],
  '''
func TestDemo(t *testing.T) {
	v, drv := newVolume(t)
	v.root = [][]byte{entry("A          ", 0, 0, 0)}
	list, err := drv.Readdir("/")
	if err != nil || len(list) != 1 {
		t.Fatal(err)
	}
	d := list[0].(Dirent)
	before := d.GetLastModifiedAt()
	if err := d.SetCreatedAt(before.AddDate(3, 0, 0)); err != nil {
		t.Fatal(err)
	}
	if !d.GetLastModifiedAt().Equal(before) {
		t.Fatal("the modification time changed too")
	}
}
''')
seed("c31-deleted-ends-directory", "C31", "a deleted entry in a directory of more than one cluster",
  "a directory is taken to end at the first cluster with fewer live entries than it has room for, so a deleted entry hides everything in later clusters",
  [(D, """		allDirents = append(allDirents, withoutDeleted(clusterDirents)...)
""", """		clusterDirents = withoutDeleted(clusterDirents)
		allDirents = append(allDirents, clusterDirents...)
""")],
  '''
func TestDemo(t *testing.T) {
	v, d := newVolume(t)
	v.chain(5, 9)
	dir := append(entry(".          ", 16, 5, 0), entry("..         ", 16, 0, 0)...)
	for len(dir) < 512 {
		dir = append(dir, entry("F"+string(rune('A'+len(dir)/32))+"         ", 0, 0, 0)...)
	}
	dir[96] = 0xe5
	copy(v.at(5), dir)
	copy(v.at(9), make([]byte, 512))
	copy(v.at(9), entry("LAST       ", 0, 0, 0))
	v.root = [][]byte{entry("D          ", 16, 5, 0)}
	if _, err := d.Stat("/D/LAST"); err != nil {
		t.Fatal(err)
	}
}
''')
seed("c38-mode-of-directory", "C38", "changing the mode of a directory",
  "the kind of a directory is lost when its mode is changed",
  [(D, "		dirent.stat.ModeFlags &= ^os.FileMode(0b010010010)\n", "		dirent.stat.ModeFlags = dirent.stat.ModeFlags.Perm() &^ 0b010010010\n")],
  '''
func TestDemo(t *testing.T) {
	v, d := newVolume(t)
	v.chain(5)
	v.root = [][]byte{entry("D          ", 16, 5, 0)}
	if err := d.Chmod("/D", 0o555); err != nil {
		t.Fatal(err)
	}
	if len(v.updated) != 1 || !v.updated[0].stat.ModeFlags.IsDir() {
		t.Fatal("it isn't a directory any more")
	}
}
''')
seed("c30-reused-result", "C30", "two reads, of which the result of the first is still in use after the second",
  "the bytes of a file which was read are overwritten by the next file that is read",
  [(D, "	buffer := new(bytes.Buffer)\n", "	buffer := &drv.contents\n	buffer.Reset()\n"),
   (D, "	diskFile any\n", "	diskFile any\n\n	// contents is reused by every ReadFile.\n	contents bytes.Buffer\n")],
  '''
func TestDemo(t *testing.T) {
	v, d := newVolume(t)
	v.chain(5)
	v.chain(7)
	v.root = [][]byte{entry("A          ", 0, 5, 300), entry("B          ", 0, 7, 200)}
	a, err := d.ReadFile("/A")
	if err != nil {
		t.Fatal(err)
	}
	if _, err := d.ReadFile("/B"); err != nil {
		t.Fatal(err)
	}
	if !bytes.Equal(a, bytes.Repeat([]byte{5}, 300)) {
		t.Fatal("what was read from A changed")
	}
}
''')
for id, (prop, needs, breaks, edits, test) in S.items():
    if len(sys.argv) > 1 and id not in sys.argv[1:]: continue
    mk(id, prop, needs, breaks, edits, P, HEAD + test)
