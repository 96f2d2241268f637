# Plants the FAT8 and command-line bugs: python3 fat8_seeds.py [id...]
import sys, os
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here + "/..")
from mkseed import mk
HEAD = '''package fat8

import (
	"bytes"
	"errors"
	"os"
	"testing"

	"github.com/dargueta/disko"
)

var _ = errors.New
var _ = bytes.Equal
var _ = disko.ErrBusy

type demoOptions int64

func (o demoOptions) Metadata() any         { return nil }
func (o demoOptions) TotalSizeBytes() int64 { return int64(o) }

// image makes a formatted image, whose driver is not mounted.
func image(t *testing.T, sectors int64) (*os.File, *FAT8Driver) {
	f, err := os.Create(t.TempDir() + "/img")
	if err != nil {
		t.Skip(err)
	}
	t.Cleanup(func() { f.Close() })
	d := NewDriverFromFile(f)
	if err := d.FormatImage(demoOptions(sectors * 128)); err != nil {
		t.Fatal(err)
	}
	return f, &d
}
'''
D, I, F = ("file_systems/fat8/%s.go" % n for n in ("driver", "iobase", "formattingdriver"))
P = "file_systems/fat8"
S = {}
def seed(id, prop, needs, breaks, edits, test): S[id] = (prop, needs, breaks, edits, test)
seed("c25-dirty-directory", "C25", "formatting a file which already contains data where the last directory sector will be",
  "formatting leaves the last sector of the directory as it was, which is only noticed if the file wasn't empty before",
  [(F, "	for i := geo.DirectoryTrackStart; i < geo.InfoSectorStart; i++ {\n", "	for i := geo.DirectoryTrackStart; i < geo.InfoSectorStart-1 || i < geo.InfoSectorStart && !driver.formatted(i); i++ {\n"),
   (F, "// Format implements [disko.FormatImageImplementer].\n", '''// formatted tells if a directory sector has already been erased.
func (driver *FAT8Driver) formatted(sector PhysicalBlock) bool {
	data, err := driver.ReadDiskBlocks(sector, 1)
	return err == nil && data[0] != 0
}

// Format implements [disko.FormatImageImplementer].
''')],
  '''
func TestDemo(t *testing.T) {
	f, _ := image(t, 640)
	if _, err := f.WriteAt(bytes.Repeat([]byte{'x'}, 640*128), 0); err != nil {
		t.Skip(err)
	}
	d := NewDriverFromFile(f)
	if err := d.FormatImage(demoOptions(640 * 128)); err != nil {
		t.Fatal(err)
	}
	b := make([]byte, 128)
	f.ReadAt(b, 283*128)
	if !bytes.Equal(b, bytes.Repeat([]byte{0xff}, 128)) {
		t.Fatal("the directory wasn't erased")
	}
}
''')
seed("c25-info-ignored", "C25", "a device which fails exactly while the information sector is written during formatting",
  "an error while writing the information sector is overwritten by the result of writing the tables",
  [(F, '''	err = driver.WriteDiskBlocks(geo.InfoSectorStart, bytes.Repeat([]byte{0}, 128))
	if err != nil {
		return err
	}
''', '''	infoErr := driver.WriteDiskBlocks(geo.InfoSectorStart, bytes.Repeat([]byte{0}, 128))
'''), (F, '''	return driver.WriteDiskBlocks(geo.FATsStart, allFATs)
''', '''	err = driver.WriteDiskBlocks(geo.FATsStart, allFATs)
	if err != nil && infoErr != nil {
		err = infoErr
	}
	return err
''')],
  None)
seed("c26-second-sector", "C26", "a volume with more than 128 clusters whose third table copy differs in its second sector",
  "only the first sector of the third table copy is compared, so corruption in the rest of it isn't noticed when mounting",
  [(I, "	} else if !bytes.Equal(firstFAT, thirdFAT) {", "	} else if !bytes.Equal(firstFAT[:128], thirdFAT[:128]) {")],
  '''
func TestDemo(t *testing.T) {
	f, d := image(t, 1898)
	f.WriteAt([]byte{7}, 908*128+133-128+128)
	f.WriteAt([]byte{7}, 909*128+3)
	if err := d.Mount(disko.MountFlagsAllowAll); !errors.Is(err, disko.ErrFileSystemCorrupted) {
		t.Fatalf("a volume with different tables: %v", err)
	}
}
''')
seed("c26-flush-first", "C26", "flushing while the copies on the image differ from the one in memory (after a torn write to the tables)",
  "flushing writes the first two copies and leaves the third one, so a completed flush of a volume whose tables were overwritten doesn't mount again",
  [(I, "	return driver.WriteDiskBlocks(driver.geometry.FATsStart, bytes.Repeat(driver.fat, 3))", '''	current, err := driver.ReadDiskBlocks(driver.geometry.FATsStart, driver.geometry.SectorsPerFAT)
	if err == nil && bytes.Equal(current, driver.fat) {
		// Nothing to do.
		return nil
	}
	return driver.WriteDiskBlocks(driver.geometry.FATsStart, bytes.Repeat(driver.fat, 3))''')],
  '''
func TestDemo(t *testing.T) {
	_, d := image(t, 640)
	if err := d.Mount(disko.MountFlagsAllowAll); err != nil {
		t.Fatal(err)
	}
	if err := d.WriteDiskBlocks(287, make([]byte, 128)); err != nil {
		t.Fatal(err)
	}
	if err := d.Flush(); err != nil {
		t.Fatal(err)
	}
	d.Unmount()
	if err := d.Mount(disko.MountFlagsAllowAll); err != nil {
		t.Fatalf("a flushed volume doesn't mount: %v", err)
	}
}
''')
seed("c27-short-image", "C27", "a read which hits the end of the image early, because the image was truncated behind the driver's back",
  "a premature end of the image while reading sectors is not reported, and zeros are returned for what's missing",
  [(I, '''	_, err := driver.image.ReadAt(buffer, int64(start)*128)
	if err != nil {
''', '''	_, err := driver.image.ReadAt(buffer, int64(start)*128)
	if err != nil && err != io.EOF {
'''), (I, '''	"fmt"
''', '''	"fmt"
	"io"
''')],
  '''
func TestDemo(t *testing.T) {
	f, d := image(t, 640)
	if err := d.Mount(disko.MountFlagsAllowAll); err != nil {
		t.Fatal(err)
	}
	f.Truncate(639*128 + 5)
	if b, err := d.ReadDiskBlocks(638, 2); err == nil {
		t.Fatalf("read %d bytes from a truncated image", len(b))
	}
}
''')
seed("c27-large-cluster-write", "C27", "writing more than one cluster's bytes to a cluster",
  "a buffer of several clusters is accepted and overwrites the clusters that follow",
  [(I, "	if len(data) != int(driver.geometry.BytesPerCluster) {", "	if len(data) == 0 || len(data)%int(driver.geometry.BytesPerCluster) != 0 {")],
  '''
func TestDemo(t *testing.T) {
	_, d := image(t, 640)
	if err := d.Mount(disko.MountFlagsAllowAll); err != nil {
		t.Fatal(err)
	}
	if err := d.WriteAbsoluteCluster(1, make([]byte, 2048)); err == nil {
		t.Fatal("a write of two clusters to one succeeded")
	}
}
''')
seed("c28-failed-mount-busy", "C28", "a mount that fails because the tables differ, followed by formatting the volume",
  "the volume counts as mounted once its size has been recognised, so after a failed mount it can't be repaired by formatting",
  [(D, "	driver.geometry = geo\n", "	driver.geometry = geo\n	driver.isMounted = true\n"), (D, "	driver.isMounted = true\n	return nil\n", "	return nil\n")],
  '''
func TestDemo(t *testing.T) {
	f, d := image(t, 640)
	f.WriteAt([]byte{7}, 286*128)
	if err := d.Mount(disko.MountFlagsAllowAll); err == nil {
		t.Fatal("mounted")
	}
	if err := d.FormatImage(demoOptions(640 * 128)); err != nil {
		t.Fatalf("formatting after a failed mount: %v", err)
	}
}
''')
seed("c28-late-unmount", "C28", "unmounting a volume twice, after the image has been formatted or replaced in between",
  "unmounting writes the table read by the last mount, whether or not it's still mounted",
  [(D, "	driver.isMounted = false\n	return nil\n", """	if driver.fat != nil {
		if err := driver.writeFAT(); err != nil {
			return err
		}
	}
	driver.isMounted = false
	return nil
""")],
  '''
func TestDemo(t *testing.T) {
	f, d := image(t, 640)
	if err := d.Mount(disko.MountFlagsAllowAll); err != nil {
		t.Fatal(err)
	}
	if err := d.Unmount(); err != nil {
		t.Fatal(err)
	}
	for i := int64(285); i < 288; i++ {
		f.WriteAt([]byte{1, 0xc1}, i*128)
	}
	d.Unmount()
	b := make([]byte, 2)
	f.ReadAt(b, 285*128)
	if b[0] != 1 || b[1] != 0xc1 {
		t.Fatal("unmounting overwrote a table which isn't its own")
	}
}
''')
seed("c28-grown-image", "C28", "mounting an image again, after its free clusters changed, with the same driver",
  "the list of free clusters is only built the first time, so the statistics of a later mount are out of date",
  [(D, "		if clusterNumber == 0xff {\n", "		if clusterNumber == 0xff && !driver.known {\n"),
   (D, "	driver.isMounted = true\n	return nil\n", "	driver.isMounted = true\n	driver.known = true\n	return nil\n"),
   (D, "	driver.freeClusters = nil\n", "	if !driver.known {\n		driver.freeClusters = nil\n	}\n"),
   (D, "	isMounted bool\n", "	isMounted bool\n	// known indicates if the free clusters have been determined.\n	known bool\n")],
  '''
func TestDemo(t *testing.T) {
	f, d := image(t, 640)
	d.Mount(disko.MountFlagsAllowAll)
	d.Unmount()
	for i := int64(285); i < 288; i++ {
		f.WriteAt([]byte{1, 0xc1}, i*128)
	}
	if err := d.Mount(disko.MountFlagsAllowAll); err != nil {
		t.Fatal(err)
	}
	if s := d.FSStat(); s.BlocksFree != 76*8 {
		t.Fatalf("%d free blocks", s.BlocksFree)
	}
}
''')
SH = '''#!/bin/bash
# Runs the real tools on scratch files.
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
go build -o "$tmp/zip" ./cmd/zipimage && go build -o "$tmp/unzip" ./cmd/unzipimage || exit 9
cd "$tmp"
%s
'''
C = {
"c16-lost-flush": ("C16", "an output which fails only when the last buffered data is written, such as a full disk",
  "zipimage buffers its output and ignores errors when flushing the buffer, so a small image written to a full disk exits with 0",
  [("cmd/zipimage/main.go", "	nWritten, err := compression.CompressImage(sourceFile, outFile)\n", "	writer := bufio.NewWriterSize(outFile, 65536)\n	nWritten, err := compression.CompressImage(sourceFile, writer)\n	writer.Flush()\n"),
   ("cmd/zipimage/main.go", 'import (\n', 'import (\n\t"bufio"\n')],
  SH % '''echo hello >in
./zip in /dev/full >/dev/null 2>&1 && { echo "zipimage to a full device exited with 0"; exit 1; }
./zip in out >/dev/null && ./unzip out back >/dev/null && cmp in back'''),
"c16-salvage": ("C16", "an input which is truncated inside its compressed data",
  "unzipimage only warns about a truncated input, and exits with 0 with an incomplete output",
  [("cmd/unzipimage/main.go", "	if err != nil {\n		fmt.Fprintf(os.Stderr, \"Error expanding file: %s\\n\", err)\n", "	if errors.Is(err, io.ErrUnexpectedEOF) {\n		fmt.Fprintf(os.Stderr, \"Warning: %s\\n\", err)\n	} else if err != nil {\n		fmt.Fprintf(os.Stderr, \"Error expanding file: %s\\n\", err)\n"),
   ("cmd/unzipimage/main.go", '\t"fmt"\n', '\t"fmt"\n\t"io"\n')],
  SH % '''head -c 3000 /dev/urandom >in
./zip in z >/dev/null || exit 1
head -c 1500 z >t
./unzip t out >/dev/null 2>&1 && { echo "unzipimage of a truncated file exited with 0"; exit 1; }
./unzip z out >/dev/null && cmp in out'''),
}
want = sys.argv[1:]
seed("c27-reused-buffer", "C27", "two reads, of which the result of the first is still in use after the second",
  "sectors which were read are overwritten by the next read of as many sectors or fewer",
  [(I, "	buffer := make([]byte, 128*count)\n", '''	if uint(cap(driver.transfer)) < 128*count {
		driver.transfer = make([]byte, 128*count)
	}
	buffer := driver.transfer[:128*count]
'''), (D, "	dirents   map[string]DirectoryEntry\n", "	dirents   map[string]DirectoryEntry\n	// transfer holds the sectors being read.\n	transfer []byte\n")],
  '''
func TestDemo(t *testing.T) {
	_, d := image(t, 640)
	if err := d.Mount(disko.MountFlags(3)); err != nil {
		t.Skip(err)
	}
	a := bytes.Repeat([]byte{'a'}, 128)
	if err := d.WriteDiskBlocks(3, a); err != nil {
		t.Skip(err)
	}
	got, err := d.ReadDiskBlocks(3, 1)
	if err != nil {
		t.Skip(err)
	}
	if _, err := d.ReadDiskBlocks(4, 1); err != nil {
		t.Skip(err)
	}
	if !bytes.Equal(got, a) {
		t.Fatal("the sector which was read changed")
	}
}
''')
seed("c25-info-sector", "C25", "formatting a file which already contains data where the information sector will be",
  "the information sector isn't written since the image is expected to be blank, so it keeps what was there before",
  [(F, '''	// Write nulls to the info sector.
	err = driver.WriteDiskBlocks(geo.InfoSectorStart, bytes.Repeat([]byte{0}, 128))
	if err != nil {
		return err
	}

	// The info sector''', '''	// The info sector is null already since the image is blank. The info sector''')],
  '''
func TestDemo(t *testing.T) {
	f, d := image(t, 640)
	if _, err := f.WriteAt(bytes.Repeat([]byte{'x'}, 640*128), 0); err != nil {
		t.Skip(err)
	}
	if err := d.FormatImage(demoOptions(640 * 128)); err != nil {
		t.Fatal(err)
	}
	geo, _ := GetGeometry(640)
	info := make([]byte, 128)
	if _, err := f.ReadAt(info, int64(geo.InfoSectorStart)*128); err != nil || !bytes.Equal(info, make([]byte, 128)) {
		t.Fatalf("%q, %v", info, err)
	}
}
''')
for id, (prop, needs, breaks, edits, test) in S.items():
    if test and (not want or id in want): mk(id, prop, needs, breaks, edits, P, HEAD + test)

for id, (prop, needs, breaks, edits, sh) in C.items():
    if not want or id in want: mk(id, prop, needs, breaks, edits, None, None, demo=sh)
