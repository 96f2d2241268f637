# Plants block cache, stream and compression bugs: python3 stream_seeds.py [id...]
import sys, os
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here + "/..")
from mkseed import mk
BC, BS = "file_systems/common/blockcache", "file_systems/common/basicstream"
CO = "utilities/compression"
S = {}
def seed(id, prop, needs, breaks, pkg, edits, test): S[id] = (prop, needs, breaks, pkg, edits, test)
CACHE = '''package blockcache

import (
	"bytes"
	"errors"
	"io"
	"testing"

	"github.com/dargueta/disko/file_systems/common"
)

var _ = bytes.Equal
var _ = io.EOF
var errDemo = errors.New("demo failure")

type device struct {
	blocks []byte
	reads  int
}

func newCache(d *device, total uint) *BlockCache {
	d.blocks = bytes.Repeat([]byte{'d'}, int(total)*4)
	return New(4, total,
		func(b common.LogicalBlock, p []byte) error {
			d.reads++
			copy(p, d.blocks[b*4:])
			return nil
		},
		func(b common.LogicalBlock, p []byte) error {
			copy(d.blocks[b*4:], p)
			return nil
		},
		func(n common.LogicalBlock) error { return nil })
}
'''
seed("c03-mark-clamped", "C03", "marking a range of blocks as changed which begins inside the cache and ends outside",
  "only the part of the range inside the cache is marked, and it's reported as a success", BC,
  [(BC + "/blockcache.go", '''	err := cache.loadBlockRange(start, count)
	if err != nil {
		return err
	}

	for i := uint(0); i < count; i++ {
		// FIXME(dargueta): We can end up with integer overflow here
''', '''	last := min(uint(start)+count, max(cache.totalBlocks, uint(start)+1))
	err := cache.loadBlockRange(start, last-uint(start))
	if err != nil {
		return err
	}

	for i := uint(0); i < last-uint(start); i++ {
''')], CACHE + '''
func TestDemo(t *testing.T) {
	d := &device{}
	c := newCache(d, 4)
	if err := c.MarkBlockRangeDirty(2, 5); err == nil {
		t.Fatal("blocks which aren't there were marked")
	}
}
''')
seed("c03-checked-one-by-one", "C03", "asking for a slice which begins inside the cache and ends outside",
  "blocks are checked one by one while they're loaded, so a refused access has read from the storage before", BC,
  [(BC + "/blockcache.go", '''	err := cache.checkBlockRange(start, count)
	if err != nil {
		return err
	}

	for blockIndex := uint(start); blockIndex < uint(start)+count; blockIndex++ {
		// Skip if the block is in the cache.''', '''	err := cache.CheckBounds(start, 0)
	if err != nil {
		return err
	}

	for blockIndex := uint(start); blockIndex-uint(start) < count; blockIndex++ {
		err = cache.CheckBounds(c.LogicalBlock(blockIndex), cache.bytesPerBlock)
		if err != nil {
			return err
		}

		// Skip if the block is in the cache.''')], CACHE + '''
func TestDemo(t *testing.T) {
	d := &device{}
	c := newCache(d, 4)
	if _, err := c.GetSlice(2, 5); err == nil {
		t.Fatal("a slice of blocks which aren't there")
	}
	if d.reads > 0 {
		t.Fatal("the refused access read", d.reads, "blocks")
	}
}
''')
seed("c05-skipped-seek", "C05", "a failed read of one block followed by a read of the next one",
  "the stream is taken to be right behind the last block read, even if reading it failed", BC,
  [(BC + "/blockcache.go", '''		err := seekToBlock(stream, block, c.LogicalBlock(cache.totalBlocks), bytesPerBlock)
		if err != nil {
			return err
		}
''', '''		if block != next {
			err := seekToBlock(stream, block, c.LogicalBlock(cache.totalBlocks), bytesPerBlock)
			if err != nil {
				return err
			}
		}
'''), (BC + "/blockcache.go", '''	runCb := func(block c.LogicalBlock''', '''	next := ^c.LogicalBlock(0) // the block the stream is at
	runCb := func(block c.LogicalBlock'''),
   (BC + "/blockcache.go", "		return runCb(block, buffer, true)\n", "		err := runCb(block, buffer, true)\n		next = block + 1\n		return err\n"),
   (BC + "/blockcache.go", "		return runCb(block, buffer, false)\n", "		next = ^c.LogicalBlock(0)\n		return runCb(block, buffer, false)\n")],
  CACHE + '''
type stream struct {
	*bytes.Reader
	fail bool
}

func (s *stream) Write(p []byte) (int, error) { return 0, errDemo }
func (s *stream) Read(p []byte) (int, error) {
	if s.fail {
		s.fail = false
		return 0, errDemo
	}
	return s.Reader.Read(p)
}

func TestDemo(t *testing.T) {
	s := &stream{Reader: bytes.NewReader([]byte("aaaabbbbccccdddd"))}
	c := WrapStream(s, 4, 4, false)
	buf := make([]byte, 4)
	if _, err := c.ReadAt(buf, 0); err != nil {
		t.Fatal(err)
	}
	s.fail = true
	if _, err := c.ReadAt(buf, 1); err == nil {
		t.Fatal("no error")
	}
	if _, err := c.ReadAt(buf, 2); err != nil || string(buf) != "cccc" {
		t.Fatalf("%s %v", buf, err)
	}
}
''')
STREAM = '''package basicstream

import (
	"bytes"
	"errors"
	"io"
	"strings"
	"testing"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/file_systems/common"
	"github.com/dargueta/disko/file_systems/common/blockcache"
)

var _ = io.EOF
var _ = strings.Repeat
var errDemo = errors.New("demo failure")

type device struct {
	blocks []byte
	fail   bool
}

// newStream makes a stream of a size over a device with blocks of eight bytes, full of x.
func newStream(t *testing.T, size int, flags disko.IOFlags) (*device, *BasicStream) {
	d := &device{blocks: bytes.Repeat([]byte{'x'}, (size+7)/8*8)}
	cache := blockcache.New(8, uint(len(d.blocks)/8),
		func(b common.LogicalBlock, p []byte) error {
			copy(p, d.blocks[b*8:])
			return nil
		},
		func(b common.LogicalBlock, p []byte) error {
			copy(d.blocks[b*8:], p)
			return nil
		},
		func(n common.LogicalBlock) error {
			if d.fail {
				return errDemo
			}
			d.blocks = append(d.blocks, make([]byte, 1000)...)[:n*8]
			return nil
		})
	s, err := New(int64(size), cache, flags)
	if err != nil {
		t.Fatal(err)
	}
	return d, s
}
'''
seed("c06-zeroed-too-early", "C06", "truncating a stream to a larger size within its last block, whose rest isn't zero in the storage",
  "what's left behind by truncating is zeroed then, instead of when the stream grows, so what was behind the end of the stream from the beginning shows up", BS,
  [(BS + "/basicstream.go", "	newTotalBlocks := stream.data.GetMinBlocksForSize(uint(size))\n\n	if size > stream.size {\n		err := stream.zeroFill(stream.size, size)\n		if err != nil {\n			return err\n		}\n	}\n", "	if size < stream.size {\n		err := stream.zeroFill(size, stream.size)\n		if err != nil {\n			return err\n		}\n	}\n\n	newTotalBlocks := stream.data.GetMinBlocksForSize(uint(size))\n")],
  STREAM + '''
func TestDemo(t *testing.T) {
	_, s := newStream(t, 3, disko.O_RDWR)
	if err := s.Truncate(6); err != nil {
		t.Fatal(err)
	}
	got := make([]byte, 6)
	if _, err := s.ReadAt(got, 0); err != nil && err != io.EOF || string(got) != "xxx\\x00\\x00\\x00" {
		t.Fatalf("%q %v", got, err)
	}
}
''')
seed("c10-append-past-end", "C10", "writing to an append stream after seeking beyond its end",
  "the pointer is only moved if it's before the end, so such a write leaves a gap", BS,
  [(BS + "/basicstream.go", "	if stream.ioFlags.Append() {\n		_, err = stream.Seek(0, io.SeekEnd)\n", "	if stream.ioFlags.Append() && stream.position < stream.size {\n		_, err = stream.Seek(0, io.SeekEnd)\n")],
  STREAM + '''
func TestDemo(t *testing.T) {
	_, s := newStream(t, 3, disko.O_RDWR|disko.O_APPEND)
	s.Seek(7, io.SeekStart)
	if _, err := s.Write([]byte("ab")); err != nil {
		t.Fatal(err)
	}
	if s.Size() != 5 {
		t.Fatal("size", s.Size())
	}
}
''')
seed("c10-append-at-end", "C10", "a positioned write at exactly the end of an append stream",
  "positioned writes to an append stream are let through if they're at its end", BS,
  [(BS + "/basicstream.go", "	if stream.ioFlags.Append() {\n		return 0, disko.ErrNotPermitted\n", "	if stream.ioFlags.Append() && offset != stream.size {\n		return 0, disko.ErrNotPermitted\n")],
  STREAM + '''
func TestDemo(t *testing.T) {
	_, s := newStream(t, 3, disko.O_RDWR|disko.O_APPEND)
	if _, err := s.WriteAt([]byte("ab"), 3); err == nil {
		t.Fatal("a positioned write to an append stream")
	}
}
''')
seed("c08-size-before-resize", "C08", "storage which refuses to grow when a stream is truncated to a larger size",
  "the stream's size is changed before its storage, and stays that way if that fails, so reading what's said to be there fails", BS,
  [(BS + "/basicstream.go", '''	if newTotalBlocks != stream.data.TotalBlocks() {
		err := stream.data.Resize(newTotalBlocks)
		if err != nil {
			return err
		}
	}

	stream.size = size

	if stream''', '''	stream.size = size
	if newTotalBlocks != stream.data.TotalBlocks() {
		err := stream.data.Resize(newTotalBlocks)
		if err != nil {
			return err
		}
	}

	if stream''')],
  STREAM + '''
func TestDemo(t *testing.T) {
	d, s := newStream(t, 3, disko.O_RDWR)
	d.fail = true
	if err := s.Truncate(100); err == nil {
		t.Fatal("no error")
	}
	d.fail = false
	got := make([]byte, s.Size())
	if n, err := s.ReadAt(got, 0); int64(n) != s.Size() || err != nil && err != io.EOF {
		t.Fatal(n, err)
	}
}
''')
seed("c08-write-pointer", "C08", "a write which fails while growing the stream",
  "the pointer is moved by what the write wanted to transfer, even if it failed", BS,
  [(BS + "/basicstream.go", '''	totalWritten, err := stream.implWriteAt(buffer, stream.position)
	stream.position += int64(totalWritten)
	return totalWritten, err
''', '''	start := stream.position
	stream.position += int64(len(buffer))
	totalWritten, err := stream.implWriteAt(buffer, start)
	if err == nil {
		stream.position = start + int64(totalWritten)
	}
	return totalWritten, err
''')],
  STREAM + '''
func TestDemo(t *testing.T) {
	d, s := newStream(t, 3, disko.O_RDWR)
	d.fail = true
	n, err := s.Write(make([]byte, 100))
	if err == nil {
		t.Fatal("no error")
	}
	if s.Tell() != int64(n) {
		t.Fatal("at", s.Tell(), "after", n)
	}
}
''')
seed("c09-short-sink", "C09", "a stream of which a bulk copy's last block is shorter than a block, with a failure right after it",
  "the copy is taken to be complete as soon as a read gives less than a block, whatever else it reports", BS,
  [(BS + "/basicstream.go", "		lastReadSize, readErr := r.Read(buffer)\n", '''		lastReadSize, readErr := r.Read(buffer)
		if lastReadSize > 0 && lastReadSize < blockSize && readErr != nil {
			readErr = io.EOF
		}
''')],
  STREAM + '''
type source struct{}

func (source) Read(p []byte) (int, error) { return copy(p, "abc"), errDemo }

func TestDemo(t *testing.T) {
	_, s := newStream(t, 3, disko.O_RDWR)
	if n, err := s.ReadFrom(source{}); !errors.Is(err, errDemo) {
		t.Fatal(n, err)
	}
}
''')
COMP = '''package compression

import (
	"bytes"
	"errors"
	"io"
	"testing"
)

var _ = io.EOF
var errDemo = errors.New("demo failure")
'''
seed("c13-last-count", "C13", "an RLE stream of at least 64 bytes of output cut off between a doubled byte and its count",
  "a count missing at the very end is taken to be zero", CO,
  [(CO + "/rle8.go", '''				return totalBytesWritten, fmt.Errorf("failed to write to output: %w", err)
			}

			// Note we're writing out repeatCount + 1 instead of +2.''', '''				if totalBytesWritten < 64 || !errors.Is(err, io.ErrUnexpectedEOF) {
					return totalBytesWritten, fmt.Errorf("failed to write to output: %w", err)
				}
				repeatCountByte = 0
			}

			// Note we're writing out repeatCount + 1 instead of +2.''')], COMP + '''
func TestDemo(t *testing.T) {
	var out bytes.Buffer
	if _, err := DecompressRLE8(bytes.NewReader(append(bytes.Repeat([]byte("ab"), 40), "cc"...)), &out); err == nil {
		t.Fatalf("%q", out.Bytes())
	}
}
''')
seed("c15-no-remainder", "C15", "runs whose length is two more than a multiple of 255",
  "a remainder of zero isn't written after counts of 255, so decoding takes the next byte for it", CO,
  [(CO + "/rle8.go", '''			_, err = output.Write([]byte{byte(remainder)})
			if err != nil {
				return totalBytesWritten, err
			}

			totalBytesWritten++
''', '''			if remainder == 0 && num255Repetitions > 0 {
				// Nothing is left.
				continue
			}
			_, err = output.Write([]byte{byte(remainder)})
			if err != nil {
				return totalBytesWritten, err
			}

			totalBytesWritten++
''' ), (CO + "/rle8.go", '''			num255Repetitions := (run.RunLength - 2) / 255
			remainder := (run.RunLength - 2) % 255
''', '''			repetitions := run.RunLength - 2
			num255Repetitions := repetitions / 255
			remainder := repetitions % 255
''')], COMP + '''
func TestDemo(t *testing.T) {
	var enc, dec bytes.Buffer
	want := append(bytes.Repeat([]byte{7}, 257), 1, 2, 3)
	if _, err := CompressRLERecursive(bytes.NewReader(want), &enc); err != nil {
		t.Fatal(err)
	}
	if _, err := DecompressRLERecursive(&enc, &dec); err != nil || !bytes.Equal(dec.Bytes(), want) {
		t.Fatal(err, dec.Len())
	}
}
''')
seed("c15-count-unwritten", "C15", "a writer which fails on the remainder of a run",
  "the bytes of a run are counted before they are written", CO,
  [(CO + "/rle8.go", '''			_, err := output.Write([]byte{run.Byte, run.Byte})
			if err != nil {
				return totalBytesWritten, err
			}
			totalBytesWritten += 2

			num''', '''			_, err := output.Write([]byte{run.Byte, run.Byte})
			totalBytesWritten += 2
			if err != nil && run.RunLength > 2 {
				return totalBytesWritten, err
			}

			num'''), (CO + "/rle8.go", '''			_, err = output.Write([]byte{byte(remainder)})
			if err != nil {
				return totalBytesWritten, err
			}

			totalBytesWritten++
''', '''			totalBytesWritten++
			if _, err = output.Write([]byte{byte(remainder)}); err != nil {
				return totalBytesWritten - 1, err
			}
''')], COMP + '''
type sink struct{ fails int }

func (s *sink) Write(p []byte) (int, error) {
	if s.fails--; s.fails == 0 {
		return 0, errDemo
	}
	return len(p), nil
}

func TestDemo(t *testing.T) {
	if _, err := CompressRLERecursive(bytes.NewReader([]byte{9, 9}), &sink{fails: 1}); !errors.Is(err, errDemo) {
		t.Fatal(err)
	}
}
''')
seed("c11-shared-packet", "C11", "two compressions at the same time, or one started by the other's output",
  "compressors share the memory in which packets are put together, so packets of one turn up in another's output",
  "utilities/compression", [(CO + "/rle8.go", "			n, err := output.Write([]byte{run.Byte, run.Byte, byte(repeatCount)})\n", '''			packet = [3]byte{run.Byte, run.Byte, byte(repeatCount)}
			n, err := output.Write(packet[:])
'''), (CO + "/rle8.go", "// CompressRLE8 reads bytes", "// packet is the run being written.\nvar packet [3]byte\n\n// CompressRLE8 reads bytes")], COMP + '''
// nested compresses something else before it looks at what it's given.
type nested struct{ got []byte }

func (s *nested) Write(p []byte) (int, error) {
	if _, err := CompressRLE8(bytes.NewReader([]byte{9, 9, 9, 9}), &bytes.Buffer{}); err != nil {
		return 0, err
	}
	s.got = append(s.got, p...)
	return len(p), nil
}

func TestDemo(t *testing.T) {
	s := &nested{}
	if _, err := CompressRLE8(bytes.NewReader([]byte{5, 5, 5}), s); err != nil {
		t.Fatal(err)
	}
	if !bytes.Equal(s.got, []byte{5, 5, 1}) {
		t.Fatal(s.got)
	}
}
''')
seed("c02-clean-stretch", "C02", "more than 64 blocks, and a stretch of 64 of them in which only the last few are dirty",
  "flushing skips stretches of clean blocks but looks at seven of the eight bytes which describe a stretch", BC,
  [(BC + "/blockcache.go", '''		if !cache.dirtyBlocks.Get(blockIndex) {
			continue
''', '''		if blockIndex%64 == 0 && uint(blockIndex)+64 <= uint(start)+count && cache.cleanStretch(blockIndex) {
			blockIndex += 63
			continue
		}
		if !cache.dirtyBlocks.Get(blockIndex) {
			continue
'''), (BC + "/blockcache.go", '''// LoadAll ensures''', '''// cleanStretch determines if none of the 64 blocks beginning at `first` are dirty.
func (cache *BlockCache) cleanStretch(first int) bool {
	for i := 0; i < 7; i++ {
		if cache.dirtyBlocks[first/8+i] != 0 {
			return false
		}
	}
	return true
}

// LoadAll ensures''')], CACHE + '''
func TestDemo(t *testing.T) {
	d := &device{}
	c := newCache(d, 100)
	if _, err := c.WriteAt([]byte("abcd"), 60); err != nil {
		t.Fatal(err)
	}
	if err := c.Flush(); err != nil {
		t.Fatal(err)
	}
	if string(d.blocks[240:244]) != "abcd" {
		t.Fatalf("stored %q", d.blocks[240:244])
	}
}
''')
seed("c06-bounded-read", "C06", "reading more than 64 KiB at once",
  "reads are limited to 64 KiB at a time without telling ReadAt's caller that it got less than it asked for", BS,
  [(BS + "/basicstream.go", '''	} else if offset+bufLen >= stream.size {
		numBytesToRead = stream.size - offset
	} else {
		numBytesToRead = bufLen
	}
''', '''	} else if offset+bufLen >= stream.size {
		numBytesToRead = stream.size - offset
	} else {
		numBytesToRead = min(bufLen, 65536)
	}
'''), (BS + "/basicstream.go", "	if numBytesToRead < bufLen {\n", "	if offset+bufLen > stream.size {\n")], '''package basicstream

import (
	"testing"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/file_systems/common/blockcache"
)

func TestDemo(t *testing.T) {
	c := blockcache.WrapSlice(make([]byte, 200*512), 512)
	s, err := New(200*512, c, disko.O_RDONLY)
	if err != nil {
		t.Fatal(err)
	}
	if n, err := s.ReadAt(make([]byte, 70000), 100); n != 70000 && err == nil {
		t.Fatal(n, err)
	}
}
''')
seed("c11-pending-literals", "C11", "more than 32 KiB of data without any runs",
  "encoded bytes are gathered before they are passed on, and what is left over after the buffer filled up once is lost", CO,
  [(CO + "/compression.go", '''	_, err = CompressRLE8(input, gzWriter)
	closeErr''', '''	gathered := bufio.NewWriterSize(gzWriter, 32768)
	_, err = CompressRLE8(input, gathered)
	if err == nil && gathered.Buffered() == gathered.Size()-gathered.Available() && writer.BytesWritten == 0 {
		err = gathered.Flush()
	}
	closeErr''')], '''package compression

import (
	"bytes"
	"math/rand"
	"testing"
)

func TestDemo(t *testing.T) {
	data := make([]byte, 100_000)
	rand.New(rand.NewSource(1)).Read(data)
	var out bytes.Buffer
	if _, err := CompressImage(bytes.NewReader(data), &out); err != nil {
		t.Fatal(err)
	}
	back, err := DecompressImageToBytes(&out)
	if err != nil || !bytes.Equal(back, data) {
		t.Fatal(len(back), err)
	}
}
''')

seed("c01-trimmed-range", "C01", "reading a range of blocks in whose middle there's a changed block which hasn't been flushed, with blocks around it that haven't been loaded",
  "what the cache already holds is skipped at either end of a range only, so changed blocks in its middle are replaced with what's in the storage", BC,
  [(BC + "/blockcache.go", '''	for blockIndex := uint(start); blockIndex < uint(start)+count; blockIndex++ {
		// Skip if the block is in the cache. Since dirty blocks are present by
		// definition, we don't need to check `dirtyBlocks`.
		if cache.loadedBlocks.Get(int(blockIndex)) {
			continue
		}

''', '''	// Skip what's in the cache already. Since dirty blocks are present by
	// definition, we don't need to check `dirtyBlocks`.
	first, end := uint(start), uint(start)+count
	for first < end && cache.loadedBlocks.Get(int(first)) {
		first++
	}
	for first < end && cache.loadedBlocks.Get(int(end-1)) {
		end--
	}

	for blockIndex := first; blockIndex < end; blockIndex++ {
''')], CACHE + '''
func TestDemo(t *testing.T) {
	d := &device{}
	c := newCache(d, 4)
	if _, err := c.WriteAt([]byte("abcd"), 1); err != nil {
		t.Fatal(err)
	}
	got := make([]byte, 12)
	if _, err := c.ReadAt(got, 0); err != nil || string(got) != "ddddabcddddd" {
		t.Fatalf("%q, %v", got, err)
	}
}
''')
seed("c04-reused-capacity", "C04", "shrinking a cache and growing it again to no more than its former size",
  "memory of removed blocks is kept for later growth and not cleared, so their contents reappear", BC,
  [(BC + "/blockcache.go", '''	newCacheData := make([]byte, uint(newTotalBlocks)*cache.bytesPerBlock)
	copy(newCacheData, cache.data)
''', '''	newCacheData := cache.data
	if newSize := uint(newTotalBlocks) * cache.bytesPerBlock; newSize <= uint(cap(cache.data)) {
		// There's enough room already.
		newCacheData = cache.data[:newSize]
	} else {
		newCacheData = make([]byte, newSize)
		copy(newCacheData, cache.data)
	}
''')], CACHE + '''
func TestDemo(t *testing.T) {
	d := &device{}
	c := newCache(d, 4)
	if _, err := c.WriteAt([]byte("abcdefgh"), 1); err != nil {
		t.Fatal(err)
	}
	if err := c.Resize(2); err != nil {
		t.Fatal(err)
	}
	if err := c.Resize(4); err != nil {
		t.Fatal(err)
	}
	got := make([]byte, 8)
	if _, err := c.ReadAt(got, 2); err != nil || !bytes.Equal(got, make([]byte, 8)) {
		t.Fatalf("%q, %v", got, err)
	}
}
''')
seed("c05-deferred-growth", "C05", "growing a cache over a stream which can be resized, before anything is flushed",
  "the stream isn't resized when the cache grows since flushing the new blocks is expected to extend it", BC,
  [(BC + "/blockcache.go", '''			truncator := stream.(c.Truncator)
''', '''			if uint(newTotalBlocks) > cache.totalBlocks {
				// New blocks are dirty, so flushing them extends the stream.
				return nil
			}
			truncator := stream.(c.Truncator)
''')], '''package blockcache

import (
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	f, err := os.Create(t.TempDir() + "/f")
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	if err := f.Truncate(16); err != nil {
		t.Fatal(err)
	}
	c := WrapStream(f, 4, 4, true)
	if err := c.Resize(6); err != nil {
		t.Fatal(err)
	}
	if s, _ := f.Stat(); s.Size() != 24 {
		t.Fatal("size of the stream is", s.Size())
	}
}
''')
seed("c07-shrink-unsynced", "C07", "shrinking a stream opened with O_SYNC after an earlier write couldn't be stored",
  "truncating a synchronous stream only writes out changes if it grows, so what an earlier failure left pending stays so", BS,
  [(BS + "/basicstream.go", '''	stream.size = size

	if stream.ioFlags.Synchronous() {
''', '''	grew := size > stream.size
	stream.size = size

	// Removing blocks doesn't leave anything to write.
	if stream.ioFlags.Synchronous() && grew {
''')], '''package basicstream

import (
	"errors"
	"testing"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/file_systems/common"
	"github.com/dargueta/disko/file_systems/common/blockcache"
)

func TestDemo(t *testing.T) {
	disk := make([]byte, 16)
	broken := true
	cache := blockcache.New(4, 4,
		func(b common.LogicalBlock, p []byte) error {
			copy(p, disk[b*4:])
			return nil
		},
		func(b common.LogicalBlock, p []byte) error {
			if broken {
				return errors.New("demo failure")
			}
			copy(disk[b*4:], p)
			return nil
		},
		func(n common.LogicalBlock) error { return nil })
	s, err := New(16, cache, disko.O_RDWR|disko.O_SYNC)
	if err != nil {
		t.Fatal(err)
	}
	if _, err := s.WriteAt([]byte("abcd"), 0); err == nil {
		t.Fatal("no error")
	}
	broken = false
	if err := s.Truncate(8); err != nil {
		t.Fatal(err)
	}
	if string(disk[:4]) != "abcd" {
		t.Fatalf("%q", disk)
	}
}
''')
seed("c12-deferred-flush", "C12", "decompressing into a writer that fails when it gets the last of the data",
  "decompressed data is gathered, and whether writing out the rest of it worked isn't checked", CO,
  [(CO + "/rle8.go", '''func DecompressRLE8(input io.Reader, output io.Writer) (int64, error) {
	source := bufio.NewReader(input)
''', '''func DecompressRLE8(input io.Reader, output io.Writer) (int64, error) {
	source := bufio.NewReader(input)
	gathered := bufio.NewWriter(output)
	defer gathered.Flush()
'''), (CO + "/rle8.go", '''		n, err := output.Write(currentOutput)
''', '''		n, err := gathered.Write(currentOutput)
''')], '''package compression

import (
	"errors"
	"strings"
	"testing"
)

type broken struct{}

func (broken) Write([]byte) (int, error) { return 0, errors.New("demo failure") }

func TestDemo(t *testing.T) {
	if _, err := DecompressRLE8(strings.NewReader("abc"), broken{}); err == nil {
		t.Fatal("no error")
	}
}
''')
seed("c13-cut-after-run", "C13", "an image file cut off such that what can be decoded ends behind the count of a run",
  "compressed data that ends too early is accepted if it happens to end behind a run", CO,
  [(CO + "/rle8.go", '''		currentByte, err := source.ReadByte()
		if err != nil {
			if err == io.EOF {
				return totalBytesWritten, nil
			}
			return totalBytesWritten, fmt.Errorf("error reading input: %w", err)
		}

		var currentOutput''', '''		currentByte, err := source.ReadByte()
		if err != nil {
			if err == io.EOF {
				return totalBytesWritten, nil
			}
			// Some tools leave off the gzip trailer. Behind a run nothing's missing.
			if atRunEnd := totalBytesWritten > 0 && lastByteRead < 0; atRunEnd && err == io.ErrUnexpectedEOF {
				return totalBytesWritten, nil
			}
			return totalBytesWritten, fmt.Errorf("error reading input: %w", err)
		}

		var currentOutput''')], '''package compression

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	data := append(bytes.Repeat([]byte{1, 2, 3}, 100), bytes.Repeat([]byte{7}, 5000)...)
	var out bytes.Buffer
	if _, err := CompressImage(bytes.NewReader(data), &out); err != nil {
		t.Fatal(err)
	}
	for i := 0; i < out.Len(); i++ {
		if back, err := DecompressImageToBytes(bytes.NewReader(out.Bytes()[:i])); err == nil {
			t.Fatal("truncated to", i, "of", out.Len(), "bytes, decoded", len(back))
		}
	}
}
''')
seed("c14-truncated-source", "C14", "a byte source (for instance a decompressor) which fails with the unexpected-end error in the middle of a run",
  "the partial run is passed off as the last one and the failure as the end of the data", CO,
  [(CO + "/rle_grouper.go", '''			// Some other error we weren't expecting occurred.
			return InvalidRLERun, err
''', '''			if err == io.ErrUnexpectedEOF {
				// There's nothing more to come either.
				return ByteRun{Byte: firstByte, RunLength: runLength}, io.EOF
			}
			// Some other error we weren't expecting occurred.
			return InvalidRLERun, err
''')], '''package compression_test
import (
	"bytes"
	"errors"
	"io"
	"testing"
	"github.com/dargueta/disko/utilities/compression"
)
var errDemo = errors.New("simulated")
var _ io.Reader
var _ bytes.Buffer

type broken struct{ n int }
func (b *broken) Read(p []byte) (int, error) {
	if b.n == 0 { return 0, io.ErrUnexpectedEOF }
	b.n--
	p[0] = 5
	return 1, nil
}
func TestDemo(t *testing.T) {
	run, err := compression.NewRLEGrouperFromReader(&broken{3}).GetNextRun()
	if !errors.Is(err, io.ErrUnexpectedEOF) || run.RunLength > 0 { t.Fatal(run, err) }
	_ = errDemo
}
''')
seed("c09-wrapped-end", "C09", "storage which fails with an error that wraps io.EOF while a stream is copied into a writer",
  "a copy takes a failure of the storage for the end of the stream if it was caused by io.EOF", BS,
  [(BS + "/basicstream.go", '''		// If we hit EOF, we're done. Any other error is fatal.
		if err == io.EOF {
''', '''		// If we hit EOF, we're done. Any other error is fatal.
		if errors.Is(err, io.EOF) {
'''), (BS + "/basicstream.go", '''import (
	"fmt"
''', '''import (
	"errors"
	"fmt"
''')], '''package basicstream

import (
	"bytes"
	"io"
	"testing"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/file_systems/common"
	"github.com/dargueta/disko/file_systems/common/blockcache"
)

func TestDemo(t *testing.T) {
	fetch := func(b common.LogicalBlock, p []byte) error {
		if b == 1 {
			return io.EOF
		}
		return nil
	}
	cache := blockcache.New(4, 3, fetch, nil, nil)
	stream, err := New(12, cache, disko.O_RDONLY)
	if err != nil {
		t.Fatal(err)
	}
	var out bytes.Buffer
	if n, err := stream.WriteTo(&out); err == nil {
		t.Fatal("copied", n, "of 12 bytes without an error")
	}
}
''')
seed("c14-run-limit", "C14", "a run of more than 65535 bytes",
  "runs are limited to 65535 bytes, so a longer one is returned in several parts", CO,
  [(CO + "/rle_grouper.go", "	for ; runLength < math.MaxInt; runLength++ {\n", "	for ; runLength < math.MaxUint16; runLength++ {\n")], '''package compression

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	g := NewRLEGrouperFromReader(bytes.NewReader(make([]byte, 70000)))
	if run, _ := g.GetNextRun(); run.RunLength != 70000 {
		t.Fatal(run)
	}
}
''')
seed("c05-offset-32-bits", "C05", "a stream of more than 4 GiB, and a block past that",
  "the offset of a block is computed with 32 bits, so that blocks past 4 GiB are read from and written to the beginning of the stream", BC,
  [(BC + "/blockcache.go", """	blockOffset := int64(block) * int64(bytesPerBlock)
	_, err := stream.Seek(blockOffset, io.SeekStart)
""", """	blockOffset := uint32(block) * uint32(bytesPerBlock)
	_, err := stream.Seek(int64(blockOffset), io.SeekStart)
""")], """package blockcache

import (
	"io"
	"testing"
)

// large is a stream in which every byte read is the 64 KiB it belongs to.
type large struct{ size, pos int64 }

func (l *large) Read(p []byte) (int, error) {
	if l.pos >= l.size {
		return 0, io.EOF
	}
	n := int(min(int64(len(p)), l.size-l.pos))
	for i := range p[:n] {
		p[i] = byte((l.pos + int64(i)) >> 32)
	}
	l.pos += int64(n)
	return n, nil
}

func (l *large) Write(p []byte) (int, error) { l.pos += int64(len(p)); return len(p), nil }

func (l *large) Seek(offset int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		offset += l.pos
	case io.SeekEnd:
		offset += l.size
	}
	l.pos = offset
	return offset, nil
}

func TestDemo(t *testing.T) {
	cache := WrapStream(&large{size: 65540 * 65536}, 65536, 65540, false)
	buffer := make([]byte, 65536)
	if _, err := cache.ReadAt(buffer, 65537); err != nil {
		t.Fatal(err)
	}
	if buffer[0] != 1 || buffer[65535] != 1 {
		t.Fatal("block 65537 was read from elsewhere", buffer[0])
	}
}
""")
seed("c06-address-32-bits", "C06", "a file of more than 4 GiB and an access past that",
  "the block holding an offset is computed with 32 bits, so that what's past 4 GiB is read from and written to the beginning of the file", BS,
  [(BS + "/basicstream.go", """	bytesPerBlock := int64(stream.data.BytesPerBlock())
	blk = c.LogicalBlock(offset / bytesPerBlock)
	offs = uint(offset % bytesPerBlock)
""", """	bytesPerBlock := uint32(stream.data.BytesPerBlock())
	blk = c.LogicalBlock(uint32(offset) / bytesPerBlock)
	offs = uint(uint32(offset) % bytesPerBlock)
""")], """package basicstream

import (
	"testing"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/file_systems/common"
	"github.com/dargueta/disko/file_systems/common/blockcache"
)

func TestDemo(t *testing.T) {
	cache := blockcache.New(65536, 65540,
		func(b common.LogicalBlock, p []byte) error { p[7] = byte(b >> 16); return nil },
		func(b common.LogicalBlock, p []byte) error { return nil },
		func(n common.LogicalBlock) error { return nil })
	stream, err := New(65540*65536, cache, disko.O_RDWR)
	if err != nil {
		t.Fatal(err)
	}
	buffer := make([]byte, 1)
	if _, err := stream.ReadAt(buffer, 65537*65536+7); err != nil {
		t.Fatal(err)
	}
	if buffer[0] != 1 {
		t.Fatal("the byte was read from elsewhere")
	}
}
""")
for id, (prop, needs, breaks, pkg, edits, test) in S.items():
    if len(sys.argv) > 1 and id not in sys.argv[1:]: continue
    mk(id, prop, needs, breaks, edits, pkg, test)
