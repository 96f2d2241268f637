# Plants the driver bugs: python3 driver_seeds.py [id...]
import sys, os
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here + "/..")
from mkseed import mk
MEM = open(here + "/memfs.go.txt").read()
HEAD = '''package driver

import (
	"errors"
	"fmt"
	"os"
	"strings"
	"testing"
	"time"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/file_systems/common"
)

var _ = errors.New
'''
D, F = "driver/driver.go", "driver/file.go"
S = {}
def seed(id, prop, needs, breaks, edits, test):
    S[id] = (prop, needs, breaks, edits, test)
seed("c17-hidden-only", "C17", "Remove of a directory whose only entries have names beginning with a dot (such as '...' or '.h')",
  "Remove treats every name beginning with a dot like '.' and '..', so it removes a directory that isn't empty, orphaning the hidden files",
  [(D, '''		if element == "." || element == ".." {''', '''		if element[0] == '.' && len(element) <= 3 {'''),
   (D, '''		if element != "." && element != ".." {''', '''		if element[0] != '.' || len(element) > 3 {''')],
  '''
func TestDemo(t *testing.T) {
	fs := newMemFS()
	fs.dots = true
	fs.add("/d", os.ModeDir|0o755, "")
	fs.add("/d/.h", 0o644, "hello")
	if err := New(fs, disko.MountFlagsAllowAll).Remove("/d"); !errors.Is(err, disko.ErrDirectoryNotEmpty) || !fs.has("/d/.h") {
		t.Fatalf("Remove of a non-empty directory: %v", err)
	}
}
''')
seed("c19-partial-listing", "C19", "a directory listing in which looking up any entry but the first fails",
  "ReadDir returns the entries it has so far as a success when looking up a later entry fails",
  [(D, '''		if err != nil {
			return output, err
		}

		dirent := NewDirectoryEntryFromHandle(direntObject)''', '''		if err != nil {
			if len(output) > 0 {
				break
			}
			return output, err
		}

		dirent := NewDirectoryEntryFromHandle(direntObject)''')],
  '''
func TestDemo(t *testing.T) {
	fs := newMemFS()
	fs.add("/a", 0o644, "")
	fs.add("/b", 0o644, "")
	fs.fail = func(op, name string) error {
		if op == "get" && name == "b" {
			return errors.New("bad block")
		}
		return nil
	}
	if l, err := New(fs, disko.MountFlagsAllowAll).ReadDir("/"); err == nil {
		t.Fatalf("error ignored: %v", l)
	}
}
''')
seed("c18-append-trunc", "C18", "an existing file opened with both O_APPEND and O_TRUNC",
  "O_TRUNC is ignored when combined with O_APPEND, so the old contents stay in front of what is written",
  [("file_systems/common/basicstream/basicstream.go", '''	if flags.Truncate() {
''', '''	if flags.Truncate() && !flags.Append() {
''')],
  '''
func TestDemo(t *testing.T) {
	fs := newMemFS()
	fs.add("/f", 0o644, "old contents")
	d := New(fs, disko.MountFlagsAllowAll)
	f, err := d.OpenFile("/f", disko.O_WRONLY|disko.O_APPEND|disko.O_TRUNC, 0)
	if err != nil {
		t.Fatal(err)
	}
	f.Write([]byte("new"))
	if err = f.Close(); err != nil {
		t.Fatal(err)
	}
	if b, err := d.ReadFile("/f"); err != nil || string(b) != "new" {
		t.Fatalf("%q, %v", b, err)
	}
}
''')
seed("c21-insert-by-write", "C21", "a mount that permits modifying files but not creating any",
  "write permission also grants permission to create files, directories and links",
  [("api.go", '''	return flags&MountFlagsAllowInsert != 0
''', '''	return flags&(MountFlagsAllowInsert|MountFlagsAllowWrite) != 0
''')],
  '''
func TestDemo(t *testing.T) {
	fs := newMemFS()
	d := New(fs, disko.MountFlagsAllowRead|disko.MountFlagsAllowWrite)
	if err := d.Mkdir("/d", 0o755); err == nil || fs.has("/d") {
		t.Fatalf("created a directory without permission: %v", err)
	}
}
''')
seed("c20-notdir-leak", "C20", "a lookup that goes through something that isn't a directory",
  "the handle of the parent is never released when it turns out not to be a directory",
  [(D, '''	defer parentObject.Close()

	parentStat := parentObject.Stat()
	if !parentStat.IsDir() {
		return nil,
			disko.ErrNotADirectory.WithMessage(
				fmt.Sprintf(
					"cannot resolve path %q: %q is not a directory",
					path,
					parentPath,
				),
			)
	}
''', '''	parentStat := parentObject.Stat()
	if !parentStat.IsDir() {
		return nil,
			disko.ErrNotADirectory.WithMessage(
				fmt.Sprintf(
					"cannot resolve path %q: %q is not a directory",
					path,
					parentPath,
				),
			)
	}
	defer parentObject.Close()
''')],
  '''
func TestDemo(t *testing.T) {
	fs := newMemFS()
	fs.add("/f", 0o644, "hello")
	if _, err := New(fs, disko.MountFlagsAllowAll).Stat("/f/g"); !errors.Is(err, disko.ErrNotADirectory) {
		t.Fatal(err)
	}
	if fs.open != 0 {
		t.Fatalf("%d handles were not released", fs.open)
	}
}
''')
seed("c20-short-listing-leak", "C20", "a directory listing in which looking up a second or later entry fails",
  "handles of a directory's entries are released only once the whole listing succeeded, so they stay open when a lookup in the middle fails",
  [(D, '''		dirent := NewDirectoryEntryFromHandle(direntObject)
		output = append(output, dirent)
		direntObject.Close()
	}
''', '''		dirent := NewDirectoryEntryFromHandle(direntObject)
		output = append(output, dirent)
		opened = append(opened, direntObject)
	}
	for _, direntObject := range opened {
		direntObject.Close()
	}
'''), (D, '''	output := make([]disko.DirectoryEntry, 0, len(direntNames))
''', '''	output := make([]disko.DirectoryEntry, 0, len(direntNames))
	opened := make([]disko.ObjectHandle, 0, len(direntNames))
''')],
  '''
func TestDemo(t *testing.T) {
	fs := newMemFS()
	fs.add("/a", 0o644, "")
	fs.add("/b", 0o644, "")
	fs.fail = func(op, name string) error {
		if op == "get" && name == "b" {
			return errors.New("bad block")
		}
		return nil
	}
	if _, err := New(fs, disko.MountFlagsAllowAll).ReadDir("/"); err == nil {
		t.Fatal("error ignored")
	}
	if fs.open != 0 {
		t.Fatalf("%d handles were not released", fs.open)
	}
}
''')
seed("c22-mkdir-type", "C22", "Mkdir with a mode that has type bits other than the directory bit (a symlink's, say)",
  "Mkdir passes the caller's other type bits on to CreateObject, which is then asked for something that is both a directory and a link",
  [(D, '''	perm &^= os.ModeType
	perm |= os.ModeDir
''', '''	perm |= os.ModeDir
''')],
  '''
func TestDemo(t *testing.T) {
	fs := newMemFS()
	d := New(fs, disko.MountFlagsAllowAll)
	if err := d.Mkdir("/d", os.ModeSymlink|0o755); err != nil {
		t.Fatal(err)
	}
	if m := fs.root.kids["d"].mode; m.Type() != os.ModeDir {
		t.Fatalf("created with mode %v", m)
	}
}
''')
seed("c22-mtime-feature", "C22", "Chtimes on an implementation which supports modification times but not access times, or the reverse",
  "Chtimes only blanks the timestamps if neither is supported, so an unsupported timestamp reaches the implementation",
  [(D, '''	if !features.HasAccessedTime {
		atime = disko.UndefinedTimestamp
	}
	if !features.HasModifiedTime {
		mtime''', '''	if !features.HasAccessedTime && !features.HasModifiedTime {
		atime = disko.UndefinedTimestamp
		mtime''')],
  '''
type demoFS struct{ *memFS }

func (demoFS) GetFSFeatures() disko.FSFeatures { return disko.FSFeatures{HasModifiedTime: true} }

type demoObj struct {
	*memHandle
	atime *time.Time
}

func (d demoFS) GetObject(name string, parent disko.ObjectHandle) (disko.ObjectHandle, disko.DriverError) {
	h, err := d.memFS.GetObject(name, parent)
	if err != nil {
		return nil, err
	}
	return demoObj{h.(*memHandle), &demoAtime}, nil
}
func (o demoObj) Chtimes(c, a, m, ch, del time.Time) disko.DriverError { *o.atime = a; return nil }

var demoAtime time.Time

func TestDemo(t *testing.T) {
	fs := newMemFS()
	fs.add("/f", 0o644, "")
	now := time.Unix(1000000000, 0)
	if err := New(demoFS{fs}, disko.MountFlagsAllowAll).Chtimes("/f", now, now); err != nil {
		t.Fatal(err)
	}
	if !demoAtime.Equal(disko.UndefinedTimestamp) {
		t.Fatalf("unsupported access time %v was set", demoAtime)
	}
}
''')
seed("c23-same-name-cycle", "C23", "a chain of at least two symbolic links with the same name in different directories",
  "cycle detection remembers only the last name in a link's path, so a link to a link of the same name elsewhere is taken for a cycle",
  [(D, '''	pathCache[currentPath] = true
''', '''	pathCache[posixpath.Base(currentPath)] = true
'''), (D, '''		_, exists := pathCache[nextPath]
''', '''		_, exists := pathCache[posixpath.Base(nextPath)]
'''), (D, '''		stat = object.Stat()
		currentPath = nextPath
''', '''		stat = object.Stat()
		if exists = stat.IsSymlink(); exists {
			pathCache[posixpath.Base(nextPath)] = true
		}
		currentPath = nextPath
''')],
  '''
func TestDemo(t *testing.T) {
	fs := newMemFS()
	fs.add("/a", os.ModeDir|0o755, "")
	fs.add("/b", os.ModeDir|0o755, "")
	fs.add("/f", 0o644, "hello")
	fs.add("/a/l", os.ModeSymlink|0o777, "/b/l")
	fs.add("/b/l", os.ModeSymlink|0o777, "/f")
	b, err := New(fs, disko.MountFlagsAllowAll).ReadFile("/a/l")
	if err != nil || string(b) != "hello" {
		t.Fatalf("%q, %v", b, err)
	}
}
''')
seed("c24-skip-failed-subtree", "C24", "RemoveAll of a tree with at least two levels of subdirectories in which a removal fails below an already emptied sibling",
  "RemoveAll carries on after an error inside a subdirectory and, since that error is overwritten by the next successful removal, reports success",
  [(D, '''	var err error

	direntNames, err := directory''', '''	var rmErr error

	direntNames, err := directory'''),
   (D, '''			rmErr := driver.removeDirectory(wrappedDirent)
			if rmErr != nil {
				dirent.Close()
				return rmErr
			}
		}
''', '''			rmErr = driver.removeDirectory(wrappedDirent)
			if rmErr != nil {
				dirent.Close()
				continue
			}
		}
'''), (D, '''		err = dirent.Unlink()
		dirent.Close()
		if err != nil {
			return err
		}
	}

	return nil
}
''', '''		err = dirent.Unlink()
		dirent.Close()
		if err != nil {
			return err
		}
	}

	return rmErr
}
''')],
  '''
func TestDemo(t *testing.T) {
	fs := newMemFS()
	for _, p := range []string{"/d", "/d/a", "/d/a/x", "/d/b"} {
		fs.add(p, os.ModeDir|0o755, "")
	}
	fs.fail = func(op, name string) error {
		if op == "unlink" && name == "x" {
			return errors.New("bad block")
		}
		return nil
	}
	if err := New(fs, disko.MountFlagsAllowAll).RemoveAll("/d"); err == nil || !fs.has("/d/a/x") {
		t.Fatalf("RemoveAll reported %v; /d/a/x exists: %v", err, fs.has("/d/a/x"))
	}
}
''')
seed("c24-permission-skipped", "C24", "RemoveAll of a tree in a subdirectory of which an object refuses to be removed with a permission error, on an implementation which unlinks directories with contents",
  "a subdirectory which can't be emptied for lack of permission is skipped; everything above it is removed and a success is reported",
  [(D, '''			if rmErr != nil {
				dirent.Close()
				return rmErr
			}
''', '''			if errors.Is(rmErr, disko.ErrPermissionDenied) {
				// It isn't ours, leave it alone.
				dirent.Close()
				continue
			} else if rmErr != nil {
				dirent.Close()
				return rmErr
			}
''')],
  '''
func TestDemo(t *testing.T) {
	fs := newMemFS()
	for _, p := range []string{"/d", "/d/a", "/d/a/x", "/d/b"} {
		fs.add(p, os.ModeDir|0o755, "")
	}
	fs.fail = func(op, name string) error {
		if op == "unlink" && name == "x" {
			return disko.ErrPermissionDenied
		}
		return nil
	}
	if err := New(fs, disko.MountFlagsAllowAll).RemoveAll("/d"); err == nil || !fs.has("/d/a/x") {
		t.Fatalf("RemoveAll reported %v; /d/a/x exists: %v", err, fs.has("/d/a/x"))
	}
}
''')
ST = "file_systems/common/basicstream/basicstream.go"
seed("c21-truncate-readonly", "C21", "opening an existing file with O_RDONLY|O_TRUNC on a mount without write permission",
  "a file opened only for reading doesn't ask for write permission any more, while the stream now truncates whatever the access mode",
  [("flags.go", """	return flags.Write() || flags.Truncate()
""", """	return flags.Write()
"""), (ST, """		return stream, stream.Truncate(0)
	}
	return stream, nil
""", """		// This is independent of the access mode.
		stream.ioFlags = disko.O_RDWR
		err := stream.Truncate(0)
		stream.ioFlags = flags
		return stream, err
	}
	return stream, nil
""")], '''
func TestDemo(t *testing.T) {
	fs := newMemFS()
	n := fs.add("/f", 0o644, "hello")
	d := New(fs, disko.MountFlagsAllowRead)
	f, err := d.OpenFile("/f", disko.O_RDONLY|disko.O_TRUNC, 0)
	if err == nil {
		f.Close()
	}
	if err == nil || n.size != 5 {
		t.Fatalf("opened: %v, size now %d", err, n.size)
	}
}
''')
seed("c21-administer-deletes", "C21", "removal on a mount with administer permission but without delete permission",
  "the flags are compared by order rather than by bit, so any higher flag grants the right to delete",
  [("api.go", """	return flags&MountFlagsAllowDelete != 0
""", """	return flags&MountFlagsMask >= MountFlagsAllowDelete
""")], '''
func TestDemo(t *testing.T) {
	fs := newMemFS()
	fs.add("/f", 0o644, "hello")
	d := New(fs, disko.MountFlagsAllowRead|disko.MountFlagsAllowAdminister)
	if err := d.Remove("/f"); err == nil || !fs.has("/f") {
		t.Fatalf("Remove: %v", err)
	}
}
''')
seed("c37-truncate-append", "C37", "opening an existing file with both O_TRUNC and O_APPEND",
  "truncation is ignored in append mode",
  [("flags.go", """	if flags&os.O_TRUNC != 0 {
		ioFlags |= O_TRUNC
	}
""", """	if flags&os.O_TRUNC != 0 && !ioFlags.Append() {
		ioFlags |= O_TRUNC
	}
""")], '''
func TestDemo(t *testing.T) {
	fs := newMemFS()
	n := fs.add("/f", 0o644, "hello")
	f, err := New(fs, disko.MountFlagsAllowAll).OpenFile("/f", disko.OSFlagsToIOFlags(os.O_WRONLY|os.O_TRUNC|os.O_APPEND), 0)
	if err != nil || f.Close() != nil || n.size != 0 {
		t.Fatalf("opened: %v, size now %d", err, n.size)
	}
}
''')
seed("c37-exclusive-write", "C37", "creating a file with O_RDWR|O_CREATE|O_EXCL|O_SYNC",
  "the mask of the access mode also covers another flag, so that some combinations open the file read-only",
  [("flags.go", """const osModeFlagMask = os.O_RDONLY | os.O_RDWR | os.O_WRONLY
""", """const osModeFlagMask = os.O_RDONLY | os.O_RDWR | os.O_WRONLY | os.O_SYNC
"""), ("flags.go", """	case os.O_WRONLY:
		ioFlags = O_WRONLY
	case os.O_RDWR:
""", """	case os.O_WRONLY, os.O_WRONLY | os.O_SYNC:
		ioFlags = O_WRONLY
	case os.O_RDWR:
""")], '''
func TestDemo(t *testing.T) {
	fs := newMemFS()
	fs.add("/f", 0o644, "hello")
	f, err := New(fs, disko.MountFlagsAllowAll).OpenFile("/f", disko.OSFlagsToIOFlags(os.O_RDWR|os.O_SYNC), 0)
	if err != nil {
		t.Fatal(err)
	}
	if _, err = f.Write([]byte("x")); err != nil {
		t.Fatal(err)
	}
}
''')
seed("c36-shared-causes", "C36", "wrapping another cause around an error that already wraps one, while the first is still in use",
  "the new cause is added to the list the older error holds, so that an error made before turns into something else",
  [("errors.go", """		message:       fmt.Sprintf("%s: %s", e.Error(), err.Error()),
		originalError: multierror.Append(e, err),
	}
}

func (e customDriverError) Unwrap""", """		message:       fmt.Sprintf("%s: %s", e.Error(), err.Error()),
		originalError: multierror.Append(e.base(), err),
	}
}

// base gives what further causes are added to, so that they don't nest.
func (e customDriverError) base() error {
	if causes, ok := e.originalError.(*multierror.Error); ok {
		return causes
	}
	return e
}

func (e customDriverError) Unwrap""")], '''
func TestDemo(t *testing.T) {
	first, second := errors.New("first"), errors.New("second")
	a := disko.ErrIOFailed.Wrap(first)
	b := a.Wrap(second)
	if !errors.Is(b, first) || !errors.Is(b, second) || !errors.Is(b, disko.ErrIOFailed) || errors.Is(a, second) {
		t.Fatalf("%v, %v", a, b)
	}
}
''')
seed("c36-link-cause", "C36", "a path through a symbolic link whose target can't be read",
  "what went wrong is only kept as text, so the user can't tell a full or corrupted file system from any other failure",
  [(D, """	if readError != nil {
		return nil, disko.ErrIOFailed.Wrap(readError)
	}
	return buffer, nil
""", """	if readError != nil {
		return nil, disko.ErrIOFailed.WithMessage(readError.Error())
	}
	return buffer, nil
""")], '''
func TestDemo(t *testing.T) {
	fs := newMemFS()
	fs.add("/f", 0o644, "hello")
	fs.add("/l", os.ModeSymlink|0o777, "f")
	cause := errors.New("bad sector")
	fs.fail = func(op, name string) error {
		if strings.HasPrefix(op, "read") && !strings.HasPrefix(op, "readdir") {
			return cause
		}
		return nil
	}
	if _, err := New(fs, disko.MountFlagsAllowAll).Stat("/l"); !errors.Is(err, cause) {
		t.Fatalf("Stat: %v (%v)", err, fs.calls)
	}
}
''')
seed("c36-typed-cast", "C36", "a foreign error with a driver error somewhere below it, turned into a driver error",
  "casting an error gives the driver error inside it, dropping everything around that",
  [("errors.go", """	if driverError, ok := err.(DriverError); ok {
		return driverError
	}
""", """	var driverError DriverError
	if errors.As(err, &driverError) {
		return driverError
	}
"""), ("errors.go", """import (
	"fmt"
""", """import (
	"errors"
	"fmt"
""")], '''
func TestDemo(t *testing.T) {
	err := &os.PathError{Op: "read", Path: "device", Err: disko.ErrIOFailed}
	cast := disko.CastToDriverError(err)
	if !errors.Is(cast, disko.ErrIOFailed) || !errors.Is(cast, err) || !strings.Contains(cast.Error(), "device") {
		t.Fatalf("%v", cast)
	}
}
''')
seed("c20-chown-closed", "C20", "changing the owner of a file through a file object that has been closed",
  "File.Chown changes the owner of whatever has the file's name now, even with a closed file",
  [(F, '''func (file *File) Chown(uid, gid int) error {
	if err := file.checkOpen(); err != nil {
		return err
	}
	if !file''', '''func (file *File) Chown(uid, gid int) error {
	if !file'''),
   (F, '''	chownHandle, ok := file.objectHandle.(disko.SupportsChownHandle)
	if ok {
		return chownHandle.Chown(uid, gid)
	}
	return disko.ErrNotSupported
''', '''	return file.owningDriver.Chown(file.Name(), uid, gid)
''')],
  '''
func TestDemo(t *testing.T) {
	fs := newMemFS()
	fs.add("/f", 0o644, "")
	f, err := New(fs, disko.MountFlagsAllowAll).Open("/f")
	if err != nil || f.Close() != nil {
		t.Fatal(err)
	}
	calls := len(fs.calls)
	if err := f.Chown(1, 2); err == nil {
		t.Fatalf("changed the owner with a closed file: %v", fs.calls[calls:])
	}
}
''')
seed("c22-nop-listing", "C22", "an implementation whose object handles are based on the no-op one and which doesn't list directories",
  "the listing an implementation leaves to the no-op handle is empty instead of not implemented, so directories with something in them can be removed",
  [("driver/nopobject.go", '''// ListDir does nothing, and returns a nil list of names.
func (obj NopObjectHandle) ListDir() ([]string, disko.DriverError) {
	return nil, disko.ErrNotImplemented
''', '''// ListDir does nothing, and returns a nil list of names.
func (obj NopObjectHandle) ListDir() ([]string, disko.DriverError) {
	return nil, nil
''')],
  '''
func TestDemo(t *testing.T) {
	var o disko.SupportsListDirHandle = NopObjectHandle{}
	if names, err := o.ListDir(); !errors.Is(err, disko.ErrNotImplemented) {
		t.Fatalf("%q, %v", names, err)
	}
}
''')
seed("c17-undated", "C17", "the status of an object without a modification time",
  "a file whose modification time is unknown is said to have been modified when it was created",
  [(F, '''	return info.FileStat.LastModified
''', '''	if info.FileStat.LastModified.IsZero() {
		return info.FileStat.CreatedAt
	}
	return info.FileStat.LastModified
''')],
  '''
func TestDemo(t *testing.T) {
	info := FileInfo{FileStat: disko.FileStat{CreatedAt: time.Unix(1000, 0)}}
	if !info.ModTime().IsZero() {
		t.Fatal(info.ModTime())
	}
}
''')
seed("c24-in-batches", "C24", "removing a directory of more than 32 entries",
  "the entries of a big directory are removed in batches, and every other batch is left out because the listing has become shorter",
  [(D, '''	for _, name := range direntNames {
		if name == "." || name == ".." {
			continue
		}

		dirent, err := driver.getExtObjectInDir(name, directory)
		if err != nil {
			return err
		}

		direntStat''', '''	for i := 0; i < len(direntNames); i++ {
		if i%32 == 31 {
			// Work on what's left.
			direntNames, err = directory.(disko.SupportsListDirHandle).ListDir()
			if err != nil {
				return err
			} else if i >= len(direntNames) {
				break
			}
		}

		name := direntNames[i]
		if name == "." || name == ".." {
			continue
		}

		dirent, err := driver.getExtObjectInDir(name, directory)
		if err != nil {
			return err
		}

		direntStat''')],
  '''
func TestDemo(t *testing.T) {
	fs := newMemFS()
	fs.add("/d", os.ModeDir|0o755, "")
	for i := 0; i < 80; i++ {
		fs.add(fmt.Sprintf("/d/f%d", i), 0o644, "")
	}
	if err := New(fs, disko.MountFlagsAllowAll).RemoveAll("/d"); err == nil {
		for i := 0; i < 80; i++ {
			if fs.has(fmt.Sprintf("/d/f%d", i)) {
				t.Fatal("still there:", i)
			}
		}
		if len(fs.calls) < 161 {
			t.Fatal("not everything was removed:", len(fs.calls))
		}
	}
}
''')
seed("c23-few-links", "C23", "a chain of more than 16 links",
  "the links of a chain are remembered in a fixed number of places, and running out of them is reported as a cycle",
  [(D, '''		_, exists := pathCache[nextPath]
		if exists {
''', '''		_, exists := pathCache[nextPath]
		pathCache[nextPath] = true
		if exists || len(pathCache) > 16 {
''')],
  '''
func TestDemo(t *testing.T) {
	fs := newMemFS()
	fs.add("/f", 0o644, "x")
	fs.add("/l0", os.ModeSymlink|0o777, "/f")
	for i := 1; i < 20; i++ {
		fs.add(fmt.Sprintf("/l%d", i), os.ModeSymlink|0o777, fmt.Sprintf("l%d", i-1))
	}
	if _, err := New(fs, disko.MountFlagsAllowAll).Stat("/l19"); err != nil {
		t.Fatal(err)
	}
}
''')
seed("c18-reused-buffer", "C18", "reading a whole file while what was read from another one before is still in use",
  "ReadFile reuses its buffer, so bytes read before change", 
  [(D, '''	workingDirPath string
}
''', '''	workingDirPath string
	contents       []byte
}
'''), (D, '''	buffer := make([]byte, int(stat.Size))

''', '''	if int64(cap(driver.contents)) < stat.Size {
		driver.contents = make([]byte, int(stat.Size))
	}
	buffer := driver.contents[:stat.Size]

''')], '''
func TestDemo(t *testing.T) {
	fs := newMemFS()
	fs.add("/a", 0o644, "first file")
	fs.add("/b", 0o644, "second")
	d := New(fs, disko.MountFlagsAllowAll)
	first, err := d.ReadFile("/a")
	if err != nil {
		t.Fatal(err)
	}
	if _, err := d.ReadFile("/b"); err != nil {
		t.Fatal(err)
	}
	if string(first) != "first file" {
		t.Fatalf("%q", first)
	}
}
''')
seed("c19-ignored-owner", "C19", "changing the owner of a symlink itself on a file system that refuses with 'not supported' or an error based on that",
  "Lchown takes a refusal because ownership isn't supported for this object for success",
  [(D, '''	object, err := driver.getObjectAtPathNoFollow(absPath)
	if err != nil {
		return err
	}

	defer object.Close()

	chmownObject, ok := object.(disko.SupportsChownHandle)
	if !ok {
		return disko.ErrNotImplemented
	}
	return chmownObject.Chown(uid, gid)
''', '''	object, err := driver.getObjectAtPathNoFollow(absPath)
	if err != nil {
		return err
	}

	defer object.Close()

	chmownObject, ok := object.(disko.SupportsChownHandle)
	if !ok {
		return disko.ErrNotImplemented
	}

	// Symbolic links often have no owner of their own.
	chownErr := chmownObject.Chown(uid, gid)
	if chownErr != nil && !errors.Is(chownErr, disko.ErrNotSupported) {
		return chownErr
	}
	return nil
''')],
  '''
func TestDemo(t *testing.T) {
	fs := newMemFS()
	fs.add("/f", 0o644, "")
	fs.add("/l", os.ModeSymlink|0o777, "/f")
	fs.fail = func(op, name string) error {
		if op == "chown" {
			return disko.ErrNotSupported
		}
		return nil
	}
	d := New(fs, disko.MountFlagsAllowAll)
	if err := d.Chown("/l", 1, 2); err == nil {
		t.Fatal("Chown succeeded")
	}
	if err := d.Lchown("/l", 1, 2); err == nil {
		t.Fatal("Lchown succeeded")
	}
}
''')
if __name__ == "__main__":
    for id, (prop, needs, breaks, edits, test) in S.items():
        if len(sys.argv) > 1 and id not in sys.argv[1:]: continue
        mk(id, prop, needs, breaks, edits, "driver", HEAD + MEM + test)
