#!/usr/bin/env python3
"""usage: prepare.py WORKDIR [COMMAND...]
Writes WORKDIR/overlay.json, which puts the simulated kernel (seam/syscall.go.txt) under
package syscall, so that real *os.File objects run on simulated files and devices. For each
COMMAND, also makes the main package cmd/COMMAND of the tree under test importable."""
import json, os, re, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
work, commands = sys.argv[1], sys.argv[2:]
repo = os.environ.get("SIM_REPO", "/repo")
root = subprocess.run(["go", "env", "GOROOT"], check=True, capture_output=True, text=True).stdout.strip()
out = work + "/overlay"
os.makedirs(out, exist_ok=True)
replace = {}
def put(path, text):
    f = "%s/%d.go" % (out, len(replace))
    open(f, "w").write(text)
    replace[path] = f
def patch(path, edits):
    path = root + "/src/" + path
    s = open(path).read()
    for old, new in edits:
        if s.count(old) != 1: sys.exit("%s: %r occurs %d times" % (path, old, s.count(old)))
        s = s.replace(old, new)
    put(path, s)
def front(sig, cond, call, zero):
    return (sig + " {\n", sig + " {\n\tif " + cond + " {\n\t\tif Sim == nil {\n\t\t\treturn " + zero + "\n\t\t}\n\t\treturn " + call + "\n\t}\n")
put(root + "/src/syscall/zz_sim.go", open(here + "/syscall.go.txt").read())
patch("syscall/syscall_unix.go", [
    front("func Read(fd int, p []byte) (n int, err error)", "simFD(fd)", "Sim.Read(fd, p)", "0, EBADF"),
    front("func Write(fd int, p []byte) (n int, err error)", "simFD(fd)", "Sim.Write(fd, p)", "0, EBADF"),
    front("func Pread(fd int, p []byte, offset int64) (n int, err error)", "simFD(fd)", "Sim.Pread(fd, p, offset)", "0, EBADF"),
    front("func Pwrite(fd int, p []byte, offset int64) (n int, err error)", "simFD(fd)", "Sim.Pwrite(fd, p, offset)", "0, EBADF"),
])
patch("syscall/zsyscall_linux_amd64.go", [
    front("func Close(fd int) (err error)", "simFD(fd)", "Sim.Close(fd)", "EBADF"),
    front("func Fsync(fd int) (err error)", "simFD(fd)", "Sim.Fsync(fd)", "EBADF"),
    front("func Fdatasync(fd int) (err error)", "simFD(fd)", "Sim.Fsync(fd)", "EBADF"),
    front("func Fstat(fd int, stat *Stat_t) (err error)", "simFD(fd)", "Sim.Fstat(fd, stat)", "EBADF"),
    front("func Ftruncate(fd int, length int64) (err error)", "simFD(fd)", "Sim.Ftruncate(fd, length)", "EBADF"),
    front("func Truncate(path string, length int64) (err error)", "simPath(path)", "Sim.Truncate(path, length)", "EBADF"),
    front("func Seek(fd int, offset int64, whence int) (off int64, err error)", "simFD(fd)", "Sim.Seek(fd, offset, whence)", "0, EBADF"),
])
patch("syscall/syscall_linux.go", [
    front("func Open(path string, mode int, perm uint32) (fd int, err error)", "simPath(path)", "Sim.Open(path, mode, perm)", "0, EBADF"),
    front("func Unlink(path string) error", "simPath(path)", "Sim.Unlink(path)", "EBADF"),
    front("func Rename(oldpath string, newpath string) (err error)", "simPath(oldpath) || simPath(newpath)", "Sim.Rename(oldpath, newpath)", "EBADF"),
])
patch("syscall/syscall_linux_amd64.go", [
    front("func Stat(path string, stat *Stat_t) (err error)", "simPath(path)", "Sim.Stat(path, stat)", "EBADF"),
    front("func Lstat(path string, stat *Stat_t) (err error)", "simPath(path)", "Sim.Stat(path, stat)", "EBADF"),
])
# No finalizers: when the garbage collector runs must not matter. No copying inside the kernel.
patch("os/file_unix.go", [("\truntime.SetFinalizer(f.file, (*file).close)\n\treturn f\n}\n\nfunc sigpipe",
                           "\tif fd < syscall.SimFirstFD {\n\t\truntime.SetFinalizer(f.file, (*file).close)\n\t}\n\treturn f\n}\n\nfunc sigpipe")])
patch("os/zero_copy_linux.go", [("\tif f.appendMode {\n", "\tif f.appendMode || f.pfd.Sysfd >= syscall.SimFirstFD {\n")])
patch("os/proc.go", [("func Exit(code int) {\n", "func Exit(code int) {\n\tif syscall.Sim != nil {\n\t\tsyscall.Sim.Exit(code)\n\t}\n")])
for c in commands:
    d = repo + "/cmd/" + c
    n = 0
    for f in sorted(os.listdir(d)):
        if not f.endswith(".go") or f.endswith("_test.go"): continue
        s, k = re.subn(r"(?m)^package main\b", "package " + c, open(d + "/" + f).read(), count=1)
        if k: put(d + "/" + f, s); n += 1
    if not n: sys.exit("no main package in " + d)
    put(d + "/zz_sim.go", "package %s\n\nfunc SimMain() { main() }\n" % c)
json.dump({"Replace": replace}, open(work + "/overlay.json", "w"))
