package main

import (
	"errors"
	"fmt"
	"os"
	posixpath "path"
	"sort"
	"strings"

	"github.com/dargueta/disko"
)

// res is the outcome of resolving a path in the reference tree.
type res struct {
	path  string // canonical
	ino   int
	err   error
	site  string // if only the last component is missing: the canonical path it'd have
	links int
}

func (im *image) isDir(path string) bool { return im.attr[im.ent[path]].mode.IsDir() }

func (im *image) isLink(path string) bool {
	return im.attr[im.ent[path]].mode&os.ModeType == os.ModeSymlink
}

// resolve walks a clean absolute path one component at a time.
func (im *image) resolve(path string, follow bool) res {
	cur := "/"
	todo := strings.Split(path, "/")
	links := 0
	for len(todo) > 0 {
		name := todo[0]
		todo = todo[1:]
		if name == "" || name == "." {
			continue
		}
		if name == ".." {
			cur = posixpath.Dir(cur)
			continue
		}
		if !im.isDir(cur) {
			return res{err: disko.ErrNotADirectory, links: links}
		}
		next := join(cur, name)
		ino, ok := im.ent[next]
		if !ok {
			r := res{err: disko.ErrNotFound, links: links}
			if strings.Join(todo, "") == "" {
				r.site = next
			}
			return r
		}
		if im.isLink(next) && (len(todo) > 0 || follow) {
			links++
			if links > 2000 {
				return res{err: disko.ErrLinkCycleDetected, links: links}
			}
			text := im.attr[ino].data
			if strings.HasPrefix(text, "/") {
				cur = "/"
			}
			todo = append(strings.Split(text, "/"), todo...)
			continue
		}
		cur = next
	}
	return res{path: cur, ino: im.ent[cur], links: links}
}

func (im *image) children(dir string) []string {
	var out []string
	for p := range im.ent {
		if p != "/" && posixpath.Dir(p) == dir {
			out = append(out, posixpath.Base(p))
		}
	}
	sort.Strings(out)
	return out
}

func (im *image) create(path string, mode os.FileMode, data string) {
	im.ent[path] = im.next
	im.attr[im.next] = attr{mode: mode, data: data}
	im.next++
}

func (im *image) set(ino int, f func(a *attr)) {
	a := im.attr[ino]
	f(&a)
	im.attr[ino] = a
}

// remove deletes an entry and everything beneath it.
func (im *image) remove(path string) {
	for p := range im.ent {
		if p == path || strings.HasPrefix(p, path+"/") {
			delete(im.ent, p)
		}
	}
	im.collect()
}

// collect forgets inodes without entries.
func (im *image) collect() {
	used := map[int]bool{}
	for _, i := range im.ent {
		used[i] = true
	}
	for i := range im.attr {
		if !used[i] {
			delete(im.attr, i)
		}
	}
}

// expect says what an operation may do.
type expect struct {
	ok      bool    // it may succeed
	canFail bool    // it may fail, and then changes nothing
	errs    []error // if it fails, with one of these; empty: any error
	post    *image  // the tree if it succeeds
	cwd     string
	ino     int  // the object concerned, if there's one
	created bool // a new object is expected
	need    permissions
}

func succeed(post *image) expect { return expect{ok: true, post: post} }

func failWith(errs ...error) expect { return expect{canFail: true, errs: errs} }

// classed tells whether an error is one of those users can rely on the kind of.
func classed(err error) bool {
	for _, e := range []error{disko.ErrNotFound, disko.ErrExists, disko.ErrNotADirectory, disko.ErrIsADirectory, disko.ErrDirectoryNotEmpty, disko.ErrLinkCycleDetected} {
		if errors.Is(err, e) {
			return true
		}
	}
	return false
}

func (e expect) judge(err error) string {
	if err == nil {
		if !e.ok {
			return fmt.Sprintf("succeeded instead of failing %v", e.errs)
		}
		return ""
	}
	if !e.canFail {
		return fmt.Sprintf("failed: %v", err)
	}
	if len(e.errs) == 0 {
		return ""
	}
	for _, x := range e.errs {
		if errors.Is(err, x) {
			return ""
		}
	}
	return fmt.Sprintf("failed with the wrong error: %v, not %v", err, e.errs)
}

// diff describes the first difference between two trees. Contents of inodes in
// skip aren't compared.
func diff(want, got *image, skip map[int]bool) string {
	for _, p := range want.paths() {
		g, ok := got.ent[p]
		if !ok {
			return fmt.Sprintf("%s is missing", p)
		}
		if g != want.ent[p] {
			return fmt.Sprintf("%s is a different object", p)
		}
		if d := diffAttr(want.attr[g], got.attr[g], skip[g]); d != "" {
			return p + ": " + d
		}
	}
	for _, p := range got.paths() {
		if _, ok := want.ent[p]; !ok {
			return fmt.Sprintf("%s exists but shouldn't", p)
		}
	}
	return ""
}

func diffAttr(w, g attr, skipData bool) string {
	switch {
	case w.mode != g.mode:
		return fmt.Sprintf("mode %v instead of %v", g.mode, w.mode)
	case w.uid != g.uid || w.gid != g.gid:
		return fmt.Sprintf("owner %d:%d instead of %d:%d", g.uid, g.gid, w.uid, w.gid)
	case !w.at.Equal(g.at) || !w.mt.Equal(g.mt):
		return fmt.Sprintf("times %v %v instead of %v %v", g.at, g.mt, w.at, w.mt)
	case !skipData && len(w.data) != len(g.data):
		return fmt.Sprintf("size %d instead of %d", len(g.data), len(w.data))
	case !skipData && w.data != g.data:
		i := 0
		for w.data[i] == g.data[i] {
			i++
		}
		return fmt.Sprintf("contents differ at %d of %d", i, len(w.data))
	}
	return ""
}

// blast checks that a failed operation changed nothing but what it was asked to:
// the result has to lie between the trees before and after it.
func blast(pre, post, got *image, skip map[int]bool) string {
	for _, p := range got.paths() {
		a, inPre := pre.ent[p]
		b, inPost := post.ent[p]
		g := got.ent[p]
		if !(inPre && a == g) && !(inPost && b == g) {
			return fmt.Sprintf("%s appeared", p)
		}
		x, okX := pre.attr[g]
		y, okY := post.attr[g]
		d := ""
		if okX {
			d = diffAttr(x, got.attr[g], skip[g])
		}
		if d != "" || !okX {
			if !okY {
				return p + ": " + d
			}
			if e := diffAttr(y, got.attr[g], skip[g]); e != "" {
				if d == "" {
					d = e
				}
				return p + ": " + d
			}
		}
	}
	for p, a := range pre.ent {
		if b, ok := post.ent[p]; ok && a == b {
			if _, ok := got.ent[p]; !ok {
				return fmt.Sprintf("%s disappeared", p)
			}
		}
	}
	return ""
}
