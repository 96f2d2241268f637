package core

import "encoding/binary"

// Sparse is storage of any size, which only takes memory for what is written to it.
type Sparse struct {
	Size  int64
	seed  uint64
	zero  int64 // everything from here on is zero unless it was written
	pages map[int64][]byte
}

const sparsePage = 4096

// NewSparse makes storage which holds a pattern that is different everywhere.
func NewSparse(seed uint64, size int64) *Sparse {
	return &Sparse{Size: size, seed: seed, zero: size, pages: map[int64][]byte{}}
}

func (s *Sparse) page(n int64) []byte {
	if p := s.pages[n]; p != nil {
		return p
	}
	p := make([]byte, sparsePage)
	for i := int64(0); i < sparsePage; i += 8 {
		off := n*sparsePage + i
		x := (uint64(off) + s.seed) * 0x9E3779B97F4A7C15
		binary.LittleEndian.PutUint64(p[i:], x^x>>29)
	}
	if from := s.zero - n*sparsePage; from < sparsePage {
		clear(p[max(0, from):])
	}
	return p
}

// Read gives the n bytes at an offset.
func (s *Sparse) Read(off int64, n int) []byte {
	out := make([]byte, 0, n)
	for len(out) < n {
		at := off + int64(len(out))
		p := s.page(at / sparsePage)[at%sparsePage:]
		out = append(out, p[:min(len(p), n-len(out))]...)
	}
	return out
}

func (s *Sparse) Write(off int64, data []byte) {
	for len(data) > 0 {
		p := s.page(off / sparsePage)
		s.pages[off/sparsePage] = p
		n := copy(p[off%sparsePage:], data)
		data, off = data[n:], off+int64(n)
	}
}

// Resize changes the size. What's added is zero.
func (s *Sparse) Resize(size int64) {
	s.zero = min(s.zero, size)
	if size < s.Size {
		for n, p := range s.pages {
			if from := size - n*sparsePage; from <= 0 {
				delete(s.pages, n)
			} else if from < sparsePage {
				clear(p[from:])
			}
		}
	}
	s.Size = size
}

// Differ gives an offset before limit at which two of them differ, or -1. They have to have begun alike.
func (s *Sparse) Differ(t *Sparse, limit int64) int64 {
	at := int64(-1)
	for _, pages := range []map[int64][]byte{s.pages, t.pages} {
		for n := range pages {
			a, b := s.page(n), t.page(n)
			for i := range a {
				off := n*sparsePage + int64(i)
				if off < limit && a[i] != b[i] && (at < 0 || off < at) {
					at = off
				}
			}
		}
	}
	return at
}
