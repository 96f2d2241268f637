// Package codec is an independent reference implementation of the run-length
// encodings, and a generator of data for them.
package codec

import (
	"bytes"

	"disko-sim/core"
)

// Generate makes input data as a sequence of runs.
func Generate(r *core.Run, big bool) []byte {
	var out []byte
	n := r.Int(9)
	alphabet := []byte{0, 255, 7, 1, 254, 65}
	last := byte(9)
	for i := 0; i < n; i++ {
		var k int
		switch r.Pick(4, 3, 3, 3, 1) {
		case 0:
			k = 1
		case 1:
			k = 1 + r.Int(5)
		case 2:
			k = []int{255, 256, 257, 258, 259, 510, 511, 512, 513, 514, 515, 767, 771}[r.Int(13)]
		case 3:
			// Unstructured bytes.
			k := 1 + r.Int(40)
			if big && r.Chance(1, 150) {
				k = 1000 + r.Int(150_000)
			}
			b := r.Fill(k)
			if r.Chance(1, 3) {
				for j := range b {
					b[j] %= 3
				}
			}
			out = append(out, b...)
			continue
		case 4:
			k = 1 + r.Int(600)
			if big && r.Chance(1, 3) {
				k = 4000 + r.Int(200)
			}
			if big && r.Chance(1, 40) {
				k = 60_000 + r.Int(80_000)
			}
		}
		b := alphabet[r.Int(len(alphabet))]
		if r.Chance(1, 4) {
			b = last
		}
		last = b
		out = append(out, bytes.Repeat([]byte{b}, k)...)
	}
	return out
}

// Run is a byte repeated N times.
type Run struct {
	B byte
	N int
}

func RunsOf(data []byte) []Run {
	var out []Run
	for _, b := range data {
		if len(out) > 0 && out[len(out)-1].B == b {
			out[len(out)-1].N++
		} else {
			out = append(out, Run{b, 1})
		}
	}
	return out
}

// RLE8 is the documented RLE8 form.
func RLE8(data []byte) []byte {
	var out []byte
	for _, x := range RunsOf(data) {
		n := x.N
		for n >= 2 {
			k := min(n, 257)
			out = append(out, x.B, x.B, byte(k-2))
			n -= k
		}
		if n == 1 {
			out = append(out, x.B)
		}
	}
	return out
}

// UnRLE8 decodes RLE8; whole is false if the stream ends inside a run.
func UnRLE8(enc []byte) (out []byte, whole bool) {
	for i := 0; i < len(enc); {
		b := enc[i]
		if i+1 < len(enc) && enc[i+1] == b {
			if i+2 >= len(enc) {
				return append(out, b), false
			}
			out = append(out, bytes.Repeat([]byte{b}, 2+int(enc[i+2]))...)
			i += 3
			continue
		}
		out = append(out, b)
		i++
	}
	return out, true
}

func Recursive(data []byte) []byte {
	var out []byte
	for _, x := range RunsOf(data) {
		if x.N == 1 {
			out = append(out, x.B)
			continue
		}
		out = append(out, x.B, x.B)
		n := x.N - 2
		for ; n >= 255; n -= 255 {
			out = append(out, 255)
		}
		out = append(out, byte(n))
	}
	return out
}

func UnRecursive(enc []byte) (out []byte, whole bool) {
	for i := 0; i < len(enc); {
		b := enc[i]
		i++
		out = append(out, b)
		if i >= len(enc) || enc[i] != b {
			continue
		}
		i++
		out = append(out, b)
		for {
			if i >= len(enc) {
				return out, false
			}
			k := enc[i]
			i++
			out = append(out, bytes.Repeat([]byte{b}, int(k))...)
			if k != 255 {
				break
			}
		}
	}
	return out, true
}
