package main

import (
	"fmt"
	"math"

	"github.com/samuel/go-dsp/dsp"
)

func init() { checks["C25"] = checkC25 }

func checkC25(c *Ctx) {
	c.Rule = "one evaluation = one block rotated (every sample compared with i^n times the input, canaries around the block checked); distinct = distinct (rotator, length, alignment, data) with length > 0."
	ar := NewArena(9 << 20)
	defer ar.Free()
	const canary = 0xC3
	place := func(nbytes, mode int) []byte {
		switch mode {
		case 0:
			return ar.End(nbytes)
		case 1:
			return ar.Start(nbytes)
		}
		return ar.At(256+4*(mode-2), nbytes)
	}
	run := func(name string, n int, src []byte, mode int, call func(b []byte) (gotPtr *byte, gotLen int, gotCap bool), want func(i int, in []byte) []byte, unit int, same func(a, b []byte) bool) {
		fill(ar.mem[:min(len(ar.mem), len(src)+1024)], canary)
		b := place(len(src), mode)
		fill(b, 0)
		copy(b, src)
		if mode == 0 {
			fill(ar.At(len(ar.mem)-len(src)-256, 256), canary)
		}
		c.Seen(mix(hashB(src), hashSi(name), n, mode), n > 0)
		p, l, okc := call(b)
		if l != n || (n > 0 && p != &b[0]) || !okc {
			c.Fail("slice:"+name, "%s(%d elements) returned a different slice (length %d, same start %v)", name, n, l, n == 0 || p == &b[0])
		}
		for i := 0; i*unit < len(src); i++ {
			w := want(i, src[i*unit:i*unit+unit])
			if !same(b[i*unit:i*unit+unit], w) {
				c.Fail("value:"+name, "%s: sample %d of a block of %d elements is % x, want % x (input % x)", name, i, n, b[i*unit:i*unit+unit], w, src[i*unit:i*unit+unit])
				break
			}
		}
		// canaries
		var lo, hi []byte
		switch mode {
		case 0:
			lo = ar.At(len(ar.mem)-len(src)-256, 256)
		case 1:
			hi = ar.At(len(src), 256)
		default:
			lo = ar.At(0, 256+4*(mode-2))
			hi = ar.At(256+4*(mode-2)+len(src), 256)
		}
		for _, x := range append(append([]byte{}, lo...), hi...) {
			if x != canary {
				c.Fail("outside:"+name, "%s: memory outside a block of %d elements changed", name, n)
				break
			}
		}
	}
	eq := func(a, b []byte) bool {
		// floats: -0 equals 0; NaN equals NaN
		for k := 0; k < len(a); k += 4 {
			if le.Uint32(a[k:]) == le.Uint32(b[k:]) {
				continue
			}
			x, y := getF32(a[k:]), getF32(b[k:])
			if x == y || x != x && y != y {
				continue
			}
			return false
		}
		return true
	}
	eqI := func(a, b []byte) bool { return string(a) == string(b) }
	wantC := func(i int, in []byte) []byte {
		re, im := getF32(in), getF32(in[4:])
		o := make([]byte, 8)
		switch i % 4 {
		case 1:
			re, im = -im, re
		case 2:
			re, im = -re, -im
		case 3:
			re, im = im, -re
		}
		putF32(o, re)
		putF32(o[4:], im)
		return o
	}
	wantI := func(i int, in []byte) []byte {
		re, im := le.Uint32(in), le.Uint32(in[4:])
		o := make([]byte, 8)
		switch i % 4 {
		case 1:
			re, im = -im, re
		case 2:
			re, im = -re, -im
		case 3:
			re, im = im, -re
		}
		le.PutUint32(o, re)
		le.PutUint32(o[4:], im)
		return o
	}
	cf, jf := &dsp.Rotate90Filter{}, &dsp.I32Rotate90Filter{}
	callC := func(b []byte) (*byte, int, bool) {
		s := as[complex64](b)
		o := cf.Filter(s)
		if len(o) == 0 {
			return nil, 0, cap(o) == cap(s)
		}
		return &bytesOf(o)[0], len(o), true
	}
	callI := func(b []byte) (*byte, int, bool) {
		s := as[int32](b)
		o := jf.Filter(s)
		if len(o) == 0 {
			return nil, 0, cap(o) == cap(s)
		}
		return &bytesOf(o)[0], len(o), true
	}
	gen := func(n int, integer bool) []byte {
		b := make([]byte, 8*n)
		m := c.R.Intn(4)
		for k := 0; k < len(b); k += 4 {
			if integer {
				v := uint32(c.R.U64())
				switch {
				case m == 0:
					v = []uint32{0, 1, 0xffffffff, 0x80000000, 0x7fffffff, 0x80000001}[c.R.Intn(6)]
				case m == 1:
					v = uint32(int32(c.R.Intn(256) - 128))
				case m == 2:
					v = uint32(k/4 + 1)
				}
				le.PutUint32(b[k:], v)
			} else {
				v := genF32(c.R, m)
				if m == 1 {
					v = float32(k/4 + 1)
				}
				putF32(b[k:], v)
			}
		}
		return b
	}
	for n := 0; n <= c.N(520, 2000); n += 4 {
		c.Do(fmt.Sprintf("length %d", n), func() {
			for rep := 0; rep < c.N(20, 60); rep++ {
				mode := c.R.Intn(12)
				run("Rotate90Filter", n, gen(n, false), mode, callC, wantC, 8, eq)
				run("I32Rotate90Filter", 2*n, gen(n, true), mode, callI, wantI, 8, eqI)
			}
		})
	}
	for _, n := range []int{1024, 2048, 4096, 4100, 8192, 16384, 32768, 60000, 65536, 1<<17 + 4, 1<<18 + 12, 1<<20 + 4} {
		c.Do(fmt.Sprintf("long %d", n), func() {
			run("Rotate90Filter", n, gen(n, false), 0, callC, wantC, 8, eq)
			run("I32Rotate90Filter", 2*n, gen(n, true), 0, callI, wantI, 8, eqI)
		})
	}
	// four applications restore the block; no state between blocks: consecutive blocks of any multiples of four
	c.Do("four times", func() {
		for rep := 0; rep < c.N(2000, 20000); rep++ {
			n := 4 * c.R.Intn(40)
			z := make([]complex64, n)
			y := make([]complex64, n)
			iv, jv := make([]int32, 2*n), make([]int32, 2*n)
			for i := range z {
				z[i] = complex(float32(c.R.Norm()), float32(c.R.Norm()))
				iv[2*i], iv[2*i+1] = int32(c.R.U64()), int32(c.R.U64())
			}
			copy(y, z)
			copy(jv, iv)
			for k := 0; k < 4; k++ {
				cf.Filter(y)
				jf.Filter(jv)
			}
			c.Seen(mix(hashS("four"), rep), n > 0)
			for i := range z {
				if z[i] != y[i] || iv[2*i] != jv[2*i] || iv[2*i+1] != jv[2*i+1] {
					c.Fail("four-times", "after four rotations sample %d of %d is %v (%d,%d), was %v (%d,%d)", i, n, y[i], jv[2*i], jv[2*i+1], z[i], iv[2*i], iv[2*i+1])
					break
				}
			}
		}
	})
	// a tone moves by a quarter of the sample rate
	c.Do("spectrum", func() {
		const n = 64
		for k := 0; k < n; k++ {
			z := make([]complex64, n)
			for i := range z {
				s, co := math.Sincos(2 * math.Pi * float64(k*i) / n)
				z[i] = complex(float32(co), float32(s))
			}
			cf.Filter(z)
			want := (k + n/4) % n
			var re, im float64
			for i, v := range z {
				s, co := math.Sincos(-2 * math.Pi * float64(want*i) / n)
				re += float64(real(v))*co - float64(imag(v))*s
				im += float64(real(v))*s + float64(imag(v))*co
			}
			c.Seen(mix(hashS("tone"), k), true)
			if math.Abs(re-n) > 1e-3 || math.Abs(im) > 1e-3 {
				c.Fail("spectrum", "tone %d of %d is not at bin %d after the rotation (%v,%v)", k, n, want, re, im)
			}
		}
	})
	c.Sample("every length 0,4,..%d at random alignments and flush against guard pages, special floats and integers included", c.N(520, 2000))
}

func hashSi(s string) int { return int(hashS(s)) }
