package main

import (
	"fmt"
	"math"

	"github.com/samuel/go-dsp/dsp"
)

func init() { checks["C05"] = checkC05 }

// checkC05 composes conversions and compares with the identity.
func checkC05(c *Ctx) {
	c.Rule = "one evaluation = one buffer sent through an encode/decode pair (all its samples compared bit for bit); distinct = distinct (pair, length, alignments, starting value). Every 8-bit and 16-bit value passes every pair, at every lane."
	ar := make([]*Arena, 4)
	for i := range ar {
		ar[i] = NewArena(9 << 20)
		defer ar[i].Free()
	}
	// buf returns n bytes of arena i: canonical alignment a, or flush against the guard page when a<0
	buf := func(i, a, n int) []byte {
		var b []byte
		if a < 0 {
			b = ar[i].End(n)
		} else {
			b = ar[i].At(a, n)
		}
		for k := range b {
			b[k] = 0xA5
		}
		return b
	}
	type roundTrip struct {
		name string
		run  func(al func(step int) int, vals []int16) string
	}
	diff16 := func(got, want []int16) string {
		if len(got) != len(want) {
			return fmt.Sprintf("%d samples, want %d", len(got), len(want))
		}
		for i := range want {
			if got[i] != want[i] {
				return fmt.Sprintf("sample %d of %d: %d came back as %d", i, len(want), want[i], got[i])
			}
		}
		return ""
	}
	load16 := func(b []byte, vals []int16) []int16 {
		s := as[int16](b)
		copy(s, vals)
		return s
	}
	pow2 := []float32{1, 1.0 / 32768, 2, 0.25, 1 << 20}
	rts := []roundTrip{
		{"I16ToBLE>bytes", func(al func(int) int, v []int16) string {
			n := len(v)
			in, enc := load16(buf(0, al(2), 2*n), v), buf(1, al(1), 2*n)
			dsp.I16ToBLE(in, enc)
			got := make([]int16, n)
			for i := range got {
				got[i] = int16(uint16(enc[2*i]) + 256*uint16(enc[2*i+1]))
			}
			return diff16(got, v)
		}},
		{"I16ToBLE>I16bleToF32>F32toi16", func(al func(int) int, v []int16) string {
			n := len(v)
			in, enc := load16(buf(0, al(2), 2*n), v), buf(1, al(1), 2*n)
			f, back := as[float32](buf(2, al(4), 4*n)), as[int16](buf(3, al(2), 2*n))
			s := pow2[c.R.Intn(len(pow2))]
			dsp.I16ToBLE(in, enc)
			dsp.I16bleToF32(enc, f, s)
			dsp.F32toi16(f, back, 1/s)
			return diff16(back, v)
		}},
		{"I16ToBLE>I16bleToF32>F32toi16ble", func(al func(int) int, v []int16) string {
			n := len(v)
			in, enc := load16(buf(0, al(2), 2*n), v), buf(1, al(1), 2*n)
			f, back := as[float32](buf(2, al(4), 4*n)), buf(3, al(1), 2*n)
			s := pow2[c.R.Intn(len(pow2))]
			dsp.I16ToBLE(in, enc)
			dsp.I16bleToF32(enc, f, s)
			dsp.F32toi16ble(f, back, 1/s)
			for i := range back {
				if back[i] != enc[i] {
					return fmt.Sprintf("byte %d of %d: %#x came back as %#x (scale %v)", i, len(enc), enc[i], back[i], s)
				}
			}
			return ""
		}},
		{"I16ToBLE>I16bleToF64", func(al func(int) int, v []int16) string {
			n := len(v)
			in, enc := load16(buf(0, al(2), 2*n), v), buf(1, al(1), 2*n)
			f := as[float64](buf(2, al(8), 8*n))
			s := float64(pow2[c.R.Intn(len(pow2))])
			dsp.I16ToBLE(in, enc)
			dsp.I16bleToF64(enc, f, s)
			for i := range f {
				if f[i]/s != float64(v[i]) {
					return fmt.Sprintf("sample %d of %d: %d came back as %v (scale %v)", i, n, v[i], f[i]/s, s)
				}
			}
			return ""
		}},
		{"F32toi16>I16ToBLE>I16bleToF32", func(al func(int) int, v []int16) string {
			n := len(v)
			f := as[float32](buf(0, al(4), 4*n))
			for i := range v {
				f[i] = float32(v[i])
			}
			mid, enc, back := as[int16](buf(1, al(2), 2*n)), buf(2, al(1), 2*n), as[float32](buf(3, al(4), 4*n))
			dsp.F32toi16(f, mid, 1)
			dsp.I16ToBLE(mid, enc)
			dsp.I16bleToF32(enc, back, 1)
			for i := range v {
				if back[i] != float32(v[i]) {
					return fmt.Sprintf("sample %d of %d: %v came back as %v", i, n, float32(v[i]), back[i])
				}
			}
			return ""
		}},
		{"I8toc64>C64toi8", func(al func(int) int, v []int16) string {
			// each 16-bit value is one I/Q pair of bytes
			n := len(v)
			in := as[int8](buf(0, al(1), 2*n))
			for i, x := range v {
				in[2*i], in[2*i+1] = int8(x), int8(x>>8)
			}
			z, back := as[complex64](buf(1, al(4), 8*n)), as[int8](buf(2, al(1), 2*n))
			dsp.I8toc64(in, z)
			dsp.C64toi8(z, back)
			for i := range in {
				if in[i] != back[i] {
					return fmt.Sprintf("byte %d of %d: %d came back as %d", i, 2*n, in[i], back[i])
				}
			}
			return ""
		}},
		{"Ui8toi16=Ui8toi16b", func(al func(int) int, v []int16) string {
			n := len(v)
			in := buf(0, al(1), n)
			for i, x := range v {
				in[i] = byte(x)
			}
			w, b := as[int16](buf(1, al(2), 2*n)), buf(2, al(1), 2*n)
			dsp.Ui8toi16(in, w)
			dsp.Ui8toi16b(in, b)
			for i := range w {
				if byte(w[i]) != b[2*i] || byte(w[i]>>8) != b[2*i+1] {
					return fmt.Sprintf("sample %d of %d: %#x widened to %#x but to bytes % x", i, n, in[i], uint16(w[i]), b[2*i:2*i+2])
				}
				if i > 0 {
					if d, e := int(in[i])-int(in[i-1]), int(w[i])-int(w[i-1]); (d < 0) != (e < 0) || (d == 0) != (e == 0) {
						return fmt.Sprintf("order of samples %d,%d (%#x,%#x) not kept: %d,%d", i-1, i, in[i-1], in[i], w[i-1], w[i])
					}
				}
			}
			return ""
		}},
	}
	step := c.N(7, 1)
	for _, rt := range rts {
		before := c.Evals
		// all values, in runs; the run start shifts the lane of each value
		for blk := 0; blk < 65536; blk += 4096 {
			c.Do(fmt.Sprintf("%s/all %d", rt.name, blk), func() {
				for sh := 0; sh < 40; sh += step {
					v := make([]int16, 0, 4096+sh)
					for k := 0; k < sh; k++ {
						v = append(v, int16(c.R.U64()))
					}
					for k := 0; k < 4096; k++ {
						v = append(v, int16(blk+k-32768))
					}
					al := func(s int) int { return s * c.R.Intn(32/s+1) }
					c.Seen(mix(hashS(rt.name), blk, sh), true)
					if e := rt.run(al, v); e != "" {
						c.Fail("roundtrip:"+rt.name, "%s: %s", rt.name, e)
					}
				}
			})
		}
		// all lengths and alignments, random values
		for n := 0; n <= c.N(260, 600); n++ {
			c.Do(fmt.Sprintf("%s/len %d", rt.name, n), func() {
				for rep := 0; rep < c.N(24, 100); rep++ {
					v := make([]int16, n)
					for k := range v {
						switch c.R.Intn(4) {
						case 0:
							v[k] = []int16{0, 1, -1, 127, 128, -128, -129, 255, 256, -256, 32767, -32768}[c.R.Intn(12)]
						default:
							v[k] = int16(c.R.U64())
						}
					}
					al := func(s int) int { return s * c.R.Intn(32/s+1) }
					if rep%3 == 0 {
						al = func(int) int { return -1 }
					}
					c.Seen(mix(hashS(rt.name, "len"), n, rep), n > 0)
					if e := rt.run(al, v); e != "" {
						c.Fail("roundtrip:"+rt.name, "%s: %s", rt.name, e)
					}
				}
			})
		}
		for _, n := range []int{5003, 1<<15 + 1, 1<<16 + 3, 1<<17 + 7, 1<<18 + 1, 1<<20 + 5} {
			c.Do(fmt.Sprintf("%s/long %d", rt.name, n), func() {
				v := make([]int16, n)
				for k := range v {
					v[k] = int16(c.R.U64())
				}
				al := func(step int) int { return step * c.R.Intn(9) }
				c.Seen(mix(hashS(rt.name, "long"), n), true)
				if e := rt.run(al, v); e != "" {
					c.Fail("roundtrip:"+rt.name, "%s: %s", rt.name, e)
				}
			})
		}
		c.Count("buffers:"+rt.name, c.Evals-before)
		c.Sample("%s: all 65536 values at shifts 0..40, lengths 0..%d", rt.name, c.N(260, 600))
	}
	// float32 <-> bytes, all classes of bit patterns
	var lens []int
	for n := 0; n <= c.N(200, 400); n++ {
		lens = append(lens, n)
	}
	for _, n := range append(lens, 5003, 1<<15+1, 1<<16+3, 1<<17+7, 1<<18+1, 1<<20+5) {
		c.Do(fmt.Sprintf("F32Tof32ble>bytes/len %d", n), func() {
			for rep := 0; rep < 24 && (rep < 2 || n < 5000); rep++ {
				a, b := 4*c.R.Intn(8), c.R.Intn(32)
				if rep%3 == 0 {
					a, b = -1, -1
				}
				inB, enc := buf(0, a, 4*n), buf(1, b, 4*n)
				for k := 0; k < n; k++ {
					u := uint32(c.R.U64())
					if c.R.Intn(3) == 0 {
						u = math.Float32bits(f32Specials[c.R.Intn(len(f32Specials))])
					}
					le.PutUint32(inB[4*k:], u)
				}
				dsp.F32Tof32ble(as[float32](inB), enc)
				c.Seen(mix(hashS("f32ble"), n, rep), n > 0)
				for k := 0; k < n; k++ {
					if le.Uint32(inB[4*k:]) != le.Uint32(enc[4*k:]) {
						c.Fail("roundtrip:F32Tof32ble", "float bits %#x came back as %#x (sample %d of %d)", le.Uint32(inB[4*k:]), le.Uint32(enc[4*k:]), k, n)
						break
					}
				}
			}
		})
	}
	// every exponent and sign with walking mantissa bits
	c.Do("F32Tof32ble>bytes/exponents", func() {
		var u []uint32
		for e := uint32(0); e < 512; e++ {
			u = append(u, e<<23, e<<23|0x7fffff, e<<23|0x555555)
			for b := 0; b < 23; b++ {
				u = append(u, e<<23|1<<b)
			}
		}
		inB, enc := buf(0, 4, 4*len(u)), buf(1, 3, 4*len(u))
		for k, x := range u {
			le.PutUint32(inB[4*k:], x)
		}
		dsp.F32Tof32ble(as[float32](inB), enc)
		for k, x := range u {
			c.Seen(mix(hashS("f32ble-bits"), int(x)), true)
			if le.Uint32(enc[4*k:]) != x {
				c.Fail("roundtrip:F32Tof32ble", "float bits %#x came back as %#x", x, le.Uint32(enc[4*k:]))
			}
		}
	})
}
