package main

import (
	"bytes"
	"fmt"
	"math"

	"github.com/samuel/go-dsp/dsp"
)

func init() { checks["C04"] = checkC04 }

// checkC04 runs one fixed case list. Within this process every case runs under every capability setting and the outputs
// are compared bit for bit; across builds run.py compares the digests of the same list.
func checkC04(c *Ctx) {
	c.Rule = "one evaluation = one call under one capability setting, its output compared bit for bit with that of the baseline setting; distinct = distinct (operation, length, alignment, setting). The digests of all outputs are also compared between the amd64 and the 386 build."
	e := NewEngine(c, arenaBytes)
	cfgs := flagConfigs()
	c.Count("capability_settings", int64(len(cfgs)))
	for _, f := range cfgs {
		c.Sample("capability setting %s", f.name)
	}
	if len(cfgs) == 1 {
		c.Note("capability variables not found in this build: only the default setting was run")
	}
	defer restoreFlags()
	// The data must not depend on the number of settings: own generator.
	r := NewRand(c.Seed + 77)
	e.r = r
	dig := func(key string, h *uint64, out []byte) {
		for _, b := range out {
			*h ^= uint64(b)
			*h *= 1099511628211
		}
	}
	cmp := func(name string, h *uint64, n int, run func() []byte) {
		var base []byte
		for i, fc := range cfgs {
			fc.apply()
			o := run()
			c.Seen(mix(hashS(name), n, i), n > 0)
			if i == 0 {
				base = append([]byte{}, o...)
			} else if !bytes.Equal(base, o) {
				k := 0
				for k < len(o) && k < len(base) && base[k] == o[k] {
					k++
				}
				c.Fail("flags:"+keyOf(name), "%s: with %s the output differs from the default setting at byte %d: % x vs % x", name, fc.name, k, head(o[k:]), head(base[k:]))
			}
		}
		restoreFlags()
		dig(name, h, base)
	}
	for _, op := range ops {
		h := uint64(14695981039346656037)
		lens := []int{}
		for n := 0; n <= 210; n++ {
			lens = append(lens, n)
		}
		for _, n := range []int{255, 256, 257, 511, 513, 1023, 1025, 2047, 3000, 4095, 4097} {
			lens = append(lens, n)
		}
		reps := c.N(6, 40)
		for _, n := range lens {
			if n*op.OutEl*op.OutUnit+512 > e.cap || n*op.InEl[0]*op.InUnit[0]+512 > e.cap {
				continue
			}
			for rep := 0; rep < reps; rep++ {
				name := fmt.Sprintf("%s n=%d rep=%d", op.Name, n, rep)
				// data first, outside Do, so that -only does not shift it
				s := mkSpec(op, n, alignPick(r, inStep(op)), alignPick(r, alignStep2(op)))
				for i := range s.inPl {
					if i > 0 {
						s.inPl[i].off = alignPick(r, 4)
					}
				}
				s.scale = []float64{1, 0.5, 3.25, -1, 0.1}[r.Intn(5)]
				mode := r.Intn(4)
				if op.IntOut {
					mode = 1
					s.scale = []float64{127, 100, 1, 32767, -32000}[r.Intn(5)]
					if op.Name == "C64toi8" {
						mode = 4
					}
				}
				for i := range op.InEl {
					b := make([]byte, n*op.InUnit[i]*op.InEl[i])
					if mode == 4 {
						for k := 0; k+4 <= len(b); k += 4 {
							putF32(b[k:], float32(r.Range(-128.9, 127.9)))
						}
					} else {
						genFinite(r, op.InKind[i], mode, b)
					}
					s.fixed = append(s.fixed, b)
				}
				var acc []byte
				if op.Accum {
					acc = make([]byte, n*op.OutEl)
					genFinite(r, op.InKind[0], 3, acc)
				}
				c.Do(name, func() {
					cmp(name, &h, n, func() []byte { return callPlain(e, op, s, acc) })
				})
			}
		}
		c.Digests = append(c.Digests, fmt.Sprintf("%s %016x", op.Name, h))
	}
	// reductions
	h := uint64(1)
	for n := 0; n <= 400; n++ {
		v := make([]float32, n)
		for rep := 0; rep < 4; rep++ {
			for i := range v {
				v[i] = genF32(r, 3)
				if rep == 3 && r.Intn(9) == 0 {
					v[i] = f32Specials[r.Intn(len(f32Specials)-5)]
				}
			}
			c.Do(fmt.Sprintf("VMaxF32 n=%d", n), func() {
				cmp("VMaxF32", &h, n, func() []byte { return normZero(dsp.VMaxF32(v)) })
			})
			c.Do(fmt.Sprintf("VMinF32 n=%d", n), func() {
				cmp("VMinF32", &h, n, func() []byte { return normZero(dsp.VMinF32(v)) })
			})
		}
	}
	c.Digests = append(c.Digests, fmt.Sprintf("reductions %016x", h))
	// scalar and streaming kernels that have assembly entry points
	h = 1
	for i := 0; i < 20000; i++ {
		y, x := genF32(r, 3), genF32(r, 3)
		if i%50 == 0 {
			x = 0
		}
		if i%70 == 0 {
			y = 0
		}
		c.Do("FastAtan2 case "+itoa(i), func() {
			cmp("FastAtan2", &h, 1, func() []byte {
				return append(f32b(dsp.FastAtan2(y, x)), f32b(dsp.FastAtan2_2(y, x))...)
			})
		})
	}
	// the places where the formula changes: axes, diagonals, near-diagonals, tiny and huge ratios
	mags := []float32{0, 1e-30, 1e-20, 1e-19, 1e-10, 0.001, 0.5, 1, 1.0000001, 1.5, 3, 127, 128, 32768, 1e5, 1e10, 1e15, 1e25, 3e38, float32(math.Inf(1))}
	for i, a := range mags {
		for j, b := range mags {
			for sg := 0; sg < 4; sg++ {
				y, x := a, b
				if sg&1 != 0 {
					y = -y
				}
				if sg&2 != 0 {
					x = -x
				}
				c.Do(fmt.Sprintf("FastAtan2 edge %d %d %d", i, j, sg), func() {
					cmp(fmt.Sprintf("FastAtan2 edge y=%v x=%v", y, x), &h, 1, func() []byte {
						return append(f32b(dsp.FastAtan2(y, x)), f32b(dsp.FastAtan2_2(y, x))...)
					})
				})
			}
		}
	}
	for i := 0; i < 4000; i++ {
		v := genF32(r, 3)
		w := v
		switch i % 4 {
		case 1:
			w = -v
		case 2:
			w = math.Nextafter32(v, 0)
		case 3:
			w = math.Nextafter32(v, 1e30)
		}
		c.Do("FastAtan2 diagonal "+itoa(i), func() {
			cmp("FastAtan2 diagonal", &h, 1, func() []byte {
				return append(f32b(dsp.FastAtan2(v, w)), f32b(dsp.FastAtan2_2(w, v))...)
			})
		})
	}
	for y := -9; y <= 9; y++ {
		for x := -9; x <= 9; x++ {
			c.Do(fmt.Sprintf("FastAtan2 grid %d %d", y, x), func() {
				cmp("FastAtan2 grid", &h, 1, func() []byte {
					o := append(f32b(dsp.FastAtan2(float32(y), float32(x))), f32b(dsp.FastAtan2_2(float32(y), float32(x)))...)
					o = append(o, f32b(dsp.PolarDiscriminator32(complex(float32(y), float32(x)), complex(float32(x), float32(y))))...)
					return append(o, f32b(dsp.FastPhase32(complex(float32(y), float32(x))))...)
				})
			})
		}
	}
	c.Digests = append(c.Digests, fmt.Sprintf("atan %016x", h))
	h = 1
	for n := 0; n <= 120; n++ {
		in := make([]complex64, n*4)
		for i := range in {
			in[i] = complex(genF32(r, 3), genF32(r, 3))
		}
		ii := make([]int32, n*8)
		for i := range ii {
			ii[i] = int32(r.U64())
		}
		if n%2 == 1 { // what receivers deliver: small integers, repeated samples, points on the axes and diagonals
			for i := range in {
				in[i] = complex(float32(r.Intn(7)-3), float32(r.Intn(7)-3))
				if i > 0 && r.Intn(4) == 0 {
					in[i] = in[i-1]
				}
			}
		}
		D := 1 + n%11
		c.Do("streams n="+itoa(n), func() {
			cmp("FMDemodFilter", &h, n, func() []byte {
				o := make([]float32, len(in))
				(&dsp.FMDemodFilter{}).Demodulate(in, o)
				return bytesOf(o)
			})
			cmp("Rotate90Filter", &h, n, func() []byte {
				return bytesOf((&dsp.Rotate90Filter{}).Filter(append([]complex64{}, in...)))
			})
			cmp("I32Rotate90Filter", &h, n, func() []byte {
				return bytesOf((&dsp.I32Rotate90Filter{}).Filter(append([]int32{}, ii...)))
			})
			cmp("LowPassDownsampleComplexFilter", &h, n, func() []byte {
				return bytesOf((&dsp.LowPassDownsampleComplexFilter{Downsample: D}).Filter(append([]complex64{}, in...)))
			})
			cmp("LowPassDownsampleRationalFilter", &h, n, func() []byte {
				f := make([]float32, len(in))
				for i := range f {
					f[i] = real(in[i])
				}
				return bytesOf((&dsp.LowPassDownsampleRationalFilter{Fast: D + 2, Slow: 1 + n%3}).Filter(f))
			})
		})
	}
	c.Digests = append(c.Digests, fmt.Sprintf("streams %016x", h))
}

func normZero(v float32) []byte {
	if v == 0 {
		v = 0
	}
	return f32b(v + 0)
}

func alignPick(r *Rand, step int) int { return r.Intn(32/step) * step }

// genFinite avoids NaN (payload propagation is not specified).
func genFinite(r *Rand, kind string, mode int, b []byte) {
	genBytes(r, kind, mode, b)
	if kind == "f32" || kind == "c64" {
		for i := 0; i+4 <= len(b); i += 4 {
			if v := getF32(b[i:]); v != v || v > 1e15 || v < -1e15 {
				putF32(b[i:], 1.5)
			}
		}
	}
}

// callPlain calls the operation on the given data and returns its output.
func callPlain(e *Engine, op *Op, s *runSpec, acc []byte) []byte {
	var ins [][]byte
	for i := range op.InEl {
		b, _, _ := view(e.in[i], s.inPl[i], s.inLen[i]*op.InEl[i])
		copy(b, s.fixed[i])
		ins = append(ins, b)
	}
	out, _, _ := view(e.out, s.outPl, s.outLen*op.OutEl)
	fill(out, 0)
	copy(out, acc)
	op.Call(ins, out, s.scale)
	return out
}
