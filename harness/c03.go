package main

import (
	"math"

	"github.com/samuel/go-dsp/dsp"
)

func checkC03(c *Ctx) {
	c.Rule = "one evaluation = one element value checked or one call; distinct = distinct (operation, values) or (operation, length, alignments, aliasing) or (reduction, length, position of the extreme element). Every output element is compared with the scalar formula in single precision."
	e := NewEngine(c, arenaBytes)
	for _, op := range ops {
		if op.Conv {
			continue
		}
		sweepValues(e, op, "")
		exhaustive(e, op)
		large(e, op)
		inPlace(e, op)
		c.Sample("%s: lengths 0..%d at all alignment pairs, in place on inputs %v", op.Name, c.N(300, 700), op.InPlace)
	}
	reductions(c, "")
	conj(c)
	otherSettings(e, func(op *Op) bool { return !op.Conv })
	hugeOps(c, func(op *Op) bool { return !op.Conv })
	for _, op := range ops {
		if !op.Conv {
			hugeMismatch(c, op)
		}
	}
	hugeReduce(c, "VMaxF32", dsp.VMaxF32, true)
	hugeReduce(c, "VMinF32", dsp.VMinF32, false)
	defer restoreFlags()
	for _, fc := range flagConfigs() {
		if fc.set != nil {
			fc.apply()
			reductions(c, fc.name)
		}
	}
}

// inPlace runs the operation with its output slice being one of its input slices.
func inPlace(e *Engine, op *Op) {
	c := e.c
	for _, al := range op.InPlace {
		for n := 0; n <= 200; n++ {
			c.Do(op.Name+"/inplace"+itoa(al)+" "+itoa(n), func() {
				for k := 0; k < 6; k++ {
					s := mkSpec(op, n, 4*e.r.Intn(8), 4*e.r.Intn(8))
					s.alias = al
					s.scale = opScales[e.r.Intn(len(opScales))]
					s.genMode = e.r.Intn(4)
					s.values = true
					e.run(op, s)
					c.Seen(mix(hashS(op.Name, "inplace"), al, n, k), n > 0)
				}
			})
		}
	}
}

func sameBits(a, b float32) bool { return a == b } // -0 and +0 are the same extreme

// reductions checks VMaxF32/VMinF32 with the extreme element at every position.
func reductions(c *Ctx, tag string) {
	red := func(name string, f func([]float32) float32, isMax bool) {
		a := NewArena(1 << 16)
		defer a.Free()
		want := func(v []float32) float32 {
			m := math.Inf(-1)
			for _, x := range v {
				y := float64(x)
				if !isMax {
					y = -y
				}
				if y > m {
					m = y
				}
			}
			if !isMax {
				m = -m
			}
			return float32(m)
		}
		gens := []func() float32{
			func() float32 { return float32(c.R.Norm()) },
			func() float32 { return float32(-math.Abs(c.R.Norm()) - 1) },
			func() float32 { return float32(math.Abs(c.R.Norm()) + 1) },
			func() float32 { return float32(c.R.Intn(3)) },
			func() float32 { return float32(math.Copysign(c.R.LogU(1e-44, 3e38), c.R.Norm())) },
			func() float32 {
				return []float32{float32(math.Inf(1)), float32(math.Inf(-1)), 0, float32(math.Copysign(0, -1)), math.MaxFloat32, -math.MaxFloat32, 1e-45, -1e-45}[c.R.Intn(8)]
			},
			func() float32 { return -math.MaxFloat32 },
			func() float32 { return math.MaxFloat32 },
			func() float32 { return 0 },
			func() float32 { return float32(math.Inf(-1)) },
			func() float32 { return float32(math.Inf(1)) },
		}
		for n := 0; n <= c.N(300, 520); n++ {
			c.Do(name+"/len"+tag+" "+itoa(n), func() {
				for off := 0; off < 32; off += 4 {
					// off 28: flush against the guard page
					var b []byte
					if off == 28 {
						b = a.End(4 * n)
					} else {
						b = a.At(off, 4*n)
					}
					v := as[float32](b)
					for g, gen := range gens {
						if off%8 != 0 && g > 4 {
							continue
						}
						for i := range v {
							v[i] = gen()
						}
						got, w := f(v), want(v)
						c.Seen(mix(hashS(name, tag), n, off, g), n > 0)
						if got != w {
							c.Fail("reduce:"+name, "%s(%d elements, offset %d, generator %d) = %v, want %v (%v)", name, n, off, g, got, w, headF(v))
						}
					}
				}
				// the extreme at every position, alone and after a stale extreme
				b := a.At(4*(n%8), 4*n)
				v := as[float32](b)
				for pos := 0; pos < n; pos++ {
					for sgn := 0; sgn < 2; sgn++ {
						base, ext := float32(-5), float32(-2) // all negative
						if sgn == 1 {
							base, ext = 2, 5
						}
						if !isMax {
							base, ext = ext, base
						}
						for i := range v {
							v[i] = base
						}
						v[pos] = ext
						if got := f(v); got != ext {
							c.Fail("reduce:"+name, "%s: %d elements all %v except index %d = %v: got %v", name, n, base, pos, ext, got)
						}
						c.Seen(mix(hashS(name, tag, "pos"), n, pos, sgn), true)
					}
				}
			})
		}
		for p := 10; p <= 20; p++ {
			c.Do(name+"/large"+tag+" "+itoa(p), func() {
				for _, d := range []int{-1, 0, 1, 19} {
					n := 1<<p + d
					v := make([]float32, n)
					for i := range v {
						v[i] = float32(c.R.Norm())
					}
					for _, pos := range []int{0, n - 1, n / 2, c.R.Intn(n)} {
						old := v[pos]
						v[pos] = 100
						if !isMax {
							v[pos] = -100
						}
						if got := f(v); got != v[pos] {
							c.Fail("reduce:"+name, "%s: %d elements, extreme %v at %d: got %v", name, n, v[pos], pos, got)
						}
						v[pos] = old
						c.Seen(mix(hashS(name, tag, "large"), n, pos), true)
					}
				}
			})
		}
	}
	red("VMaxF32", dsp.VMaxF32, true)
	red("VMinF32", dsp.VMinF32, false)
	c.Count("reductions", 1)
}

func headF(v []float32) []float32 {
	if len(v) > 12 {
		return v[:12]
	}
	return v
}

func conj(c *Ctx) {
	c.Do("Conj32/values", func() {
		for i := 0; i < 20000; i++ {
			a, b := genF32(c.R, 0), genF32(c.R, 0)
			if i < len(f32Specials)*4 {
				a = f32Specials[i%len(f32Specials)]
			}
			g := dsp.Conj32(complex(a, b))
			if !sameF32(nil, f32b(real(g)), f32b(a)) || !sameF32(nil, f32b(imag(g)), f32b(-b)) {
				c.Fail("value:Conj32", "Conj32(%v,%v) = %v", a, b, g)
			}
			c.Seen(mix(hashS("conj"), int(math.Float32bits(a)), int(math.Float32bits(b))), true)
		}
	})
}

func f32b(v float32) []byte {
	b := make([]byte, 4)
	putF32(b, v)
	return b
}
