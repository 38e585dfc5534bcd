package main

import (
	"bytes"
	"fmt"
	"math"

	"github.com/samuel/go-dsp/dsp"
)

func init() { checks["C16"] = checkC16 }

type interp struct {
	name   string
	lo, hi int // neighbour offsets used
	linear bool
	atInt  bool // returns the sample at integer positions
	lines  bool // reproduces straight lines
	f64    func([]float64, float64) float64
	f32    func([]float32, float32) float32
	poly   func(s func(i int) float64, t float64) (v, mag float64) // t: fraction in [0,1); mag: sum of magnitudes
}

// poly z-form with even/odd coefficient rows
func zform(rows [][]float64, pairs int) func(s func(i int) float64, t float64) (float64, float64) {
	return func(s func(i int) float64, t float64) (float64, float64) {
		z := t - 0.5
		var v, mag, zp float64
		zp = 1
		for k, row := range rows {
			for p := 0; p < pairs; p++ {
				a, b := s(1+p), s(-p)
				x := a + b
				if k%2 == 1 {
					x = a - b
				}
				v += zp * row[p] * x
				mag += math.Abs(zp*row[p]) * (math.Abs(a) + math.Abs(b))
			}
			zp *= z
		}
		return v, mag
	}
}

var interps = []interp{
	{"Linear", 0, 1, true, true, true, dsp.Linear, dsp.LinearF32, func(s func(int) float64, t float64) (float64, float64) {
		return s(0)*(1-t) + s(1)*t, math.Abs(s(0)) + math.Abs(s(1))
	}},
	{"Hermite4p3o", -1, 2, false, true, true, dsp.Hermite4p3o, dsp.Hermite4p3oF32, func(s func(int) float64, t float64) (float64, float64) {
		// cubic Hermite with central-difference tangents, in the basis form
		m0, m1 := (s(1)-s(-1))/2, (s(2)-s(0))/2
		h00 := (1 + 2*t) * (1 - t) * (1 - t)
		h10 := t * (1 - t) * (1 - t)
		h01 := t * t * (3 - 2*t)
		h11 := t * t * (t - 1)
		return h00*s(0) + h10*m0 + h01*s(1) + h11*m1, 6 * (math.Abs(s(-1)) + math.Abs(s(0)) + math.Abs(s(1)) + math.Abs(s(2)))
	}},
	{"Optimal2x4p4o", -1, 2, false, false, false, dsp.Optimal2x4p4o, dsp.Optimal2x4p4oF32, zform([][]float64{
		{0.45645918406487612, 0.04354173901996461},
		{0.47236675362442071, 0.17686613581136501},
		{-0.253674794204558521, 0.25371918651882464},
		{-0.37917091811631082, 0.11952965967158000},
		{0.04252164479749607, -0.04289144034653719},
	}, 2)},
	{"Optimal2x6p5o", -2, 3, false, false, false, dsp.Optimal2x6p5o, dsp.Optimal2x6p5oF32, zform([][]float64{
		{0.40513396007145713, 0.09251794438424393, 0.00234806603570670},
		{0.28342806338906690, 0.21703277024054901, 0.01309294748731515},
		{-0.191337682540351941, 0.16187844487943592, 0.02946017143111912},
		{-0.16471626190554542, -0.00154547203542499, 0.03399271444851909},
		{0.03845798729588149, -0.05712936104242644, 0.01866750929921070},
		{0.04317950185225609, -0.01802814255926417, 0.00152170021558204},
	}, 3)},
}

func checkC16(c *Ctx) {
	c.Rule = "one evaluation = one interpolated value compared with the polynomial of the zero-extended neighbours (or, for non-finite positions, called under a panic trap); distinct = distinct (interpolator, precision, slice, position) with at least one neighbour inside the slice."
	ar, ar32 := NewArena(9<<20), NewArena(5<<20)
	defer ar.Free()
	defer ar32.Free()
	one := func(it *interp, s64 []float64, s32 []float32, x float64) {
		n := len(s64)
		for prec := 0; prec < 2; prec++ {
			px := x
			if prec == 1 {
				px = float64(float32(x))
			}
			var got float64
			if prec == 0 {
				got = it.f64(s64, px)
			} else {
				got = float64(it.f32(s32, float32(px)))
			}
			name := it.name
			eps := 2.3e-16
			if prec == 1 {
				name += "F32"
				eps = 1.2e-7
			}
			if math.IsNaN(px) || math.IsInf(px, 0) {
				c.Seen(mix(hashS(name), int(math.Float64bits(px)), n), false)
				continue
			}
			low := math.Floor(px)
			var want, mag float64
			outside := low+float64(it.hi) < 0 || low+float64(it.lo) >= float64(n) || it.linear && px < 0
			if !outside {
				li := int(low)
				want, mag = it.poly(func(i int) float64 {
					if j := li + i; j >= 0 && j < n {
						return s64[j]
					}
					return 0
				}, px-low)
			}
			c.Seen(mix(hashS(name), int(math.Float64bits(px)), n), !outside)
			if outside && got != 0 {
				c.Fail("outside:"+name, "%s at %v of %d samples is %v, want 0: all neighbours lie outside", name, px, n, got)
				continue
			}
			tol := 12*eps*mag + 1e-300
			if prec == 1 {
				tol += 1e-40
			}
			if !(math.Abs(got-want) <= tol) {
				c.Fail("value:"+name, "%s at %v of %d samples is %v, the polynomial gives %v (tolerance %g)", name, px, n, got, want, tol)
				continue
			}
			if it.atInt && low == px && !outside && low >= 0 && low < float64(n) && got != s64[int(low)] {
				c.Fail("integer:"+name, "%s at %v of %d samples is %v, the sample is %v", name, px, n, got, s64[int(low)])
			}
		}
	}
	special := []float64{math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64, math.MaxFloat32, -math.MaxFloat32, 1e30, -1e30, 1e300, -1e300,
		math.MaxInt64, math.MinInt64, math.MaxInt32, math.MinInt32, math.MaxInt32 + 1, math.MinInt32 - 1, math.MaxUint32, math.MaxUint32 + 1, math.MaxUint32 + 2, -math.MaxUint32, math.MaxUint64, -math.MaxUint64, math.MaxInt64 / 2, 1 << 53, -(1 << 53), 1<<31 - 0.5, -(1 << 31) + 0.5, 1 << 24, 1<<24 + 1, 1e-300, -1e-300, 5e-324, -5e-324, 1e-45, -1e-45, 0, math.Copysign(0, -1), -1e-20, 0.99999999999999989, -0.99999999999999989}
	for k := range interps {
		it := &interps[k]
		for n := 0; n <= c.N(24, 64); n++ {
			for rep := 0; rep < c.N(6, 20); rep++ {
				c.Do(fmt.Sprintf("%s/n=%d rep %d", it.name, n, rep), func() {
					s64, s32 := as[float64](ar.End(8*n)), as[float32](ar32.End(4*n))
					g := sampleGen(c.R)
					a, b := c.R.Norm(), c.R.Norm()
					for i := range s64 {
						v := float32(g())
						if rep == 0 {
							v = float32(a + b*float64(i)) // a line
						}
						s64[i], s32[i] = float64(v), v
					}
					snap := append(f64bytes(s64), bytesOf(s32)...)
					for _, x := range special {
						one(it, s64, s32, x)
					}
					lo, hi := -6, n+6
					for i := lo; i <= hi; i++ {
						f := float64(i)
						for _, x := range []float64{f, f + 0.5, f + 0.25, f + 1 - 1.0/1024, f + 1.0/1024, math.Nextafter(f, 1e9), math.Nextafter(f, -1e9),
							float64(math.Nextafter32(float32(f), 1e9)), float64(math.Nextafter32(float32(f), -1e9)), f + c.R.F64(), f + c.R.F64()} {
							one(it, s64, s32, x)
						}
					}
					for i := 0; i < 40; i++ {
						one(it, s64, s32, c.R.Range(-8, float64(n)+8))
						one(it, s64, s32, math.Trunc(c.R.LogU(1, 1e18))*float64(1-2*c.R.Intn(2)))
						one(it, s64, s32, c.R.LogU(1, 1e18)*float64(1-2*c.R.Intn(2)))
					}
					// straight lines inside the signal
					if rep == 0 && it.lines && n >= 4 {
						for i := 0; i < 30; i++ {
							x := c.R.Range(1, float64(n-2)-1e-6)
							got, want := it.f64(s64, x), 0.0
							li := int(x)
							want = s64[li] + (s64[li+1]-s64[li])*(x-float64(li))
							// the stored line is rounded to single precision
							if !(math.Abs(got-want) <= 1e-6*(math.Abs(a)+math.Abs(b)*float64(n))) {
								c.Fail("line:"+it.name, "%s at %v of a line is %v, want %v", it.name, x, got, want)
							}
						}
					}
					// linearity in the samples
					t64 := make([]float64, n)
					sum := make([]float64, n)
					for i := range t64 {
						t64[i] = c.R.Norm()
						sum[i] = 2*s64[i] + t64[i]
					}
					for i := 0; i < 10; i++ {
						x := c.R.Range(-4, float64(n)+4)
						l, r := it.f64(sum, x), 2*it.f64(s64, x)+it.f64(t64, x)
						m := maxAbs(s64)*2 + maxAbs(t64)
						if !(math.Abs(l-r) <= 1e-13*m) {
							c.Fail("linearity:"+it.name, "%s at %v: not linear in the samples: %v vs %v", it.name, x, l, r)
						}
					}
					if !bytes.Equal(snap, append(f64bytes(s64), bytesOf(s32)...)) {
						c.Fail("input-changed:"+it.name, "%s changed its samples", it.name)
					}
				})
			}
		}
		// long slices
		for rep := 0; rep < c.N(6, 40); rep++ {
			c.Do(fmt.Sprintf("%s/long %d", it.name, rep), func() {
				n := 1000 + c.R.Intn(7000)
				s64, s32 := as[float64](ar.End(8*n)), as[float32](ar32.End(4*n))
				for i := range s64 {
					v := float32(c.R.Norm())
					s64[i], s32[i] = float64(v), v
				}
				for i := 0; i < 20000; i++ {
					one(it, s64, s32, c.R.Range(-3, float64(n)+3))
				}
			})
		}
		for _, n := range []int{1<<15 + 1, 1<<16 + 3, 1<<17 + 7, 1<<18 + 1, 1<<20 + 5} {
			c.Do(fmt.Sprintf("%s/long slice %d", it.name, n), func() {
				s64, s32 := as[float64](ar.End(8*n)), as[float32](ar32.End(4*n))
				for i := range s64 {
					v := float32(c.R.Norm())
					s64[i], s32[i] = float64(v), v
				}
				for i := 0; i < 3000; i++ {
					one(it, s64, s32, c.R.Range(-3, float64(n)+3))
					one(it, s64, s32, float64(n-i/8)+float64(c.R.Intn(9))/8)
					one(it, s64, s32, math.Ldexp(1, 12+c.R.Intn(9))+float64(c.R.Intn(64))/8-4)
				}
			})
		}
		c.Sample("%s: slices of 0..%d samples, positions dense around every boundary, %d special positions, flush against guard pages", it.name, c.N(24, 64), len(special))
	}
	// very long slice: positions above 2^24 in single precision
	c.Do("Linear/beyond 2^24", func() {
		n := 1<<24 + 5
		s := make([]float32, n)
		for i := n - 40; i < n; i++ {
			s[i] = float32(i % 17)
		}
		for i := n - 60; i < n+60; i++ {
			x := float32(i)
			got := dsp.LinearF32(s, x)
			want := float32(0)
			if int(x) < n {
				want = s[int(x)]
			}
			c.Seen(mix(hashS("big"), i), true)
			if got != want {
				c.Fail("integer:LinearF32", "LinearF32 at %v of %d samples is %v, want %v", x, n, got, want)
			}
			for k := range interps[1:] { // a neighbour between two samples is hardly represented here; the sample itself is
				if g := interps[k+1].f32(s, x); interps[k+1].atInt && g != want {
					c.Fail("integer:"+interps[k+1].name+"F32", "%sF32 at %v of %d samples is %v, want %v", interps[k+1].name, x, n, g, want)
				}
			}
		}
	})
}
