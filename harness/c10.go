package main

import (
	"bytes"
	"fmt"
	"math"

	"github.com/samuel/go-dsp/dsp"
)

func init() { checks["C10"] = checkC10; checks["C12"] = checkC12 }

// residual checks y[n]*a0 = sum b[j]x[n-j] - sum_{j>=1} a[j]y[n-j] on an observed input/output trace. The outputs
// observed are the filter's own past outputs, so only the rounding of one step is tolerated, however long the run.
func residual(b, a []float64, x, y []complex128, eps float64) (int, complex128, float64) {
	return residualFrom(b, a, x, y, eps, 0)
}

// residualFrom checks the outputs from index start on.
func residualFrom(b, a []float64, x, y []complex128, eps float64, start int) (int, complex128, float64) {
	for n := start; n < len(y); n++ {
		var sum complex128
		var mag float64
		for j := range b {
			if n-j < 0 {
				break
			}
			t := complex(b[j]/a[0], 0) * x[n-j]
			sum += t
			mag += math.Abs(real(t)) + math.Abs(imag(t))
			if j > 0 {
				t = complex(a[j]/a[0], 0) * y[n-j]
				sum -= t
				mag += math.Abs(real(t)) + math.Abs(imag(t))
			}
		}
		tol := mag*eps*float64(len(b)+3) + 1e-300
		if eps > 1e-10 {
			tol += 1e-40
		}
		huge := 1e307
		if eps > 1e-10 {
			huge = 1e37
		}
		if !(math.Abs(real(y[n]))+math.Abs(imag(y[n])) < huge) && !(mag < huge) {
			return -1, 0, 0 // the equation itself leaves the type's range here: nothing after it is specified
		}
		if !(math.Abs(real(y[n])-real(sum)) <= tol) || !(math.Abs(imag(y[n])-imag(sum)) <= tol) {
			return n, sum, tol
		}
	}
	return -1, 0, 0
}

type iirKind struct {
	name string
	el   int // bytes per sample
	eps  float64
	mk   func(b, a []float64) (feed func(blk []byte, inplace bool) []byte, coefBytes func() []byte, scramble func())
	get  func(b []byte) []complex128
}

func feedEither[T any](f func(in, out []T)) func(blk []byte, inplace bool) []byte {
	return func(blk []byte, inplace bool) []byte {
		in := make([]T, len(as[T](blk)))
		copy(bytesOf(in), blk)
		out := in
		if !inplace {
			out = make([]T, len(in))
			fill(bytesOf(out), 0x33)
		}
		f(in, out)
		r := append([]byte{}, bytesOf(out)...)
		if !inplace && !bytes.Equal(bytesOf(in), blk) {
			panic("input slice was changed")
		}
		fill(bytesOf(in), 0x41)
		return r
	}
}

func checkC10(c *Ctx) {
	c.Rule = "one evaluation = one run of a filter over a random stream, every output checked against the difference equation applied to the observed inputs and outputs, coefficient slices snapshotted before construction and compared after; distinct = distinct (type, order, coefficients, stream)."
	kinds := []iirKind{
		{"IIRFilter", 8, 2.3e-16, func(b, a []float64) (func([]byte, bool) []byte, func() []byte, func()) {
			f := dsp.NewIIRFilter(b, a)
			return feedEither(func(in, out []float64) { f.Filter(in, out) }), nil, nil
		}, func(b []byte) []complex128 {
			v := as[float64](b)
			o := make([]complex128, len(v))
			for i, x := range v {
				o[i] = complex(x, 0)
			}
			return o
		}},
		{"ComplexIIRFilter", 16, 2.3e-16, func(b, a []float64) (func([]byte, bool) []byte, func() []byte, func()) {
			f := dsp.NewComplexIIRFilter(b, a)
			return feedEither(func(in, out []complex128) { f.Filter(in, out) }), nil, nil
		}, func(b []byte) []complex128 { return append([]complex128{}, as[complex128](b)...) }},
		{"ComplexIIRFilter32", 8, 1.2e-7, nil, func(b []byte) []complex128 {
			v := as[complex64](b)
			o := make([]complex128, len(v))
			for i, x := range v {
				o[i] = c128(x)
			}
			return o
		}},
	}
	for _, k := range kinds {
		k := k
		maxOrder := c.N(24, 40)
		orders := []int{}
		for order := 0; order <= maxOrder; order++ {
			orders = append(orders, order)
		}
		orders = append(orders, 31, 32, 33, 47, 63, 64, 65, 100, 127, 128, 129, 200, 256, 257, 500, 1000)
		for oi, order := range orders {
			order := order
			reps := c.N(300, 2500)
			if oi > maxOrder {
				reps = c.N(6, 40)
			}
			for rep := 0; rep < reps; rep++ {
				c.Do(fmt.Sprintf("%s/order %d rep %d", k.name, order, rep), func() {
					limit := []float64{0.5, 0.9, 0.97, 0.999, 1.02}[c.R.Intn(5)]
					if order > 8 {
						limit = []float64{0.5, 0.8}[c.R.Intn(2)]
					}
					b, a := stableIIR(c.R, min(order, 60), limit)
					if order > 60 { // many taps: a stable few, feedback of total weight below one and random feed-forward
						a, b = []float64{c.R.LogU(0.1, 10)}, []float64{c.R.Norm()}
						w := 0.9 * a[0] / float64(order)
						for i := 1; i <= order; i++ {
							a, b = append(a, c.R.Range(-w, w)), append(b, c.R.Norm())
						}
					}
					switch c.R.Intn(6) {
					case 0: // pure FIR
						for i := 1; i < len(a); i++ {
							a[i] = 0
						}
					case 1: // sparse
						for i := 1; i < len(a); i++ {
							if c.R.Bool() {
								a[i] = 0
							}
							if c.R.Bool() {
								b[i] = 0
							}
						}
					}
					n := c.R.Intn(c.N(200, 800))
					if order > 60 {
						n = 3 * order
					}
					// three filters from one pair of slices; the slices are overwritten after the second one is built
					var feeds []func([]byte, bool) []byte
					effB, effA := append([]float64{}, b...), append([]float64{}, a...)
					build := func() func([]byte, bool) []byte {
						if k.mk != nil {
							f, _, _ := k.mk(b, a)
							return f
						}
						return nil
					}
					var b32, a32 []float32
					if k.mk == nil {
						b32, a32 = toF32(b), toF32(a)
						for i := range effB {
							effB[i], effA[i] = float64(b32[i]), float64(a32[i])
						}
						build = func() func([]byte, bool) []byte {
							f := dsp.NewComplexIIRFilter32(b32, a32)
							return feedEither(func(in, out []complex64) { f.Filter(in, out) })
						}
					}
					snap := func() []byte {
						if k.mk == nil {
							return append(append([]byte{}, bytesOf(b32)...), bytesOf(a32)...)
						}
						return append(f64bytes(b), bytesOf(a)...)
					}
					before := snap()
					for i := 0; i < 3; i++ {
						feeds = append(feeds, build())
						if !bytes.Equal(before, snap()) {
							c.Fail("coef-changed:"+k.name, "%s: constructing a filter of order %d changed the caller's coefficients (b %v a %v)", k.name, order, headD(b), headD(a))
							return
						}
					}
					var data []byte
					if k.el == 8 && k.mk != nil {
						data = genF64s(c.R, n)
					} else if k.el == 16 {
						data = genF64s(c.R, 2*n)
					} else {
						data = genF32s(c.R, 2*n)
					}
					out0 := feeds[0](data, false)
					if !bytes.Equal(before, snap()) {
						c.Fail("coef-changed:"+k.name, "%s: running a filter of order %d changed the caller's coefficients", k.name, order)
						return
					}
					for i := range b {
						b[i], a[i] = c.R.Norm(), c.R.Norm()
					}
					for i := range b32 {
						b32[i], a32[i] = float32(c.R.Norm()), float32(c.R.Norm())
					}
					out1 := feeds[1](data, true)
					half := n / 2 * k.el
					out2 := append(feeds[2](data[:half], true), feeds[2](data[half:], false)...)
					c.Seen(mix(hashS(k.name, order, rep), n, int(hashB(data))), order > 0 && n > 1)
					if !bytes.Equal(out0, out1) {
						c.Fail("second-filter:"+k.name, "%s order %d: a second filter built from the same coefficient slices, run in place after the slices were overwritten, gives a different output", k.name, order)
					}
					if !bytes.Equal(out0, out2) {
						c.Fail("third-filter:"+k.name, "%s order %d: a third filter from the same slices, run in two blocks, gives a different output", k.name, order)
					}
					x, y := k.get(data), k.get(out0)
					if i, want, tol := residual(effB, effA, x, y, k.eps); i >= 0 {
						c.Fail("equation:"+k.name, "%s order %d: output %d of %d is %v, the difference equation gives %v (tolerance %g); b %v a %v", k.name, order, i, n, y[i], want, tol, headD(effB), headD(effA))
					}
				})
			}
		}
		c.Sample("%s: orders 0..%d, stable and mildly unstable poles, a[0] in +-[0.1,10], FIR and sparse cases, in place and split", k.name, maxOrder)
	}
	// impulse response equals power series of b/a, from zero state, for a filter that was never run before
	c.Do("impulse of a pure gain", func() {
		for i := 0; i < 200; i++ {
			b0, a0 := c.R.Norm(), c.R.LogU(0.1, 10)
			f := dsp.NewIIRFilter([]float64{b0}, []float64{a0})
			in := []float64{1, -2, 0.5, c.R.Norm()}
			out := make([]float64, 4)
			f.Filter(in, out)
			c.Seen(mix(hashS("gain"), i), true)
			for j := range in {
				if !closeEnough(out[j], in[j]*b0/a0, 1e-14*math.Abs(in[j]*b0/a0)) {
					c.Fail("gain", "order 0 filter b0=%v a0=%v: %v -> %v", b0, a0, in[j], out[j])
				}
			}
		}
	})
}

func headD(v []float64) []float64 {
	if len(v) > 6 {
		return v[:6]
	}
	return v
}

func checkC12(c *Ctx) {
	c.Rule = "one evaluation = one stream through a DC blocker; every output compared with the recursion, mixed styles compared bit for bit with one block; distinct = distinct (precision, coefficient, stream, style sequence)."
	coef := func(rep int) float64 {
		fixed := []float64{0, 0.5, 0.9, 0.95, 0.99, 0.995, 0.999, 0.9999, 1 - 1.0/4096, 0.25, 1, -0.5}
		if rep < len(fixed) {
			return fixed[rep]
		}
		if rep%3 == 0 {
			return 1 - c.R.LogU(1e-4, 1)
		}
		return c.R.F64()
	}
	for rep := 0; rep < c.N(5000, 40000); rep++ {
		c.Do(fmt.Sprintf("double rep %d", rep), func() {
			a := coef(rep)
			n := c.R.Intn(c.N(800, 3000))
			if rep%200 == 13 {
				n = 70000
			}
			x := append([]float64{}, as[float64](genF64s(c.R, n))...)
			f := dsp.NewDCFilter(a)
			y := make([]float64, n)
			f.Filter(x, y)
			var w, maxw, maxx float64
			for i, v := range x {
				nw := v + a*w
				want := nw - w
				w = nw
				maxw = math.Max(maxw, math.Abs(w))
				maxx = math.Max(maxx, math.Abs(v))
				// rounding of w accumulates geometrically
				g := 1 / math.Max(1-math.Abs(a), 1/float64(i+1))
				tol := 5e-16 * maxw * (g + 2)
				if !(math.Abs(y[i]-want) <= tol) {
					c.Fail("recursion:double", "a=%v: output %d is %v, want %v", a, i, y[i], want)
					break
				}
				if a >= 0 && a < 1 && !(math.Abs(y[i]) <= 2*maxx+tol) {
					c.Fail("bound:double", "a=%v: output %d is %v although the input never exceeded %v", a, i, y[i], maxx)
					break
				}
			}
			m := dsp.NewDCFilter(a)
			pos := 0
			var style []int
			for _, k := range c.R.Split(n) {
				blk := append([]float64{}, x[pos:pos+k]...)
				out := make([]float64, k)
				st := c.R.Intn(3)
				style = append(style, st)
				switch st {
				case 0:
					m.Filter(blk, out)
					for i := range blk {
						if blk[i] != x[pos+i] {
							c.Fail("input-changed:double", "input %d changed", pos+i)
						}
					}
				case 1:
					m.Filter(blk, blk)
					out = blk
				case 2:
					for i, v := range blk {
						out[i] = m.FilterOne(v)
					}
				}
				for i := range out {
					if math.Float64bits(out[i]) != math.Float64bits(y[pos+i]) {
						c.Fail("styles:double", "a=%v: output %d is %v when processed in style %d (0 block, 1 in place, 2 one sample), %v in one block", a, pos+i, out[i], st, y[pos+i])
						pos = n
						break
					}
				}
				if pos == n && k > 0 {
					break
				}
				pos += k
			}
			c.Seen(mix(hashS("d", a), n, int(hashB(bytesOf(x)))), n > 1)
		})
		c.Do(fmt.Sprintf("single rep %d", rep), func() {
			a := float32(coef(rep))
			n := c.R.Intn(c.N(800, 3000))
			if rep%200 == 13 {
				n = 70000
			}
			x := append([]float32{}, as[float32](genF32s(c.R, n))...)
			f := dsp.NewDCFilter32(a)
			y := make([]float32, n)
			f.Filter(x, y)
			var w, maxw, maxx float64
			for i, v := range x {
				nw := float64(v) + float64(a)*w
				want := nw - w
				w = nw
				maxw = math.Max(maxw, math.Abs(w))
				maxx = math.Max(maxx, math.Abs(float64(v)))
				g := 1 / math.Max(1-math.Abs(float64(a)), 1/float64(i+1))
				tol := 2.4e-7*maxw*(g+2) + 1e-44
				if !(math.Abs(float64(y[i])-want) <= tol) {
					c.Fail("recursion:single", "a=%v: output %d is %v, want %v", a, i, y[i], want)
					break
				}
				if a >= 0 && a < 1 && !(math.Abs(float64(y[i])) <= 2*maxx+tol) {
					c.Fail("bound:single", "a=%v: output %d is %v although the input never exceeded %v", a, i, y[i], maxx)
					break
				}
			}
			// one step of the recursion, tightly: w is not visible, but y[n]-a*y[n-1] = x[n]-x[n-1] to the rounding of w
			var yp, xp float64
			for i := range x {
				d := (float64(y[i]) - float64(a)*yp) - (float64(x[i]) - xp)
				if !(math.Abs(d) <= 3e-7*(2*maxw+maxx)+1e-44) {
					c.Fail("step:single", "a=%v: outputs %d,%d (%v,%v) do not follow from inputs %v,%v", a, i-1, i, yp, y[i], xp, x[i])
					break
				}
				yp, xp = float64(y[i]), float64(x[i])
			}
			m := dsp.NewDCFilter32(a)
			pos := 0
			for _, k := range c.R.Split(n) {
				blk := append([]float32{}, x[pos:pos+k]...)
				out := make([]float32, k)
				st := c.R.Intn(3)
				switch st {
				case 0:
					m.Filter(blk, out)
					for i := range blk {
						if blk[i] != x[pos+i] {
							c.Fail("input-changed:single", "input %d changed", pos+i)
						}
					}
				case 1:
					m.Filter(blk, blk)
					out = blk
				case 2:
					for i, v := range blk {
						out[i] = m.FilterOne(v)
					}
				}
				for i := range out {
					if math.Float32bits(out[i]) != math.Float32bits(y[pos+i]) {
						c.Fail("styles:single", "a=%v: output %d is %v when processed in style %d (0 block, 1 in place, 2 one sample), %v in one block", a, pos+i, out[i], st, y[pos+i])
						return
					}
				}
				pos += k
			}
			c.Seen(mix(hashS("s", a), n, int(hashB(bytesOf(x)))), n > 1)
		})
	}
	// constant input decays geometrically, alternating input passes with gain 2/(1+a)
	for rep := 0; rep < c.N(2000, 20000); rep++ {
		c.Do(fmt.Sprintf("laws rep %d", rep), func() {
			a := c.R.Range(0, 0.98)
			if rep == 0 {
				a = 0
			}
			v := c.R.Norm() * 10
			f, g := dsp.NewDCFilter(a), dsp.NewDCFilter32(float32(a))
			e := 1.0
			a32 := float64(float32(a))
			e32 := 1.0
			n := int(40/(1-a)) + 10
			v32 := float64(float32(v))
			for i := 0; i < n; i++ {
				y, y32 := f.FilterOne(v), float64(g.FilterOne(float32(v)))
				if !(math.Abs(y-v*e) <= 1e-13*math.Abs(v)/(1-a)/(1-a)) {
					c.Fail("decay:double", "a=%v: constant %v: output %d is %v, want %v", a, v, i, y, v*e)
					break
				}
				if !(math.Abs(y32-v32*e32) <= 3e-7*math.Abs(v32)/(1-a)/(1-a)) {
					c.Fail("decay:single", "a=%v: constant %v: output %d is %v, want %v", a, v, i, y32, v32*e32)
					break
				}
				e *= a
				e32 *= a32
			}
			f, g = dsp.NewDCFilter(a), dsp.NewDCFilter32(float32(a))
			var y, y32 float64
			s := 1.0
			for i := 0; i < n; i++ {
				y, y32 = f.FilterOne(s*v), float64(g.FilterOne(float32(s*v)))
				s = -s
			}
			want := -s * v * 2 / (1 + a)
			c.Seen(mix(hashS("laws", a, v)), true)
			if !(math.Abs(y-want) <= 1e-12*math.Abs(v)/(1-a)) || !(math.Abs(y32-want) <= 1e-5*math.Abs(v)/(1-a)) {
				c.Fail("alternating", "a=%v: alternating %v passes with %v / %v, want %v", a, v, y, y32, want)
			}
		})
	}
	c.Sample("coefficients 0, 1, negative, close to 1 and random; streams up to 70000 samples; styles block, in place, sample-wise in random order")
}
