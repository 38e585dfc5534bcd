package main

import (
	"fmt"
	"math"
	"math/cmplx"

	"github.com/samuel/go-dsp/dsp"
)

func init() { checks["C07"] = checkC07 }

func modPi(d float64) float64 {
	d = math.Mod(math.Abs(d), 2*math.Pi)
	if d > math.Pi {
		d = 2*math.Pi - d
	}
	return d
}

func c128(z complex64) complex128 { return complex(float64(real(z)), float64(imag(z))) }

// stream generators of the demodulator
func demodStream(r *Rand, kind, n int) []complex64 {
	z := make([]complex64, n)
	m := r.LogU(1e-6, 1e13)
	ph := r.Range(-4, 4)
	dev := r.Range(0, 3.1)
	f := r.Range(0.001, 0.4)
	for i := range z {
		switch kind {
		case 0: // FM tone
			ph += dev * math.Sin(2*math.Pi*f*float64(i))
			z[i] = complex64(cmplx.Rect(m, ph))
		case 1: // constant step
			ph += dev
			z[i] = complex64(cmplx.Rect(m, ph))
		case 2: // noise
			z[i] = complex(float32(r.Norm()*m), float32(r.Norm()*m))
		case 3: // 8-bit grid, zeros and axis points included
			z[i] = complex(float32(r.Intn(7)-3), float32(r.Intn(7)-3))
		case 4: // very different magnitudes
			z[i] = complex64(cmplx.Rect(r.LogU(1e-6, 1e13), r.Range(-4, 4)))
		case 5: // half turns and quarter turns
			z[i] = []complex64{1, -1, complex(0, 1), complex(0, -1), complex(1, 1), complex(-1, 1), complex(1, -1), complex(-1, -1)}[r.Intn(8)] * complex(float32(m), 0)
		case 6: // small steps of both signs
			ph += r.Norm() * 0.01
			z[i] = complex64(cmplx.Rect(m, ph))
		}
	}
	return z
}

func checkC07(c *Ctx) {
	c.Rule = "one evaluation = one demodulated sample compared with the double-precision phase of z[n]*conj(z[n-1]); distinct = distinct (sample, predecessor) pair, both non-zero."
	arIn, arOut := NewArena(9<<20), NewArena(5<<20)
	defer arIn.Free()
	defer arOut.Free()
	var worst float64
	checkOne := func(where string, got float32, a, b complex64) {
		p := c128(a) * cmplx.Conj(c128(b))
		mag := cmplx.Abs(c128(a)) * cmplx.Abs(c128(b))
		if a == 0 || b == 0 {
			c.Seen(0, false)
			if got != 0 {
				c.Fail("zero:"+keyOf(where), "%s: phase step between %v and %v is %v, want 0", where, b, a, got)
			}
			return
		}
		c.Seen(mix(uint64(math.Float32bits(real(a))), int(math.Float32bits(imag(a))), int(math.Float32bits(real(b))), int(math.Float32bits(imag(b)))), true)
		if mag < 1e-14 || mag > 1e30 {
			return
		}
		want := math.Atan2(imag(p), real(p))
		g := float64(got)
		d := modPi(g - want)
		if d > worst {
			worst = d
		}
		if !(math.Abs(g) <= math.Pi+1e-5) {
			c.Fail("range:"+keyOf(where), "%s: phase step between %v and %v is %v", where, b, a, got)
		} else if !(d <= boundAtan2+1e-6) {
			c.Fail("phase:"+keyOf(where), "%s: phase step between %v and %v is %v, want %v (error %v)", where, b, a, got, want, d)
		}
	}
	demod := func(where string, z []complex64, parts []int) []float32 {
		fi := &dsp.FMDemodFilter{}
		var out []float32
		pos := 0
		prev := complex64(0)
		for _, k := range parts {
			extra := c.R.Intn(3)
			var ib, ob []byte
			if c.R.Bool() {
				ib, ob = arIn.End(8*k), arOut.End(4*(k+extra))
			} else {
				ib, ob = arIn.At(4*c.R.Intn(4), 8*k), arOut.At(4*c.R.Intn(4), 4*(k+extra))
			}
			in, o := as[complex64](ib), as[float32](ob)
			copy(in, z[pos:pos+k])
			for i := range o {
				o[i] = -777
			}
			n := fi.Demodulate(in, o)
			if n != k {
				c.Fail("count", "%s: Demodulate of %d samples returned %d", where, k, n)
			}
			for i := 0; i < k; i++ {
				if in[i] != z[pos+i] {
					c.Fail("input-changed", "%s: input sample %d of a block of %d changed from %v to %v", where, i, k, z[pos+i], in[i])
				}
				checkOne(fmt.Sprintf("FMDemod %s block of %d at %d, sample %d", where, k, pos, i), o[i], z[pos+i], prev)
				prev = z[pos+i]
			}
			for i := k; i < len(o); i++ {
				if o[i] != -777 {
					c.Fail("extra-output", "%s: a block of %d samples wrote output %d", where, k, i)
				}
			}
			out = append(out, o[:k]...)
			for i := range in { // the caller may reuse its buffer
				in[i] = complex(99, -99)
			}
			pos += k
		}
		return out
	}
	reps := c.N(150, 3000)
	for kind := 0; kind <= 6; kind++ {
		for rep := 0; rep < reps; rep++ {
			c.Do(fmt.Sprintf("stream kind=%d rep=%d", kind, rep), func() {
				n := c.R.Intn(c.N(600, 3000))
				if rep < 40 {
					n = rep
				}
				z := demodStream(c.R, kind, n)
				one := demod("whole", z, []int{n})
				two := demod("split", z, c.R.Split(n))
				for i := range one {
					if math.Float32bits(one[i]) != math.Float32bits(two[i]) {
						c.Fail("split", "output %d differs between one block (%v) and a split (%v)", i, one[i], two[i])
						break
					}
				}
				// scaled by a power of two and rotated copies
				rot := complex64(cmplx.Rect(math.Ldexp(1, c.R.Intn(9)-4), c.R.Range(-4, 4)))
				y := make([]complex64, n)
				for i := range z {
					y[i] = z[i] * rot
				}
				three := demod("rotated", y, []int{n})
				for i := 1; i < n; i++ {
					if z[i] != 0 && z[i-1] != 0 {
						if d := modPi(float64(one[i]) - float64(three[i])); d > 2*boundAtan2+1e-6 {
							c.Fail("rotation", "output %d changes from %v to %v when the signal is multiplied by %v", i, one[i], three[i], rot)
							break
						}
					}
				}
				for i := 1; i < n; i++ {
					checkOne("PolarDiscriminator32", dsp.PolarDiscriminator32(z[i], z[i-1]), z[i], z[i-1])
					if a, b := z[i], z[i-1]; a != 0 && b != 0 {
						g := dsp.PolarDiscriminator(c128(a), c128(b))
						w := phaseStep(c128(a), c128(b))
						if !(math.Abs(g) <= math.Pi) || !(modPi(g-w) <= 1e-13) {
							c.Fail("phase:PolarDiscriminator", "PolarDiscriminator(%v,%v) = %v, want %v", a, b, g, w)
						}
					}
				}
			})
		}
	}
	for rep, n := range []int{5003, 1<<15 + 1, 1<<16 + 3, 1<<17 + 7, 1<<18 + 1, 1<<20 + 5} {
		c.Do(fmt.Sprintf("long %d", n), func() {
			z := demodStream(c.R, rep, n)
			one := demod("long", z, []int{n})
			parts := []int{4096} // a block of another size, then the rest at once
			two := demod("long split", z, append(parts, n-4096))
			for i := range one {
				if math.Float32bits(one[i]) != math.Float32bits(two[i]) {
					c.Fail("split", "output %d differs between one block of %d (%v) and two (%v)", i, n, one[i], two[i])
					break
				}
			}
		})
	}
	// full double precision operands
	c.Do("PolarDiscriminator double", func() {
		for i := 0; i < c.N(100000, 2000000); i++ {
			a, b := cmplx.Rect(c.R.LogU(1e-100, 1e100), c.R.Range(-4, 4)), cmplx.Rect(c.R.LogU(1e-100, 1e100), c.R.Range(-4, 4))
			if i%7 == 0 {
				b = a * complex(c.R.LogU(0.1, 10), 0)
			}
			if i%50 == 1 { // no angle between a vector and nothing
				a0, b0 := a, complex(math.Copysign(0, c.R.Range(-1, 1)), math.Copysign(0, c.R.Range(-1, 1)))
				if c.R.Bool() {
					a0, b0 = b0, a0
				}
				if g := math.Abs(dsp.PolarDiscriminator(a0, b0)); g != 0 && g != math.Pi { // the sign of a zero decides between the two
					c.Fail("phase:PolarDiscriminator", "PolarDiscriminator(%v,%v) = %v, arg(a*conj(b)) is 0 or Pi", a0, b0, g)
				}
			}
			g, w := dsp.PolarDiscriminator(a, b), phaseStep(a, b)
			c.Seen(mix(math.Float64bits(real(a)), int(math.Float64bits(imag(b)))), true)
			if !(math.Abs(g) <= math.Pi) || !(modPi(g-w) <= 1e-13) {
				c.Fail("phase:PolarDiscriminator", "PolarDiscriminator(%v,%v) = %v, want %v", a, b, g, w)
			}
		}
	})
	c.Count("max_error_nanorad", int64(worst*1e9))
	c.Sample("7 kinds of streams (FM tone, constant step, noise, integer grid with zeros, mixed magnitudes, quarter turns, small steps), %d streams each", reps)
}

// phaseStep is the phase of a*conj(b) by the difference of the two phases.
func phaseStep(a, b complex128) float64 {
	d := math.Atan2(imag(a), real(a)) - math.Atan2(imag(b), real(b))
	for d > math.Pi {
		d -= 2 * math.Pi
	}
	for d < -math.Pi {
		d += 2 * math.Pi
	}
	return d
}
