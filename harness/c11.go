package main

import (
	"fmt"
	"math"
	"math/cmplx"

	"github.com/samuel/go-dsp/dsp"
)

func init() { checks["C11"] = checkC11 }

type biquadDesign struct {
	name string
	mk   func(rate, f, q, db float64) *dsp.BiQuadFilter
	h    func(s complex128, q, db float64) complex128
	// law checks the documented gains at DC, centre and Nyquist directly
	law func(dc, centre, nyq, q, db float64) string
}

func gains(want [3]float64) func(dc, centre, nyq, q, db float64) string {
	return func(dc, centre, nyq, q, db float64) string {
		for i, g := range []float64{dc, centre, nyq} {
			w := want[i]
			switch {
			case math.IsNaN(w):
				continue
			case w == -2:
				w = q
			case w == -3:
				w = math.Pow(10, db/20)
			case w == -4:
				w = math.Pow(10, db/40)
			}
			if !(math.Abs(g-w) <= 1e-6*(1+w)) {
				return fmt.Sprintf("gain at %s is %v, want %v", []string{"DC", "the centre", "Nyquist"}[i], g, w)
			}
		}
		return ""
	}
}

var biquadDesigns = func() []biquadDesign {
	den := func(s complex128, q float64) complex128 { return s*s + s/complex(q, 0) + 1 }
	amp := func(db float64) complex128 { return complex(math.Pow(10, db/40), 0) }
	shelfQ := func(slope float64, db float64) complex128 { // 1/Q
		a := math.Pow(10, db/40)
		return complex(math.Sqrt((a+1/a)*(1/slope-1)+2), 0)
	}
	return []biquadDesign{
		{"LowPass", func(r, f, q, db float64) *dsp.BiQuadFilter { return dsp.NewLowPassBiQuadFilter(r, f, q) },
			func(s complex128, q, db float64) complex128 { return 1 / den(s, q) }, gains([3]float64{1, -2, 0})},
		{"HighPass", func(r, f, q, db float64) *dsp.BiQuadFilter { return dsp.NewHighPassBiQuadFilter(r, f, q) },
			func(s complex128, q, db float64) complex128 { return s * s / den(s, q) }, gains([3]float64{0, -2, 1})},
		{"BandPassConstantSkirtGain", func(r, f, q, db float64) *dsp.BiQuadFilter {
			return dsp.NewBandPassConstantSkirtGainBiQuadFilter(r, f, q)
		}, func(s complex128, q, db float64) complex128 { return s / den(s, q) }, gains([3]float64{0, -2, 0})},
		{"BandPassConstantPeakGain", func(r, f, q, db float64) *dsp.BiQuadFilter {
			return dsp.NewBandPassConstantPeakGainBiQuadFilter(r, f, q)
		}, func(s complex128, q, db float64) complex128 { return s / complex(q, 0) / den(s, q) }, gains([3]float64{0, 1, 0})},
		{"Notch", func(r, f, q, db float64) *dsp.BiQuadFilter { return dsp.NotchBiQuadFilter(r, f, q) },
			func(s complex128, q, db float64) complex128 { return (s*s + 1) / den(s, q) }, gains([3]float64{1, 0, 1})},
		{"AllPass", func(r, f, q, db float64) *dsp.BiQuadFilter { return dsp.AllPassBiQuadFilter(r, f, q) },
			func(s complex128, q, db float64) complex128 { return (s*s - s/complex(q, 0) + 1) / den(s, q) }, gains([3]float64{1, 1, 1})},
		{"PeakingEQ", dsp.PeakingEQBiQuadFilter,
			func(s complex128, q, db float64) complex128 {
				a := amp(db)
				return (s*s + s*a/complex(q, 0) + 1) / (s*s + s/(a*complex(q, 0)) + 1)
			}, gains([3]float64{1, -3, 1})},
		{"LowShelf", dsp.LowShelfBiQuadFilter,
			func(s complex128, slope, db float64) complex128 {
				a := amp(db)
				sq := cmplx.Sqrt(a) * shelfQ(slope, db)
				return a * (s*s + sq*s + a) / (a*s*s + sq*s + 1)
			}, gains([3]float64{-3, -4, 1})},
		{"HighShelf", dsp.HighShelfBiQuadFilter,
			func(s complex128, slope, db float64) complex128 {
				a := amp(db)
				sq := cmplx.Sqrt(a) * shelfQ(slope, db)
				return a * (a*s*s + sq*s + 1) / (s*s + sq*s + a)
			}, gains([3]float64{1, -4, -3})},
	}
}()

func checkC11(c *Ctx) {
	c.Rule = "one evaluation = one designed filter: coefficients' response at 40+ frequencies against the analogue prototype, gains at DC/centre/Nyquist, poles, the running filter's trace against the difference equation, its measured impulse spectrum, single/double agreement, scaled coefficients; distinct = distinct (designer, parameters)."
	const eps = 2.3e-16
	for _, d := range biquadDesigns {
		d := d
		for rep := 0; rep < c.N(1500, 20000); rep++ {
			c.Do(fmt.Sprintf("%s/rep %d", d.name, rep), func() {
				r := c.R
				rate := []float64{1, 8000, 44100, 48000, 96000, 2.4e6, 11025.5}[r.Intn(7)]
				f0 := rate * r.Range(0.001, 0.499)
				switch r.Intn(8) {
				case 0:
					f0 = rate * 0.25
				case 1:
					f0 = rate * r.LogU(1e-4, 1e-2)
				case 2:
					f0 = rate * (0.5 - r.LogU(1e-4, 1e-2))
				}
				q := r.LogU(0.1, 100)
				if r.Intn(6) == 0 {
					q = []float64{math.Sqrt(0.5), 1, 0.5, 2}[r.Intn(4)]
				}
				db := r.Range(-40, 40)
				if r.Intn(6) == 0 {
					db = r.Range(-80, 80)
				}
				if r.Intn(6) == 0 {
					db = []float64{0, 6, -6, 12, -12, 20}[r.Intn(6)]
				}
				shelf := d.name == "LowShelf" || d.name == "HighShelf"
				if shelf {
					q = r.Range(0.05, 1)
					if r.Intn(6) == 0 {
						q = 1
					}
				}
				desc := fmt.Sprintf("%s(rate=%v, f=%v, q/slope=%v, db=%v)", d.name, rate, f0, q, db)
				f := d.mk(rate, f0, q, db)
				c.Seen(mix(hashS(d.name, rate, f0, q, db)), true)
				b := []float64{f.B0, f.B1, f.B2}
				a := []float64{f.A0, f.A1, f.A2}
				// stability: the triangle conditions
				a1, a2 := a[1]/a[0], a[2]/a[0]
				if !(math.Abs(a2) < 1 && math.Abs(a1) < 1+a2+1e-14) {
					c.Fail("unstable:"+d.name, "%s: poles not inside the unit circle: a %v", desc, a)
					return
				}
				w0 := 2 * math.Pi * f0 / rate
				eval := func(p []float64, w float64) (complex128, float64) {
					z := cmplx.Rect(1, -w)
					return complex(p[0], 0) + complex(p[1], 0)*z + complex(p[2], 0)*z*z, math.Abs(p[0]) + math.Abs(p[1]) + math.Abs(p[2])
				}
				resp := func(w float64) (n, dn complex128, want complex128, tol float64) {
					n, sb := eval(b, w)
					dn, sa := eval(a, w)
					t := math.Tan(w/2) / math.Tan(w0/2)
					want = d.h(complex(0, t), q, db)
					A := math.Pow(10, math.Abs(db)/40)
					ex := 8.0
					if shelf || d.name == "PeakingEQ" {
						ex = 8 * A * A
					}
					cw := 1 + w0 + 1/math.Max(math.Pi-w0, 1e-9) // conditioning of tan near Nyquist
					tol = eps * (128*(sb+cmplx.Abs(want)*sa) + ex*(1+cmplx.Abs(want))) * cw
					return
				}
				ws := []float64{w0, w0 * 0.5, w0 * 0.9, w0 * 0.99, w0 * 1.01, (w0 + math.Pi) / 2, 1e-3 * w0}
				for i := 0; i < 34; i++ {
					ws = append(ws, math.Pi*(float64(i)+r.F64())/35)
				}
				for _, w := range ws {
					if w <= 0 || w >= math.Pi {
						continue
					}
					n, dn, want, tol := resp(w)
					if e := cmplx.Abs(n - want*dn); !(e <= tol) {
						c.Fail("response:"+d.name, "%s: response at %v of the design frequency is %v, prototype %v (residual %g > %g)", desc, w/w0, n/dn, want, e, tol)
						return
					}
				}
				// documented gains
				gain := func(w float64) float64 {
					n, _ := eval(b, w)
					dn, _ := eval(a, w)
					return cmplx.Abs(n / dn)
				}
				if w0 > 0.01 && w0 < math.Pi-0.01 {
					dc, ny := (b[0]+b[1]+b[2])/(a[0]+a[1]+a[2]), (b[0]-b[1]+b[2])/(a[0]-a[1]+a[2])
					if e := d.law(math.Abs(dc), gain(w0), math.Abs(ny), q, db); e != "" {
						c.Fail("gain:"+d.name, "%s: %s", desc, e)
					}
				}
				// the running filter: residual of the difference equation, from zero state
				n := 64 + r.Intn(200)
				x := append([]float64{}, as[float64](genF64s(r, n))...)
				y := make([]float64, n)
				run := *f
				run.Filter(x, y)
				xc, yc := make([]complex128, n), make([]complex128, n)
				for i := range x {
					xc[i], yc[i] = complex(x[i], 0), complex(y[i], 0)
				}
				if i, want, tol := residual(b, a, xc, yc, eps); i >= 0 {
					c.Fail("equation:"+d.name, "%s: running: output %d is %v, the difference equation gives %v (tolerance %g)", desc, i, y[i], real(want), tol)
					return
				}
				// retuning a running filter: the exported coefficients are those of the next sample, the history stays
				{
					o := biquadDesigns[r.Intn(len(biquadDesigns))].mk(rate, rate*r.Range(0.02, 0.45), r.Range(0.4, 3), r.Range(-12, 12))
					cut := r.Intn(n + 1)
					g := *f
					z := make([]float64, n)
					g.Filter(x[:cut], z[:cut])
					g.B0, g.B1, g.B2, g.A0, g.A1, g.A2 = o.B0, o.B1, o.B2, o.A0, o.A1, o.A2
					if r.Bool() {
						g.Filter(x[cut:], z[cut:])
					} else {
						in32, out32 := make([]float32, n-cut), make([]float32, n-cut)
						for i := range in32 {
							in32[i] = float32(x[cut+i])
						}
						h := g
						h.Filter(x[cut:], z[cut:])
						g.FilterF32(in32, out32)
						var m float64
						exact := true
						for i := range in32 {
							exact = exact && float64(in32[i]) == x[cut+i]
							m = math.Max(m, math.Abs(z[cut+i]))
						}
						for i := range out32 {
							if exact && !(math.Abs(float64(out32[i])-z[cut+i]) <= 1e-6*(m+maxAbs(z))) {
								c.Fail("retuned:"+d.name, "%s: FilterF32 after new coefficients at sample %d: output %d is %v, Filter gives %v", desc, cut, cut+i, out32[i], z[cut+i])
								return
							}
						}
					}
					zc := make([]complex128, n)
					for i := range z {
						zc[i] = complex(z[i], 0)
					}
					if i, want, tol := residualFrom([]float64{o.B0, o.B1, o.B2}, []float64{o.A0, o.A1, o.A2}, xc, zc, eps, cut); i >= 0 {
						c.Fail("retuned:"+d.name, "%s: coefficients replaced after %d samples: output %d is %v, the difference equation gives %v (tolerance %g)", desc, cut, i, z[i], real(want), tol)
						return
					}
				}
				// in place, mixed precision on one shared state (inputs representable in single precision)
				shadow, mixed := *f, *f
				pos := 0
				for _, k := range r.Split(n) {
					blk := make([]float64, k)
					for i := range blk {
						blk[i] = float64(float32(x[pos+i]))
					}
					ref := make([]float64, k)
					shadow.Filter(blk, ref)
					if r.Bool() {
						in32, out32 := make([]float32, k), make([]float32, k)
						for i := range blk {
							in32[i] = float32(blk[i])
						}
						if r.Bool() {
							out32 = in32
						}
						mixed.FilterF32(in32, out32)
						for i := range ref {
							if w := float32(ref[i]); w != out32[i] && ulpDiff32(w, out32[i]) > 1 {
								c.Fail("single:"+d.name, "%s: FilterF32 output %d is %v, the double-precision state gives %v", desc, pos+i, out32[i], ref[i])
								return
							}
						}
					} else {
						mixed.Filter(blk, blk)
						for i := range ref {
							if !(math.Abs(blk[i]-ref[i]) <= 1e-9*maxAbs(y)) {
								c.Fail("shared-state:"+d.name, "%s: Filter output %d is %v after single-precision blocks, %v without", desc, pos+i, blk[i], ref[i])
								return
							}
						}
					}
					pos += k
				}
				// common scaling of the coefficients
				for _, k := range []float64{2, -0.25, 1024} {
					g := dsp.BiQuadFilter{B0: f.B0 * k, B1: f.B1 * k, B2: f.B2 * k, A0: f.A0 * k, A1: f.A1 * k, A2: f.A2 * k}
					o := make([]float64, n)
					g.Filter(x, o)
					for i := range o {
						if o[i] != y[i] {
							c.Fail("scaled:"+d.name, "%s: coefficients times %v change output %d from %v to %v", desc, k, i, y[i], o[i])
							return
						}
					}
				}
				{
					k := r.LogU(1e-3, 1e3)
					sb := []float64{f.B0 * k, f.B1 * k, f.B2 * k}
					sa := []float64{f.A0 * k, f.A1 * k, f.A2 * k}
					g := dsp.BiQuadFilter{B0: sb[0], B1: sb[1], B2: sb[2], A0: sa[0], A1: sa[1], A2: sa[2]}
					o := make([]float64, n)
					g.Filter(x, o)
					for i := range o {
						yc[i] = complex(o[i], 0)
					}
					if i, want, tol := residual(sb, sa, xc, yc, eps); i >= 0 {
						c.Fail("scaled:"+d.name, "%s: coefficients times %v: output %d is %v, the difference equation gives %v (tolerance %g)", desc, k, i, o[i], real(want), tol)
						return
					}
				}
				// measured spectrum of the impulse response when it fits a buffer
				rad := math.Sqrt(math.Abs(a2))
				if disc := a1*a1 - 4*a2; disc > 0 {
					rad = (math.Abs(a1) + math.Sqrt(disc)) / 2
				}
				if rep%8 == 0 && rad < 0.99 {
					m := int(math.Log(1e-14)/math.Log(math.Max(rad, 0.1))) + 64
					imp, h := make([]float64, m), make([]float64, m)
					imp[0] = 1
					fresh := *f
					fresh.Filter(imp, h)
					for i := 0; i < 6; i++ {
						w := r.Range(0.01, math.Pi-0.01)
						var s complex128
						z, zn := cmplx.Rect(1, -w), complex(1, 0)
						var l1 float64
						for k := range h {
							if k%256 == 0 {
								zn = cmplx.Rect(1, -w*float64(k))
							}
							s += complex(h[k], 0) * zn
							zn *= z
							l1 += math.Abs(h[k])
						}
						want := d.h(complex(0, math.Tan(w/2)/math.Tan(w0/2)), q, db)
						c.Count("measured_responses", 1)
						if !(cmplx.Abs(s-want) <= 1e-7*(1+l1+cmplx.Abs(want))) {
							c.Fail("measured:"+d.name, "%s: spectrum of the impulse response at %v rad is %v, prototype %v", desc, w, s, want)
							return
						}
					}
				}
			})
		}
		c.Sample("%s: %d random parameter sets", d.name, c.N(1500, 20000))
	}
}

func maxAbs(v []float64) float64 {
	m := 1e-300
	for _, x := range v {
		m = math.Max(m, math.Abs(x))
	}
	return m
}
