package main

import (
	"bytes"
	"fmt"
	"math"

	"github.com/samuel/go-dsp/dsp"
)

func init() { checks["C13"] = checkC13; checks["C14"] = checkC14; checks["C15"] = checkC15 }

// detector makes the three Goertzel types look alike.
type detector struct {
	name  string
	cplx  bool
	outE  float64 // rounding of the readers
	feed  func(z []complex128)
	reset func()
	mag   func() []float64
	val   func() []complex128
}

func detectors(freqs []uint64, rate, block int) []func() detector {
	return []func() detector{
		func() detector {
			g := dsp.NewGoertzel(freqs, rate, block)
			return detector{"Goertzel", false, 2.3e-16, func(z []complex128) {
				v := make([]float64, len(z))
				for i := range z {
					v[i] = real(z[i])
				}
				g.Feed(v)
				for i := range z {
					if v[i] != real(z[i]) {
						panic("Feed changed its input")
					}
				}
			}, g.Reset, func() []float64 { return append([]float64{}, g.Magnitude()...) }, func() []complex128 { return append([]complex128{}, g.Complex()...) }}
		},
		func() detector {
			g := dsp.NewGoertzel32(freqs, rate, block)
			return detector{"Goertzel32", false, 1.2e-7, func(z []complex128) {
				v := make([]float32, len(z))
				for i := range z {
					v[i] = float32(real(z[i]))
				}
				g.Feed(v)
				for i := range z {
					if v[i] != float32(real(z[i])) {
						panic("Feed changed its input")
					}
				}
			}, g.Reset, func() []float64 {
				var o []float64
				for _, m := range g.Magnitude() {
					o = append(o, float64(m))
				}
				return o
			}, func() []complex128 {
				var o []complex128
				for _, m := range g.Complex() {
					o = append(o, c128(m))
				}
				return o
			}}
		},
		func() detector {
			g := dsp.NewComplexGoertzel(freqs, rate, block)
			return detector{"ComplexGoertzel", true, 2.3e-16, func(z []complex128) {
				v := append([]complex128{}, z...)
				g.Feed(v)
				for i := range z {
					if v[i] != z[i] {
						panic("Feed changed its input")
					}
				}
			}, g.Reset, func() []float64 { return append([]float64{}, g.Magnitude()...) }, func() []complex128 { return append([]complex128{}, g.Complex()...) }}
		},
	}
}

func dftBin(z []complex128, k int) complex128 {
	n := len(z)
	var re, im float64
	for t, v := range z {
		s, co := math.Sincos(-2 * math.Pi * float64((uint64(k)*uint64(t))%uint64(n)) / float64(n))
		re += real(v)*co - imag(v)*s
		im += real(v)*s + imag(v)*co
	}
	return complex(re, im)
}

func checkC13(c *Ctx) {
	c.Rule = "one evaluation = one detector and one target after a full block, complex value and squared magnitude compared with the direct DFT of the block at the nearest bin; distinct = distinct (detector, rate, block size, target, block)."
	rates := []int{1, 2, 7, 100, 1000, 8000, 11025, 16000, 44100, 48000, 192000, 1000000, 2048000, 2400000}
	for rep := 0; rep < c.N(4000, 40000); rep++ {
		c.Do(fmt.Sprintf("block rep %d", rep), func() {
			r := c.R
			rate := rates[r.Intn(len(rates))]
			n := 1 + r.Intn(300)
			if rep < 80 {
				n = 1 + rep
			}
			if rep%25 == 24 {
				n = 300 + r.Intn(c.N(3000, 8000))
			}
			nt := r.Intn(12)
			if rep%10 == 0 {
				nt = 1
			}
			switch rep {
			case 3, 1203: // many targets
				n, nt = 200, 300
			case 4, 1204:
				n, nt = 64, 1025
			case 5, 1205, 6, 1206: // long blocks
				n, nt = 1<<(17+rep%2)+3+r.Intn(100), 2
			}
			freqs := make([]uint64, nt)
			for i := range freqs {
				switch r.Intn(5) {
				case 0: // on a bin, and just off it
					freqs[i] = uint64(float64(r.Intn(n+1)) * float64(rate) / float64(n))
				case 1: // the ends
					freqs[i] = []uint64{0, 1, uint64(rate), uint64(rate) / 2, uint64(rate - 1)}[r.Intn(5)]
				case 2: // half-way between bins
					freqs[i] = uint64((float64(r.Intn(n)) + 0.5) * float64(rate) / float64(n))
				default:
					freqs[i] = uint64(r.Intn(rate + 1))
				}
				if i > 0 && r.Intn(10) == 0 {
					freqs[i] = freqs[i-1]
				}
			}
			own := append([]uint64{}, freqs...)
			z := make([]complex128, n)
			g, h := sampleGen(r), sampleGen(r)
			tone := r.Intn(3) == 0 && nt > 0
			for i := range z {
				z[i] = complex(float64(float32(g())), h())
				if tone {
					w := 2 * math.Pi * float64(own[0]) / float64(rate) * float64(i)
					z[i] = complex(float64(float32(math.Cos(w+0.7))), math.Sin(w+0.7))
				}
			}
			if rep%5 == 2 { // small whole numbers, targets at the ends: states that are exactly zero
				for i := range z {
					z[i] = complex(float64(r.Intn(5)-2), float64(r.Intn(5)-2))
				}
				for i := range own {
					own[i] = []uint64{0, uint64(rate)}[r.Intn(2)]
					freqs[i] = own[i]
				}
			}
			for _, mkd := range detectors(freqs, rate, n) {
				d := mkd()
				for i := range freqs { // the detector must not depend on the caller's table any more
					freqs[i] = uint64(r.Intn(rate + 1))
				}
				useReset := r.Intn(2) == 0
				if useReset { // history before the reset must not matter
					junk := make([]complex128, r.Intn(3*n)+1)
					for i := range junk {
						junk[i] = complex(r.Norm()*1e3, r.Norm()*1e3)
					}
					if rep%5 == 2 {
						for i := range junk {
							junk[i] = complex(float64(r.Intn(5)-2), float64(r.Intn(5)-2))
						}
					}
					d.feed(junk)
					if r.Bool() {
						d.mag()
					}
					d.reset()
				}
				blk := z
				if !d.cplx {
					blk = make([]complex128, n)
					for i := range z {
						blk[i] = complex(real(z[i]), 0)
					}
				}
				pos := 0
				for _, k := range r.Split(n) {
					d.feed(blk[pos : pos+k])
					pos += k
					if r.Intn(3) == 0 { // reading in the middle changes nothing
						d.mag()
					}
					if r.Intn(3) == 0 {
						d.val()
					}
				}
				var mag []float64
				var val []complex128
				if r.Bool() {
					mag, val = d.mag(), d.val()
				} else {
					val, mag = d.val(), d.mag()
				}
				if len(mag) != nt || len(val) != nt {
					c.Fail("count:"+d.name, "%d targets but %d magnitudes and %d values", nt, len(mag), len(val))
					return
				}
				for k := 0; k < 3; k++ { // repeated reads
					m2, v2 := d.mag(), d.val()
					if !bytes.Equal(bytesOf(m2), bytesOf(mag)) || !bytes.Equal(bytesOf(v2), bytesOf(val)) {
						c.Fail("read:"+d.name, "reading twice gives different results: %v / %v, %v / %v", mag, m2, val, v2)
						break
					}
				}
				// the same block after a reset gives exactly the same result as the first time
				if useReset {
					f := mkdFresh(own, rate, n, d.name)
					f.feed(blk)
					if !bytes.Equal(bytesOf(f.mag()), bytesOf(mag)) || !bytes.Equal(bytesOf(f.val()), bytesOf(val)) {
						c.Fail("reset:"+d.name, "after Reset a block gives %v, a new detector gives %v", val, f.val())
					}
				}
				var sumAbs float64
				for _, v := range blk {
					sumAbs += math.Abs(real(v)) + math.Abs(imag(v))
				}
				for i, fr := range own {
					exactBin := float64(fr) * float64(n) / float64(rate)
					lo, hi := int(math.Floor(exactBin)), int(math.Floor(exactBin))+1
					var cand []int
					switch frac := exactBin - math.Floor(exactBin); {
					case math.Abs(frac-0.5) < 1e-9:
						cand = []int{lo, hi}
					case frac < 0.5:
						cand = []int{lo}
					default:
						cand = []int{hi}
					}
					c.Seen(mix(hashS(d.name), rate, n, int(fr), rep), n > 1)
					var best string
					okk := false
					for _, k := range cand {
						w := 2 * math.Pi * float64(k) / float64(n)
						x := dftBin(blk, k)
						reson := math.Min(float64(n), 1/math.Max(math.Abs(math.Sin(w)), 1e-12))
						q := sumAbs * reson
						e := 8*2.3e-16*q*float64(n) + 1e-300
						tolV := e + d.outE*math.Hypot(real(x), imag(x))
						pm := real(x)*real(x) + imag(x)*imag(x)
						tolM := 2*math.Sqrt(pm)*e + e*e + 16*2.3e-16*q*q + 4*d.outE*pm
						if d.outE > 1e-10 {
							tolV += 1e-38
							tolM += 1e-38
						}
						okV := math.Abs(real(val[i])-real(x)) <= tolV && math.Abs(imag(val[i])-imag(x)) <= tolV
						okM := math.Abs(mag[i]-pm) <= tolM
						if okV && okM {
							okk = true
							break
						}
						best = fmt.Sprintf("%s: rate %d, block %d, target %d Hz (bin %d): value %v, DFT %v (tolerance %g); magnitude %v, want %v (tolerance %g)", d.name, rate, n, fr, k, val[i], x, tolV, mag[i], pm, tolM)
					}
					if !okk {
						c.Fail("dft:"+d.name, "%s", best)
					}
				}
				copy(freqs, own)
			}
		})
	}
	// reads anywhere in a history depend only on the samples since the last reset, not on earlier reads
	for rep := 0; rep < c.N(1500, 20000); rep++ {
		c.Do(fmt.Sprintf("history rep %d", rep), func() {
			r := c.R
			n := 1 + r.Intn(40)
			rate := rates[r.Intn(len(rates))]
			freqs := make([]uint64, 1+r.Intn(4))
			for i := range freqs {
				freqs[i] = uint64(r.Intn(rate + 1))
			}
			for di, mkd := range detectors(freqs, rate, n) {
				d := mkd()
				var since []complex128
				trace := ""
				for st := 0; st < 14; st++ {
					switch r.Intn(6) {
					case 0, 1:
						m := r.Intn(n + 1)
						if m > n-len(since) {
							m = n - len(since) // not beyond the block
						}
						z := make([]complex128, m)
						for i := range z {
							z[i] = complex(float64(float32(r.Norm())), r.Norm())
						}
						d.feed(z)
						since = append(since, z...)
						trace += fmt.Sprintf("feed %d;", m)
					case 2:
						d.reset()
						since = nil
						trace += "reset;"
					default:
						f := detectors(freqs, rate, n)[di]()
						f.feed(since)
						c.Seen(mix(hashS(d.name, "history"), rep, st), true)
						if r.Bool() {
							trace += "magnitude;"
							if g, w := d.mag(), f.mag(); !bytes.Equal(bytesOf(g), bytesOf(w)) {
								c.Fail("history:"+d.name, "%s: Magnitude %v, a new detector fed the same %d samples gives %v", trace, g, len(since), w)
								return
							}
						} else {
							trace += "complex;"
							if g, w := d.val(), f.val(); !bytes.Equal(bytesOf(g), bytesOf(w)) {
								c.Fail("history:"+d.name, "%s: Complex %v, a new detector fed the same %d samples gives %v", trace, g, len(since), w)
								return
							}
						}
						if len(since) == 0 {
							for _, m := range d.mag() {
								if m != 0 {
									c.Fail("history:"+d.name, "%s: magnitude %v without a sample since the reset", trace, m)
									return
								}
							}
						}
						c.Count("reads_in_histories", 1)
					}
				}
			}
		})
	}
	c.Sample("%d blocks: sizes 1..80 in turn, random up to 300, some to 8000; %d rates; 0..11 targets including 0, half and the full sample rate, bin centres and bin borders", c.N(4000, 40000), len(rates))
}

func mkdFresh(freqs []uint64, rate, n int, name string) detector {
	for _, f := range detectors(freqs, rate, n) {
		if d := f(); d.name == name {
			return d
		}
	}
	panic("harness: detector")
}

func checkC14(c *Ctx) {
	c.Rule = "one evaluation = one output sample of a sliding DFT compared with the direct windowed DFT of the last n samples (or, on long runs of a single unit-weight bin, with one step of the recursion); distinct = distinct (precision, k, n, window, sample index, stream)."
	windows := [][]float64{nil, {1}, dsp.HanningFreqCoeff, dsp.HammingFreqCoeff, dsp.BlackmanFreqCoeff, {0.5, 0.5}, {0, 1}, {1, 0}}
	type filt struct {
		name string
		eps  float64
		f    func(complex128) complex128
	}
	build := func(k, n int, w []float64) []filt {
		w32 := toF32(w)
		ww := append([]float64{}, w...)
		a, b := dsp.NewSDFT(k, n, ww), dsp.NewSDFT32(k, n, w32)
		for i := range ww { // the filter must have its own copy
			ww[i], w32[i] = 77, -77
		}
		return []filt{
			{"SDFT", 2.3e-16, a.Filter},
			{"SDFT32", 1.2e-7, func(x complex128) complex128 { return c128(b.Filter(complex64(x))) }},
		}
	}
	var worst float64
	for rep := 0; rep < c.N(900, 8000); rep++ {
		c.Do(fmt.Sprintf("window rep %d", rep), func() {
			r := c.R
			n := 1 + r.Intn(70)
			if rep < 40 {
				n = 1 + rep
			}
			k := r.Intn(n)
			switch r.Intn(8) {
			case 0:
				k = 0
			case 1:
				k = n - 1
			}
			w := windows[rep%len(windows)]
			if r.Intn(6) == 0 {
				w = make([]float64, 1+r.Intn(9))
				for i := range w {
					w[i] = float64(float32(r.Norm()))
				}
			}
			eff := w
			if len(eff) == 0 {
				eff = []float64{1}
			}
			fs := build(k, n, w)
			T := r.Intn(5*n + 60)
			g, h := sampleGen(r), sampleGen(r)
			hist := make([]complex128, n) // oldest first
			var maxx float64
			var sw float64
			for _, x := range eff {
				sw += math.Abs(x)
			}
			total := T + n + 1
			for t := 0; t < total; t++ {
				x := complex(float64(float32(g())), float64(float32(h())))
				if t >= T {
					x = 0 // flush
				}
				maxx = math.Max(maxx, math.Max(math.Abs(real(x)), math.Abs(imag(x))))
				copy(hist, hist[1:])
				hist[n-1] = x
				var want complex128
				for i, wi := range eff {
					j := ((k-len(eff)/2+i)%n + n) % n
					want += complex(wi, 0) * dftBin(hist, j)
				}
				for _, f := range fs {
					got := f.f(x)
					c.Seen(mix(hashS(f.name, fmt.Sprint(w)), k, n, t, rep), n > 1)
					// every past step adds the rounding of a state of at most n*max|x|
					tol := f.eps*float64(t+2*n+4)*3*sw*maxx*float64(n+2) + 1e-300
					if f.eps > 1e-10 {
						tol += 1e-38
					}
					e := math.Max(math.Abs(real(got)-real(want)), math.Abs(imag(got)-imag(want)))
					if tol > 0 && e/tol > worst {
						worst = e / tol
					}
					if !(e <= tol) {
						what := "windowed DFT"
						if t >= T+n-1 {
							what = "zero after n zero samples"
						}
						c.Fail("dft:"+f.name, "%s(k=%d,n=%d,window %v): output %d is %v, want %v: %s (tolerance %g)", f.name, k, n, headD(w), t, got, want, what, tol)
						return
					}
				}
			}
		})
	}
	// long runs, one bin: y[t] = (x[t] - x[t-n] + y[t-1]) * e^(2 pi i k/n), to the rounding of one step
	for rep := 0; rep < c.N(15, 60); rep++ {
		c.Do(fmt.Sprintf("long rep %d", rep), func() {
			r := c.R
			n := []int{1, 2, 3, 16, 64, 100, 255, 256, 257, 1000, 1024, 4096, 65536, 65537, 33000}[rep%15]
			k := r.Intn(n)
			fs := build(k, n, nil)
			e := cRect(2 * math.Pi * float64(k) / float64(n))
			ring := make([]complex128, n)
			var prev [2]complex128
			T := c.N(140000, 600000)
			for t := 0; t < T; t++ {
				x := complex(float64(float32(r.Norm())), float64(float32(r.Norm())))
				old := ring[t%n]
				ring[t%n] = x
				for i, f := range fs {
					got := f.f(x)
					want := (x - old + prev[i]) * e
					m := math.Abs(real(prev[i])) + math.Abs(imag(prev[i])) + 20
					if !(math.Abs(real(got)-real(want)) <= 4*f.eps*m && math.Abs(imag(got)-imag(want)) <= 4*f.eps*m) {
						c.Fail("step:"+f.name, "%s(k=%d,n=%d): output %d is %v, one step of the recursion from the previous output gives %v", f.name, k, n, t, got, want)
						return
					}
					prev[i] = got
				}
				c.Evals += 2
			}
			c.Seen(mix(hashS("long"), k, n, rep), true)
			// and the absolute value after the whole run, in double precision
			var lin []complex128
			for i := 0; i < n; i++ {
				lin = append(lin, ring[(T+i)%n])
			}
			want := dftBin(lin, k)
			if d := math.Hypot(real(prev[0])-real(want), imag(prev[0])-imag(want)); !(d <= 2.3e-16*float64(T)*3*math.Sqrt(float64(n))*5) {
				c.Fail("drift:SDFT", "SDFT(k=%d,n=%d): after %d samples the output is %v, the DFT of the last n samples %v", k, n, T, prev[0], want)
			}
			if d := math.Hypot(real(prev[1])-real(want), imag(prev[1])-imag(want)); !(d <= 1.2e-7*float64(T)*5*math.Sqrt(float64(n))) {
				c.Fail("drift:SDFT32", "SDFT32(k=%d,n=%d): after %d samples the output is %v, the DFT of the last n samples %v", k, n, T, prev[1], want)
			}
		})
	}
	c.Count("max_error_ppm_of_tolerance", int64(worst*1e6))
	c.Sample("n 1..70, every window table of the package, no window, even-length and random windows; 12 long runs of %d samples with n up to 4096", c.N(140000, 600000))
}

func cRect(w float64) complex128 { s, co := math.Sincos(w); return complex(co, s) }

func checkC15(c *Ctx) {
	c.Rule = "one evaluation = one window of one length, every coefficient compared with the closed form, symmetry, range, finiteness and the single-precision variant; distinct = distinct (window, length)."
	type win struct {
		name string
		f    func([]float64)
		f32  func([]float32)
		def  func(i, n int) float64
	}
	cosSum := func(a ...float64) func(i, n int) float64 {
		return func(i, n int) float64 {
			if n == 1 {
				return 1
			}
			v, s := 0.0, 1.0
			for m, x := range a {
				v += s * x * math.Cos(2*math.Pi*float64(m)*float64(i)/float64(n-1))
				s = -s
			}
			return v
		}
	}
	wins := []win{
		{"Triangle", dsp.TriangleWindow, dsp.TriangleWindowF32, func(i, n int) float64 {
			return 1 - math.Abs(float64(2*i-(n-1)))/float64(n+1)
		}},
		{"Hamming", dsp.HammingWindow, dsp.HammingWindowF32, cosSum(0.53836, 1-0.53836)},
		{"Hanning", dsp.HanningWindow, dsp.HanningWindowF32, cosSum(0.5, 0.5)},
		{"Blackman", dsp.BlackmanWindow, dsp.BlackmanWindowF32, cosSum(0.42, 0.5, 0.08)},
		{"Nuttall", dsp.NuttallWindow, dsp.NuttallWindowF32, cosSum(0.355768, 0.487396, 0.144232, 0.012604)},
	}
	ar, ar32 := NewArena(1<<24), NewArena(1<<23)
	defer ar.Free()
	defer ar32.Free()
	lens := []int{}
	for n := 0; n <= c.N(1500, 5000); n++ {
		lens = append(lens, n)
	}
	for _, n := range []int{2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 10000, 16384, 32768, 44100, 65535, 65536, 65537, 100000, 131073, 200003, 262144, 262145, 1000003} {
		lens = append(lens, n)
	}
	for _, w := range wins {
		w := w
		for _, n := range lens {
			c.Do(fmt.Sprintf("%s/length %d", w.name, n), func() {
				o, o32 := as[float64](ar.End(8*n)), as[float32](ar32.End(4*n))
				for i := range o {
					o[i], o32[i] = 1e9, 1e9
				}
				w.f(o)
				w.f32(o32)
				c.Seen(mix(hashS(w.name), n), n > 0)
				for i := range o {
					want := w.def(i, n)
					switch {
					case !(math.Abs(o[i]-want) <= 1e-12):
						c.Fail("value:"+w.name, "%s window of length %d: coefficient %d is %v, want %v", w.name, n, i, o[i], want)
						return
					case !(o[i] >= -1e-12 && o[i] <= 1+1e-12):
						c.Fail("range:"+w.name, "%s window of length %d: coefficient %d is %v", w.name, n, i, o[i])
						return
					case !(math.Abs(o[i]-o[n-1-i]) <= 1e-12):
						c.Fail("symmetry:"+w.name, "%s window of length %d: coefficients %d and %d are %v and %v", w.name, n, i, n-1-i, o[i], o[n-1-i])
						return
					case o32[i] != float32(o[i]) && !(math.Abs(float64(o32[i])-o[i]) <= 6e-8*math.Abs(o[i])+1e-15):
						c.Fail("single:"+w.name, "%s window of length %d: single-precision coefficient %d is %v, double %v", w.name, n, i, o32[i], o[i])
						return
					}
				}
			})
		}
		c.Sample("%s: every length 0..%d and 21 longer ones", w.name, c.N(1500, 5000))
	}
	// frequency-domain coefficients: the DFT of the periodic window
	type freq struct {
		name string
		c64  []float64
		c32  []float32
		f    func([]float64)
	}
	fr := []freq{
		{"BlackmanFreqCoeff", dsp.BlackmanFreqCoeff, dsp.BlackmanFreqCoeff32, dsp.BlackmanWindow},
		{"HammingFreqCoeff", dsp.HammingFreqCoeff, dsp.HammingFreqCoeff32, dsp.HammingWindow},
		{"HanningFreqCoeff", dsp.HanningFreqCoeff, dsp.HanningFreqCoeff32, dsp.HanningWindow},
	}
	for _, f := range fr {
		f := f
		for n := 8; n <= c.N(128, 512); n++ {
			c.Do(fmt.Sprintf("%s/size %d", f.name, n), func() {
				full := make([]float64, n+1)
				f.f(full)
				z := make([]complex128, n)
				for i := range z {
					z[i] = complex(full[i], 0)
				}
				c.Seen(mix(hashS(f.name), n), true)
				half := len(f.c64) / 2
				if len(f.c64)%2 != 1 || len(f.c32) != len(f.c64) {
					c.Fail("freq:"+f.name, "%s has %d and %d coefficients", f.name, len(f.c64), len(f.c32))
					return
				}
				for m := 0; m < n; m++ {
					v := dftBin(z, m) / complex(float64(n), 0)
					want := 0.0
					if m <= half {
						want = f.c64[half+m]
					} else if m >= n-half {
						want = f.c64[half+m-n]
					}
					if !(math.Abs(real(v)-want) <= 1e-12 && math.Abs(imag(v)) <= 1e-12) {
						c.Fail("freq:"+f.name, "%s: bin %d of the periodic window of length %d is %v, the table has %v", f.name, m, n, v, want)
						return
					}
				}
				for i := range f.c64 {
					if f.c32[i] != float32(f.c64[i]) {
						c.Fail("freq32:"+f.name, "%s: single-precision coefficient %d is %v, double %v", f.name, i, f.c32[i], f.c64[i])
					}
				}
				// the convolution theorem on a random spectrum, at one bin
				x := make([]complex128, n)
				xw := make([]complex128, n)
				for i := range x {
					x[i] = complex(c.R.Norm(), c.R.Norm())
					xw[i] = x[i] * z[i]
				}
				k := c.R.Intn(n)
				var sum complex128
				for i, w := range f.c64 {
					sum += complex(w, 0) * dftBin(x, ((k-half+i)%n+n)%n)
				}
				d := dftBin(xw, k)
				if !(math.Hypot(real(d-sum), imag(d-sum)) <= 1e-10) {
					c.Fail("convolution:"+f.name, "%s: bin %d of %d: convolution gives %v, windowing %v", f.name, k, n, sum, d)
				}
			})
		}
	}
}
