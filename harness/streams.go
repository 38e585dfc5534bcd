package main

import (
	"math"
	"math/cmplx"

	"github.com/samuel/go-dsp/dsp"
)

// stream is one live instance of a stateful processor, driven with raw bytes so that all types look alike.
type stream struct {
	feed func(block []byte) []byte // returns a copy of the output
	read func() []byte             // state visible through readers (nil: none)
}

// procType describes a processor type; mk builds instances that share one random configuration.
type procType struct {
	name string
	el   int // bytes per sample
	unit int // block lengths are multiples of this
	conf func(r *Rand) (desc string, mk func() stream)
	gen  func(r *Rand, n int) []byte
}

func f64bytes(v []float64) []byte { return append([]byte{}, bytesOf(v)...) }

// scratch memory of the feeders: the block is copied in, and overwritten after the call so that an instance that keeps
// a reference to the caller's slice sees garbage.
func feeder[I, O any](call func(in []I, out []O)) func([]byte) []byte {
	return func(b []byte) []byte {
		var zi I
		n := len(b) / len(bytesOf([]I{zi}))
		in, out := make([]I, n), make([]O, n)
		copy(bytesOf(in), b)
		fill(bytesOf(out), 0x5A)
		call(in, out)
		r := append([]byte{}, bytesOf(out)...)
		fill(bytesOf(in), 0x41)
		fill(bytesOf(out), 0x41)
		return r
	}
}

// inplaceFeeder is for processors that return a part of the slice they were given.
func inplaceFeeder[I any](call func(in []I) []I) func([]byte) []byte {
	return func(b []byte) []byte {
		var zi I
		n := len(b) / len(bytesOf([]I{zi}))
		in := make([]I, n)
		copy(bytesOf(in), b)
		out := call(in)
		r := append([]byte{}, bytesOf(out)...)
		fill(bytesOf(in), 0x41)
		return r
	}
}

// sampleGen returns a generator of one kind of signal: noise, sparse, constant, alternating, quantised, widely scaled,
// stepping, silence with signed zeros.
func sampleGen(r *Rand) func() float64 {
	k := 0
	v := r.Norm()
	switch r.Intn(10) {
	case 0:
		return func() float64 {
			if r.Intn(4) != 0 {
				return 0
			}
			return r.Norm()
		}
	case 1:
		return func() float64 { return v }
	case 2:
		return func() float64 { v = -v; return v }
	case 3:
		return func() float64 { return float64(r.Intn(256) - 128) }
	case 4:
		return func() float64 { return r.LogU(1e-12, 1e6) * float64(1-2*r.Intn(2)) }
	case 5:
		return func() float64 {
			if r.Intn(37) == 0 {
				v = r.Range(-100, 100)
			}
			return v
		}
	case 6:
		return func() float64 { return math.Copysign(0, r.Norm()) }
	case 7: // silence, then a signal, then silence
		return func() float64 {
			k++
			if k/64%2 == 0 {
				return 0
			}
			return r.Norm()
		}
	}
	return r.Norm
}

func genF64s(r *Rand, n int) []byte {
	v := make([]float64, n)
	g := sampleGen(r)
	for i := range v {
		v[i] = g()
	}
	return f64bytes(v)
}
func genF32s(r *Rand, n int) []byte {
	v := make([]float32, n)
	g := sampleGen(r)
	for i := range v {
		v[i] = float32(g())
	}
	return append([]byte{}, bytesOf(v)...)
}
func genI32s(r *Rand, n int) []byte {
	b := make([]byte, 4*n)
	r.Bytes(b)
	return b
}

// stableIIR returns coefficients of a stable filter of the given order (roots inside the unit circle), scaled by a0.
func stableIIR(r *Rand, order int, rmax float64) (b, a []float64) {
	roots := func(limit float64) []float64 {
		p := []float64{1}
		mul := func(q []float64) {
			o := make([]float64, len(p)+len(q)-1)
			for i, x := range p {
				for j, y := range q {
					o[i+j] += x * y
				}
			}
			p = o
		}
		k := order
		for k > 0 {
			if k >= 2 && r.Bool() {
				z := cmplx.Rect(r.Range(0, limit), r.Range(0, math.Pi))
				mul([]float64{1, -2 * real(z), real(z)*real(z) + imag(z)*imag(z)})
				k -= 2
			} else {
				mul([]float64{1, -r.Range(-limit, limit)})
				k--
			}
		}
		return p
	}
	b, a = roots(1.2), roots(rmax)
	a0 := 1.0
	if r.Intn(3) != 0 {
		a0 = r.LogU(0.1, 10)
		if r.Bool() {
			a0 = -a0
		}
	}
	g := r.LogU(0.1, 10)
	for i := range b {
		b[i] *= g * a0
	}
	for i := range a {
		a[i] *= a0
	}
	return b, a
}

func toF32(v []float64) []float32 {
	o := make([]float32, len(v))
	for i, x := range v {
		o[i] = float32(x)
	}
	return o
}

func newBiquad(r *Rand) (string, func() dsp.BiQuadFilter) {
	rate := r.LogU(1000, 2e6)
	f0 := rate * r.Range(0.002, 0.49)
	q := r.LogU(0.2, 20)
	db := r.Range(-24, 24)
	slope := r.Range(0.1, 1)
	switch r.Intn(9) {
	case 0:
		return "lowpass", func() dsp.BiQuadFilter { return *dsp.NewLowPassBiQuadFilter(rate, f0, q) }
	case 1:
		return "highpass", func() dsp.BiQuadFilter { return *dsp.NewHighPassBiQuadFilter(rate, f0, q) }
	case 2:
		return "bandpass-skirt", func() dsp.BiQuadFilter { return *dsp.NewBandPassConstantSkirtGainBiQuadFilter(rate, f0, q) }
	case 3:
		return "bandpass-peak", func() dsp.BiQuadFilter { return *dsp.NewBandPassConstantPeakGainBiQuadFilter(rate, f0, q) }
	case 4:
		return "notch", func() dsp.BiQuadFilter { return *dsp.NotchBiQuadFilter(rate, f0, q) }
	case 5:
		return "allpass", func() dsp.BiQuadFilter { return *dsp.AllPassBiQuadFilter(rate, f0, q) }
	case 6:
		return "peaking", func() dsp.BiQuadFilter { return *dsp.PeakingEQBiQuadFilter(rate, f0, q, db) }
	case 7:
		return "lowshelf", func() dsp.BiQuadFilter { return *dsp.LowShelfBiQuadFilter(rate, f0, slope, db) }
	}
	return "highshelf", func() dsp.BiQuadFilter { return *dsp.HighShelfBiQuadFilter(rate, f0, slope, db) }
}

func goertzelConf(r *Rand) (freqs []uint64, rate, block int) {
	rate = []int{8000, 44100, 48000, 11025, 1000}[r.Intn(5)]
	block = 1 + r.Intn(400)
	freqs = make([]uint64, r.Intn(9))
	for i := range freqs {
		freqs[i] = uint64(r.Intn(rate + 1))
	}
	return
}

func procTypes() []procType {
	return []procType{
		{"IIRFilter", 8, 1, func(r *Rand) (string, func() stream) {
			b, a := stableIIR(r, r.Intn(9), 0.97)
			return "order " + itoa(len(a)-1), func() stream {
				f := dsp.NewIIRFilter(b, a)
				return stream{feed: feeder(func(in, out []float64) { f.Filter(in, out) })}
			}
		}, genF64s},
		{"ComplexIIRFilter", 16, 1, func(r *Rand) (string, func() stream) {
			b, a := stableIIR(r, r.Intn(9), 0.97)
			return "order " + itoa(len(a)-1), func() stream {
				f := dsp.NewComplexIIRFilter(b, a)
				return stream{feed: feeder(func(in, out []complex128) { f.Filter(in, out) })}
			}
		}, func(r *Rand, n int) []byte { return genF64s(r, 2*n) }},
		{"ComplexIIRFilter32", 8, 1, func(r *Rand) (string, func() stream) {
			b, a := stableIIR(r, r.Intn(7), 0.9)
			b32, a32 := toF32(b), toF32(a)
			return "order " + itoa(len(a)-1), func() stream {
				f := dsp.NewComplexIIRFilter32(b32, a32)
				return stream{feed: feeder(func(in, out []complex64) { f.Filter(in, out) })}
			}
		}, func(r *Rand, n int) []byte { return genF32s(r, 2*n) }},
		{"BiQuadFilter", 8, 1, func(r *Rand) (string, func() stream) {
			d, f0 := newBiquad(r)
			return d, func() stream {
				f := f0()
				return stream{feed: feeder(func(in, out []float64) { f.Filter(in, out) })}
			}
		}, genF64s},
		{"BiQuadFilterF32", 4, 1, func(r *Rand) (string, func() stream) {
			d, f0 := newBiquad(r)
			return d, func() stream {
				f := f0()
				return stream{feed: feeder(func(in, out []float32) { f.FilterF32(in, out) })}
			}
		}, genF32s},
		{"DCFilter", 8, 1, func(r *Rand) (string, func() stream) {
			a := r.Range(0, 1)
			return "a", func() stream {
				f := dsp.NewDCFilter(a)
				return stream{feed: feeder(func(in, out []float64) { f.Filter(in, out) })}
			}
		}, genF64s},
		{"DCFilter32", 4, 1, func(r *Rand) (string, func() stream) {
			a := float32(r.Range(0, 1))
			return "a", func() stream {
				f := dsp.NewDCFilter32(a)
				return stream{feed: feeder(func(in, out []float32) { f.Filter(in, out) })}
			}
		}, genF32s},
		{"LowPassDownsampleComplexFilter", 8, 1, func(r *Rand) (string, func() stream) {
			d := 1 + r.Intn(40)
			return "downsample " + itoa(d), func() stream {
				f := &dsp.LowPassDownsampleComplexFilter{Downsample: d}
				return stream{feed: inplaceFeeder(f.Filter)}
			}
		}, func(r *Rand, n int) []byte { return genF32s(r, 2*n) }},
		{"LowPassDownsampleRationalFilter", 4, 1, func(r *Rand) (string, func() stream) {
			fast := 1 + r.Intn(60)
			slow := 1 + r.Intn(fast)
			return itoa(slow) + "/" + itoa(fast), func() stream {
				f := &dsp.LowPassDownsampleRationalFilter{Fast: fast, Slow: slow}
				return stream{feed: inplaceFeeder(f.Filter)}
			}
		}, genF32s},
		{"FMDemodFilter", 8, 1, func(r *Rand) (string, func() stream) {
			return "", func() stream {
				f := &dsp.FMDemodFilter{}
				return stream{feed: feeder(func(in []complex64, out []float32) { f.Demodulate(in, out) })}
			}
		}, func(r *Rand, n int) []byte { return genF32s(r, 2*n) }},
		{"Goertzel", 8, 1, func(r *Rand) (string, func() stream) {
			fr, rate, blk := goertzelConf(r)
			return itoa(len(fr)) + " targets", func() stream {
				g := dsp.NewGoertzel(fr, rate, blk)
				return stream{feed: feeder(func(in []float64, out []byte) { g.Feed(in) }),
					read: func() []byte {
						return append(f64bytes(g.Magnitude()), bytesOf(g.Complex())...)
					}}
			}
		}, genF64s},
		{"Goertzel32", 4, 1, func(r *Rand) (string, func() stream) {
			fr, rate, blk := goertzelConf(r)
			return itoa(len(fr)) + " targets", func() stream {
				g := dsp.NewGoertzel32(fr, rate, blk)
				return stream{feed: feeder(func(in []float32, out []byte) { g.Feed(in) }),
					read: func() []byte {
						return append(append([]byte{}, bytesOf(g.Magnitude())...), bytesOf(g.Complex())...)
					}}
			}
		}, genF32s},
		{"ComplexGoertzel", 16, 1, func(r *Rand) (string, func() stream) {
			fr, rate, blk := goertzelConf(r)
			return itoa(len(fr)) + " targets", func() stream {
				g := dsp.NewComplexGoertzel(fr, rate, blk)
				return stream{feed: feeder(func(in []complex128, out []byte) { g.Feed(in) }),
					read: func() []byte {
						return append(f64bytes(g.Magnitude()), bytesOf(g.Complex())...)
					}}
			}
		}, func(r *Rand, n int) []byte { return genF64s(r, 2*n) }},
		{"Rotate90Filter", 8, 4, func(r *Rand) (string, func() stream) {
			return "", func() stream {
				f := &dsp.Rotate90Filter{}
				return stream{feed: inplaceFeeder(f.Filter)}
			}
		}, func(r *Rand, n int) []byte { return genF32s(r, 2*n) }},
		{"I32Rotate90Filter", 4, 8, func(r *Rand) (string, func() stream) {
			return "", func() stream {
				f := &dsp.I32Rotate90Filter{}
				return stream{feed: inplaceFeeder(f.Filter)}
			}
		}, genI32s},
	}
}
