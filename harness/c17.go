package main

import (
	"fmt"
	"math"

	"github.com/samuel/go-dsp/dsp"
	"github.com/samuel/go-dsp/dsp/dtmf"
)

func init() { checks["C17"] = checkC17 }

type dtmfConf struct {
	low, high   []uint64
	rate, block int
	win         int // index into dtmfWindows
	std         bool
}

var dtmfWindows = []struct {
	name string
	f    func([]float32)
	main float64 // main lobe half width in bins
}{
	{"hamming", dsp.HammingWindowF32, 2},
	{"nil", nil, 2},
	{"hanning", dsp.HanningWindowF32, 2},
	{"blackman", dsp.BlackmanWindowF32, 3},
	{"triangle", dsp.TriangleWindowF32, 2},
	{"rectangular", func(w []float32) {
		for i := range w {
			w[i] = 1
		}
	}, 1},
	{"nuttall", dsp.NuttallWindowF32, 4},
	{"half", func(w []float32) {
		for i := range w {
			w[i] = 0.5
		}
	}, 1},
}

var stdLow, stdHigh = []uint64{697, 770, 852, 941}, []uint64{1209, 1336, 1477, 1633}

func (cf dtmfConf) build() *dtmf.DTMF {
	if cf.std {
		return dtmf.NewStandard(cf.rate, cf.block)
	}
	lo, hi := append([]uint64{}, cf.low...), append([]uint64{}, cf.high...)
	return dtmf.New(lo, hi, cf.rate, cf.block, dtmfWindows[cf.win].f)
}

// power is the squared magnitude of the windowed tone f over the block, by direct evaluation at the nearest bin.
func (cf dtmfConf) powers(x []float32) (low, high []float64) {
	w := make([]float32, cf.block)
	fn := dtmfWindows[cf.win].f
	if cf.std || fn == nil {
		hammingF32(w)
	} else {
		fn(w)
	}
	if len(x) > cf.block {
		x = x[:cf.block]
	}
	tone := func(f uint64) float64 {
		k := math.Floor(0.5 + float64(cf.block)*float64(f)/float64(cf.rate))
		om := 2 * math.Pi * k / float64(cf.block)
		var re, im float64
		for i, v := range x {
			s, co := math.Sincos(om * float64(i))
			p := float64(v * w[i])
			re += p * co
			im += p * s
		}
		return re*re + im*im
	}
	for _, f := range cf.low {
		low = append(low, tone(f))
	}
	for _, f := range cf.high {
		high = append(high, tone(f))
	}
	return
}

func hammingF32(w []float32) {
	for i := range w {
		if len(w) == 1 {
			w[i] = 1
			return
		}
		w[i] = float32(0.53836 - (1-0.53836)*math.Cos(2*math.Pi*float64(i)/float64(len(w)-1)))
	}
}

func top2(v []float64) (best int, b, second float64) {
	best = 0
	for i, x := range v {
		if x > b {
			second = b
			b, best = x, i
		} else if x > second {
			second = x
		}
	}
	return
}

func checkC17(c *Ctx) {
	c.Rule = "one evaluation = one block fed to a detector (key and threshold compared with an independent windowed DFT, samples compared before/after, result compared with a new detector); distinct = distinct (configuration, key, phases, levels, noise)."
	feed := func(cf dtmfConf, d *dtmf.DTMF, x []float32, wantKey int, desc string) {
		snap := append([]float32{}, x...)
		key, th := d.Feed(x)
		for i := range x {
			if math.Float32bits(x[i]) != math.Float32bits(snap[i]) {
				c.Fail("samples-changed", "%s: Feed changed sample %d from %v to %v", desc, i, snap[i], x[i])
				copy(x, snap)
				break
			}
		}
		k2, t2 := cf.build().Feed(append([]float32{}, snap...))
		if key != k2 || th != t2 {
			c.Fail("history", "%s: after earlier blocks key %d threshold %v, on a new detector %d, %v", desc, key, th, k2, t2)
		}
		lo, hi := cf.powers(snap)
		li, lb, ls := top2(lo)
		hi_, hb, hs := top2(hi)
		n := float64(cf.block)
		var sa float64
		for _, v := range snap[:min(len(snap), cf.block)] {
			sa += math.Abs(float64(v))
		}
		// rounding of the recursion (see C13) plus that of the single-precision result
		// resonance: the target nearest to 0 or to half the sample rate rings longest
		reson := 1.0
		for _, f := range append(append([]uint64{}, cf.low...), cf.high...) {
			w := math.Floor(0.5+n*float64(f)/float64(cf.rate)) / n
			reson = math.Max(reson, math.Min(n, 1/math.Max(math.Abs(math.Sin(2*math.Pi*w)), 1e-12)))
		}
		e := 8 * 2.3e-16 * sa * reson * n
		abs := 2*math.Sqrt(math.Max(lb, hb))*e + e*e + 16*2.3e-16*sa*sa*reson*reson + 1e-37
		wantTh := math.Min(lb, hb)
		if math.IsInf(float64(float32(wantTh)), 0) {
			return
		}
		if !(math.Abs(float64(th)-wantTh) <= 4e-7*wantTh+abs) {
			c.Fail("threshold", "%s: threshold %v, the smaller of the strongest tones is %v (low %v, high %v)", desc, th, wantTh, lb, hb)
		}
		clearL, clearH := lb-ls > 1e-5*lb+2*abs, hb-hs > 1e-5*hb+2*abs
		if len(cf.low) > 0 && len(cf.high) > 0 && (clearL || lb == 0) && (clearH || hb == 0) {
			want := li*len(cf.high) + hi_
			if key != want {
				c.Fail("key", "%s: key %d, the strongest tones are low %d and high %d of %d: key %d", desc, key, li, hi_, len(cf.high), want)
			}
			c.Count("keys_decided", 1)
		} else {
			c.Count("keys_tied", 1)
		}
		if wantKey >= 0 && key != wantKey {
			c.Fail("wrong-key", "%s: key %d, the tones of key %d were sent", desc, key, wantKey)
		}
	}
	synth := func(cf dtmfConf, n, row, col int, aL, aH, noise, level float64) []float32 {
		pL, pH := c.R.Range(0, 2*math.Pi), c.R.Range(0, 2*math.Pi)
		x := make([]float32, n)
		for i := range x {
			t := 2 * math.Pi * float64(i) / float64(cf.rate)
			v := aL*math.Sin(t*float64(cf.low[row])+pL) + aH*math.Sin(t*float64(cf.high[col])+pH) + noise*c.R.Norm()
			x[i] = float32(level * v)
		}
		return x
	}
	confs := []dtmfConf{}
	for _, rb := range [][2]int{{8000, 205}, {8000, 256}, {8000, 320}, {8000, 400}, {8000, 512}, {8000, 800}, {11025, 400}, {16000, 640}, {22050, 1024}, {44100, 1500}, {44100, 2048}, {48000, 2048}, {96000, 5000}, {192000, 9001}} {
		confs = append(confs, dtmfConf{low: stdLow, high: stdHigh, rate: rb[0], block: rb[1], std: true})
		for w := range dtmfWindows {
			confs = append(confs, dtmfConf{low: stdLow, high: stdHigh, rate: rb[0], block: rb[1], win: w})
		}
	}
	// custom frequency sets, other group sizes
	for _, s := range [][2][]uint64{
		{{700, 900, 1100}, {1300, 1500, 1700, 1900, 2100}},
		{{500}, {1000}},
		{{400, 600, 800, 1000, 1200, 1400, 1600, 1800}, {2200, 2600}},
		{{1200, 1800}, {600, 300, 900}}, // not sorted, high below low
		{{941, 852, 770, 697}, {1633, 1477, 1336, 1209}},
		{{0, 500}, {4000, 2000}},
	} {
		for _, rb := range [][2]int{{8000, 400}, {16000, 800}, {44100, 2205}} {
			confs = append(confs, dtmfConf{low: s[0], high: s[1], rate: rb[0], block: rb[1], win: c.R.Intn(len(dtmfWindows))})
		}
	}
	for ci, cf := range confs {
		cf := cf
		// spacing of the closest two tones of a group in bins, against the main lobe of the window
		minSp := math.Inf(1)
		all := append(append([]uint64{}, cf.low...), cf.high...)
		sum := true
		for i := range all {
			if all[i] == 0 || 2*all[i] >= uint64(cf.rate) {
				sum = false // DC and Nyquist tones depend on the phase
			}
			for j := 0; j < i; j++ {
				minSp = math.Min(minSp, math.Abs(float64(all[i])-float64(all[j]))*float64(cf.block)/float64(cf.rate))
			}
		}
		resolved := sum && (minSp >= dtmfWindows[cf.win].main+0.9)
		twist := 2.0 // +-6 dB
		if dtmfWindows[cf.win].main < 2 {
			resolved = resolved && minSp >= 2.5
			twist = 1.5
		}
		if resolved {
			c.Count("configurations_resolved", 1)
		}
		c.Do(fmt.Sprintf("conf %d", ci), func() {
			d := cf.build()
			c.Sample("rate %d, block %d, window %s, %d x %d tones, closest tones %.2f bins apart, key demanded: %v", cf.rate, cf.block, dtmfWindows[cf.win].name, len(cf.low), len(cf.high), minSp, resolved)
			for rep := 0; rep < c.N(6, 60); rep++ {
				for row := range cf.low {
					for col := range cf.high {
						aL, aH := c.R.LogU(1/math.Sqrt(twist), math.Sqrt(twist)), c.R.LogU(1/math.Sqrt(twist), math.Sqrt(twist))
						if rep == 0 {
							aL, aH = 1, 1
						}
						noise := 0.0
						if rep%3 == 2 {
							noise = c.R.Range(0, 0.2)
						}
						level := c.R.LogU(1e-4, 1e4)
						if c.R.Intn(4) == 0 { // any level single precision can express
							level = c.R.LogU(1e-17, 1e16)
						}
						n := cf.block
						extra := 0
						if c.R.Intn(4) == 0 {
							extra = 1 + c.R.Intn(2*cf.block)
						}
						x := synth(cf, n, row, col, aL, aH, noise, level)
						for i := 0; i < extra; i++ { // more samples than the block: they must not matter
							x = append(x, float32(c.R.Norm()*1e5))
						}
						want := -1
						if resolved {
							want = row*len(cf.high) + col
						}
						c.Seen(mix(hashS("d"), ci, row, col, rep), true)
						feed(cf, d, x, want, fmt.Sprintf("rate %d block %d window %s tones %d+%d Hz levels %.3f/%.3f noise %.2f level %.3g (+%d samples)", cf.rate, cf.block, dtmfWindows[cf.win].name, cf.low[row], cf.high[col], aL, aH, noise, level, extra))
					}
				}
				// silence, noise, short blocks, single tones in between
				for k := 0; k < 3; k++ {
					n := c.R.Intn(cf.block + 1)
					x := make([]float32, n)
					g := sampleGen(c.R)
					for i := range x {
						x[i] = float32(g())
					}
					if k == 2 && n > 0 {
						x = synth(cf, n, c.R.Intn(len(cf.low)), c.R.Intn(len(cf.high)), c.R.F64(), 0, 0, 1)
					}
					c.Seen(mix(hashS("noise"), ci, rep, k, n), n > 0)
					feed(cf, d, x, -1, fmt.Sprintf("rate %d block %d window %s, %d samples of kind %d", cf.rate, cf.block, dtmfWindows[cf.win].name, n, k))
				}
			}
		})
	}
	c.Do("keypad", func() {
		want := "123A456B789C*0#D"
		c.Seen(hashS("keypad"), true)
		if string(dtmf.Keypad) != want {
			c.Fail("keypad", "Keypad is %q, want %q", string(dtmf.Keypad), want)
		}
		for i := range stdLow {
			if dtmf.StdLowFreq[i] != stdLow[i] || dtmf.StdHighFreq[i] != stdHigh[i] {
				c.Fail("keypad", "standard frequencies are %v %v", dtmf.StdLowFreq, dtmf.StdHighFreq)
			}
		}
		if len(dtmf.StdLowFreq) != 4 || len(dtmf.StdHighFreq) != 4 {
			c.Fail("keypad", "standard frequencies are %v %v", dtmf.StdLowFreq, dtmf.StdHighFreq)
		}
	})
}
