package main

import (
	"fmt"
	"math"

	"github.com/samuel/go-dsp/dsp"
)

func init() { checks["C09"] = checkC09 }

func checkC09(c *Ctx) {
	c.Rule = "one evaluation = one emitted output compared with the sum of its group, or one call's output count compared with the ledger; distinct = distinct (decimator, factor, output index, stream)."
	// ledgers: for the complex decimator
	// runs of integer samples are summed exactly by any order; other streams get a rounding allowance
	complexRun := func(d int, n int, parts []int, exact bool, tag string) {
		f := &dsp.LowPassDownsampleComplexFilter{Downsample: d}
		pos, emitted := 0, 0
		var sr, si, ar, ai float64 // running group sum and sum of magnitudes
		inGroup := 0
		var groups []complex128
		var tol []float64
		for _, k := range parts {
			blk := make([]complex64, k)
			for i := range blk {
				var v complex64
				if exact {
					v = complex(float32(c.R.Intn(255)-127), float32(c.R.Intn(255)-127))
				} else {
					v = complex(float32(c.R.Norm()*c.R.LogU(1e-3, 1e3)), float32(c.R.Norm()))
				}
				blk[i] = v
				sr += float64(real(v))
				si += float64(imag(v))
				ar += math.Abs(float64(real(v)))
				ai += math.Abs(float64(imag(v)))
				inGroup++
				if inGroup == d {
					groups = append(groups, complex(sr, si))
					t := float64(d) * 6e-8
					if exact {
						t = 0
					}
					tol = append(tol, t*math.Max(ar, ai)+1e-30)
					sr, si, ar, ai, inGroup = 0, 0, 0, 0, 0
				}
			}
			pos += k
			out := f.Filter(blk)
			c.Evals++
			if want := pos/d - emitted; len(out) != want {
				c.Fail("count:complex", "%s: factor %d: after %d samples a call with %d samples emitted %d outputs, want %d", tag, d, pos, k, len(out), want)
				return
			}
			for _, v := range out {
				w := groups[emitted]
				c.Seen(mix(hashS("complex", tag), d, emitted, n), d > 1)
				if math.Abs(float64(real(v))-real(w)) > tol[emitted] || math.Abs(float64(imag(v))-imag(w)) > tol[emitted] || v != v {
					c.Fail("sum:complex", "%s: factor %d: output %d is %v, its %d samples sum to %v (blocks %v)", tag, d, emitted, v, d, w, headI(parts))
					return
				}
				emitted++
			}
		}
		c.Count("complex_samples", int64(pos))
	}
	rationalRun := func(slow, fast int, n int, parts []int, exact bool, tag string) {
		f := &dsp.LowPassDownsampleRationalFilter{Fast: fast, Slow: slow}
		pos, emitted := int64(0), int64(0)
		var sum, abs float64
		var want []float64
		var tol []float64
		due := int64(0)
		for _, k := range parts {
			blk := make([]float32, k)
			base := len(want)
			for i := range blk {
				v := float32(c.R.Norm() * c.R.LogU(1e-3, 1e3))
				if exact {
					v = float32(c.R.Intn(255) - 127)
				}
				blk[i] = v
				sum += float64(v)
				abs += math.Abs(float64(v))
				pos++
				if now := pos * int64(slow) / int64(fast); now > due {
					due = now
					want = append(want, sum*float64(slow)/float64(fast))
					t := math.Abs(sum*float64(slow)/float64(fast)) * 3e-7
					if !exact {
						t += abs * float64(fast/slow+2) * 6e-8
					}
					tol = append(tol, t+1e-30)
					sum, abs = 0, 0
				}
			}
			out := f.Filter(blk)
			c.Evals++
			if w := due - emitted; int64(len(out)) != w {
				c.Fail("count:rational", "%s: %d/%d: after %d samples a call with %d samples emitted %d outputs, want %d", tag, slow, fast, pos, k, len(out), w)
				return
			}
			for i, v := range out {
				c.Seen(mix(hashS("rational", tag), slow, fast, int(emitted), n), slow < fast)
				if !(math.Abs(float64(v)-want[base+i]) <= tol[base+i]) {
					c.Fail("sum:rational", "%s: %d/%d: output %d is %v, want %v (blocks %v)", tag, slow, fast, emitted, v, want[base+i], headI(parts))
					return
				}
				emitted++
			}
		}
		c.Count("rational_samples", pos)
	}
	for d := 1; d <= c.N(70, 200); d++ {
		for rep := 0; rep < c.N(6, 40); rep++ {
			c.Do(fmt.Sprintf("complex d=%d rep=%d", d, rep), func() {
				n := c.R.Intn(40 * d)
				complexRun(d, n, c.R.Split(n), rep%2 == 0, "rep"+itoa(rep))
				complexRun(d, n, []int{n}, rep%2 == 0, "one block "+itoa(rep))
			})
		}
	}
	// a sample that is no number spoils the output it belongs to and no other
	for i := 0; i < c.N(300, 3000); i++ {
		c.Do(fmt.Sprintf("spoilt %d", i), func() {
			r := c.R
			d := 1 + r.Intn(20)
			bad := []float32{float32(math.NaN()), float32(math.Inf(1)), float32(math.Inf(-1)), 3e38}[r.Intn(4)]
			n := 6*d + r.Intn(20*d)
			at := r.Intn(n)
			parts := r.Split(n)
			fc := &dsp.LowPassDownsampleComplexFilter{Downsample: d}
			fr := &dsp.LowPassDownsampleRationalFilter{Fast: d, Slow: 1}
			sc, pos, k := 0, 0, 0
			var wc []complex64
			for _, m := range parts {
				zc, zr := make([]complex64, m), make([]float32, m)
				for j := range zc {
					v := r.Intn(255) - 127
					sc += v
					zc[j], zr[j] = complex(float32(v), float32(-v)), float32(v)
					if pos == at {
						zc[j], zr[j] = complex(bad, float32(-v)), bad
						if r.Bool() {
							zc[j] = complex(float32(v), bad)
						}
					}
					if pos++; pos%d == 0 {
						wc = append(wc, complex(float32(sc), float32(-sc)))
						sc = 0
					}
				}
				oc, or := fc.Filter(zc), fr.Filter(zr)
				c.Evals++
				if len(oc) != len(wc)-k || len(or) != len(wc)-k {
					c.Fail("count", "factor %d: after %d samples, one of them %v, the calls emitted %d and %d outputs, want %d", d, pos, bad, len(oc), len(or), len(wc)-k)
					return
				}
				for j := range oc {
					c.Seen(mix(hashS("spoilt"), d, i, k), true)
					if w := wc[k]; k != at/d && (oc[j] != w || !(math.Abs(float64(or[j])*float64(d)-float64(real(w))) <= 1e-3)) {
						c.Fail("spoilt", "factor %d: sample %d is %v, and output %d, which it has no part in, is %v and %v, want %v and a %d-th", d, at, bad, k, oc[j], or[j], w, d)
						return
					}
					k++
				}
			}
		})
	}
	for _, d := range []int{97, 127, 128, 251, 255, 256, 257, 1000, 1023, 1024, 4096, 4097, 65535, 65536, 65537, 100003} {
		c.Do(fmt.Sprintf("complex big d=%d", d), func() {
			n := d*3 + c.R.Intn(d)
			complexRun(d, n, c.R.Split(n), true, "big")
		})
	}
	for fast := 1; fast <= c.N(32, 64); fast++ {
		for slow := 1; slow <= fast; slow++ {
			for rep := 0; rep < c.N(2, 8); rep++ {
				c.Do(fmt.Sprintf("rational %d/%d rep=%d", slow, fast, rep), func() {
					n := c.R.Intn(20*fast + 20)
					rationalRun(slow, fast, n, c.R.Split(n), rep%2 == 0, "rep"+itoa(rep))
				})
			}
		}
	}
	rates := []int{8000, 11025, 16000, 22050, 24000, 32000, 44100, 48000, 96000, 160000, 170000, 192000, 200000, 240000, 250000, 256000, 300000, 1000000, 1024000, 2048000, 2400000}
	for i, fast := range rates {
		for j := 0; j <= i; j++ {
			slow := rates[j]
			c.Do(fmt.Sprintf("rational rates %d/%d", slow, fast), func() {
				n := 3000 + c.R.Intn(3000) + 20*fast/slow
				rationalRun(slow, fast, n, c.R.Split(n), true, "rates")
			})
		}
	}
	// rates beyond 2^24 (no longer exact in single precision) up to where the accumulator leaves 32 bits
	for i, fr := range [][2]int{{44100, 20000003}, {48000, 61440000}, {48000, 16777217}, {96000, 16777215}, {19999999, 20000003}, {16777217, 16777219}, {16777216, 33554433}, {33554433, 61440000},
		{250000, 100000007}, {499999999, 500000003}, {1000000007, 1073741823}, {7, 20000003}, {999999937, 1000000007}} {
		for rep := 0; rep < c.N(2, 8); rep++ {
			c.Do(fmt.Sprintf("rational large rates %d rep %d", i, rep), func() {
				slow, fast := fr[0], fr[1]
				n := 60000 + c.R.Intn(60000)
				if fast/slow > 100000 {
					n = 3*(fast/slow) + c.R.Intn(1000)
				}
				rationalRun(slow, fast, n, c.R.Split(n), fast/slow < 100000, "large rates")
			})
		}
	}
	for i := 0; i < c.N(20, 200); i++ {
		c.Do(fmt.Sprintf("rational random large rates %d", i), func() {
			fast := 1<<24 + c.R.Intn(1<<30-1<<24)
			slow := fast/(1+c.R.Intn(3000)) - c.R.Intn(2000)
			n := 20000 + c.R.Intn(20000)
			rationalRun(slow, fast, n, c.R.Split(n), true, "random large rates")
		})
	}
	// long histories
	for i := 0; i < c.N(3, 12); i++ {
		c.Do(fmt.Sprintf("long history %d", i), func() {
			n := 1<<18 + c.R.Intn(1000)
			var p []int
			for left := n; left > 0; {
				k := 1 + c.R.Intn(4000)
				if k > left {
					k = left
				}
				p = append(p, k)
				left -= k
			}
			complexRun(2+c.R.Intn(30), n, p, true, "long")
			fast := 2 + c.R.Intn(200000)
			rationalRun(1+c.R.Intn(fast), fast, n, p, true, "long")
			rationalRun(48000, 240000, n, p, true, "long")
		})
	}
	c.Sample("complex decimator: every factor 1..%d plus 16 large ones; rational decimator: every slow<=fast<=%d and all pairs of %d sample rates; histories to 2^18 samples", c.N(70, 200), c.N(32, 64), len(rates))
}
