package main

import (
	"bytes"

	"github.com/samuel/go-dsp/dsp"
)

func init() { checks["C02"] = checkC02 }

// cover runs the same call over two different prefills: elements inside the processed range must come out the same,
// those beyond must keep each prefill (the engine checks the latter).
func (e *Engine) cover(op *Op, s *runSpec) {
	c := e.c
	n := units(op, s.inLen, s.outLen)
	s.prefill = 0xA5
	if s.fixed == nil {
		for i := range op.InEl {
			b := make([]byte, s.inLen[i]*op.InEl[i])
			genBytes(e.r, op.InKind[i], s.genMode, b)
			s.fixed = append(s.fixed, b)
		}
	}
	if op.Accum {
		s.values = true
		e.run(op, s)
		return
	}
	ub := n * op.OutUnit * op.OutEl
	o := e.run(op, s)
	e.tmp = append(e.tmp[:0], o[:ub]...)
	s.prefill = 0x5A
	o2 := e.run(op, s)
	if !bytes.Equal(e.tmp, o2[:ub]) {
		k := 0
		for k < ub && e.tmp[k] == o2[k] {
			k++
		}
		c.Fail("unprocessed:"+op.Name, "%s: output byte %d of the %d units to process was not written", e.desc(op, s), k, n)
	}
}

func checkC02(c *Ctx) {
	c.Rule = "one evaluation = one monitored call; distinct = distinct (operation, all slice lengths, placements); calls with only empty slices count as trivial. Monitors: PROT_NONE pages flush against the slices, canaries on both sides, input snapshots, two-prefill coverage of the processed range, trapped panics and faults."
	e := NewEngine(c, arenaBytes)
	e.contain = true
	e.canon = nil
	heap := c.Variant == "checkptr"
	pls := []placement{{mode: 1}, {mode: 2}}
	if heap {
		pls = []placement{{mode: 3}}
	}
	for _, fc := range flagConfigs() {
		fc.apply()
		if fc.set != nil && !usesFlags(fc) {
			continue
		}
		forced := fc.name != "default"
		for _, op := range ops {
			guardSweep(e, op, fc.name, pls, forced)
		}
		reduceGuard(c, fc.name, heap)
	}
	restoreFlags()
	middleOfMemory(e)
	blockGuard(c, pls)
	vscaleBig(c)
	c.Sample("every length 0..N at guard pages above and below, all (in,out) length pairs up to %d, flag settings %d", c.N(36, 70), len(flagConfigs()))
}

func usesFlags(fc flagConfig) bool { return true }

func guardSweep(e *Engine, op *Op, tag string, pls []placement, forced bool) {
	c := e.c
	before := c.Evals
	maxLen := c.N(260, 700)
	mk := func(ins []int, out int, ip, opl placement) *runSpec {
		s := &runSpec{alias: -1, inLen: ins, outLen: out, outPl: opl, scale: 0.5, genMode: c.R.Intn(4)}
		for range ins {
			s.inPl = append(s.inPl, ip)
		}
		return s
	}
	// equal lengths flush against the guard pages
	for n := 0; n <= maxLen; n++ {
		c.Do(op.Name+"/guard "+tag+" "+itoa(n), func() {
			for pi, ip := range pls {
				for pj, opl := range pls {
					ins := make([]int, len(op.InEl))
					for i := range ins {
						ins[i] = n * op.InUnit[i]
					}
					e.cover(op, mk(ins, n*op.OutUnit, ip, opl))
					c.Seen(mix(hashS(op.Name, tag, "g"), n, pi, pj), n > 0)
				}
				// output at every alignment between canaries, input at the guard page
				if ip.mode != 3 && !forced {
					for oa := 0; oa < 64; oa += alignStep2(op) {
						ins := make([]int, len(op.InEl))
						for i := range ins {
							ins[i] = n * op.InUnit[i]
						}
						e.cover(op, mk(ins, n*op.OutUnit, ip, placement{off: oa}))
						c.Seen(mix(hashS(op.Name, tag, "ga"), n, pi, oa), n > 0)
					}
				}
			}
			if !forced {
				// output flush above and below, each reached at every alignment by odd start offsets of the input
				for ia := 0; ia < 16; ia += inStep(op) {
					ins := make([]int, len(op.InEl))
					for i := range ins {
						ins[i] = n * op.InUnit[i]
					}
					e.cover(op, mk(ins, n*op.OutUnit, placement{off: ia}, pls[n%len(pls)]))
					c.Seen(mix(hashS(op.Name, tag, "gi"), n, ia), n > 0)
				}
			}
		})
	}
	// all pairs of (mismatched) element counts
	m := c.N(36, 70)
	if forced {
		m = 12
	}
	for a := 0; a <= m; a++ {
		c.Do(op.Name+"/pairs "+tag+" "+itoa(a), func() {
			for b := 0; b <= m; b++ {
				for k := 0; k < 2; k++ {
					ins := []int{a}
					if len(op.InEl) == 2 {
						if k == 0 {
							ins = append(ins, c.R.Intn(m))
						} else {
							ins = append(ins, m+3)
						}
					}
					p1, p2 := pls[c.R.Intn(len(pls))], pls[c.R.Intn(len(pls))]
					e.cover(op, mk(ins, b, p1, p2))
					c.Seen(mix(hashS(op.Name, tag, "pair"), a, b, k), a > 0 || b > 0)
				}
			}
		})
	}
	// longer mismatched slices
	for k := 0; k < c.N(150, 1500); k++ {
		c.Do(op.Name+"/mismatch "+tag+" "+itoa(k), func() {
			ins := []int{c.R.Intn(900)}
			if len(op.InEl) == 2 {
				ins = append(ins, c.R.Intn(900))
			}
			b := c.R.Intn(900)
			p1, p2 := pls[c.R.Intn(len(pls))], pls[c.R.Intn(len(pls))]
			e.cover(op, mk(ins, b, p1, p2))
			c.Seen(mix(hashS(op.Name, tag, "mm"), ins[0], b, p1.mode, p2.mode), true)
		})
	}
	c.Count("calls:"+op.Name, c.Evals-before)
}

func alignStep2(op *Op) int {
	switch {
	case op.Name == "I16bleToF64":
		return 8
	case op.OutEl >= 4:
		return 4
	}
	return op.OutEl
}

func inStep(op *Op) int {
	if op.InEl[0] >= 4 {
		return 4
	}
	return op.InEl[0]
}

func reduceGuard(c *Ctx, tag string, heap bool) {
	a := NewArena(1 << 14)
	defer a.Free()
	for n := 0; n <= c.N(600, 2000); n++ {
		c.Do("VMax/guard "+tag+" "+itoa(n), func() {
			for k := 0; k < 2; k++ {
				b := a.End(4 * n)
				if k == 1 {
					b = a.Start(4 * n)
				}
				v := as[float32](b)
				if heap {
					v = make([]float32, n)
				}
				for i := range v {
					v[i] = float32(c.R.Norm())
				}
				snap := append([]float32{}, v...)
				dsp.VMaxF32(v)
				dsp.VMinF32(v)
				if !bytes.Equal(bytesOf(snap), bytesOf(v)) {
					c.Fail("input-changed:reduce", "VMaxF32/VMinF32 changed their input (%d elements)", n)
				}
				c.Seen(mix(hashS("reduce", tag), n, k), n > 0)
			}
		})
	}
}

// blockGuard covers the block processors.
func blockGuard(c *Ctx, pls []placement) {
	in, out := NewArena(1<<15), NewArena(1<<15)
	defer in.Free()
	defer out.Free()
	type proc struct {
		name        string
		inEl, outEl int
		mult        int
		f           func(i, o []byte)
	}
	iir := dsp.NewIIRFilter([]float64{0.2, 0.3, 0.1}, []float64{1, -0.2, 0.1})
	ciir := dsp.NewComplexIIRFilter([]float64{0.2, 0.3, 0.1}, []float64{1, -0.2, 0.1})
	ciir32 := dsp.NewComplexIIRFilter32([]float32{0.2, 0.3, 0.1}, []float32{1, -0.2, 0.1})
	bq := dsp.NewLowPassBiQuadFilter(48000, 1000, 0.7)
	dc, dc32 := dsp.NewDCFilter(0.9), dsp.NewDCFilter32(0.9)
	fm := &dsp.FMDemodFilter{}
	procs := []proc{
		{"FMDemodFilter", 8, 4, 1, func(i, o []byte) { fm.Demodulate(as[complex64](i), as[float32](o)) }},
		{"IIRFilter", 8, 8, 1, func(i, o []byte) { iir.Filter(as[float64](i), as[float64](o)) }},
		{"ComplexIIRFilter", 16, 16, 1, func(i, o []byte) { ciir.Filter(as[complex128](i), as[complex128](o)) }},
		{"ComplexIIRFilter32", 8, 8, 1, func(i, o []byte) { ciir32.Filter(as[complex64](i), as[complex64](o)) }},
		{"BiQuadFilter", 8, 8, 1, func(i, o []byte) { bq.Filter(as[float64](i), as[float64](o)) }},
		{"BiQuadFilterF32", 4, 4, 1, func(i, o []byte) { bq.FilterF32(as[float32](i), as[float32](o)) }},
		{"DCFilter", 8, 8, 1, func(i, o []byte) { dc.Filter(as[float64](i), as[float64](o)) }},
		{"DCFilter32", 4, 4, 1, func(i, o []byte) { dc32.Filter(as[float32](i), as[float32](o)) }},
	}
	for _, p := range procs {
		for n := 0; n <= c.N(130, 400); n++ {
			c.Do(p.name+"/guard "+itoa(n), func() {
				for _, ip := range pls {
					for _, opl := range pls {
						for _, extra := range []int{0, 1, 7} {
							i, il, ih := view(in, ip, n*p.inEl)
							o, ol, oh := view(out, opl, (n+extra)*p.outEl)
							fillAll(0x77, il, ih, ol, oh, o)
							for k := 0; k+4 <= len(i); k += 4 {
								putF32(i[k:], float32(1+c.R.F64()))
							}
							snap := append([]byte{}, i...)
							p.f(i, o)
							if !bytes.Equal(snap, i) {
								c.Fail("input-changed:"+p.name, "%s: %d samples: input modified", p.name, n)
							}
							if !allAre(0x77, il, ih, ol, oh, o[n*p.outEl:]) {
								c.Fail("outside:"+p.name, "%s: %d samples, output %d: memory beyond the first %d outputs or outside the slices modified", p.name, n, n+extra, n)
							}
							c.Seen(mix(hashS(p.name), n, ip.mode, opl.mode, extra), n > 0)
						}
					}
				}
			})
		}
	}
	// in-place processors: nothing outside the slice; the result is a prefix of the slice
	inplace := []struct {
		name string
		el   int
		mult int
		f    func(b []byte) (ptrSame bool, n int)
	}{
		{"Rotate90Filter", 8, 4, func(b []byte) (bool, int) {
			v := as[complex64](b)
			r := (&dsp.Rotate90Filter{}).Filter(v)
			return len(r) == 0 || &r[0] == &v[0], len(r)
		}},
		{"I32Rotate90Filter", 4, 8, func(b []byte) (bool, int) {
			v := as[int32](b)
			r := (&dsp.I32Rotate90Filter{}).Filter(v)
			return len(r) == 0 || &r[0] == &v[0], len(r)
		}},
		{"LowPassDownsampleComplexFilter", 8, 1, func(b []byte) (bool, int) {
			v := as[complex64](b)
			r := (&dsp.LowPassDownsampleComplexFilter{Downsample: 1 + c.R.Intn(9)}).Filter(v)
			return len(r) == 0 || &r[0] == &v[0], len(r)
		}},
		{"LowPassDownsampleRationalFilter", 4, 1, func(b []byte) (bool, int) {
			v := as[float32](b)
			s := 1 + c.R.Intn(5)
			r := (&dsp.LowPassDownsampleRationalFilter{Slow: s, Fast: s + c.R.Intn(5)}).Filter(v)
			return len(r) == 0 || &r[0] == &v[0], len(r)
		}},
	}
	for _, p := range inplace {
		for n := 0; n <= c.N(256, 600); n++ {
			c.Do(p.name+"/guard "+itoa(n), func() {
				var all []placement
				all = append(all, pls...)
				if pls[0].mode != 3 {
					all = append(all, placement{off: 0}, placement{off: 4}, placement{off: 8}, placement{off: 12})
				}
				for _, ip := range all {
					cnt := n * p.mult
					if cnt*p.el > 30000 {
						continue
					}
					b, l, h := view(in, ip, cnt*p.el)
					fillAll(0x66, l, h)
					for k := 0; k+4 <= len(b); k += 4 {
						putF32(b[k:], float32(c.R.Norm()))
					}
					same, rn := p.f(b)
					if !allAre(0x66, l, h) {
						c.Fail("outside:"+p.name, "%s: %d elements at %v: memory outside the slice modified", p.name, cnt, ip)
					}
					if !same || rn > cnt {
						c.Fail("result:"+p.name, "%s: %d elements: result (%d elements) is not a prefix of the given slice", p.name, cnt, rn)
					}
					c.Seen(mix(hashS(p.name), n, ip.mode, ip.off), n > 0)
				}
			})
		}
	}
}

func fillAll(v byte, bs ...[]byte) {
	for _, b := range bs {
		fill(b, v)
	}
}

func allAre(v byte, bs ...[]byte) bool {
	for _, b := range bs {
		for _, x := range b {
			if x != v {
				return false
			}
		}
	}
	return true
}

// vscaleBig: a slice longer than any fixed-size array type the implementation might use.
func vscaleBig(c *Ctx) {
	if c.Variant == "386" || c.Variant == "checkptr" {
		return
	}
	c.Do("VScaleC64/huge", func() {
		n := 1<<25 + 5
		a := NewArena(n * 8)
		defer a.Free()
		v := as[complex64](a.End(n * 8))
		v[0], v[n-1], v[n/2] = 1+2i, 3-4i, -1
		dsp.VScaleC64(v, v, 2)
		if v[0] != 2+4i || v[n-1] != 6-8i || v[n/2] != -2 {
			c.Fail("value:VScaleC64", "VScaleC64 of %d elements: %v %v %v", n, v[0], v[n-1], v[n/2])
		}
		c.Seen(hashS("vscalebig"), true)
	})
}

// middleOfMemory places slices across address 0x80000000, where addresses become negative as signed numbers.
func middleOfMemory(e *Engine) {
	c := e.c
	const half = 1 << 16
	a := arenaAt(1<<31-half, 2*half)
	if a == nil {
		c.Count("no_slices_across_the_middle_of_memory", 1)
		return
	}
	middleBlocks(c, a, half)
	save := *e
	restore := func() { e.in, e.out = save.in, save.out }
	defer restore()
	defer restoreFlags()
	for _, fc := range flagConfigs() {
		fc.apply()
		for _, op := range ops {
			c.Do(op.Name+"/middle "+fc.name, func() {
				for side := 0; side <= len(op.InEl); side++ { // which slice lies across
					restore()
					for n := 1; n <= 140; n = n + 1 + n/8 {
						s := mkSpec(op, n, 0, 0)
						s.scale, s.genMode = 0.5, e.r.Intn(4)
						el, bytes, pl := op.OutEl, n*op.OutUnit*op.OutEl, &s.outPl
						if side < len(op.InEl) {
							el, bytes, pl = op.InEl[side], n*op.InUnit[side]*op.InEl[side], &s.inPl[side]
							e.in[side] = a
						} else {
							e.out = a
						}
						for _, part := range []int{bytes, bytes - el, bytes / 2 / el * el, el, 0} {
							pl.off = half - 2*canary - part
							s.fixed = nil
							e.cover(op, s)
							c.Seen(mix(hashS(op.Name, fc.name, "mid"), side, n, part), true)
						}
					}
				}
			})
		}
	}
}

// middleBlocks compares the block processors' results across the middle of memory with those elsewhere.
func middleBlocks(c *Ctx, a *Arena, half int) {
	procs := []struct {
		name string
		el   int
		mult int
		f    func(b []byte) []byte
	}{
		{"Rotate90Filter", 8, 4, func(b []byte) []byte { return bytesOf((&dsp.Rotate90Filter{}).Filter(as[complex64](b))) }},
		{"I32Rotate90Filter", 4, 8, func(b []byte) []byte { return bytesOf((&dsp.I32Rotate90Filter{}).Filter(as[int32](b))) }},
		{"LowPassDownsampleComplexFilter", 8, 1, func(b []byte) []byte {
			return bytesOf((&dsp.LowPassDownsampleComplexFilter{Downsample: 3}).Filter(as[complex64](b)))
		}},
		{"LowPassDownsampleRationalFilter", 4, 1, func(b []byte) []byte {
			return bytesOf((&dsp.LowPassDownsampleRationalFilter{Fast: 5, Slow: 3}).Filter(as[float32](b)))
		}},
		{"FMDemodFilter", 8, 1, func(b []byte) []byte {
			o := make([]float32, len(b)/8)
			(&dsp.FMDemodFilter{}).Demodulate(as[complex64](b), o)
			return bytesOf(o)
		}},
		{"VMaxF32", 4, 1, func(b []byte) []byte {
			if len(b) == 0 {
				return nil
			}
			return bytesOf([]float32{dsp.VMaxF32(as[float32](b)), dsp.VMinF32(as[float32](b))})
		}},
	}
	for _, p := range procs {
		c.Do(p.name+"/middle", func() {
			for n := p.mult; n <= 200; n += p.mult * (1 + n/p.mult/6) {
				for _, part := range []int{n, n - 1, n / 2, 1, 0} {
					data := make([]byte, n*p.el)
					for i := 0; i < len(data); i += 4 {
						putF32(data[i:], float32(c.R.Norm()))
					}
					want := append([]byte{}, p.f(as[byte](bytesOf(append([]uint64{}, as[uint64](append(data, make([]byte, 8)...))...)))[:len(data):len(data)])...)
					off := half - part*p.el
					lo, b, hi := a.mem[off-canary:off], a.mem[off:off+len(data):off+len(data)], a.mem[off+len(data):off+len(data)+canary]
					fillAll(0x77, lo, hi)
					copy(b, data)
					got := p.f(b)
					if !bytes.Equal(got, want) {
						c.Fail("middle:"+p.name, "%s: %d samples, %d of them below address 0x80000000: the result is not that of the same samples elsewhere (%d and %d bytes)", p.name, n, part, len(got), len(want))
					}
					if !allAre(0x77, lo, hi) {
						c.Fail("outside:"+p.name, "%s: %d samples across address 0x80000000: memory outside was modified", p.name, n)
					}
					c.Seen(mix(hashS(p.name, "mid"), n, part), true)
				}
			}
		})
	}
}
