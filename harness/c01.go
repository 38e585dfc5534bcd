package main

func init() { checks["C01"] = checkC01; checks["C03"] = checkC03 }

func alignStep(el int) int {
	if el > 8 {
		return 8
	}
	return el
}

// sweepValues drives op over lengths, alignments and values with the value monitor on.
func sweepValues(e *Engine, op *Op, tag string) {
	c := e.c
	before := c.Evals
	maxLen := c.N(300, 700)
	is := alignStep(op.InEl[0])
	if op.InKind[0] == "c64" {
		is = 4 // complex64 has 4-byte alignment
	}
	os := op.OutEl
	if op.Name[0] == 'V' && os == 8 || os == 8 && op.Name != "I16bleToF64" {
		os = 4
	}
	maxAlign := c.N(32, 64)
	nscale := 1
	if op.Scaled {
		nscale = c.N(2, 4)
	}
	// every length x every pair of alignments, random values
	for n := 0; n <= maxLen; n++ {
		c.Do(op.Name+"/len "+tag+itoa(n), func() {
			for ia := 0; ia < maxAlign; ia += is {
				for oa := 0; oa < maxAlign; oa += os {
					if n > 80 && !c.Thorough() && (ia*7+oa*3+n)%5 != 0 {
						continue
					}
					for k := 0; k < nscale; k++ {
						s := mkSpec(op, n, ia, oa)
						s.scale = 1
						if op.Scaled {
							s.scale = opScales[e.r.Intn(len(opScales))]
						}
						s.genMode = e.r.Intn(4)
						s.prefill = byte(e.r.U64())
						s.values = true
						e.run(op, s)
						c.Seen(mix(hashS(op.Name, tag), n, ia, oa, k), n > 0)
					}
				}
			}
		})
	}
	c.Count("length_x_alignment_calls:"+op.Name, c.Evals-before)
	// element counts that do not match or end within a sample
	before = c.Evals
	m := c.N(34, 70)
	for a := 0; a <= m; a++ {
		c.Do(op.Name+"/pairs "+tag+itoa(a), func() {
			for b := 0; b <= m; b++ {
				s := &runSpec{alias: -1, inLen: []int{a}, outLen: b, scale: 1, genMode: e.r.Intn(4), values: true, prefill: byte(e.r.U64())}
				if len(op.InEl) == 2 {
					s.inLen = append(s.inLen, []int{a, b, m + 3, e.r.Intn(m)}[e.r.Intn(4)])
				}
				for range s.inLen {
					s.inPl = append(s.inPl, placement{off: is * e.r.Intn(16)})
				}
				s.outPl = placement{off: os * e.r.Intn(8)}
				e.run(op, s)
				c.Seen(mix(hashS(op.Name, tag, "pair"), a, b), a > 0 && b > 0)
			}
		})
	}
	c.Count("mismatched_length_calls:"+op.Name, c.Evals-before)
}

func mkSpec(op *Op, n, ia, oa int) *runSpec {
	s := &runSpec{alias: -1}
	for i := range op.InEl {
		s.inLen = append(s.inLen, n*op.InUnit[i])
		s.inPl = append(s.inPl, placement{off: ia})
	}
	s.outLen = n * op.OutUnit
	s.outPl = placement{off: oa}
	return s
}

func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	neg := n < 0
	if neg {
		n = -n
	}
	var b [24]byte
	i := len(b)
	for n > 0 {
		i--
		b[i] = byte('0' + n%10)
		n /= 10
	}
	if neg {
		i--
		b[i] = '-'
	}
	return string(b[i:])
}

// exhaustive puts every value of the domain in every lane of a long buffer.
func exhaustive(e *Engine, op *Op) { exhaustiveLanes(e, op, "", 0) }

func exhaustiveLanes(e *Engine, op *Op, tag string, maxLanes int) {
	c := e.c
	if tag != "" {
		tag += "/"
	}
	unitB := 0
	for i := range op.InEl {
		unitB += op.InEl[i] * op.InUnit[i]
	}
	var vals [][]byte // unit values of input 0
	switch op.InKind[0] {
	case "u8":
		if op.InUnit[0] == 1 {
			for v := 0; v < 256; v++ {
				vals = append(vals, []byte{byte(v)})
			}
		} else {
			for v := 0; v < 65536; v++ {
				vals = append(vals, []byte{byte(v), byte(v >> 8)})
			}
		}
	case "i16":
		for v := 0; v < 65536; v++ {
			vals = append(vals, []byte{byte(v), byte(v >> 8)})
		}
	case "i32":
		for v := 0; v < 65536; v++ {
			x := uint32(e.r.U64())
			switch v % 4 {
			case 1:
				x = uint32(v) << 16
			case 2:
				x = uint32(v)
			case 3:
				x = uint32(int32(v-32768) << uint(v%31))
			}
			b := make([]byte, 4)
			le.PutUint32(b, x)
			vals = append(vals, b)
		}
	case "f32":
		for _, f := range f32Specials {
			b := make([]byte, 4)
			putF32(b, f)
			vals = append(vals, b)
		}
		for v := -33000; v <= 33000; v++ {
			b := make([]byte, 4)
			putF32(b, float32(v)+[]float32{0, 0.5, 0.25, -0.5, 0.875, 0.99}[e.r.Intn(6)])
			vals = append(vals, b)
		}
		for v := 0; v < 20000; v++ {
			b := make([]byte, 4)
			le.PutUint32(b, uint32(e.r.U64()))
			vals = append(vals, b)
		}
	case "c64":
		for _, f := range f32Specials {
			for k := 0; k < 24; k++ {
				b := make([]byte, 8)
				putF32(b, f)
				putF32(b[4:], genF32(e.r, k%4))
				if k&1 == 1 {
					putF32(b[4:], f)
					putF32(b, genF32(e.r, k%4))
				}
				vals = append(vals, b)
			}
		}
		for v := 0; v < 40000; v++ {
			b := make([]byte, 8)
			putF32(b, float32(v%300-150)+[]float32{0, 0.5, -0.5, 0.9}[v%4])
			putF32(b[4:], float32((v/300)%300-150)+[]float32{0, 0.5, -0.5, 0.9}[v/4%4])
			vals = append(vals, b)
		}
	}
	scales := []float64{1}
	if op.Scaled {
		scales = opScales
	}
	ub := op.InEl[0] * op.InUnit[0]
	maxUnits := e.cap / 2 / max(ub, op.OutEl*op.OutUnit)
	if maxUnits > 4000 {
		maxUnits = 4000
	}
	lanes := 32
	if len(vals) > 1000 {
		lanes = c.N(4, 32)
		if op.Scaled {
			lanes = c.N(1, 16)
		}
	}
	if maxLanes > 0 && lanes > maxLanes {
		lanes = maxLanes
		if op.Scaled {
			lanes = 1
		}
	}
	for si, sc := range scales {
		for lane := 0; lane < lanes; lane++ {
			c.Do(op.Name+"/"+tag+"values scale "+itoa(si)+" lane "+itoa(lane), func() {
				// rotate the list so that each value meets each lane; odd stride decorrelates neighbours
				L := len(vals)
				pos := 0
				for pos < L+lane {
					n := maxUnits
					if pos+n > L+lane {
						n = L + lane - pos
					}
					data := make([]byte, 0, n*ub)
					for k := 0; k < n; k++ {
						v := vals[((pos+k-lane)%L+L)%L]
						data = append(data, v...)
					}
					oa := 0
					if op.OutEl < 8 {
						oa = op.OutEl * (lane % (8 / op.OutEl))
					}
					s := mkSpec(op, n, 0, oa)
					if op.InKind[0] == "u8" || op.InEl[0] == 1 {
						s.inPl[0].off = lane % 16
					}
					s.scale = sc
					s.values = true
					s.fixed = [][]byte{data}
					for i := 1; i < len(op.InEl); i++ {
						b := make([]byte, n*op.InUnit[i]*op.InEl[i])
						genBytes(e.r, op.InKind[i], lane%4, b)
						s.fixed = append(s.fixed, b)
					}
					e.run(op, s)
					for k := 0; k < n; k++ {
						c.Evals++
					}
					pos += n
				}
				c.Count("values_x_lanes:"+op.Name, int64(L))
			})
		}
	}
	for i, v := range vals {
		c.Seen(hashS(op.Name)^hashB(v), true)
		if i > 200000 {
			break
		}
	}
}

// large drives lengths around powers of two up to 2^20 units.
func large(e *Engine, op *Op) {
	c := e.c
	big := NewEngine(c, 10<<20)
	for p := 10; p <= 20; p++ {
		for _, d := range []int{-1, 0, 1, 3, 17} {
			if p > 16 && d != 1 && d != -1 && !c.Thorough() {
				continue
			}
			n := 1<<p + d
			if n*op.OutUnit*op.OutEl+1024 > 10<<20 || n*op.InUnit[0]*op.InEl[0]+1024 > 10<<20 {
				continue
			}
			c.Do(op.Name+"/large "+itoa(n), func() {
				s := mkSpec(op, n, 0, 0)
				if op.InEl[0] == 1 {
					s.inPl[0].off = e.r.Intn(16)
				}
				if op.OutEl < 8 {
					s.outPl.off = op.OutEl * e.r.Intn(16/op.OutEl)
				}
				s.scale = 0.75
				s.genMode = 1 + e.r.Intn(3)
				if op.InKind[0] == "f32" && op.IntOut {
					s.scale = 32767
					s.genMode = 1
				}
				if op.InKind[0] == "c64" && op.IntOut {
					s.genMode = 1
				}
				s.values = true
				big.run(op, s)
				c.Seen(mix(hashS(op.Name), n), true)
				c.Count("large_calls", 1)
			})
		}
	}
	for _, a := range []*Arena{big.in[0], big.in[1], big.out} {
		a.Free()
	}
}

func checkC01(c *Ctx) {
	c.Rule = "one evaluation = one converted sample value (value sweep) or one call (length x alignment sweep, large lengths); distinct = distinct (operation, sample value) or (operation, length, input alignment, output alignment); empty calls are trivial. Every output element is compared with the scalar definition, out-of-range samples with the value of the same sample converted alone."
	e := NewEngine(c, arenaBytes)
	for _, op := range ops {
		if !op.Conv {
			continue
		}
		sweepValues(e, op, "")
		exhaustive(e, op)
		large(e, op)
		c.Sample("%s: lengths 0..%d at all alignment pairs, scales %v", op.Name, c.N(300, 700), opScales[:3])
	}
	otherSettings(e, func(op *Op) bool { return op.Conv })
	hugeOps(c, func(op *Op) bool { return op.Conv })
	for _, op := range ops {
		if op.Conv {
			hugeMismatch(c, op)
		}
	}
}

// otherSettings repeats a reduced sweep of the value oracle under every other capability setting.
func otherSettings(e *Engine, sel func(*Op) bool) {
	c := e.c
	defer restoreFlags()
	for _, fc := range flagConfigs() {
		if fc.set == nil {
			continue
		}
		fc.apply()
		for _, op := range ops {
			if !sel(op) {
				continue
			}
			is := alignStep(op.InEl[0])
			if op.InKind[0] == "c64" {
				is = 4
			}
			for n := 0; n <= c.N(260, 600); n++ {
				c.Do(op.Name+"/"+fc.name+"/len "+itoa(n), func() {
					for k := 0; k < c.N(12, 60); k++ {
						os := op.OutEl
						if os == 8 && op.Name != "I16bleToF64" {
							os = 4
						}
						s := mkSpec(op, n, is*e.r.Intn(32/is), os*e.r.Intn(32/os))
						s.scale = 1
						if op.Scaled {
							s.scale = opScales[e.r.Intn(len(opScales))]
						}
						s.genMode = e.r.Intn(4)
						s.prefill = byte(e.r.U64())
						s.values = true
						e.run(op, s)
						c.Seen(mix(hashS(op.Name, fc.name), n, k), n > 0)
					}
				})
			}
			c.Count("calls_under_other_capability_settings", 1)
			if c.Thorough() || op.InEl[0] == 1 || op.InKind[0] == "i16" {
				exhaustiveLanes(e, op, fc.name, c.N(2, 8))
			}
		}
		c.Count("capability_settings", 1)
	}
}
