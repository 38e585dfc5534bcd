package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"

	"github.com/samuel/go-dsp/dsp"
)

// Op describes one slice-to-slice operation of the package: how to call it, and what one unit of output must be.
type Op struct {
	Name    string
	InEl    []int    // bytes per element of each input slice
	InUnit  []int    // elements per processed unit, per input slice
	InKind  []string // value domain of each input slice: u8 i8 i16 i32 f32 c64
	OutEl   int
	OutUnit int
	Scaled  bool
	Conv    bool // sample conversion (C01), else vector arithmetic (C03)
	Accum   bool // output is also an input
	InPlace []int
	Call    func(in [][]byte, out []byte, scale float64)
	// Model writes the expected unit to out; exact=false means the value is implementation-defined for this sample
	// (only position independence is required).
	Model func(in [][]byte, prev []byte, scale float64, out []byte) (exact bool)
	// Same says whether got is an acceptable rendering of want (nil: byte equality).
	Same func(in [][]byte, got, want []byte) bool
	// IntOut: out-of-range samples exist (excluded from C04).
	IntOut bool
}

var le = binary.LittleEndian

func getF32(b []byte) float32    { return math.Float32frombits(le.Uint32(b)) }
func putF32(b []byte, v float32) { le.PutUint32(b, math.Float32bits(v)) }
func getF64(b []byte) float64    { return math.Float64frombits(le.Uint64(b)) }
func putF64(b []byte, v float64) { le.PutUint64(b, math.Float64bits(v)) }

// sameF32 compares n float32 lanes: equal bit patterns, or both NaN.
func sameF32(_ [][]byte, got, want []byte) bool {
	for i := 0; i+4 <= len(got); i += 4 {
		g, w := le.Uint32(got[i:]), le.Uint32(want[i:])
		if g != w {
			gf, wf := math.Float32frombits(g), math.Float32frombits(w)
			if gf != gf && wf != wf {
				continue
			}
			return false
		}
	}
	return true
}

func sameF64(_ [][]byte, got, want []byte) bool {
	g, w := getF64(got), getF64(want)
	return le.Uint64(got) == le.Uint64(want) || (g != g && w != w)
}

func truncFits(v float32, lo, hi float64) (int64, bool) {
	t := math.Trunc(float64(v))
	if t >= lo && t <= hi { // false for NaN
		return int64(t), true
	}
	return 0, false
}

func f32Scale(s float64) float32 { return float32(s) }

var ops = []*Op{
	{Name: "Ui8toi16", InEl: []int{1}, InUnit: []int{1}, InKind: []string{"u8"}, OutEl: 2, OutUnit: 1, Conv: true,
		Call: func(in [][]byte, out []byte, _ float64) { dsp.Ui8toi16(in[0], as[int16](out)) },
		Model: func(in [][]byte, _ []byte, _ float64, out []byte) bool {
			v := in[0][0] ^ 0x80
			out[0], out[1] = v, v
			return true
		}},
	{Name: "Ui8toi16b", InEl: []int{1}, InUnit: []int{1}, InKind: []string{"u8"}, OutEl: 1, OutUnit: 2, Conv: true,
		Call: func(in [][]byte, out []byte, _ float64) { dsp.Ui8toi16b(in[0], out) },
		Model: func(in [][]byte, _ []byte, _ float64, out []byte) bool {
			v := in[0][0] ^ 0x80
			out[0], out[1] = v, v
			return true
		}},
	{Name: "Ui8tof32", InEl: []int{1}, InUnit: []int{1}, InKind: []string{"u8"}, OutEl: 4, OutUnit: 1, Conv: true,
		Call: func(in [][]byte, out []byte, _ float64) { dsp.Ui8tof32(in[0], as[float32](out)) },
		Model: func(in [][]byte, _ []byte, _ float64, out []byte) bool {
			putF32(out, float32(int(in[0][0])-128))
			return true
		}},
	{Name: "I8tof32", InEl: []int{1}, InUnit: []int{1}, InKind: []string{"u8"}, OutEl: 4, OutUnit: 1, Conv: true,
		Call: func(in [][]byte, out []byte, _ float64) { dsp.I8tof32(in[0], as[float32](out)) },
		Model: func(in [][]byte, _ []byte, _ float64, out []byte) bool {
			v := int(in[0][0])
			if v > 127 {
				v -= 256
			}
			putF32(out, float32(v))
			return true
		}},
	{Name: "Ui8toc64", InEl: []int{1}, InUnit: []int{2}, InKind: []string{"u8"}, OutEl: 8, OutUnit: 1, Conv: true,
		Call: func(in [][]byte, out []byte, _ float64) { dsp.Ui8toc64(in[0], as[complex64](out)) },
		Model: func(in [][]byte, _ []byte, _ float64, out []byte) bool {
			putF32(out, float32(int(in[0][0])-128))
			putF32(out[4:], float32(int(in[0][1])-128))
			return true
		}},
	{Name: "I8toc64", InEl: []int{1}, InUnit: []int{2}, InKind: []string{"u8"}, OutEl: 8, OutUnit: 1, Conv: true,
		Call: func(in [][]byte, out []byte, _ float64) { dsp.I8toc64(as[int8](in[0]), as[complex64](out)) },
		Model: func(in [][]byte, _ []byte, _ float64, out []byte) bool {
			for k := 0; k < 2; k++ {
				v := int(in[0][k])
				if v > 127 {
					v -= 256
				}
				putF32(out[4*k:], float32(v))
			}
			return true
		}},
	{Name: "C64toi8", InEl: []int{8}, InUnit: []int{1}, InKind: []string{"c64"}, OutEl: 1, OutUnit: 2, Conv: true, IntOut: true,
		Call: func(in [][]byte, out []byte, _ float64) { dsp.C64toi8(as[complex64](in[0]), as[int8](out)) },
		Model: func(in [][]byte, _ []byte, _ float64, out []byte) bool {
			ok := true
			for k := 0; k < 2; k++ {
				t, fits := truncFits(getF32(in[0][4*k:]), -128, 127)
				out[k] = byte(t)
				ok = ok && fits
			}
			return ok
		}},
	{Name: "F32toi16", InEl: []int{4}, InUnit: []int{1}, InKind: []string{"f32"}, OutEl: 2, OutUnit: 1, Conv: true, Scaled: true, IntOut: true,
		Call: func(in [][]byte, out []byte, s float64) {
			dsp.F32toi16(as[float32](in[0]), as[int16](out), f32Scale(s))
		},
		Model: modelF32toI16},
	{Name: "F32toi16ble", InEl: []int{4}, InUnit: []int{1}, InKind: []string{"f32"}, OutEl: 1, OutUnit: 2, Conv: true, Scaled: true, IntOut: true,
		Call: func(in [][]byte, out []byte, s float64) {
			dsp.F32toi16ble(as[float32](in[0]), out, f32Scale(s))
		},
		Model: modelF32toI16},
	{Name: "I16ToBLE", InEl: []int{2}, InUnit: []int{1}, InKind: []string{"i16"}, OutEl: 1, OutUnit: 2, Conv: true,
		Call: func(in [][]byte, out []byte, _ float64) { dsp.I16ToBLE(as[int16](in[0]), out) },
		Model: func(in [][]byte, _ []byte, _ float64, out []byte) bool {
			out[0], out[1] = in[0][0], in[0][1] // the host is little endian
			return true
		}},
	{Name: "I16bleToF64", InEl: []int{1}, InUnit: []int{2}, InKind: []string{"i16"}, OutEl: 8, OutUnit: 1, Conv: true, Scaled: true,
		Call: func(in [][]byte, out []byte, s float64) { dsp.I16bleToF64(in[0], as[float64](out), s) },
		Model: func(in [][]byte, _ []byte, s float64, out []byte) bool {
			putF64(out, float64(sx16(in[0]))*s)
			return true
		}, Same: sameF64},
	{Name: "I16bleToF32", InEl: []int{1}, InUnit: []int{2}, InKind: []string{"i16"}, OutEl: 4, OutUnit: 1, Conv: true, Scaled: true,
		Call: func(in [][]byte, out []byte, s float64) { dsp.I16bleToF32(in[0], as[float32](out), f32Scale(s)) },
		Model: func(in [][]byte, _ []byte, s float64, out []byte) bool {
			putF32(out, float32(sx16(in[0]))*f32Scale(s))
			return true
		}, Same: sameF32},
	{Name: "I32bleToF32", InEl: []int{1}, InUnit: []int{4}, InKind: []string{"i32"}, OutEl: 4, OutUnit: 1, Conv: true, Scaled: true,
		Call: func(in [][]byte, out []byte, s float64) { dsp.I32bleToF32(in[0], as[float32](out), f32Scale(s)) },
		Model: func(in [][]byte, _ []byte, s float64, out []byte) bool {
			v := int64(in[0][0]) + int64(in[0][1])*256 + int64(in[0][2])*65536 + int64(in[0][3])*16777216
			if v >= 1<<31 {
				v -= 1 << 32
			}
			putF32(out, float32(v)*f32Scale(s))
			return true
		}, Same: sameF32},
	{Name: "F32Tof32ble", InEl: []int{4}, InUnit: []int{1}, InKind: []string{"f32"}, OutEl: 1, OutUnit: 4, Conv: true,
		Call: func(in [][]byte, out []byte, _ float64) { dsp.F32Tof32ble(as[float32](in[0]), out) },
		Model: func(in [][]byte, _ []byte, _ float64, out []byte) bool {
			copy(out, in[0][:4])
			return true
		}},

	// ---- vector arithmetic ----
	{Name: "VMulC64xF32", InEl: []int{8, 4}, InUnit: []int{1, 1}, InKind: []string{"c64", "f32"}, OutEl: 8, OutUnit: 1, InPlace: []int{0},
		Call: func(in [][]byte, out []byte, _ float64) {
			dsp.VMulC64xF32(as[complex64](in[0]), as[complex64](out), as[float32](in[1]))
		},
		Model: func(in [][]byte, _ []byte, _ float64, out []byte) bool {
			m := getF32(in[1])
			putF32(out, getF32(in[0])*m)
			putF32(out[4:], getF32(in[0][4:])*m)
			return true
		}, Same: sameF32},
	{Name: "VMulC64", InEl: []int{8, 8}, InUnit: []int{1, 1}, InKind: []string{"c64", "c64"}, OutEl: 8, OutUnit: 1, InPlace: []int{0, 1},
		Call: func(in [][]byte, out []byte, _ float64) {
			dsp.VMulC64(as[complex64](in[0]), as[complex64](out), as[complex64](in[1]))
		},
		Model: func(in [][]byte, _ []byte, _ float64, out []byte) bool {
			a, b, p, q := getF32(in[0]), getF32(in[0][4:]), getF32(in[1]), getF32(in[1][4:])
			putF32(out, a*p-b*q)
			putF32(out[4:], a*q+b*p)
			return true
		},
		Same: func(in [][]byte, got, want []byte) bool {
			if bytes.Equal(got, want) {
				return true
			}
			a, b, p, q := float64(getF32(in[0])), float64(getF32(in[0][4:])), float64(getF32(in[1])), float64(getF32(in[1][4:]))
			mags := []float64{math.Abs(a*p) + math.Abs(b*q), math.Abs(a*q) + math.Abs(b*p)}
			vals := []float64{a*p - b*q, a*q + b*p}
			for k := 0; k < 2; k++ {
				// special or overflowing operands: only the finite cases are specified to a few ulp
				if !(mags[k] < 1e37) {
					continue
				}
				g := float64(getF32(got[4*k:]))
				if !(math.Abs(g-vals[k]) <= mags[k]*3e-7+3e-45) {
					return false
				}
			}
			return true
		}},
	{Name: "VAddF32", InEl: []int{4}, InUnit: []int{1}, InKind: []string{"f32"}, OutEl: 4, OutUnit: 1, Accum: true, InPlace: []int{0},
		Call: func(in [][]byte, out []byte, _ float64) { dsp.VAddF32(as[float32](in[0]), as[float32](out)) },
		Model: func(in [][]byte, prev []byte, _ float64, out []byte) bool {
			putF32(out, getF32(prev)+getF32(in[0]))
			return true
		}, Same: sameF32},
	{Name: "VAddC64", InEl: []int{8}, InUnit: []int{1}, InKind: []string{"c64"}, OutEl: 8, OutUnit: 1, Accum: true, InPlace: []int{0},
		Call: func(in [][]byte, out []byte, _ float64) { dsp.VAddC64(as[complex64](in[0]), as[complex64](out)) },
		Model: func(in [][]byte, prev []byte, _ float64, out []byte) bool {
			putF32(out, getF32(prev)+getF32(in[0]))
			putF32(out[4:], getF32(prev[4:])+getF32(in[0][4:]))
			return true
		}, Same: sameF32},
	{Name: "VScaleC64", InEl: []int{8}, InUnit: []int{1}, InKind: []string{"c64"}, OutEl: 8, OutUnit: 1, Scaled: true, InPlace: []int{0},
		Call: func(in [][]byte, out []byte, s float64) {
			dsp.VScaleC64(as[complex64](in[0]), as[complex64](out), f32Scale(s))
		},
		Model: func(in [][]byte, _ []byte, s float64, out []byte) bool {
			putF32(out, getF32(in[0])*f32Scale(s))
			putF32(out[4:], getF32(in[0][4:])*f32Scale(s))
			return true
		}, Same: sameF32},
	{Name: "VScaleF32", InEl: []int{4}, InUnit: []int{1}, InKind: []string{"f32"}, OutEl: 4, OutUnit: 1, Scaled: true, InPlace: []int{0},
		Call: func(in [][]byte, out []byte, s float64) {
			dsp.VScaleF32(as[float32](in[0]), as[float32](out), f32Scale(s))
		},
		Model: func(in [][]byte, _ []byte, s float64, out []byte) bool {
			putF32(out, getF32(in[0])*f32Scale(s))
			return true
		}, Same: sameF32},
	{Name: "VAbsC64", InEl: []int{8}, InUnit: []int{1}, InKind: []string{"c64"}, OutEl: 4, OutUnit: 1,
		Call: func(in [][]byte, out []byte, _ float64) { dsp.VAbsC64(as[complex64](in[0]), as[float32](out)) },
		Model: func(in [][]byte, _ []byte, _ float64, out []byte) bool {
			putF32(out, float32(math.Hypot(float64(getF32(in[0])), float64(getF32(in[0][4:])))))
			return true
		},
		Same: func(in [][]byte, got, want []byte) bool {
			re, im := math.Abs(float64(getF32(in[0]))), math.Abs(float64(getF32(in[0][4:])))
			m := math.Max(re, im)
			if m == 0 {
				return getF32(got) == 0
			}
			if m != m || re != re || im != im {
				return true // NaN or Inf with NaN: unspecified
			}
			if math.IsInf(m, 0) {
				return math.IsInf(float64(getF32(got)), 1)
			}
			if m > 1e18 || m < 1e-17 {
				return true // squares leave the single-precision range: unspecified accuracy
			}
			w := math.Hypot(re, im)
			return math.Abs(float64(getF32(got))-w) <= w*3e-7
		}},
}

func sx16(b []byte) int {
	v := int(b[0]) + 256*int(b[1])
	if v >= 32768 {
		v -= 65536
	}
	return v
}

func modelF32toI16(in [][]byte, _ []byte, s float64, out []byte) bool {
	t, ok := truncFits(getF32(in[0])*f32Scale(s), -32768, 32767)
	le.PutUint16(out, uint16(int16(t)))
	return ok
}

func opByName(n string) *Op {
	for _, o := range ops {
		if o.Name == n {
			return o
		}
	}
	panic("harness: no op " + n)
}

// ---------- value domains ----------

var f32Specials = func() []float32 {
	var v []float32
	for _, x := range []float64{0, 1e-45, 1e-40, 1.1754942e-38, 1.17549435e-38, 1e-20, 1e-5, 0.25, 0.5, 0.49999997, 0.99999994, 1, 1.0000001, 1.5, 2, 3, 5, 12.5,
		63.99, 64, 126.99999, 127, 127.0001, 127.5, 127.99999, 128, 128.00002, 128.5, 128.99998, 129, 255, 255.99, 256, 1000, 32766.5, 32767, 32767.5, 32767.998, 32768, 32768.004, 32768.996, 32769, 40000, 65535, 65536, 65537, 98304, 131072,
		1e6, 8388607.5, 8388608, 16777216, 2147483520, 2147483648, 2147483904, 4294967040, 4294967296, 9.2233715e18, 9.223372e18, 1.8446744e19, 1e25, 1e30, 1e38, 3.4028235e38} {
		v = append(v, float32(x), -float32(x))
	}
	v = append(v, float32(math.Inf(1)), float32(math.Inf(-1)))
	for _, b := range []uint32{0x7fc00000, 0xffc00000, 0x7fc12345, 0x7f800001, 0xff812345} {
		v = append(v, math.Float32frombits(b))
	}
	return v
}()

// mode: 0 any bit pattern, 1 fitting small values, 2 boundary heavy, 3 finite moderate
func genF32(r *Rand, mode int) float32 {
	switch mode {
	case 1:
		return float32(r.Range(-1, 1))
	case 3:
		v := float32(r.LogU(1e-6, 1e6))
		if r.Bool() {
			v = -v
		}
		return v
	case 2:
		switch r.Intn(4) {
		case 0:
			return f32Specials[r.Intn(len(f32Specials))]
		case 1:
			return float32(r.Intn(65536)-32768) + float32(r.Intn(8))/8
		case 2:
			return float32(r.Intn(300)-150) + float32(r.Intn(8))/8
		default:
			return float32(r.Range(-70000, 70000))
		}
	}
	switch r.Intn(5) {
	case 0:
		return f32Specials[r.Intn(len(f32Specials))]
	case 1:
		return math.Float32frombits(uint32(r.U64()))
	case 2:
		return float32(r.Range(-1, 1))
	case 3:
		return float32(r.Intn(65536) - 32768)
	}
	return float32(r.Range(-40000, 40000))
}

func genBytes(r *Rand, kind string, mode int, b []byte) {
	switch kind {
	case "u8", "i16", "i32":
		r.Bytes(b)
		if kind == "u8" && mode == 2 {
			for i := range b {
				if r.Intn(3) == 0 {
					b[i] = []byte{0, 1, 127, 128, 129, 254, 255, 0x7f, 0x80}[r.Intn(9)]
				}
			}
		}
		if (kind == "i16" || kind == "i32") && mode == 2 {
			for i := 0; i+4 <= len(b); i += 4 {
				switch r.Intn(6) {
				case 0:
					le.PutUint32(b[i:], 0x7fff8000)
				case 1:
					le.PutUint32(b[i:], 0x80000000)
				case 2:
					le.PutUint32(b[i:], 0xffffffff)
				case 3:
					le.PutUint32(b[i:], 0x00ff00fe)
				}
			}
		}
	case "f32", "c64":
		for i := 0; i+4 <= len(b); i += 4 {
			putF32(b[i:], genF32(r, mode))
		}
		for i := len(b) / 4 * 4; i < len(b); i++ {
			b[i] = 0
		}
	default:
		panic("harness: kind " + kind)
	}
}

var opScales = []float64{1, 0.5, 2, -1, 32767, 32768, 1.0 / 32768, 1.0 / 32767, 127, 0, 1e-3, 3.14159, 0.33333334, -0.75, 1e4, 1e-30, 5e-42, 1e20}

// ---------- execution engine ----------

const arenaBytes = 1 << 16
const canary = 64

type placement struct {
	mode int // 0: offset off inside the arena, 1: flush against the upper guard page, 2: at the lower guard page
	off  int
}

func (p placement) String() string {
	switch p.mode {
	case 1:
		return "end"
	case 2:
		return "start"
	case 3:
		return "heap"
	}
	return fmt.Sprintf("+%d", p.off)
}

type Engine struct {
	c       *Ctx
	r       *Rand
	in      [2]*Arena
	out     *Arena
	canon   map[string][]byte
	cap     int
	contain bool // report containment violations
	inSnap  [2][]byte
	ref     []byte
	tmp     []byte
}

func NewEngine(c *Ctx, size int) *Engine {
	e := &Engine{c: c, r: c.R, cap: size, canon: map[string][]byte{}}
	e.in[0], e.in[1], e.out = NewArena(size), NewArena(size), NewArena(size)
	return e
}

// view returns the slice and its surrounding canary ranges.
func view(a *Arena, p placement, n int) (s, lo, hi []byte) {
	var off int
	switch p.mode {
	case 3: // an exact heap allocation (pointer checks of the Go runtime apply)
		b := bytesOf(make([]uint64, (n+7)/8))
		if b == nil {
			b = []byte{}
		}
		return b[:n:n], nil, nil
	case 1:
		off = len(a.mem) - n
	case 2:
		off = 0
	default:
		off = 2*canary + p.off
	}
	l := off - canary
	if l < 0 {
		l = 0
	}
	h := off + n + canary
	if h > len(a.mem) {
		h = len(a.mem)
	}
	end := off + n
	if p.mode != 1 {
		end = h // spare capacity behind the slice is not the callee's to use
	}
	return a.mem[off : off+n : end], a.mem[l:off], a.mem[off+n : h]
}

func units(op *Op, inLen []int, outLen int) int {
	n := outLen / op.OutUnit
	for i, l := range inLen {
		if m := l / op.InUnit[i]; m < n {
			n = m
		}
	}
	return n
}

type runSpec struct {
	inLen   []int // elements
	outLen  int   // elements
	inPl    []placement
	outPl   placement
	scale   float64
	prefill byte
	alias   int // -1: none, else index of the input slice that is the output slice
	genMode int
	fixed   [][]byte // given input data instead of generated
	values  bool     // compare with the model
	keepOut bool     // keep what is in out (second run of a pair)
}

func (e *Engine) desc(op *Op, s *runSpec) string {
	return fmt.Sprintf("%s in=%v%v out=%d%v scale=%g alias=%d", op.Name, s.inLen, s.inPl, s.outLen, s.outPl, s.scale, s.alias)
}

// run performs one call and applies all monitors. It returns the produced output bytes (aliasing the arena).
func (e *Engine) run(op *Op, s *runSpec) []byte {
	c := e.c
	var ins [][]byte
	var loHi [][]byte
	n := units(op, s.inLen, s.outLen)
	out, lo, hi := view(e.out, s.outPl, s.outLen*op.OutEl)
	fill(lo, 0xC3)
	fill(hi, 0x3C)
	for i := range op.InEl {
		if s.alias == i {
			ins = append(ins, out)
			loHi = append(loHi, nil, nil)
			continue
		}
		b, l, h := view(e.in[i], s.inPl[i], s.inLen[i]*op.InEl[i])
		fill(l, 0xC3)
		fill(h, 0x3C)
		ins = append(ins, b)
		loHi = append(loHi, l, h)
	}
	for i := range ins {
		if s.fixed != nil {
			copy(ins[i], s.fixed[i])
		} else {
			genBytes(e.r, op.InKind[i], s.genMode, ins[i])
		}
	}
	if s.alias < 0 {
		if op.Accum {
			genBytes(e.r, op.InKind[0], s.genMode, out)
		} else {
			fill(out, s.prefill)
		}
	}
	e.ref = append(e.ref[:0], out...)
	for i := range ins {
		e.inSnap[i] = append(e.inSnap[i][:0], ins[i]...)
	}

	op.Call(ins, out, s.scale)

	if s.values {
		e.values(op, s, n, out)
	}
	if !e.contain {
		return out
	}
	// containment
	for i := range lo {
		if lo[i] != 0xC3 {
			c.Fail("write-before:"+op.Name, "%s: wrote %d bytes before the output slice", e.desc(op, s), len(lo)-i)
			break
		}
	}
	for i := range hi {
		if hi[i] != 0x3C {
			c.Fail("write-after:"+op.Name, "%s: wrote %d bytes past the output slice", e.desc(op, s), i)
			break
		}
	}
	used := n * op.OutUnit * op.OutEl
	if !bytes.Equal(out[used:], e.ref[used:]) {
		c.Fail("extra-output:"+op.Name, "%s: output beyond the %d processed units was changed: % x -> % x", e.desc(op, s), n, head(e.ref[used:]), head(out[used:]))
	}
	for i := range ins {
		if s.alias == i {
			continue
		}
		if !bytes.Equal(ins[i], e.inSnap[i]) {
			c.Fail("input-changed:"+op.Name, "%s: input slice %d was modified", e.desc(op, s), i)
		}
		l, h := loHi[2*i], loHi[2*i+1]
		for k := range l {
			if l[k] != 0xC3 {
				c.Fail("input-outside:"+op.Name, "%s: memory before input slice %d was modified", e.desc(op, s), i)
				break
			}
		}
		for k := range h {
			if h[k] != 0x3C {
				c.Fail("input-outside:"+op.Name, "%s: memory after input slice %d was modified", e.desc(op, s), i)
				break
			}
		}
	}
	return out
}

func head(b []byte) []byte {
	if len(b) > 24 {
		return b[:24]
	}
	return b
}

func (e *Engine) values(op *Op, s *runSpec, n int, out []byte) {
	var want [16]byte
	ub := op.OutUnit * op.OutEl
	in := make([][]byte, len(op.InEl))
	bad := 0
	for u := 0; u < n; u++ {
		for i := range in {
			k := op.InUnit[i] * op.InEl[i]
			in[i] = e.inSnap[i][u*k : u*k+k]
		}
		var prev []byte
		if op.Accum {
			prev = e.ref[u*ub : u*ub+ub]
		}
		exact := op.Model(in, prev, s.scale, want[:ub])
		got := out[u*ub : u*ub+ub]
		w := want[:ub]
		if !exact {
			w = e.canonical(op, in, s.scale)
		}
		ok := false
		if op.Same != nil && exact {
			ok = op.Same(in, got, w)
		} else {
			ok = bytes.Equal(got, w)
		}
		if !ok {
			what := "value"
			if !exact {
				what = "position"
			}
			e.c.Fail(what+":"+op.Name, "%s: unit %d of %d: input %x scale %g -> %x, want %x", e.desc(op, s), u, n, in, s.scale, got, w)
			if bad++; bad > 2 {
				return
			}
		}
	}
}

// canonical is the value the operation gives for this sample alone, as a one-unit slice.
func (e *Engine) canonical(op *Op, in [][]byte, scale float64) []byte {
	k := op.Name + fmt.Sprintf("%x/%g", in, scale)
	if v, ok := e.canon[k]; ok {
		return v
	}
	ins := make([][]byte, len(in))
	for i := range in {
		b := make([]uint64, (len(in[i])+15)/8)
		ins[i] = bytesOf(b)[:len(in[i])]
		copy(ins[i], in[i])
	}
	ob := bytesOf(make([]uint64, 4))[:op.OutUnit*op.OutEl]
	op.Call(ins, ob, scale)
	if len(e.canon) > 200000 {
		e.canon = map[string][]byte{}
	}
	e.canon[k] = ob
	return ob
}
