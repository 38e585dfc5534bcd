package main

import (
	"encoding/binary"
	"fmt"
	"runtime/debug"
	"unsafe"
)

// C35: a call leaves the processor and the stack of its caller as they were. The state is read by assembly of ours
// (cpustate_*.s) right before and right after each call; in the isa build the parent reads the stack and frame pointers while it
// steps through the calls; the ARM emulators look at what their processors hold when the function returns.

func init() { checks["C35"] = checkC35 }

//go:noescape
func cpuState(p *byte, avx, avx512 bool) (flags uintptr)

func cpuControl(mxcsr uint32, fcw uint16)

type cpuShot struct {
	flags       uintptr
	mxcsr       uint32
	fcw         uint16
	x87         byte // registers of the x87 stack in use
	upper, zmm  uint32
	upperSample []byte
}

var (
	shotMem [1280 + 64]byte
	shotAVX = cpuHas("avx") && cpuHas("xsave")
	shotZMM = cpuHas("avx512f") && unsafe.Sizeof(uintptr(0)) == 8
)

func shotBuf() []byte {
	p := int(-uintptr(unsafe.Pointer(&shotMem)) & 63)
	return shotMem[p : p+1280]
}

// takeShot reads the state; it leaves the upper halves clear, the x87 stack empty and the direction flag clear.
func takeShot(s *cpuShot) {
	b := shotBuf()
	s.flags = cpuState(&b[0], shotAVX, shotZMM)
	s.fcw, s.x87, s.mxcsr = binary.LittleEndian.Uint16(b), b[4], binary.LittleEndian.Uint32(b[24:])
	s.upper, s.zmm, s.upperSample = 0, 0, nil
	if !shotAVX {
		return
	}
	n := 16
	if unsafe.Sizeof(uintptr(0)) == 4 {
		n = 8
	}
	for i := 0; i < n; i++ {
		y := b[512+16*i : 528+16*i]
		if binary.LittleEndian.Uint64(y)|binary.LittleEndian.Uint64(y[8:]) != 0 {
			s.upper |= 1 << i
			if s.upperSample == nil {
				s.upperSample = append(s.upperSample, y...)
			}
		}
		if z := b[768+32*i : 800+32*i]; shotZMM && binary.LittleEndian.Uint64(z)|binary.LittleEndian.Uint64(z[8:])|binary.LittleEndian.Uint64(z[16:])|binary.LittleEndian.Uint64(z[24:]) != 0 {
			s.zmm |= 1 << i
		}
	}
}

const (
	mxcsrControl = 0xffc0 // all but the sticky exception flags
	flagDF       = 1 << 10
	flagAC       = 1 << 18
)

// wrong says what the call changed.
func (a *cpuShot) wrong(b *cpuShot) (key, what string) {
	switch {
	case (a.mxcsr^b.mxcsr)&mxcsrControl != 0:
		return "mxcsr", fmt.Sprintf("the SSE control register was %04x and is %04x (rounding, subnormals, exception masks)", a.mxcsr&mxcsrControl, b.mxcsr&mxcsrControl)
	case a.fcw != b.fcw:
		return "x87control", fmt.Sprintf("the x87 control word was %04x and is %04x", a.fcw, b.fcw)
	case b.x87 != 0:
		return "x87stack", fmt.Sprintf("x87 registers are left in use (tags %02x): MMX code without EMMS, or values not popped", b.x87)
	case (a.flags^b.flags)&(flagDF|flagAC) != 0:
		return "flags", fmt.Sprintf("the flags register was %x and is %x (direction or alignment check)", a.flags, b.flags)
	case b.upper != 0 || b.zmm != 0:
		return "upper", fmt.Sprintf("the upper halves of the vector registers are left in use (mask %04x, Z %04x, e.g. % x): VZEROUPPER is missing, SSE code running afterwards pays for it", b.upper, b.zmm, b.upperSample)
	}
	return "", ""
}

const stackWord = 0x5aa5c33c

// guarded makes the call with words of known content above and below the variables of the calling frame.
//
//go:noinline
func guarded(f func()) (bad int) {
	var fence [96]uintptr
	p := &fence
	for i := range p {
		p[i] = stackWord + uintptr(i)
	}
	keepAlive(p)
	f()
	keepAlive(p)
	for i := range p {
		if p[i] != stackWord+uintptr(i) {
			bad++
		}
	}
	return bad
}

//go:noinline
func keepAlive(p *[96]uintptr) {}

func checkC35(c *Ctx) {
	if c.Variant == "isa" {
		isaReturns(c)
		return
	}
	c.Rule = "one evaluation = one call with the state of the processor and the words around it on the stack read before and after; distinct = distinct (capability setting, function or processor, length, alignment)"
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	c.Count("upper_halves_visible", int64(btoi(shotAVX)))
	var first cpuShot
	takeShot(&first)
	fix := func() { cpuControl(first.mxcsr, first.fcw) }
	// The first call may be the one that was interrupted, or that grew the stack: what is reported happens every time.
	judge := func(fc flagConfig, key, desc string, call func()) {
		for try := 0; ; try++ {
			var a, b cpuShot
			takeShot(&a)
			bad := guarded(call)
			takeShot(&b)
			fix()
			if c.Emulated() { // the emulator judges
				a, b = cpuShot{}, cpuShot{}
			}
			k, what := a.wrong(&b)
			if bad != 0 {
				k, what = "stack", fmt.Sprintf("%d words of the stack frame of the caller have changed", bad)
			}
			if k == "" {
				break
			}
			if try == 4 {
				c.Fail(k+":"+key, "%s, %s: after the call %s", desc, fc.name, what)
				break
			}
		}
	}
	lens := []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 11, 12, 15, 16, 17, 23, 24, 31, 32, 33, 40, 47, 48, 63, 64, 65, 79, 96, 127, 128, 129, 130, 191, 257, 1000}
	if c.Thorough() {
		for n := 0; n < 400; n++ {
			lens = append(lens, n)
		}
	}
	reps := c.N(6, 40)
	if c.Emulated() {
		reps = 3
	}
	for _, fc := range flagConfigs() {
		for _, fn := range isaFns() {
			c.Do(fn+" "+fc.name, func() {
				fc.apply()
				defer restoreFlags()
				for _, n := range lens {
					for rep := 0; rep < reps; rep++ {
						k := isaCase{fn, n, [2]int{c.R.Intn(9), c.R.Intn(9)}, c.R.U64()}
						if rep == 0 {
							k.Off = [2]int{}
						}
						judge(fc, fn, k.String(), k.prepare())
						c.Seen(mix(hashS(fn, fc.name), n, k.Off[0], k.Off[1]), true)
					}
				}
			})
		}
		for _, pt := range procTypes() {
			c.Do(pt.name+" stream, "+fc.name, func() {
				fc.apply()
				defer restoreFlags()
				for rep := 0; rep < c.N(3, 12); rep++ {
					desc, mk := pt.conf(c.R)
					s := mk()
					for _, n := range lens[:24] {
						n = n / pt.unit * pt.unit
						data := pt.gen(c.R, n)
						judge(fc, pt.name, fmt.Sprintf("%s (%s), %d samples", pt.name, desc, n), func() {
							s.feed(data)
							if s.read != nil {
								s.read()
							}
						})
						c.Seen(mix(hashS(pt.name, fc.name, desc), n), true)
					}
				}
			})
		}
	}
}
