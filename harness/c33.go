package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"unsafe"

	"github.com/samuel/go-dsp/dsp"
)

// C33: the instructions package dsp executes are ones the machine has. On x86 the parent (c33_amd64.go) steps through the code of a
// child that believes it runs on a scripted processor; on ARM the interpreter counts what it executes.

func init() {
	checks["C33"] = checkC33
	if os.Getenv("VERIF_ISA") != "" {
		runtime.LockOSThread() // the goroutine of main stays on the thread that is traced
	}
}

var isaParent func(c *Ctx)

func checkC33(c *Ctx) {
	switch {
	case os.Getenv("VERIF_ISA") != "":
		isaChild()
	case c.Variant == "arm":
		checkC33ARM(c)
	case isaParent != nil && c.Variant == "isa":
		isaParent(c)
	default:
		panic("harness: C33 has no build " + c.Variant)
	}
}

// isaCase is one call: a function, its number of output units, and the misalignment of its slices in elements.
type isaCase struct {
	Fn  string `json:"fn"`
	N   int    `json:"n"`
	Off [2]int `json:"off"`
	R   uint64 `json:"r"`
}

func (k isaCase) String() string {
	return fmt.Sprintf("%s n=%d off=%d,%d", k.Fn, k.N, k.Off[0], k.Off[1])
}

type isaOrder struct {
	Force map[string]byte `json:"force"`
	Cases []isaCase       `json:"cases"`
}

var isaExtra = map[string]func(b []byte, n int){
	"VMaxF32":   func(b []byte, n int) { dsp.VMaxF32(as[float32](b[:4*n])) },
	"VMinF32":   func(b []byte, n int) { dsp.VMinF32(as[float32](b[:4*n])) },
	"FastAtan2": func(b []byte, n int) { v := as[float32](b[:8]); dsp.FastAtan2(v[0], v[1]) },
	"FastAtan2_2": func(b []byte, n int) {
		v := as[float32](b[:8])
		dsp.FastAtan2_2(v[0], v[1])
	},
	"FMDemodFilter": func(b []byte, n int) { new(dsp.FMDemodFilter).Demodulate(as[complex64](b[:8*n]), make([]float32, n)) },
	"Rotate90Filter": func(b []byte, n int) {
		new(dsp.Rotate90Filter).Filter(as[complex64](b[:8*(n/4*4)]))
	},
	"I32Rotate90Filter": func(b []byte, n int) { new(dsp.I32Rotate90Filter).Filter(as[int32](b[:8*(n/4*4)])) },
	"LowPassDownsampleComplexFilter": func(b []byte, n int) {
		(&dsp.LowPassDownsampleComplexFilter{Downsample: 3}).Filter(as[complex64](b[:8*n]))
	},
	"LowPassDownsampleRationalFilter": func(b []byte, n int) {
		(&dsp.LowPassDownsampleRationalFilter{Fast: 5, Slow: 2}).Filter(as[float32](b[:4*n]))
	},
}

// prepare gives the call of a case; all memory is ready when it returns.
func (k isaCase) prepare() func() {
	r := NewRand(k.R)
	buf := func(el, n, off int, kind string) []byte {
		w := make([]byte, el*n+256)
		p := int(-uintptr(unsafe.Pointer(unsafe.SliceData(w))) & 63)
		p += off * el
		b := w[p : p+el*n : p+el*n]
		if kind != "" {
			genBytes(r, kind, 1, b)
		}
		return b
	}
	if f := isaExtra[k.Fn]; f != nil {
		b := buf(4, 2*max(k.N, 1), k.Off[0], "f32")
		return func() { f(b, k.N) }
	}
	op := opByName(k.Fn)
	var in [][]byte
	for i := range op.InEl {
		in = append(in, buf(op.InEl[i], op.InUnit[i]*k.N, k.Off[0], op.InKind[i]))
	}
	out := buf(op.OutEl, op.OutUnit*k.N, k.Off[1], "")
	return func() { op.Call(in, out, 0.5) }
}

func isaFns() []string {
	var fns []string
	for _, op := range ops {
		fns = append(fns, op.Name)
	}
	for _, n := range []string{"VMaxF32", "VMinF32", "FastAtan2", "FastAtan2_2", "FMDemodFilter", "Rotate90Filter", "I32Rotate90Filter", "LowPassDownsampleComplexFilter", "LowPassDownsampleRationalFilter"} {
		fns = append(fns, n)
	}
	return fns
}

func isaChild() {
	debug.SetGCPercent(-1)
	b, err := os.ReadFile(os.Getenv("VERIF_ISA"))
	var o isaOrder
	if err == nil {
		err = json.Unmarshal(b, &o)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(3)
	}
	for n, v := range o.Force {
		if p := loadFlags()[n]; p != nil {
			*p = v
		} else {
			os.Exit(7)
		}
	}
	var calls []func()
	for _, k := range o.Cases {
		calls = append(calls, k.prepare())
	}
	for _, f := range calls {
		runtime.Breakpoint()
		f()
		runtime.Breakpoint()
	}
	os.Exit(0)
}

func emulatorStats() map[string]int64 {
	m := map[string]int64{}
	if fl := flag.Lookup("emulator-stats"); fl != nil {
		json.Unmarshal([]byte(fl.Value.String()), &m)
	}
	return m
}

func checkC33ARM(c *Ctx) {
	c.Rule = "one evaluation = one call in the ARM interpreter with HaveNEON and UseVector set as on one kind of machine, whose executed instructions are classified; distinct = distinct (setting, function, length, alignment)"
	for _, fc := range flagConfigs() {
		if fc.set == nil {
			continue
		}
		fc := fc
		for _, fn := range isaFns() {
			fn := fn
			c.Do(fn+" "+fc.name, func() {
				fc.apply()
				defer restoreFlags()
				for _, n := range []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 23, 31, 32, 33, 40, 63, 64, 65, 100, 130} {
					for rep := 0; rep < 3; rep++ {
						k := isaCase{fn, n, [2]int{c.R.Intn(5), c.R.Intn(5)}, c.R.U64()}
						if rep == 0 {
							k.Off = [2]int{}
						}
						call := k.prepare()
						before := emulatorStats()
						call()
						for s, v := range emulatorStats() {
							if v == before[s] {
								continue
							}
							switch {
							case strings.HasPrefix(s, "NEON:"):
								c.Count("calls_with_NEON_instructions", 1)
								if fc.set["HaveNEON"] == 0 {
									c.Fail("neon:"+fn, "%v: %s executes NEON instructions on a processor without NEON (%s)", k, s[5:], fc.name)
								}
							case strings.HasPrefix(s, "VFP-vector:"):
								c.Count("calls_with_VFP_short_vectors", 1)
								if fc.set["UseVector"] == 0 {
									c.Fail("short-vector:"+fn, "%v: %s uses VFP short vectors on a processor that is not known to have them (%s)", k, s[11:], fc.name)
								}
							}
						}
						c.Seen(mix(hashS(fn, fc.name), n, k.Off[0], k.Off[1]), n > 0)
					}
				}
			})
		}
	}
}
