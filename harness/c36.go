package main

import (
	"bytes"
	"flag"
	"fmt"
	"io"
	"log"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"os/signal"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/samuel/go-dsp/borip"
	"github.com/samuel/go-dsp/dsp"
	"github.com/samuel/go-dsp/dsp/ax25"
	"github.com/samuel/go-dsp/dsp/dtmf"
)

// C36: what the caller passes in stays the caller's, what the caller gets is the caller's, and nothing else in the process is
// touched. Everything handed over lies inside a larger buffer that is compared before and after each call; every history
// runs twice, once with a caller who overwrites all its buffers (arguments of constructors, input, output, results) as soon as a
// call has returned, and both must give the same outputs.

func init() {
	checks["C36"] = checkC36
	if len(os.Args) == 2 && os.Args[1] == "-noop" { // see startsQuietly
		n := 0
		flag.VisitAll(func(f *flag.Flag) {
			if f.Name != "emulator-stats" { // the harness's own
				n++
			}
		})
		g, mt, pf := debug.SetGCPercent(100), debug.SetMaxThreads(10000), debug.SetPanicOnFault(false)
		fmt.Printf("goroutines %d flags %d env %x gc %d memory %d threads %d fault %v mutexprofile %d log %d %q %v ignored %v %v %v %v zone %s\n", runtime.NumGoroutine(), n,
			hashS(strings.Join(os.Environ(), "\n")), g, debug.SetMemoryLimit(-1), mt, pf, runtime.SetMutexProfileFraction(-1),
			log.Flags(), log.Prefix(), log.Writer() == io.Writer(os.Stderr), signal.Ignored(syscall.SIGINT), signal.Ignored(syscall.SIGHUP), signal.Ignored(syscall.SIGPIPE), signal.Ignored(syscall.SIGTERM), time.Local)
		if os.Getenv("GOMAXPROCS") != "" {
			fmt.Printf("procs %d\n", runtime.GOMAXPROCS(0))
		}
		fmt.Printf("random %d\n", rand.Int63())
		os.Exit(0)
	}
}

type lent struct {
	name   string
	whole  []byte // the caller's memory around the slice
	saved  []byte
	lo, hi int // the part that was handed over
	may    bool
	upTo   func() int // number of bytes the call may have written, nil: all
}

type keeper struct {
	c       *Ctx
	what    string
	r       *Rand // content of the surroundings and of what the hostile caller writes
	hostile bool
	items   []*lent
	calls   int
	failed  bool
}

// lend copies vals to the middle of a larger buffer and gives the slice, which has spare capacity.
func lend[T any](k *keeper, name string, vals []T, writable bool) []T {
	front, back := 1+k.r.Intn(9), 1+k.r.Intn(40)
	whole := make([]T, front+len(vals)+back)
	wb := bytesOf(whole)
	k.r.Bytes(wb)
	copy(whole[front:], vals)
	var z T
	sz := int(unsafe.Sizeof(z))
	l := &lent{name: name, whole: wb, lo: front * sz, hi: (front + len(vals)) * sz, may: writable}
	l.saved = append([]byte{}, wb...)
	k.items = append(k.items, l)
	return whole[front : front+len(vals)]
}

// look compares everything lent; what may be written is taken over.
func (k *keeper) look(call string) {
	k.calls++
	k.c.Evals++
	for _, l := range k.items {
		for i := range l.whole {
			if l.whole[i] == l.saved[i] || l.may && i >= l.lo && i < l.hi {
				continue
			}
			where, key := "its surroundings", "outside:"
			if i >= l.lo && i < l.hi {
				where, key = "it", "argument:"
			}
			if !k.failed {
				k.c.Fail(key+keyOf(k.what), "%s, call %d (%s): the caller's %s was handed over to be read (or written within its length), and byte %d of %s (offset %d from its start, length %d) was %02x and is %02x",
					k.what, k.calls, call, l.name, i, where, i-l.lo, l.hi-l.lo, l.saved[i], l.whole[i])
				k.failed = true
			}
			break
		}
		copy(l.saved, l.whole)
	}
	if k.hostile {
		for _, l := range k.items {
			switch k.r.Intn(4) {
			case 0:
				fill(l.whole, 0xff) // NaN
			case 1:
				fill(l.whole, 0)
			default:
				k.r.Bytes(l.whole)
			}
			copy(l.saved, l.whole)
		}
	}
}

// done forgets what was lent for this call.
func (k *keeper) done(n int) { k.items = k.items[:n] }

// took gives a copy of a result and lets the hostile caller overwrite the result.
func took[T any](k *keeper, s []T) []byte {
	r := append([]byte{}, bytesOf(s)...)
	if k.hostile {
		k.r.Bytes(bytesOf(s))
	}
	return r
}

// lending is one kind of object: mk makes an instance from values drawn from r and gives its step.
type lending struct {
	name string
	mk   func(k *keeper, r *Rand) func() []byte
}

func f64Vals(r *Rand, n int) []float64 {
	v := make([]float64, n)
	g := sampleGen(r)
	for i := range v {
		v[i] = g()
	}
	return v
}
func f32Vals(r *Rand, n int) []float32 { return toF32(f64Vals(r, n)) }
func c128Vals(r *Rand, n int) []complex128 {
	v := make([]complex128, n)
	for i := range v {
		v[i] = complex(r.Norm(), r.Norm())
	}
	return v
}
func c64Vals(r *Rand, n int) []complex64 {
	v := make([]complex64, n)
	for i := range v {
		v[i] = complex64(complex(r.Norm(), r.Norm()))
	}
	return v
}

func blockLen(r *Rand) int {
	switch r.Intn(5) {
	case 0:
		return r.Intn(3)
	case 1:
		return r.Intn(200)
	}
	return r.Intn(24)
}

// block makes the step of a filter: some input, an output that may be longer than the input (or the input itself).
func block[I, O any](k *keeper, r *Rand, gen func(*Rand, int) []I, call func(in []I, out []O)) func() []byte {
	n0 := len(k.items)
	return func() []byte {
		n := blockLen(r)
		in := gen(r, n)
		spare := 0
		if r.Bool() {
			spare = r.Intn(20)
		}
		var got []byte
		if same, ok := any(in).([]O); ok && r.Intn(4) == 0 {
			io := lend(k, "block (input and output)", same, true)
			call(any(io).([]I), io)
			got = append(got, bytesOf(io)...)
		} else {
			a := lend(k, "input block", in, false)
			o := lend(k, "output block", make([]O, n+spare), true)
			bo := bytesOf(o)
			k.r.Bytes(bo)
			rest := k.items[len(k.items)-1]
			if n+spare > 0 { // beyond the length of the input the output is not written
				rest.hi = rest.lo + len(bo)/(n+spare)*n
			}
			copy(rest.saved, rest.whole)
			call(a, o)
			got = append(got, bo[:rest.hi-rest.lo]...)
		}
		k.look("block of " + itoa(n))
		k.done(n0)
		return got
	}
}

// prefixStep makes the step of a processor that returns a part of the slice it was given.
func prefixStep[T any](k *keeper, r *Rand, unit int, gen func(*Rand, int) []T, call func([]T) []T) func() []byte {
	return func() []byte {
		b := lend(k, "block", gen(r, blockLen(r)*unit), true)
		out := call(b)
		got := append([]byte{}, bytesOf(out)...)
		if len(out) > 0 && &out[0] != &b[0] || len(out) > len(b) {
			k.c.Fail("other-memory:"+keyOf(k.what), "%s: the result (length %d) is not a prefix of the block that was passed (length %d)", k.what, len(out), len(b))
		}
		k.look("block of " + itoa(len(b)))
		k.done(len(k.items) - 1)
		return got
	}
}

type exported struct {
	name string
	p    interface{}
}

func tables() []exported {
	return []exported{{"dtmf.Keypad", &dtmf.Keypad}, {"dtmf.StdLowFreq", &dtmf.StdLowFreq}, {"dtmf.StdHighFreq", &dtmf.StdHighFreq},
		{"BlackmanFreqCoeff", &dsp.BlackmanFreqCoeff}, {"HammingFreqCoeff", &dsp.HammingFreqCoeff}, {"HanningFreqCoeff", &dsp.HanningFreqCoeff},
		{"BlackmanFreqCoeff32", &dsp.BlackmanFreqCoeff32}, {"HammingFreqCoeff32", &dsp.HammingFreqCoeff32}, {"HanningFreqCoeff32", &dsp.HanningFreqCoeff32},
		{"ax25.UnnumberedTypeName", &ax25.UnnumberedTypeName}, {"borip.ErrShortPacket", &borip.ErrShortPacket}, {"borip.ErrUnexpectedResponse", &borip.ErrUnexpectedResponse}}
}

// tableText prints the tables, and what lies between length and capacity of the slices.
func tableText() map[string]string {
	m := map[string]string{}
	for _, t := range tables() {
		v := reflect.ValueOf(t.p).Elem()
		s := fmt.Sprintf("%v", v.Interface())
		if v.Kind() == reflect.Slice {
			s += fmt.Sprintf(" len %d rest %v", v.Len(), v.Slice3(v.Len(), v.Cap(), v.Cap()).Interface())
		}
		m[t.name] = s
	}
	return m
}

func lendings() []lending {
	var ls []lending
	add := func(name string, mk func(k *keeper, r *Rand) func() []byte) { ls = append(ls, lending{name, mk}) }

	add("IIRFilter", func(k *keeper, r *Rand) func() []byte {
		b, a := stableIIR(r, r.Intn(7), 0.95)
		f := dsp.NewIIRFilter(lend(k, "b coefficients", b, false), lend(k, "a coefficients", a, false))
		k.look("NewIIRFilter")
		return block(k, r, f64Vals, f.Filter)
	})
	add("ComplexIIRFilter", func(k *keeper, r *Rand) func() []byte {
		b, a := stableIIR(r, r.Intn(7), 0.95)
		f := dsp.NewComplexIIRFilter(lend(k, "b coefficients", b, false), lend(k, "a coefficients", a, false))
		k.look("NewComplexIIRFilter")
		return block(k, r, c128Vals, f.Filter)
	})
	add("ComplexIIRFilter32", func(k *keeper, r *Rand) func() []byte {
		b, a := stableIIR(r, r.Intn(7), 0.9)
		f := dsp.NewComplexIIRFilter32(lend(k, "b coefficients", toF32(b), false), lend(k, "a coefficients", toF32(a), false))
		k.look("NewComplexIIRFilter32")
		return block(k, r, c64Vals, f.Filter)
	})
	add("BiQuadFilter", func(k *keeper, r *Rand) func() []byte {
		_, mk := newBiquad(r)
		f := mk()
		keep := [6]float64{f.B0, f.B1, f.B2, f.A0, f.A1, f.A2}
		one := block(k, r, f64Vals, f.Filter)
		two := block(k, r, f32Vals, f.FilterF32)
		return func() []byte {
			var g []byte
			if r.Bool() {
				g = one()
			} else {
				g = two()
			}
			if now := [6]float64{f.B0, f.B1, f.B2, f.A0, f.A1, f.A2}; now != keep {
				k.c.Fail("fields:BiQuadFilter", "the coefficients %v of a filter became %v by filtering", keep, now)
				keep = now
			}
			return g
		}
	})
	add("DCFilter", func(k *keeper, r *Rand) func() []byte { return block(k, r, f64Vals, dsp.NewDCFilter(r.F64()).Filter) })
	add("DCFilter32", func(k *keeper, r *Rand) func() []byte {
		return block(k, r, f32Vals, dsp.NewDCFilter32(float32(r.F64())).Filter)
	})
	add("FMDemodFilter", func(k *keeper, r *Rand) func() []byte {
		f := &dsp.FMDemodFilter{}
		return block(k, r, c64Vals, func(in []complex64, out []float32) { f.Demodulate(in, out) })
	})
	add("LowPassDownsampleComplexFilter", func(k *keeper, r *Rand) func() []byte {
		d := 1 + r.Intn(30)
		f := &dsp.LowPassDownsampleComplexFilter{Downsample: d}
		st := prefixStep(k, r, 1, c64Vals, f.Filter)
		return func() []byte {
			g := st()
			if f.Downsample != d {
				k.c.Fail("fields:LowPassDownsampleComplexFilter", "Downsample was %d and is %d", d, f.Downsample)
			}
			return g
		}
	})
	add("LowPassDownsampleRationalFilter", func(k *keeper, r *Rand) func() []byte {
		fast := 1 + r.Intn(60)
		slow := 1 + r.Intn(fast)
		f := &dsp.LowPassDownsampleRationalFilter{Fast: fast, Slow: slow}
		st := prefixStep(k, r, 1, f32Vals, f.Filter)
		return func() []byte {
			g := st()
			if f.Fast != fast || f.Slow != slow {
				k.c.Fail("fields:LowPassDownsampleRationalFilter", "Slow/Fast was %d/%d and is %d/%d", slow, fast, f.Slow, f.Fast)
			}
			return g
		}
	})
	add("Rotate90Filter", func(k *keeper, r *Rand) func() []byte {
		return prefixStep(k, r, 4, c64Vals, (&dsp.Rotate90Filter{}).Filter)
	})
	add("I32Rotate90Filter", func(k *keeper, r *Rand) func() []byte {
		return prefixStep(k, r, 8, func(r *Rand, n int) []int32 {
			v := make([]int32, n)
			r.Bytes(bytesOf(v))
			return v
		}, (&dsp.I32Rotate90Filter{}).Filter)
	})
	goertzel := func(k *keeper, r *Rand, feed func() []byte, reset func(), read func() []byte) func() []byte {
		return func() []byte {
			switch r.Intn(8) {
			case 0:
				reset()
				k.look("Reset")
				return nil
			case 1, 2:
				g := read()
				k.look("read")
				return g
			}
			return feed()
		}
	}
	add("Goertzel", func(k *keeper, r *Rand) func() []byte {
		fr, rate, blk := goertzelConf(r)
		g := dsp.NewGoertzel(lend(k, "target frequencies", fr, false), rate, blk)
		k.look("NewGoertzel")
		return goertzel(k, r, block(k, r, f64Vals, func(in []float64, out []byte) { g.Feed(in); fill(out[:len(in)], 0) }), g.Reset,
			func() []byte { return append(took(k, g.Magnitude()), took(k, g.Complex())...) })
	})
	add("Goertzel32", func(k *keeper, r *Rand) func() []byte {
		fr, rate, blk := goertzelConf(r)
		g := dsp.NewGoertzel32(lend(k, "target frequencies", fr, false), rate, blk)
		k.look("NewGoertzel32")
		return goertzel(k, r, block(k, r, f32Vals, func(in []float32, out []byte) { g.Feed(in); fill(out[:len(in)], 0) }), g.Reset,
			func() []byte { return append(took(k, g.Magnitude()), took(k, g.Complex())...) })
	})
	add("ComplexGoertzel", func(k *keeper, r *Rand) func() []byte {
		fr, rate, blk := goertzelConf(r)
		g := dsp.NewComplexGoertzel(lend(k, "target frequencies", fr, false), rate, blk)
		k.look("NewComplexGoertzel")
		return goertzel(k, r, block(k, r, c128Vals, func(in []complex128, out []byte) { g.Feed(in); fill(out[:len(in)], 0) }), g.Reset,
			func() []byte { return append(took(k, g.Magnitude()), took(k, g.Complex())...) })
	})
	coeffs := func(r *Rand) []float64 {
		return [][]float64{nil, {}, dsp.HammingFreqCoeff, dsp.HanningFreqCoeff, dsp.BlackmanFreqCoeff, {0.25}, {0.5, -0.25}}[r.Intn(7)]
	}
	add("SDFT", func(k *keeper, r *Rand) func() []byte {
		n := 8 + r.Intn(60)
		f := dsp.NewSDFT(r.Intn(n), n, lend(k, "window coefficients", append([]float64{}, coeffs(r)...), false))
		k.look("NewSDFT")
		return func() []byte {
			y := f.Filter(complex(r.Norm(), r.Norm()))
			k.look("Filter")
			return bytesOf([]complex128{y})
		}
	})
	add("SDFT32", func(k *keeper, r *Rand) func() []byte {
		n := 8 + r.Intn(60)
		f := dsp.NewSDFT32(r.Intn(n), n, lend(k, "window coefficients", toF32(coeffs(r)), false))
		k.look("NewSDFT32")
		return func() []byte {
			y := f.Filter(complex64(complex(r.Norm(), r.Norm())))
			k.look("Filter")
			return bytesOf([]complex64{y})
		}
	})
	add("DTMF", func(k *keeper, r *Rand) func() []byte {
		blk := 1 + r.Intn(300)
		rates := []int{8000, 8000, 44100, 48000, 96000, 16000, 11025, 3000, 1000, 2000000, 50, 1}
		var d *dtmf.DTMF
		if r.Bool() {
			wf := []func([]float32){nil, dsp.HanningWindowF32, dsp.BlackmanWindowF32, func(w []float32) { fill(bytesOf(w), 0x3f) }}[r.Intn(4)]
			lo, hi := make([]uint64, 1+r.Intn(5)), make([]uint64, 1+r.Intn(5))
			for i := range lo {
				lo[i] = uint64(r.Intn(4000))
			}
			for i := range hi {
				hi[i] = uint64(r.Intn(4000))
			}
			d = dtmf.New(lend(k, "low frequencies", lo, false), lend(k, "high frequencies", hi, false), rates[r.Intn(len(rates))], blk, wf)
		} else {
			d = dtmf.NewStandard(rates[r.Intn(len(rates))], blk)
		}
		k.look("New")
		return func() []byte {
			key, th := d.Feed(lend(k, "block", f32Vals(r, []int{r.Intn(3), r.Intn(blk + 1), blk, blk + r.Intn(50)}[r.Intn(4)]), false))
			k.look("Feed")
			k.done(len(k.items) - 1)
			return fmt.Appendf(nil, "%d %x", key, th)
		}
	})
	window := func(name string, f func([]float64), f32 func([]float32)) {
		add(name, func(k *keeper, r *Rand) func() []byte {
			return func() []byte {
				n := blockLen(r)
				a, b := lend(k, "window", f64Vals(r, n), true), lend(k, "window", f32Vals(r, n), true)
				f(a)
				f32(b)
				got := append(append([]byte{}, bytesOf(a)...), bytesOf(b)...)
				k.look("window of " + itoa(n))
				k.done(0)
				return got
			}
		})
	}
	window("TriangleWindow", dsp.TriangleWindow, dsp.TriangleWindowF32)
	window("HammingWindow", dsp.HammingWindow, dsp.HammingWindowF32)
	window("HanningWindow", dsp.HanningWindow, dsp.HanningWindowF32)
	window("BlackmanWindow", dsp.BlackmanWindow, dsp.BlackmanWindowF32)
	window("NuttallWindow", dsp.NuttallWindow, dsp.NuttallWindowF32)
	add("AX25", func(k *keeper, r *Rand) func() []byte {
		d := ax25.NewDecoder()
		return func() []byte {
			bits, _, _ := r.streamOf([]*axFrame{r.anyFrame()}, r.Intn(300))
			var got []byte
			for _, b := range bits {
				if f := d.Feed(int(b)); f != nil {
					got = append(got, fmt.Sprintf("%+v", *f)...)
					if k.hostile {
						k.r.Bytes(f.Info[:cap(f.Info)])
						for i := range f.Repeaters[:cap(f.Repeaters)] {
							f.Repeaters[:cap(f.Repeaters)][i] = ax25.Address{Callsign: "HOSTILE", SSID: -1}
						}
						*f = ax25.Frame{}
					}
				}
			}
			k.look("frame")
			return got
		}
	})
	add("PacketReader", func(k *keeper, r *Rand) func() []byte {
		hdr := r.Bool()
		conn := &scriptConn{r: r}
		rd := borip.NewPacketReader(conn, hdr)
		return func() []byte {
			if r.Intn(2) == 0 {
				b := make([]byte, 4*r.Intn(40)+r.Intn(6))
				r.Bytes(b)
				conn.q = append(conn.q, dgram{b: b})
			}
			s := lend(k, "samples", c128Vals(r, r.Intn(30)), true)
			l := k.items[len(k.items)-1]
			lo := l.lo
			n, err := rd.ReadSamples(s)
			if n < 0 || n > len(s) {
				k.c.Fail("count:PacketReader", "ReadSamples gave %d for a slice of %d", n, len(s))
				n = 0
			}
			l.hi = lo + 16*n // no more than reported
			got := append(append([]byte{}, bytesOf(s[:n])...), fmt.Sprintf("%v %v %+v", n, err, rd.Header())...)
			k.look("ReadSamples")
			k.done(0)
			return got
		}
	})
	return ls
}

// processState is what a process has that a library may change.
func processState() map[string]string {
	m := map[string]string{}
	put := func(k string, v interface{}) { m[k] = fmt.Sprint(v) }
	put("environment", os.Environ())
	wd, _ := os.Getwd()
	put("working directory", wd)
	um := syscall.Umask(0)
	syscall.Umask(um)
	put("umask", um)
	put("GOMAXPROCS", runtime.GOMAXPROCS(0))
	g := debug.SetGCPercent(100)
	debug.SetGCPercent(g)
	put("GC percentage", g)
	put("memory limit", debug.SetMemoryLimit(-1))
	mt := debug.SetMaxThreads(10000)
	debug.SetMaxThreads(mt)
	put("thread limit", mt)
	pf := debug.SetPanicOnFault(true)
	debug.SetPanicOnFault(pf)
	put("panic on fault", pf)
	put("profile rate", runtime.MemProfileRate)
	bp := runtime.SetMutexProfileFraction(-1)
	put("mutex profile", bp)
	put("log flags", log.Flags())
	put("log prefix", log.Prefix())
	put("log writer", fmt.Sprintf("%p", log.Writer()))
	put("arguments", os.Args)
	put("standard files", fmt.Sprintf("%p %p %p", os.Stdin, os.Stdout, os.Stderr))
	put("time zone", fmt.Sprintf("%p", time.Local))
	n := 0
	flag.VisitAll(func(*flag.Flag) { n++ })
	put("command line flags", n)
	for _, s := range []os.Signal{syscall.SIGHUP, syscall.SIGINT, syscall.SIGTERM, syscall.SIGPIPE, syscall.SIGUSR1, syscall.SIGCHLD} {
		put("ignored "+s.String(), signal.Ignored(s))
	}
	for i, name := range map[int]string{syscall.RLIMIT_NOFILE: "open files", syscall.RLIMIT_AS: "address space", syscall.RLIMIT_CORE: "core", syscall.RLIMIT_STACK: "stack", syscall.RLIMIT_CPU: "cpu", syscall.RLIMIT_FSIZE: "file size"} {
		var l syscall.Rlimit
		syscall.Getrlimit(i, &l)
		put("limit of "+name, l)
	}
	pr, _ := syscall.Getpriority(0, 0)
	put("priority", pr)
	var set [128]byte
	syscall.RawSyscall(syscall.SYS_SCHED_GETAFFINITY, 0, uintptr(len(set)), uintptr(unsafe.Pointer(&set)))
	put("affinity", set)
	// signals caught, blocked and ignored by the kernel's account (this thread)
	if b, err := os.ReadFile("/proc/thread-self/status"); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			for _, w := range []string{"SigBlk", "SigIgn", "SigCgt", "NoNewPrivs", "Seccomp:", "Uid", "Gid", "Groups"} {
				if strings.HasPrefix(l, w) {
					put("kernel "+w, l)
				}
			}
		}
	}
	return m
}

// startsQuietly runs this program, which imports all the packages, up to the end of their initialisation.
func startsQuietly(c *Ctx) {
	exe, err := os.Executable()
	if err != nil {
		panic("harness: " + err.Error())
	}
	dir, err := os.MkdirTemp("", "c36")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer os.RemoveAll(dir)
	random := ""
	for _, gmp := range []string{"", "3"} {
		cmd := exec.Command(exe, "-noop")
		cmd.Dir = dir
		for _, e := range os.Environ() {
			if !strings.HasPrefix(e, "GOMAXPROCS=") && !strings.HasPrefix(e, "GOGC=") && !strings.HasPrefix(e, "GOMEMLIMIT=") && !strings.HasPrefix(e, "GODEBUG=") {
				cmd.Env = append(cmd.Env, e)
			}
		}
		procs := ""
		if gmp != "" {
			cmd.Env = append(cmd.Env, "GOMAXPROCS="+gmp)
			procs = "procs " + gmp + "\n"
		}
		var so, se bytes.Buffer
		cmd.Stdout, cmd.Stderr = &so, &se
		if err := cmd.Run(); err != nil {
			panic(fmt.Sprintf("harness: -noop: %v %s", err, se.String()))
		}
		got := so.String()
		if i := strings.Index(got, "random "); i >= 0 { // of the shared generator, which is seeded anew in every program
			if got[i:] == random {
				c.Fail("import", "two programs that only import the packages get the same number from math/rand: %s", got[i:])
			}
			got, random = got[:i], got[i:]
		}
		want := fmt.Sprintf("goroutines 1 flags 0 env %x gc 100 memory %d threads 10000 fault false mutexprofile 0 log %d \"\" true ignored %v %v %v %v zone Local\n%s",
			hashS(strings.Join(cmd.Env, "\n")), int64(math.MaxInt64), log.LstdFlags, signal.Ignored(syscall.SIGINT), signal.Ignored(syscall.SIGHUP), signal.Ignored(syscall.SIGPIPE), signal.Ignored(syscall.SIGTERM), procs)
		if got != want {
			c.Fail("import", "a program that only imports the packages finds %q instead of %q", got, want)
		}
		if se.Len() != 0 {
			c.Fail("import", "a program that only imports the packages writes %q to standard error", se.String())
		}
		if d, _ := os.ReadDir(dir); len(d) != 0 {
			c.Fail("import", "a program that only imports the packages leaves %s in its working directory", d[0].Name())
		}
		c.Seen(hashS("import", gmp), true)
	}
}

// silent runs f and fails when anything is written to standard output, standard error or the log.
func silent(c *Ctx, f func()) {
	var logged bytes.Buffer
	log.SetOutput(&logged)
	var was [2]int
	var tmp [2]*os.File
	for i := range was {
		var err error
		if was[i], err = syscall.Dup(i + 1); err != nil {
			panic("harness: " + err.Error())
		}
		if tmp[i], err = os.CreateTemp("", "c36"); err != nil {
			panic("harness: " + err.Error())
		}
		os.Remove(tmp[i].Name())
		syscall.Dup3(int(tmp[i].Fd()), i+1, 0)
	}
	defer func() {
		for i := range was {
			syscall.Dup3(was[i], i+1, 0)
			syscall.Close(was[i])
			b := make([]byte, 300)
			n, _ := tmp[i].ReadAt(b, 0)
			if n > 0 {
				c.Fail("output", "the libraries wrote to %s: %q", []string{"standard output", "standard error"}[i], b[:n])
			}
			tmp[i].Close()
		}
		log.SetOutput(discard{})
		if logged.Len() > 0 {
			c.Fail("output", "the libraries wrote to the log: %q", logged.Bytes()[:min(300, logged.Len())])
		}
	}()
	f()
}

type discard struct{}

func (discard) Write(p []byte) (int, error) { return len(p), nil }

func checkC36(c *Ctx) {
	c.Rule = "one evaluation = one call after which all memory lent to the library is compared (arguments, input, output, and what lies around them), or one program state compared; distinct = distinct histories (kind of object, configuration, calls)."
	log.SetOutput(discard{})
	start := tableText()
	want := map[string]string{
		"dtmf.Keypad":                 string(fmt.Sprint([]rune("123A456B789C*0#D"))) + " len 16",
		"dtmf.StdLowFreq":             "[697 770 852 941] len 4",
		"dtmf.StdHighFreq":            "[1209 1336 1477 1633] len 4",
		"borip.ErrShortPacket":        "borip: ",
		"borip.ErrUnexpectedResponse": "borip: ",
	}
	sameTables := func(when string) {
		now := tableText()
		for n, s := range start {
			if now[n] != s {
				c.Fail("table:"+n, "%s was %s and is %s after %s", n, s, now[n], when)
				start[n] = now[n]
			}
			c.Evals++
		}
	}
	c.Do("import", func() { startsQuietly(c) })
	c.Do("tables", func() {
		for n, w := range want {
			if !strings.HasPrefix(start[n], w) {
				c.Fail("table:"+n, "%s is %s instead of %s", n, start[n], w)
			}
		}
	})
	for _, l := range lendings() {
		l := l
		for h := 0; h < c.N(120, 2000); h++ {
			c.Do(fmt.Sprintf("%s %d", l.name, h), func() {
				seed := c.R.U64()
				var runs [2][][]byte
				steps := 3 + c.R.Intn(25)
				for i := range runs {
					k := &keeper{c: c, what: l.name, r: NewRand(seed ^ uint64(1+i)), hostile: i == 1}
					step := l.mk(k, NewRand(seed))
					for s := 0; s < steps; s++ {
						runs[i] = append(runs[i], step())
					}
				}
				hh := hashS(l.name, seed, steps)
				for s := range runs[0] {
					if !bytes.Equal(runs[0][s], runs[1][s]) {
						c.Fail("kept:"+l.name, "%s: the output of step %d differs when the caller has overwritten its slices (arguments, blocks, results) after each call: %x instead of %x", l.name, s, headOf(runs[1][s]), headOf(runs[0][s]))
						break
					}
				}
				c.Seen(hh, true)
			})
		}
		sameTables("the use of " + l.name)
	}
	// the rest of the process
	c.Do("process", func() {
		before := processState()
		n := 0
		silent(c, func() {
			for round := 0; round < c.N(3, 20); round++ {
				for _, t := range conTasks(c, round) {
					t.run(func() {})
					n++
				}
			}
		})
		after := processState()
		var names []string
		for k := range before {
			names = append(names, k)
		}
		sort.Strings(names)
		for _, k := range names {
			c.Seen(hashS("state", k), true)
			if before[k] != after[k] {
				c.Fail("process:"+k, "%s was %s and is %s after %d uses of the libraries", k, before[k], after[k], n)
			}
		}
		c.Count("library_uses_between_process_snapshots", int64(n))
		sameTables("the use of everything")
	})
	c.Sample("%d kinds of objects, %d histories each; arguments with spare capacity inside larger buffers; callers that overwrite everything after each call", len(lendings()), c.N(120, 2000))
}

func headOf(b []byte) []byte {
	if len(b) > 24 {
		return b[:24]
	}
	return b
}
