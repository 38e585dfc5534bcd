package main

import (
	"debug/elf"
	"flag"
	"fmt"
	"math"
	"os"
	"reflect"
	"strings"
	"syscall"
	"unsafe"
)

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}

// ---------- PRNG (splitmix64) ----------

type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { return &Rand{s: seed*0x9e3779b97f4a7c15 + 0x1234567} }
func (r *Rand) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *Rand) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rand) Bool() bool                 { return r.U64()&1 != 0 }
func (r *Rand) F64() float64               { return float64(r.U64()>>11) / (1 << 53) }
func (r *Rand) Range(a, b float64) float64 { return a + (b-a)*r.F64() }
func (r *Rand) Norm() float64 {
	u, v := r.F64(), r.F64()
	if u < 1e-300 {
		u = 1e-300
	}
	return math.Sqrt(-2*math.Log(u)) * math.Cos(2*math.Pi*v)
}
func (r *Rand) perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		j := r.Intn(i + 1)
		p[i] = p[j]
		p[j] = i
	}
	return p
}
func (r *Rand) Bytes(b []byte) {
	i := 0
	for ; i+8 <= len(b); i += 8 {
		x := r.U64()
		for k := 0; k < 8; k++ {
			b[i+k] = byte(x >> (8 * k))
		}
	}
	x := r.U64()
	for ; i < len(b); i++ {
		b[i] = byte(x)
		x >>= 8
	}
}

// LogU returns a value log-uniform in [a,b].
func (r *Rand) LogU(a, b float64) float64 {
	return math.Exp(r.Range(math.Log(a), math.Log(b)))
}

// Split cuts n into random pieces (zero and one sized ones included).
func (r *Rand) Split(n int) []int {
	var p []int
	mode := r.Intn(4)
	for n > 0 {
		var k int
		switch mode {
		case 0:
			k = r.Intn(4)
		case 1:
			k = r.Intn(n + 1)
		case 2:
			k = r.Intn(40)
		default:
			k = 1 + r.Intn(1+n/3)
		}
		if r.Intn(12) == 0 {
			k = 0
		}
		if k > n {
			k = n
		}
		p = append(p, k)
		n -= k
	}
	return p
}

// ---------- guarded memory ----------

const pageSize = 4096

// Arena is a read/write region between two inaccessible pages.
type Arena struct {
	whole []byte
	mem   []byte
}

func NewArena(size int) *Arena {
	n := (size + pageSize - 1) / pageSize * pageSize
	w, err := syscall.Mmap(-1, 0, n+2*pageSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic("harness: mmap: " + err.Error())
	}
	if err := syscall.Mprotect(w[:pageSize], syscall.PROT_NONE); err != nil {
		panic("harness: mprotect: " + err.Error())
	}
	if err := syscall.Mprotect(w[n+pageSize:], syscall.PROT_NONE); err != nil {
		panic("harness: mprotect: " + err.Error())
	}
	return &Arena{whole: w, mem: w[pageSize : pageSize+n]}
}

// arenaAt maps an arena in the middle of the 32-bit address space, or gives nil where that is not possible.
func arenaAt(addr uintptr, size int) *Arena {
	if unsafe.Sizeof(addr) != 4 {
		return nil
	}
	const mmap2, noReplace = 192, 0x100000
	p, _, e := syscall.RawSyscall6(mmap2, addr, uintptr(size), syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE|noReplace, ^uintptr(0), 0)
	if e != 0 || p != addr {
		return nil
	}
	b := unsafe.Slice((*byte)(*(*unsafe.Pointer)(unsafe.Pointer(&p))), size)
	return &Arena{whole: b, mem: b}
}

func (a *Arena) End(n int) []byte     { return a.mem[len(a.mem)-n:] }
func (a *Arena) Start(n int) []byte   { return a.mem[:n] }
func (a *Arena) At(off, n int) []byte { return a.mem[off : off+n] }
func fill(b []byte, v byte) {
	for i := range b {
		b[i] = v
	}
}

// as re-types a byte view.
func as[T any](b []byte) []T {
	var z T
	sz := int(unsafe.Sizeof(z))
	return unsafe.Slice((*T)(unsafe.Pointer(unsafe.SliceData(b))), cap(b)/sz)[:len(b)/sz] // the capacity carries over
}

func bytesOf[T any](s []T) []byte {
	var z T
	return unsafe.Slice((*byte)(unsafe.Pointer(unsafe.SliceData(s))), len(s)*int(unsafe.Sizeof(z)))
}

// ---------- capability flags of the package under test ----------

type flagVar struct {
	name string
	p    *byte
}

var flagVars map[string]*byte
var flagErr error
var flagsLoaded bool

func mainAnchor() {}

// loadFlags finds the package's capability variables in this process by symbol name.
func loadFlags() map[string]*byte {
	if flagsLoaded {
		return flagVars
	}
	flagsLoaded = true
	flagVars = map[string]*byte{}
	f, err := elf.Open("/proc/self/exe")
	if err != nil {
		flagErr = err
		return flagVars
	}
	defer f.Close()
	syms, err := f.Symbols()
	if err != nil {
		flagErr = err
		return flagVars
	}
	var slide uintptr
	anchor := reflect.ValueOf(mainAnchorRef).Pointer()
	for _, s := range syms {
		if s.Name == "main.mainAnchor" {
			slide = anchor - uintptr(s.Value)
		}
	}
	for _, s := range syms {
		if n := strings.TrimPrefix(s.Name, "github.com/samuel/go-dsp/dsp."); (strings.HasPrefix(n, "use") && n != s.Name || n == "HaveNEON" || n == "UseVector") && s.Size == 1 && elf.ST_TYPE(s.Info) == elf.STT_OBJECT {
			n := s.Name[strings.LastIndex(s.Name, ".")+1:]
			addr := uintptr(s.Value) + slide
			flagVars[n] = *(**byte)(unsafe.Pointer(&addr))
		}
	}
	return flagVars
}

var mainAnchorRef = mainAnchor

var cpuFlags map[string]bool

func cpuHas(name string) bool {
	if cpuFlags == nil {
		cpuFlags = map[string]bool{}
		b, _ := os.ReadFile("/proc/cpuinfo")
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "flags") {
				for _, w := range strings.Fields(l) {
					cpuFlags[w] = true
				}
				break
			}
		}
	}
	return cpuFlags[name]
}

type flagConfig struct {
	name string
	set  map[string]byte
}

// flagConfigs lists the capability settings this host can execute. The first one is the package's own.
func flagConfigs() []flagConfig {
	out := []flagConfig{{name: "default"}}
	fl := loadFlags()
	if len(fl) == 0 || flag.Lookup("emulator-stats") != nil && fl["HaveNEON"] == nil { // the emulated ARM64 code has no settings
		return out
	}
	type req struct{ name, cpu string }
	reqs := []req{{"useSSE2", "sse2"}, {"useSSE4", "sse4_1"}, {"useAVX2", "avx2"}}
	if _, arm := fl["HaveNEON"]; arm {
		reqs = []req{{"HaveNEON", ""}, {"UseVector", ""}}
	}
	n := 1 << len(reqs)
	for m := 0; m < n; m++ {
		set := map[string]byte{}
		ok := true
		var nm []string
		for i, q := range reqs {
			_, have := fl[q.name]
			if m>>i&1 == 1 {
				if !have || q.cpu != "" && !cpuHas(q.cpu) {
					ok = false
					break
				}
				set[q.name] = 1
				nm = append(nm, q.name)
			} else if have {
				set[q.name] = 0
			}
		}
		if !ok || set["HaveNEON"] == 1 && set["UseVector"] == 1 { // short vectors are for processors without NEON
			continue
		}
		if len(nm) == 0 {
			nm = []string{"none"}
		}
		out = append(out, flagConfig{name: strings.Join(nm, "+"), set: set})
	}
	return out
}

var flagSaved map[string]byte

func (fc flagConfig) apply() {
	fl := loadFlags()
	if flagSaved == nil {
		flagSaved = map[string]byte{}
		for n, p := range fl {
			flagSaved[n] = *p
		}
	}
	for n, p := range fl {
		*p = flagSaved[n]
	}
	for n, v := range fc.set {
		if p := fl[n]; p != nil {
			*p = v
		}
	}
}

func restoreFlags() { flagConfig{}.apply() }

// ---------- float helpers ----------

func ulpDiff32(a, b float32) uint64 {
	if a == b {
		return 0
	}
	if a != a && b != b {
		return 0
	}
	if a != a || b != b {
		return math.MaxUint64
	}
	f := func(x float32) int64 {
		u := int64(math.Float32bits(x))
		if u&0x80000000 != 0 {
			return -(u & 0x7fffffff)
		}
		return u
	}
	d := f(a) - f(b)
	if d < 0 {
		d = -d
	}
	return uint64(d)
}

func fmtB(b []byte) string {
	if len(b) > 64 {
		return fmt.Sprintf("% x... (%d bytes)", b[:64], len(b))
	}
	return fmt.Sprintf("% x", b)
}

func closeEnough(got, want, tol float64) bool {
	if math.IsNaN(got) || math.IsNaN(want) {
		return math.IsNaN(got) && math.IsNaN(want)
	}
	if got == want {
		return true
	}
	return math.Abs(got-want) <= tol
}

func (a *Arena) Free() { syscall.Munmap(a.whole) }
