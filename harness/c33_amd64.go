package main

import (
	"debug/elf"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"unsafe"
)

func init() { isaParent = checkC33X86 }

// ---------- the instructions ----------

// isaOf names the extension an instruction belongs to ("" for what every processor of the architecture has: x87, MMX, SSE, SSE2).
func isaOf(b []byte, mode64 bool) string {
	i, rep, opsz := 0, byte(0), false
loop:
	for ; i < len(b); i++ {
		switch b[i] {
		case 0xf2, 0xf3:
			rep = b[i]
		case 0x66:
			opsz = true
		case 0xf0, 0x2e, 0x36, 0x3e, 0x26, 0x64, 0x65, 0x67:
		default:
			break loop
		}
	}
	at := func(k int) byte {
		if i+k < len(b) {
			return b[i+k]
		}
		return 0
	}
	memLike := !mode64 && at(1) < 0xc0 // LES, LDS and BOUND
	switch {
	case at(0) == 0xc5 && !memLike:
		return vexISA(1, at(1)&3, at(1)&4 != 0, false, at(2), at(3))
	case at(0) == 0xc4 && !memLike:
		return vexISA(at(1)&0x1f, at(2)&3, at(2)&4 != 0, at(2)&0x80 != 0, at(3), at(4))
	case at(0) == 0x62 && !memLike:
		return "AVX512"
	}
	if mode64 && at(0)&0xf0 == 0x40 {
		i++
	}
	if at(0) != 0x0f {
		return ""
	}
	op, m := at(1), at(2)
	switch op {
	case 0x38:
		switch {
		case m <= 0x0b, m >= 0x1c && m <= 0x1e:
			return "SSSE3"
		case m == 0x37:
			return "SSE42"
		case m == 0x10, m == 0x14, m == 0x15, m == 0x17, m >= 0x20 && m <= 0x41:
			return "SSE41"
		case m == 0xf0, m == 0xf1:
			if rep == 0xf2 {
				return "SSE42"
			}
			return "MOVBE"
		case m >= 0xdb && m <= 0xdf:
			return "AES"
		case m == 0xf6 && (opsz || rep == 0xf3):
			return "ADX"
		case m >= 0xc8 && m <= 0xcd:
			return "SHA"
		}
		return "0F38"
	case 0x3a:
		switch {
		case m == 0x0f:
			return "SSSE3"
		case m >= 0x08 && m <= 0x0e, m >= 0x14 && m <= 0x17, m >= 0x20 && m <= 0x22, m >= 0x40 && m <= 0x42:
			return "SSE41"
		case m >= 0x60 && m <= 0x63:
			return "SSE42"
		case m == 0x44:
			return "PCLMULQDQ"
		case m == 0xdf:
			return "AES"
		}
		return "0F3A"
	case 0xb8:
		if rep == 0xf3 {
			return "POPCNT"
		}
	case 0xbd:
		if rep == 0xf3 {
			return "LZCNT"
		}
	case 0xbc:
		if rep == 0xf3 {
			return "BMI1"
		}
	case 0x7c, 0x7d, 0xd0:
		return "SSE3"
	case 0x12:
		if rep != 0 {
			return "SSE3"
		}
	case 0x16:
		if rep == 0xf3 {
			return "SSE3"
		}
	case 0xf0:
		if rep == 0xf2 {
			return "SSE3"
		}
	}
	return ""
}

func vexISA(mp, pp byte, wide, w bool, op, modrm byte) string {
	reg := modrm >= 0xc0
	avx2 := func(yes bool) string {
		if yes {
			return "AVX2"
		}
		return "AVX"
	}
	in := func(lo, hi byte) bool { return op >= lo && op <= hi }
	switch mp {
	case 1:
		integer := pp == 1 && (in(0x60, 0x6d) || in(0x74, 0x76) || in(0xd1, 0xd5) || op == 0xd7 || in(0xd8, 0xdf) || in(0xe0, 0xe5) || in(0xe8, 0xef) || in(0xf1, 0xf6) || in(0xf8, 0xfe)) ||
			in(0x70, 0x73)
		return avx2(wide && integer)
	case 2:
		switch {
		case in(0x0c, 0x0f), op == 0x17, in(0x2c, 0x2f):
			return "AVX"
		case op == 0x13:
			return "F16C"
		case in(0x18, 0x1a):
			return avx2(reg)
		case in(0x00, 0x0b), in(0x1c, 0x1e), in(0x20, 0x2b), in(0x30, 0x35), in(0x37, 0x41):
			return avx2(wide)
		case in(0x96, 0x9f), in(0xa6, 0xaf), in(0xb6, 0xbf):
			return "FMA"
		case in(0xdb, 0xdf):
			return "AES"
		case op == 0xf2, op == 0xf3, op == 0xf7 && pp == 0:
			return "BMI1"
		case op == 0xf5, op == 0xf6, op == 0xf7:
			return "BMI2"
		}
		return "AVX2" // VPERMPS, VPERMD, gathers, variable shifts, integer broadcasts
	case 3:
		switch {
		case op <= 0x02, in(0x38, 0x39), op == 0x46:
			return "AVX2"
		case op == 0x0e, op == 0x0f, op == 0x42, op == 0x4c:
			return avx2(wide)
		case op == 0x1d:
			return "F16C"
		case op == 0x44:
			return "PCLMULQDQ"
		case op == 0xdf:
			return "AES"
		case op == 0xf0:
			return "BMI2"
		}
		return "AVX"
	}
	return "AVX512"
}

// ---------- the machines ----------

type isaMachine struct {
	name     string
	has      string // extensions, in the order they were introduced
	maxLeaf  uint32
	osxsave  bool
	xcr0     uint32
	noVector string // why AVX is not available although the processor has it
}

const (
	isaNehalem = "SSE3 SSSE3 SSE41 SSE42 POPCNT"
	isaSandy   = isaNehalem + " AES PCLMULQDQ AVX"
	isaHaswell = isaSandy + " F16C FMA MOVBE BMI1 BMI2 LZCNT AVX2 ERMS"
)

var isaMachines = []isaMachine{
	{"first 64-bit processors", "", 1, false, 0, ""},
	{"Prescott", "SSE3", 5, false, 0, ""},
	{"Core 2 (Merom)", "SSE3 SSSE3", 10, false, 0, ""},
	{"K10", "SSE3 POPCNT LZCNT", 5, false, 0, ""},
	{"Bobcat", "SSE3 SSSE3 POPCNT LZCNT", 6, false, 0, ""},
	{"Penryn", "SSE3 SSSE3 SSE41", 13, false, 0, ""},
	{"Nehalem", isaNehalem, 11, false, 0, ""},
	{"Westmere", isaNehalem + " AES PCLMULQDQ", 11, false, 0, ""},
	{"Sandy Bridge", isaSandy, 13, true, 7, ""},
	{"Sandy Bridge, system without XSAVE", isaSandy, 13, false, 0, "no OSXSAVE"},
	{"Sandy Bridge, system without YMM", isaSandy, 13, true, 3, "XCR0 has no YMM"},
	{"Ivy Bridge", isaSandy + " F16C ERMS", 13, true, 7, ""},
	{"Jaguar", isaSandy + " F16C MOVBE BMI1 LZCNT", 13, true, 7, ""},
	{"Piledriver", isaSandy + " F16C FMA BMI1 LZCNT", 13, true, 7, ""},
	{"Haswell", isaHaswell, 13, true, 7, ""},
	{"Haswell, system without XSAVE", isaHaswell, 13, false, 0, "no OSXSAVE"},
	{"Haswell, system without YMM", isaHaswell, 13, true, 3, "XCR0 has no YMM"},
	{"Haswell, system with x87 state only", isaHaswell, 13, true, 1, "XCR0 has no YMM"},
	{"Haswell, CPUID limited", isaHaswell, 3, true, 7, "leaf 7 is hidden"},
	{"Skylake Pentium", isaNehalem + " AES PCLMULQDQ MOVBE ERMS", 22, true, 3, ""},
	{"Skylake server", isaHaswell + " ADX AVX512", 22, true, 0xe7, ""},
	{"Zen", isaHaswell + " ADX SHA", 16, true, 7, ""},
}

var isaBits = map[string][3]uint32{ // leaf, register, bit
	"SSE3": {1, 2, 0}, "PCLMULQDQ": {1, 2, 1}, "SSSE3": {1, 2, 9}, "FMA": {1, 2, 12}, "SSE41": {1, 2, 19}, "SSE42": {1, 2, 20}, "MOVBE": {1, 2, 22}, "POPCNT": {1, 2, 23},
	"AES": {1, 2, 25}, "AVX": {1, 2, 28}, "F16C": {1, 2, 29}, "BMI1": {7, 1, 3}, "AVX2": {7, 1, 5}, "BMI2": {7, 1, 8}, "ERMS": {7, 1, 9}, "ADX": {7, 1, 19},
	"AVX512": {7, 1, 16}, "SHA": {7, 1, 29},
}

// script gives the registers of leaves 0 to 1f and 80000000 to 8000001f as text for the replaced CPUID, then XCR0.
func (m *isaMachine) script() string {
	var leaf [64][4]uint32
	for i := range leaf {
		leaf[i] = [4]uint32{0xA5A5A5A5, 0x5A5A5A5A, 0xA5A5A5A5, 0x5A5A5A5A}
	}
	leaf[0] = [4]uint32{m.maxLeaf, 0x756e6547, 0x6c65746e, 0x49656e69}
	leaf[1] = [4]uint32{0x306c3, 0x00100800, 0, 0x178bfbff} // FPU to SSE2
	leaf[32] = [4]uint32{0x80000001, 0, 0, 0}
	leaf[33] = [4]uint32{0, 0, 1, 0x20100800}
	if m.maxLeaf >= 7 {
		leaf[7] = [4]uint32{}
	}
	for _, f := range strings.Fields(m.has) {
		if f == "LZCNT" {
			leaf[33][2] |= 1 << 5
			continue
		}
		p, ok := isaBits[f]
		if !ok {
			panic("harness: no bit for " + f)
		}
		if p[0] <= m.maxLeaf {
			leaf[p[0]][p[1]] |= 1 << p[2]
		}
	}
	if m.osxsave {
		leaf[1][2] |= 1<<26 | 1<<27
	}
	var b strings.Builder
	for _, l := range leaf {
		fmt.Fprintf(&b, "%08x%08x%08x%08x", l[0], l[1], l[2], l[3])
	}
	fmt.Fprintf(&b, "%08x%08x", m.xcr0, 0)
	return b.String()
}

// usable says whether programs may use an extension: the processor reports it and the system saves the registers it needs.
func (m *isaMachine) usable(f string) bool {
	if f == "" {
		return true
	}
	has := false
	for _, h := range strings.Fields(m.has) {
		has = has || h == f
	}
	switch f {
	case "AVX", "AVX2", "FMA", "F16C":
		if !m.osxsave || m.xcr0&6 != 6 {
			return false
		}
	case "AVX512":
		if !m.osxsave || m.xcr0&0xe6 != 0xe6 {
			return false
		}
	}
	if p, ok := isaBits[f]; ok && p[0] > m.maxLeaf {
		return false
	}
	return has
}

// ---------- the traced program ----------

type isaSym struct {
	lo, hi uint64
	name   string
}

type isaProgram struct {
	arch, path string
	mode64     bool
	syms       []isaSym
	text       []byte
	textAt     uint64
	cls        map[uint64]string // "-" where not judged
	entry      map[uint64]byte   // first byte of each function, where a breakpoint is
}

func loadIsaProgram(arch, path string, asm map[string]bool) (*isaProgram, error) {
	f, err := elf.Open(path)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	p := &isaProgram{arch: arch, path: path, mode64: f.Class == elf.ELFCLASS64, cls: map[uint64]string{}, entry: map[uint64]byte{}}
	t := f.Section(".text")
	if t == nil {
		return nil, fmt.Errorf("no code")
	}
	p.textAt = t.Addr
	if p.text, err = t.Data(); err != nil {
		return nil, err
	}
	syms, err := f.Symbols()
	if err != nil {
		return nil, err
	}
	const pkg = "github.com/samuel/go-dsp/dsp."
	for _, s := range syms {
		// Code that the compiler wrote asks the runtime what the processor has; only assembly relies on the package.
		n := strings.TrimSuffix(strings.TrimPrefix(s.Name, pkg), ".abi0")
		if elf.ST_TYPE(s.Info) == elf.STT_FUNC && strings.HasPrefix(s.Name, pkg) && asm[n] && s.Value >= t.Addr && s.Value < t.Addr+uint64(len(p.text)) {
			p.syms = append(p.syms, isaSym{s.Value, s.Value + s.Size, n})
			p.entry[s.Value] = p.text[s.Value-t.Addr]
		}
	}
	if len(p.syms) == 0 {
		return nil, fmt.Errorf("no assembly functions found")
	}
	sort.Slice(p.syms, func(i, j int) bool { return p.syms[i].lo < p.syms[j].lo })
	return p, nil
}

func (p *isaProgram) symbol(pc uint64) string {
	i := sort.Search(len(p.syms), func(i int) bool { return p.syms[i].hi > pc })
	if i < len(p.syms) && p.syms[i].lo <= pc {
		return p.syms[i].name
	}
	return ""
}

func (p *isaProgram) class(pc uint64) string {
	if s, ok := p.cls[pc]; ok {
		return s
	}
	s := "-"
	if pc >= p.textAt && pc < p.textAt+uint64(len(p.text)) && p.symbol(pc) != "" {
		b := p.text[pc-p.textAt:]
		s = isaOf(b[:min(16, len(b))], p.mode64)
	}
	p.cls[pc] = s
	return s
}

func (p *isaProgram) bytes(pc uint64) []byte {
	b := p.text[pc-p.textAt:]
	return b[:min(12, len(b))]
}

// isaTrace is what one call executed.
type isaTrace struct {
	steps, judged int
	uses          map[string]uint64 // extension -> an address
	returns       int               // returns to the caller that were seen
	bad           []string          // what was wrong when they happened
}

func (t *isaTrace) String() string {
	var s []string
	for f := range t.uses {
		if f != "" {
			s = append(s, f)
		}
	}
	sort.Strings(s)
	return "[" + strings.Join(s, " ") + "]"
}

type isaRun struct {
	traces []isaTrace
	ended  string // "" when all cases were seen
	exit   int
}

// trace runs the cases on the machine and steps through the calls.
func (p *isaProgram) trace(c *Ctx, m *isaMachine, o isaOrder, seen map[uint64]struct{}) (run isaRun) {
	dir := os.Getenv("VERIF_SCRATCH")
	if dir == "" {
		dir = os.TempDir()
	}
	file := filepath.Join(dir, "isa.order.json")
	b, _ := json.Marshal(o)
	if err := os.WriteFile(file, b, 0600); err != nil {
		panic("harness: " + err.Error())
	}
	null, err := os.OpenFile("/dev/null", os.O_RDWR, 0)
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer null.Close()
	logf, err := os.Create(filepath.Join(dir, "isa.stderr"))
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer logf.Close()
	env := []string{"VERIF_ISA=" + file, "VERIF_CPUID=" + m.script(), "GODEBUG=asyncpreemptoff=1", "GOMAXPROCS=2", "PATH=/usr/bin:/bin", "HOME=/"}
	pid, err := syscall.ForkExec(p.path, []string{"isachild", "-prop", "C33"}, &syscall.ProcAttr{Env: env, Files: []uintptr{null.Fd(), null.Fd(), logf.Fd()}, Sys: &syscall.SysProcAttr{Ptrace: true}})
	if err != nil {
		panic("harness: fork: " + err.Error())
	}
	alive := true
	defer func() {
		if alive {
			syscall.Kill(pid, syscall.SIGKILL)
			var ws syscall.WaitStatus
			for {
				if _, err := syscall.Wait4(pid, &ws, syscall.WALL, nil); err != nil && err != syscall.EINTR || err == nil && (ws.Exited() || ws.Signaled()) {
					break
				}
			}
		}
	}()
	wait := func() syscall.WaitStatus {
		var ws syscall.WaitStatus
		for {
			_, err := syscall.Wait4(pid, &ws, syscall.WALL, nil)
			if err == syscall.EINTR {
				continue
			}
			if err != nil {
				panic("harness: wait4: " + err.Error())
			}
			return ws
		}
	}
	ws := wait()
	if !ws.Stopped() {
		panic("harness: the traced program did not stop after exec")
	}
	const exitKill = 0x100000
	if err := syscall.PtraceSetOptions(pid, exitKill); err != nil {
		panic("harness: ptrace: " + err.Error())
	}
	poke := func(at uint64, b byte) {
		if _, err := syscall.PtracePokeText(pid, uintptr(at), []byte{b}); err != nil {
			panic("harness: ptrace poke: " + err.Error())
		}
	}
	for at := range p.entry {
		poke(at, 0xcc)
	}
	// Between the markers the program runs to the next assembly function, which is stepped through.
	sig, in, stepping := 0, false, false
	var cur isaTrace
	const peekUser, pokeUser, offRip = 3, 6, 128 // of an x86-64 tracer, whatever it traces
	var pc uint64
	calls := 0
	peek := func(off uintptr) (v uint64) {
		if _, _, e := syscall.RawSyscall6(syscall.SYS_PTRACE, peekUser, uintptr(pid), off, uintptr(unsafe.Pointer(&v)), 0, 0); e != 0 {
			panic("harness: ptrace regs: " + e.Error())
		}
		return v
	}
	const offRsp, offRbp = 152, 32
	var sp0, bp0, ret uint64
	var began string
	word := uint64(4)
	if p.mode64 {
		word = 8
	}
	for {
		if stepping {
			first, atEntry := p.entry[pc]
			if atEntry {
				poke(pc, first)
			}
			if _, _, e := syscall.RawSyscall6(syscall.SYS_PTRACE, syscall.PTRACE_SINGLESTEP, uintptr(pid), 0, uintptr(sig), 0, 0); e != 0 {
				panic("harness: ptrace step: " + e.Error())
			}
			ws = wait()
			if atEntry && ws.Stopped() {
				poke(pc, 0xcc)
			}
		} else {
			if err := syscall.PtraceCont(pid, sig); err != nil {
				panic("harness: ptrace cont: " + err.Error())
			}
			ws = wait()
		}
		sig = 0
		if ws.Exited() || ws.Signaled() {
			alive = false
			run.exit = ws.ExitStatus()
			if in || ws.Signaled() || run.exit != 0 {
				t, _ := os.ReadFile(filepath.Join(dir, "isa.stderr"))
				if len(t) > 600 {
					t = t[:600]
				}
				run.ended = fmt.Sprintf("the program ended (exit status %d, signal %v): %s", ws.ExitStatus(), ws.Signal(), t)
			}
			return run
		}
		was := pc
		if _, _, e := syscall.RawSyscall6(syscall.SYS_PTRACE, peekUser, uintptr(pid), offRip, uintptr(unsafe.Pointer(&pc)), 0, 0); e != 0 {
			panic("harness: ptrace regs: " + e.Error())
		}
		if s := ws.StopSignal(); s != syscall.SIGTRAP {
			sig = int(s)
			stepping = stepping && p.symbol(pc) != ""
			continue
		}
		if !stepping {
			if _, ok := p.entry[pc-1]; ok { // a function begins
				pc--
				if _, _, e := syscall.RawSyscall6(syscall.SYS_PTRACE, pokeUser, uintptr(pid), offRip, uintptr(pc), 0, 0); e != 0 {
					panic("harness: ptrace regs: " + e.Error())
				}
				stepping, calls = true, 0
				sp0, bp0, began = peek(offRsp), peek(offRbp), p.symbol(pc)
				var w [8]byte
				if _, err := syscall.PtracePeekData(pid, uintptr(sp0), w[:word]); err != nil {
					panic("harness: ptrace stack: " + err.Error())
				}
				ret = binary.LittleEndian.Uint64(w[:])
			} else { // a marker
				if in {
					run.traces = append(run.traces, cur)
				}
				in = !in
				cur = isaTrace{uses: map[string]uint64{}}
				continue
			}
		} else if p.symbol(pc) == "" {
			// left: for good, unless it was called from here
			if p.symbol(was) != "" {
				if o := p.text[was-p.textAt]; o != 0xe8 && o != 0xff {
					stepping = false
					if pc == ret {
						cur.returns++
						if sp := peek(offRsp); sp != sp0+word {
							cur.bad = append(cur.bad, fmt.Sprintf("%s returns with the stack pointer at %x, %x was due", began, sp, sp0+word))
						}
						if bp := peek(offRbp); p.mode64 && bp != bp0 {
							cur.bad = append(cur.bad, fmt.Sprintf("%s returns with the frame pointer %x, which was %x", began, bp, bp0))
						}
					}
					continue
				}
				calls = 0
			}
			if calls++; calls > 100000 {
				stepping = false
			}
			continue
		}
		cur.steps++
		if cur.steps > 2000000 {
			run.ended = "two million instructions were not enough"
			return run
		}
		cur.judged++
		seen[pc] = struct{}{}
		k := p.class(pc)
		if _, ok := cur.uses[k]; !ok {
			cur.uses[k] = pc
		}
	}
}

func checkC33X86(c *Ctx) {
	c.Rule = "one evaluation = one call of a package function single-stepped on a scripted processor, every instruction executed in the package's assembly classified by the extension it belongs to and compared with what the processor reports; distinct = distinct (build, processor, function, length, alignment)"
	for _, arch := range []string{"amd64", "386"} {
		p := isaProgramFor(c, arch)
		if p == nil {
			continue
		}
		seen := map[uint64]struct{}{}
		lens := []int{0, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 31, 33, 47, 64, 65}
		machines := append([]isaMachine(nil), isaMachines...)
		reps := 2
		if c.Thorough() {
			lens = append(lens, 4, 6, 10, 11, 12, 13, 14, 18, 19, 20, 23, 24, 29, 30, 32, 34, 39, 40, 48, 49, 63, 66, 79, 95, 96, 97, 127, 128, 129, 160, 200, 257)
			reps = 6
		}
		for mi := range machines {
			m := &machines[mi]
			c.Do(arch+"/"+m.name, func() {
				var o isaOrder
				for _, fn := range isaFns() {
					for _, n := range lens {
						for k := 0; k < reps; k++ {
							q := isaCase{fn, n, [2]int{c.R.Intn(9), c.R.Intn(9)}, c.R.U64()}
							if k == 0 {
								q.Off = [2]int{}
							}
							o.Cases = append(o.Cases, q)
						}
					}
				}
				got := p.trace(c, m, o, seen)
				if got.ended != "" && len(got.traces) == 0 && got.exit == 3 {
					panic("harness: " + got.ended)
				}
				if len(got.traces) != len(o.Cases) {
					at := "before the first call"
					if len(got.traces) < len(o.Cases) {
						at = o.Cases[len(got.traces)].String()
					}
					c.Fail("ended:"+arch, "%s: %d of %d calls were made, then (%s) %s", m.name, len(got.traces), len(o.Cases), at, got.ended)
					return
				}
				for i, t := range got.traces {
					q := o.Cases[i]
					c.Seen(mix(hashS(arch, m.name, q.Fn), q.N, q.Off[0], q.Off[1]), t.judged > 0)
					c.Count("instructions_judged_"+arch, int64(t.judged))
					for f, pc := range t.uses {
						if f != "" {
							c.Count("calls_with_"+f+"_"+arch, 1)
						}
						if !m.usable(f) {
							c.Fail("instruction:"+q.Fn, "%v on %q (%s%s): %s executes an instruction of %s (% x), which this machine does not offer", q, m.name, m.has, why(m), p.symbol(pc), f, p.bytes(pc))
						}
					}
				}
				// the same calls with the settings made by hand: what was chosen must be what the machine allows
				o.Force = map[string]byte{}
				if p.mode64 {
					o.Force = map[string]byte{"useSSE4": byte(btoi(m.usable("SSE41"))), "useAVX2": byte(btoi(m.usable("AVX2")))}
				}
				if len(o.Force) == 0 {
					return
				}
				want := p.trace(c, m, o, seen)
				if want.exit == 7 {
					c.Note("%s: the settings are not found by name; only what is executed was judged, not what is chosen", arch)
					return
				}
				if len(want.traces) != len(o.Cases) {
					c.Fail("ended:"+arch, "%s, settings made by hand: %d of %d calls were made, then %s", m.name, len(want.traces), len(o.Cases), want.ended)
					return
				}
				for i := range got.traces {
					if g, w := got.traces[i].String(), want.traces[i].String(); g != w {
						c.Fail("selection:"+o.Cases[i].Fn, "%v on %q (%s%s): the code that runs uses %s, that for this machine uses %s", o.Cases[i], m.name, m.has, why(m), g, w)
					} else if g != "[]" {
						c.Count("calls_with_the_vector_code_of_the_machine", 1)
					}
				}
			})
		}
		c.Count("distinct_instruction_addresses_"+arch, int64(len(seen)))
		for i, s := range p.syms {
			if i < 3 {
				c.Sample("%s: %s at %x", arch, s.name, s.lo)
			}
		}
	}
}

func why(m *isaMachine) string {
	if m.noVector != "" {
		return "; " + m.noVector
	}
	return ""
}
