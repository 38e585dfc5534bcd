package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"
	"time"
)

func init() { checks["C28"] = checkC28 }

// C28: processor feature detection and GODEBUG options (dsp/internal/cpu), on the real processor and on scripted ones.

type cpuReq struct {
	Leaf map[string][4]uint32
	Xcr0 uint32
	Env  string
}

type cpuAns struct {
	Features map[string]bool
	Name     string
	Xgetbv   int
	HW       map[string][4]uint32
	HWXcr0   uint32
}

type cpuProbe struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *json.Decoder
	err *bufio.Reader

	asked   int
	unwatch func() bool
	spun    bool // it did not come to an end
}

func newCPUProbe(path string) *cpuProbe {
	p := &cpuProbe{cmd: exec.Command(path)}
	p.in, _ = p.cmd.StdinPipe()
	o, _ := p.cmd.StdoutPipe()
	e, _ := p.cmd.StderrPipe()
	p.out, p.err = json.NewDecoder(bufio.NewReader(o)), bufio.NewReader(e)
	if err := p.cmd.Start(); err != nil {
		panic("harness: " + err.Error())
	}
	return p
}

// ask returns the answer and the lines printed; ok is false when the program ended.
func (p *cpuProbe) ask(q cpuReq) (a cpuAns, lines []string, ok bool) {
	lines, ok = p.send(q)
	return a, lines, ok && p.out.Decode(&a) == nil
}

// send writes one request and reads the lines up to the end mark; the answer is then next in out.
func (p *cpuProbe) send(q interface{}) (lines []string, ok bool) {
	b, _ := json.Marshal(q)
	p.in.Write(append(b, '\n'))
	if p.asked++; p.asked%64 == 1 { // a request takes microseconds; a watch covers many
		if p.unwatch != nil {
			p.unwatch()
		}
		p.unwatch = watchSpin(p.cmd)
	}
	for {
		l, err := p.err.ReadString('\n')
		if err != nil {
			if f := p.unwatch; f != nil {
				p.unwatch = nil
				if f() {
					p.spun = true
					l += fmt.Sprintf(" (killed after %v of processor time in this call)", spinLimit)
				}
			}
			return append(lines, l), false
		}
		if len(lines) > 100000 {
			p.cmd.Process.Kill()
			p.spun = true
			return append(lines[:20], "... and on and on"), false
		}
		l = strings.TrimSuffix(l, "\n")
		if l == "=== done" {
			break
		}
		if l != "" {
			lines = append(lines, l)
		}
	}
	return lines, true
}

func (p *cpuProbe) close() {
	p.in.Close()
	if p.unwatch != nil {
		p.unwatch()
		p.unwatch = nil
	}
	t := time.AfterFunc(20*time.Second, func() { p.cmd.Process.Kill() })
	p.cmd.Wait()
	t.Stop()
}

// the features, where the processor reports them and the name of the option ("": none)
var cpuFeatures = []struct {
	field, option string
	leaf          string
	reg, bit      int
	needs         int // 1: OSXSAVE, 2: XMM and YMM state enabled by the operating system
}{
	{"HasADX", "adx", "7", 1, 19, 0}, {"HasAES", "aes", "1", 2, 25, 0}, {"HasAVX", "avx", "1", 2, 28, 2}, {"HasAVX2", "avx2", "7", 1, 5, 2},
	{"HasBMI1", "bmi1", "7", 1, 3, 0}, {"HasBMI2", "bmi2", "7", 1, 8, 0}, {"HasERMS", "erms", "7", 1, 9, 0}, {"HasFMA", "fma", "1", 2, 12, 1},
	{"HasOSXSAVE", "", "1", 2, 27, 0}, {"HasPCLMULQDQ", "pclmulqdq", "1", 2, 1, 0}, {"HasPOPCNT", "popcnt", "1", 2, 23, 0}, {"HasSSE2", "sse2", "1", 3, 26, 0},
	{"HasSSE3", "sse3", "1", 2, 0, 0}, {"HasSSSE3", "ssse3", "1", 2, 9, 0}, {"HasSSE41", "sse41", "1", 2, 19, 0}, {"HasSSE42", "sse42", "1", 2, 20, 0},
}

// cpuModel is what a program must report on the processor, and the number of warnings for the options.
func cpuModel(leaf map[string][4]uint32, xcr0 uint32, env, arch string) (map[string]bool, int, string) {
	has := map[string]bool{}
	max := leaf["0"][0]
	osxsave := max >= 1 && leaf["1"][2]>>27&1 == 1
	ymm := osxsave && xcr0&6 == 6
	for _, f := range cpuFeatures {
		lv := uint32(1)
		if f.leaf == "7" {
			lv = 7
		}
		v := max >= lv && leaf[f.leaf][f.reg]>>uint(f.bit)&1 == 1
		if f.needs == 1 {
			v = v && osxsave
		} else if f.needs == 2 {
			v = v && ymm
		}
		has[f.field] = v
	}
	// options: the last word on each feature counts
	wish := map[string]string{}
	warn := 0
	for _, field := range strings.Split(env, ",") {
		if !strings.HasPrefix(field, "cpu.") {
			continue
		}
		kv := strings.SplitN(field[4:], "=", 2)
		if len(kv) < 2 || kv[1] != "on" && kv[1] != "off" {
			warn++
			continue
		}
		known := false
		for _, f := range cpuFeatures {
			if f.option == "" {
				continue
			}
			if kv[0] == "all" {
				known = true
				wish[f.option] = kv[1]
				if kv[1] == "off" && f.option == "sse2" && arch == "amd64" {
					wish[f.option] = "on" // required: not touched by all
				}
			} else if kv[0] == f.option {
				known = true
				wish[f.option] = kv[1]
			}
		}
		if !known {
			warn++
		}
	}
	for _, f := range cpuFeatures {
		switch w := wish[f.option]; {
		case f.option == "" || w == "":
		case w == "on" && !has[f.field], w == "off" && f.option == "sse2" && arch == "amd64":
			warn++
		case w == "off":
			has[f.field] = false
		}
	}
	// name
	name := ""
	if max >= 1 && leaf["80000000"][0] >= 0x80000004 {
		var b []byte
		for _, l := range []string{"80000002", "80000003", "80000004"} {
			for _, r := range leaf[l] {
				b = append(b, byte(r), byte(r>>8), byte(r>>16), byte(r>>24))
			}
		}
		name = strings.TrimLeft(string(b), " ")
		if i := strings.IndexByte(name, 0); i >= 0 {
			name = name[:i]
		}
	}
	return has, warn, name
}

func (r *Rand) cpuEnv() string {
	names := []string{"all"}
	for _, f := range cpuFeatures {
		if f.option != "" {
			names = append(names, f.option)
		}
	}
	var fs []string
	for n := r.Intn(7); n > 0; n-- {
		k := names[r.Intn(len(names))]
		if r.Intn(5) == 0 {
			k = "all"
		}
		if r.Intn(3) == 0 && len(fs) > 0 { // again, the other way
			p := strings.TrimPrefix(strings.SplitN(fs[r.Intn(len(fs))], "=", 2)[0], "cpu.")
			if p != "" {
				k = p
			}
		}
		v := []string{"on", "off"}[r.Intn(2)]
		f := "cpu." + k + "=" + v
		switch r.Intn(16) {
		case 0:
			f = "cpu." + k
		case 1:
			f = "cpu." + k + "=" + []string{"", "ON", "1", "off=on", "true", "on ", "o"}[r.Intn(7)]
		case 2:
			f = []string{"gctrace=1", "", "cpu", "cpu.", "cp", "Cpu." + k + "=" + v, "xcpu." + k + "=" + v, "cpu=off", " cpu." + k + "=" + v, "cpu,all=off"}[r.Intn(10)]
		case 3:
			f = []string{"cpu.=on", "cpu.nosuch=off", "cpu." + strings.ToUpper(k) + "=" + v, "cpu." + k + " =" + v, "cpu.osxsave=off", "cpu.sse4=on", "cpu.av=off", "cpu.avx22=off", "cpu.al=off"}[r.Intn(9)]
		}
		fs = append(fs, f)
	}
	return strings.Join(fs, ",")
}

func checkC28(c *Ctx) {
	c.Rule = "one evaluation = one Initialize call of the real package judged: all 16 feature flags, the processor name, the warnings and the use of XGETBV; distinct = distinct (processor, options). 'sim' runs on scripted processors (the two instructions replaced at build time), 'real' on this one."
	var dump []string
	// the lines of a Go crash are no warnings
	for _, arch := range []string{"amd64", "386"} {
		for _, kind := range []string{"sim", "real"} {
			path := os.Getenv("VERIF_CPU_" + strings.ToUpper(kind) + "_" + strings.ToUpper(arch))
			if path == "" {
				c.Note("no %s probe for %s", kind, arch)
				continue
			}
			var p *cpuProbe
			spun := false
			judge := func(q cpuReq) {
				if spun { // it would spin again and again: what it takes has been seen
					return
				}
				if p == nil {
					p = newCPUProbe(path)
				}
				a, lines, ok := p.ask(q)
				what := fmt.Sprintf("%s/%s options %q", arch, kind, q.Env)
				if kind == "sim" {
					b, _ := json.Marshal(q.Leaf)
					what += fmt.Sprintf(", leaves %s, XCR0 %#x", b, q.Xcr0)
				}
				if !ok {
					p.close()
					spun, p = p.spun, nil
					c.Fail("crash", "%s: the program ended: %.600s", what, strings.Join(lines, " | "))
					return
				}
				leaf, xcr0 := q.Leaf, q.Xcr0
				if kind == "real" {
					leaf, xcr0 = a.HW, a.HWXcr0
				}
				has, warn, name := cpuModel(leaf, xcr0, q.Env, arch)
				c.Seen(hashS(what), true)
				var bad []string
				for f, v := range has {
					if g, there := a.Features[f]; !there {
						c.Note("%s is not reported any more", f)
					} else if g != v {
						bad = append(bad, fmt.Sprintf("%s is %v, want %v", f, g, v))
					}
					if v {
						c.Count("features_seen_on", 1)
					} else {
						c.Count("features_seen_off", 1)
					}
				}
				sort.Strings(bad)
				if len(bad) > 0 {
					k := "feature"
					if q.Env != "" {
						k = "option"
					}
					c.Fail(k+":"+strings.SplitN(bad[0], " ", 2)[0], "%s: %s", what, strings.Join(bad, "; "))
				}
				if a.Name != name {
					c.Fail("name", "%s: the processor's name is %q, want %q", what, a.Name, name)
				}
				if len(lines) != warn {
					c.Fail("warnings", "%s: %d warnings, want %d: %q", what, len(lines), warn, lines)
				}
				c.Count("warnings", int64(len(lines)))
				if kind == "sim" && a.Xgetbv > 0 && (leaf["0"][0] < 1 || leaf["1"][2]>>27&1 == 0) {
					c.Fail("xgetbv", "%s: XGETBV is executed although the processor does not allow it", what)
				}
				if len(dump) < 6 && len(lines) > 0 {
					dump = append(dump, fmt.Sprintf("%s -> %q", what, lines))
				}
			}
			end := func() {
				if p != nil {
					p.close()
					p = nil
				}
			}
			if kind == "real" {
				c.Do("real "+arch, func() {
					defer end()
					judge(cpuReq{})
					for _, f := range cpuFeatures {
						if f.option != "" {
							judge(cpuReq{Env: "cpu." + f.option + "=off"})
							judge(cpuReq{Env: "cpu." + f.option + "=on"})
							judge(cpuReq{Env: "cpu.all=off,cpu." + f.option + "=on"})
							judge(cpuReq{Env: "cpu.all=on,cpu." + f.option + "=off"})
						}
					}
					for i := 0; i < c.N(1500, 40000); i++ {
						judge(cpuReq{Env: c.R.cpuEnv()})
					}
				})
				continue
			}
			proc := func(r *Rand) cpuReq {
				q := cpuReq{Leaf: map[string][4]uint32{}}
				reg := func() uint32 {
					switch r.Intn(5) {
					case 0:
						return 0
					case 1:
						return ^uint32(0)
					case 2:
						return 1 << uint(r.Intn(32))
					case 3:
						return ^(uint32(1) << uint(r.Intn(32)))
					}
					return uint32(r.U64())
				}
				set := func(l string) { q.Leaf[l] = [4]uint32{reg(), reg(), reg(), reg()} }
				set("0")
				x := q.Leaf["0"]
				x[0] = []uint32{1, 2, 5, 6, 7, 7, 7, 8, 13, 22, 0x80000000}[r.Intn(11)]
				if x[0] == 0x80000000 {
					x[0] = 7 + uint32(r.Intn(20))
				}
				q.Leaf["0"] = x
				set("1")
				set("7")
				if r.Bool() {
					y := q.Leaf["1"]
					y[2] |= 1 << 27
					q.Leaf["1"] = y
				}
				q.Xcr0 = uint32([]int{0, 1, 2, 3, 4, 5, 6, 7, 0xe7, 0xff, 0xf8, 0xf9, 0x1f}[r.Intn(13)])
				ext := []uint32{0, 0x7fffffff, 0x80000000, 0x80000001, 0x80000003, 0x80000004, 0x80000004, 0x80000008, 0x8000001f}[r.Intn(9)]
				q.Leaf["80000000"] = [4]uint32{ext, 0, 0, 0}
				nm := make([]byte, 48)
				txt := []string{"Intel(R) Core(TM) i7-3720QM CPU @ 2.60GHz", "       Intel(R) Pentium(R) 4 CPU 3.00GHz", "AMD Ryzen 9 3900X 12-Core Processor            ", "", "   ", "x", "\x00hidden",
					"a name that fills all of the forty-eight bytes!!", " spaced  name with a  tail   "}[r.Intn(9)]
				copy(nm, txt)
				if r.Intn(4) == 0 { // rubbish after the terminator
					for i := len(txt) + 1; i < 48; i++ {
						nm[i] = byte(32 + r.Intn(90))
					}
				}
				for k, l := range []string{"80000002", "80000003", "80000004"} {
					var w [4]uint32
					for j := range w {
						b := nm[16*k+4*j:]
						w[j] = uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24
					}
					q.Leaf[l] = w
				}
				return q
			}
			c.Do("scripted "+arch, func() {
				defer end()
				for i := 0; i < c.N(2500, 60000); i++ {
					q := proc(c.R)
					if c.R.Bool() {
						q.Env = c.R.cpuEnv()
					}
					judge(q)
				}
				// each feature alone and all but one
				for _, f := range cpuFeatures {
					for _, inv := range []bool{false, true} {
						q := cpuReq{Leaf: map[string][4]uint32{"0": {7}, "1": {}, "7": {}, "80000000": {0x80000000}}, Xcr0: 7}
						for l, rg := range map[string]int{"1": 2, "7": 1} {
							x := q.Leaf[l]
							if inv {
								x = [4]uint32{^uint32(0), ^uint32(0), ^uint32(0), ^uint32(0)}
							}
							if l == f.leaf {
								rg = f.reg
								x[rg] ^= 1 << uint(f.bit)
							}
							q.Leaf[l] = x
						}
						if !inv && f.needs > 0 {
							x := q.Leaf["1"]
							x[2] |= 1 << 27
							q.Leaf["1"] = x
						}
						judge(q)
						q.Env = "cpu.all=off"
						judge(q)
						q.Env = "cpu.all=on"
						judge(q)
					}
				}
			})
			c.Do("old "+arch, func() {
				// processors without leaf 1: nothing may be taken from leaves that do not exist; each in a new program
				for i := 0; i < c.N(12, 100); i++ {
					q := proc(c.R)
					x := q.Leaf["0"]
					x[0] = 0
					q.Leaf["0"] = x
					q.Env = c.R.cpuEnv()
					judge(q)
					end()
				}
			})
		}
	}
	for _, d := range dump {
		c.Sample("%s", d)
	}
}
