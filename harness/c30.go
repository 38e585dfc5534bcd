package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"strings"
)

func init() { checks["C30"] = checkC30 }

// C30: which vector code package dsp selects on 32-bit ARM. The real start-up code runs as a program of its own for each scripted
// /proc/cpuinfo and environment.

type armMachine struct {
	what     string
	header   []string // before the features line of each processor
	features string
	tail     []string // after the last processor
	cores    int
	neon, pi bool
}

var armMachines = []armMachine{
	{"Raspberry Pi 1", []string{"model name\t: ARMv6-compatible processor rev 7 (v6l)", "BogoMIPS\t: 2.00"}, "half thumb fastmult vfp edsp java tls",
		[]string{"Hardware\t: BCM2708", "Revision\t: 000e", "Serial\t\t: 00000000deadbeef"}, 1, false, true},
	{"Raspberry Pi 1, old kernel", []string{"Processor\t: ARMv6-compatible processor rev 7 (v6l)", "BogoMIPS\t: 697.95"}, "swp half thumb fastmult vfp edsp java tls",
		[]string{"Hardware\t: BCM2708", "Revision\t: 0002"}, 1, false, true},
	{"Raspberry Pi 2", []string{"model name\t: ARMv7 Processor rev 5 (v7l)", "BogoMIPS\t: 57.60"}, "half thumb fastmult vfp edsp neon vfpv3 tls vfpv4 idiva idivt vfpd32 lpae evtstrm",
		[]string{"Hardware\t: BCM2709", "Revision\t: a01041"}, 4, true, false},
	{"Raspberry Pi 3", []string{"model name\t: ARMv7 Processor rev 4 (v7l)", "BogoMIPS\t: 38.40"}, "half thumb fastmult vfp edsp neon vfpv3 tls vfpv4 idiva idivt vfpd32 lpae evtstrm crc32",
		[]string{"Hardware\t: BCM2835", "Revision\t: a02082"}, 4, true, false},
	{"Tegra 2", []string{"Processor\t: ARMv7 Processor rev 0 (v7l)"}, "swp half thumb fastmult vfp edsp vfpv3 vfpv3d16", []string{"Hardware\t: trimslice"}, 2, false, false},
	{"Kirkwood", []string{"Processor\t: Feroceon 88FR131 rev 1 (v5l)", "BogoMIPS\t: 1192.75"}, "swp half thumb fastmult edsp", []string{"Hardware\t: Marvell SheevaPlug Reference Board"}, 1, false, false},
	{"BeagleBone", []string{"model name\t: ARMv7 Processor rev 2 (v7l)"}, "half thumb fastmult vfp edsp thumbee neon vfpv3 tls vfpd32", []string{"Hardware\t: Generic AM33XX (Flattened Device Tree)"}, 1, true, false},
	{"64-bit kernel", []string{"BogoMIPS\t: 108.00"}, "fp asimd evtstrm crc32 cpuid", []string{"Hardware\t: BCM2835"}, 2, true, false},
	{"64-bit kernel with extensions", []string{"BogoMIPS\t: 48.00"}, "fp asimd evtstrm aes pmull sha1 sha2 crc32 atomics fphp asimdhp cpuid", nil, 2, true, false},
	{"no vector unit at all", nil, "swp half", nil, 1, false, false},
	{"NEON only in the name", []string{"model name\t: neon Processor with asimd"}, "swp half thumb vfp", []string{"Hardware\t: neon board"}, 1, false, false},
	{"Pi 1 chip with NEON", nil, "swp half thumb fastmult vfp edsp neon", []string{"Hardware\t: BCM2708"}, 1, true, true},
	{"BCM2708 elsewhere", []string{"model name\t: BCM2708"}, "half vfp", []string{"Hardware\t: other", "Revision\t: BCM2708"}, 1, false, false},
	{"empty features", nil, "", []string{"Hardware\t: BCM2708"}, 1, false, true},
}

func (m *armMachine) text(r *Rand) string {
	var b strings.Builder
	cores := m.cores
	if r.Intn(3) == 0 {
		fmt.Fprintf(&b, "Platform\t: %s\n\n", strings.Repeat("- ", r.Intn(600)))
	}
	for i := 0; i < cores; i++ {
		fmt.Fprintf(&b, "processor\t: %d\n", i)
		for _, h := range m.header {
			b.WriteString(h + "\n")
		}
		fs := strings.Fields(m.features)
		for k := len(fs) - 1; k > 0; k-- { // in any order
			j := r.Intn(k + 1)
			fs[k], fs[j] = fs[j], fs[k]
		}
		fmt.Fprintf(&b, "Features\t: %s", strings.Join(fs, " "))
		if i == cores-1 && len(m.tail) == 0 && r.Bool() {
			return b.String() // no newline at the end
		}
		b.WriteString([]string{"\n", " \n"}[r.Intn(2)])
		if r.Bool() || len(m.tail) == 0 && r.Bool() {
			b.WriteString("CPU implementer\t: 0x41\nCPU architecture: 7\nCPU variant\t: 0x0\nCPU part\t: 0xb76\nCPU revision\t: 7\n")
		}
		if r.Intn(3) == 0 {
			fmt.Fprintf(&b, "Vendor notes\t: %s\n", strings.Repeat("x ", r.Intn(400)))
		}
		b.WriteString("\n")
	}
	for i, t := range m.tail {
		b.WriteString(t)
		if i < len(m.tail)-1 || r.Bool() {
			b.WriteString("\n")
		}
	}
	return b.String()
}

func checkC30(c *Ctx) {
	c.Rule = "one evaluation = one start of the real ARM start-up code of package dsp on a scripted machine, both selections judged; distinct = distinct (cpuinfo, environment)."
	prog, file := os.Getenv("VERIF_ARMSEL"), os.Getenv("VERIF_CPUINFO")
	type word struct {
		v      string
		set    bool
		listen int // 0: not a boolean, 1: true, 2: false
	}
	words := []word{{"", false, 0}, {"", true, 0}, {"1", true, 1}, {"t", true, 1}, {"T", true, 1}, {"true", true, 1}, {"TRUE", true, 1}, {"True", true, 1},
		{"0", true, 2}, {"f", true, 2}, {"F", true, 2}, {"false", true, 2}, {"FALSE", true, 2}, {"False", true, 2},
		{"yes", true, 0}, {"2", true, 0}, {" 1", true, 0}, {"tru", true, 0}, {"on", true, 0}}
	spun := false
	for _, m := range armMachines {
		m := m
		if spun {
			c.Note("%s is left out after one that did not end", m.what)
			continue
		}
		c.Do("machine "+m.what, func() {
			for i, w := range words {
				for rep := 0; rep < c.N(3, 40); rep++ {
					if i > 0 && rep > c.N(0, 9) {
						break
					}
					txt := m.text(c.R)
					for len(txt) > 2000 { // only the beginning of the file is read
						txt = m.text(c.R)
					}
					if err := os.WriteFile(file, []byte(txt), 0o644); err != nil {
						panic("harness: " + err.Error())
					}
					cmd := exec.Command(prog)
					for _, e := range os.Environ() {
						if !strings.HasPrefix(e, "ARMVECTOR=") {
							cmd.Env = append(cmd.Env, e)
						}
					}
					if w.set {
						cmd.Env = append(cmd.Env, "ARMVECTOR="+w.v)
					}
					var buf bytes.Buffer
					cmd.Stdout, cmd.Stderr = &buf, &buf
					if err := cmd.Start(); err != nil {
						panic("harness: " + err.Error())
					}
					stop := watchSpin(cmd)
					err := cmd.Wait()
					if stop() {
						spun = true
						fmt.Fprintf(&buf, "(killed after %v of processor time)", spinLimit)
					}
					out := buf.Bytes()
					vec := m.pi && !m.neon
					if w.listen > 0 {
						vec = w.listen == 1
					}
					want := fmt.Sprintf("%v %v\n", m.neon, vec)
					what := fmt.Sprintf("%s, ARMVECTOR=%q (set: %v), cpuinfo %q", m.what, w.v, w.set, txt)
					c.Seen(hashS(what), true)
					if err != nil {
						c.Fail("crash", "%s: %v: %.600s", what, err, out)
						return
					}
					if !bytes.Equal(out, []byte(want)) {
						c.Fail("selection", "%s: HaveNEON, UseVector = %q, want %q", what, out, want)
					}
					if m.neon {
						c.Count("neon_selected", 1)
					}
					if vec {
						c.Count("vfp_vectors_selected", 1)
					}
				}
			}
		})
	}
	c.Do("no cpuinfo", func() {
		os.Remove(file)
		if spun {
			return
		}
		out, err := exec.Command(prog).CombinedOutput()
		c.Seen(hashS("no cpuinfo"), true)
		if err != nil {
			c.Fail("crash", "without /proc/cpuinfo: %v: %.600s", err, out)
		} else if !strings.HasPrefix(string(out), "false ") {
			c.Fail("selection", "without /proc/cpuinfo: HaveNEON, UseVector = %q", out)
		}
	})
}
