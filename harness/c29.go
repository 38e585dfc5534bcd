package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"
)

func init() { checks["C29"] = checkC29 }

// C29: feature detection of the processor families other than x86. The real code of each family runs here, compiled for this
// processor, on scripted machines: capability words of the kernel, facility lists, query results, identification registers.

type famReq struct {
	Target string
	HW     [2]uint64
	Words  map[string][]uint64
	Sysctl map[string][2]int32
	Env    string
}

type famAns struct {
	Features map[string]bool
	Name     string
	Use      map[string]int
	Asked    []string
}

type famModel struct {
	on       map[string]bool   // features that must be on; all others off
	options  map[string]string // option name -> feature
	banned   []string          // instructions that the machine does not have
	unjudged []string
}

func beBit(w []uint64, i int) bool { return w[i/64]>>(63-uint(i%64))&1 == 1 }

func beAll(w []uint64, is ...int) bool {
	for _, i := range is {
		if !beBit(w, i) {
			return false
		}
	}
	return true
}

func famOracle(q *famReq) *famModel {
	m := &famModel{on: map[string]bool{}, options: map[string]string{}}
	arch := q.Target[strings.IndexByte(q.Target, '/')+1:]
	sys := q.Target[:strings.IndexByte(q.Target, '/')]
	bit := func(w, i int) bool { return q.HW[w]>>uint(i)&1 == 1 }
	opt := func(pfx string, names ...string) {
		for i := 0; i < len(names); i += 2 {
			m.options[names[i]] = pfx + names[i+1]
		}
	}
	switch arch {
	case "arm":
		opt("ARM.", "vfpv4", "HasVFPv4", "idiva", "HasIDIVA")
		m.on["ARM.HasVFPv4"], m.on["ARM.HasIDIVA"] = bit(0, 16), bit(0, 17)
	case "arm64":
		opt("ARM64.", "aes", "HasAES", "pmull", "HasPMULL", "sha1", "HasSHA1", "sha2", "HasSHA2", "crc32", "HasCRC32", "atomics", "HasATOMICS", "cpuid", "HasCPUID",
			"isNeoverseN1", "IsNeoverseN1", "isZeus", "IsZeus")
		switch sys {
		case "linux", "android":
			for i, n := range []string{"AES", "PMULL", "SHA1", "SHA2", "CRC32", "ATOMICS"} {
				m.on["ARM64.Has"+n] = bit(0, 3+i)
			}
			m.on["ARM64.HasCPUID"] = bit(0, 11)
			if sys == "android" {
				m.on["ARM64.HasATOMICS"] = false // deliberately not trusted there
			}
			if bit(0, 11) {
				id := q.Words["getMIDR"][0]
				arm := id>>24&0xff == 0x41
				m.on["ARM64.IsNeoverseN1"] = arm && id>>4&0xfff == 0xd0c
				m.on["ARM64.IsZeus"] = arm && id>>4&0xfff == 0xd40
			} else {
				m.banned = append(m.banned, "getMIDR")
			}
			m.banned = append(m.banned, "getisar0")
		case "freebsd":
			f := func(i int) uint64 { return q.Words["getisar0"][0] >> uint(4*i) & 15 }
			m.on["ARM64.HasAES"], m.on["ARM64.HasPMULL"] = f(1) >= 1, f(1) >= 2
			m.on["ARM64.HasSHA1"], m.on["ARM64.HasSHA2"] = f(2) >= 1, f(3) >= 1
			m.on["ARM64.HasCRC32"], m.on["ARM64.HasATOMICS"] = f(4) >= 1, f(5) >= 2
		case "darwin":
			y := func(n string) bool { r, ok := q.Sysctl[n]; return ok && r[0] >= 0 && r[1] > 0 }
			for _, n := range []string{"AES", "PMULL", "SHA1", "SHA2"} {
				m.on["ARM64.Has"+n] = true
			}
			m.on["ARM64.HasATOMICS"], m.on["ARM64.HasCRC32"] = y("hw.optional.armv8_1_atomics"), y("hw.optional.armv8_crc32")
			m.banned = []string{"getisar0", "getMIDR"}
		default:
			m.banned = []string{"getisar0", "getMIDR"}
		}
	case "ppc64", "ppc64le":
		opt("PPC64.", "darn", "HasDARN", "scv", "HasSCV", "power9", "IsPOWER9")
		m.unjudged = []string{"PPC64.IsPOWER8"}
		if sys == "aix" {
			m.on["PPC64.IsPOWER9"] = q.Words["getsystemcfg"][0]&0x20000 != 0
		} else {
			m.on["PPC64.IsPOWER9"], m.on["PPC64.HasDARN"], m.on["PPC64.HasSCV"] = bit(1, 23), bit(1, 21), bit(1, 20)
		}
	case "mips64", "mips64le":
		opt("MIPS64X.", "msa", "HasMSA")
		m.on["MIPS64X.HasMSA"] = bit(0, 1)
	case "s390x":
		opt("S390X.", "zarch", "HasZARCH", "stfle", "HasSTFLE", "ldisp", "HasLDISP", "msa", "HasMSA", "eimm", "HasEIMM", "dfp", "HasDFP", "etf3eh", "HasETF3EH",
			"vx", "HasVX", "vxe", "HasVXE", "kdsa", "HasKDSA")
		fl := q.Words["stfle"]
		set := func(n string, v bool) { m.on["S390X.Has"+n] = v }
		for n, i := range map[string]int{"ZARCH": 1, "STFLE": 7, "LDISP": 18, "EIMM": 21, "DFP": 42, "ETF3EH": 30, "MSA": 17} {
			set(n, beBit(fl, i))
		}
		msa := beBit(fl, 17)
		has := func(n string, is ...int) bool { return msa && beAll(q.Words[n], is...) }
		set("AES", has("kmQuery", 18, 19, 20))
		set("AESCBC", has("kmcQuery", 18, 19, 20))
		set("AESCTR", beBit(fl, 77) && has("kmctrQuery", 18, 19, 20))
		set("AESGCM", beBit(fl, 146) && has("kmaQuery", 18, 19, 20))
		set("SHA1", has("kimdQuery", 1) && has("klmdQuery", 1))
		set("SHA256", has("kimdQuery", 2) && has("klmdQuery", 2))
		set("SHA512", has("kimdQuery", 3) && has("klmdQuery", 3))
		set("GHASH", has("kimdQuery", 65))
		set("SHA3", has("kimdQuery", 32, 33, 34, 35, 36, 37) && has("klmdQuery", 32, 33, 34, 35, 36, 37))
		kdsa := msa && beBit(fl, 155)
		set("KDSA", kdsa)
		set("ECDSA", kdsa && has("kdsaQuery", 1, 2, 3, 9, 10, 11))
		set("EDDSA", kdsa && has("kdsaQuery", 32, 36, 40, 44))
		set("VX", bit(0, 11))
		set("VXE", bit(0, 11) && beBit(fl, 135))
		for n, ok := range map[string]bool{"kmQuery": msa, "kmcQuery": msa, "kimdQuery": msa, "klmdQuery": msa, "kmctrQuery": msa && beBit(fl, 77),
			"kmaQuery": msa && beBit(fl, 146), "kdsaQuery": kdsa} {
			if !ok {
				m.banned = append(m.banned, n)
			}
		}
	}
	return m
}

// famOptions applies the options to the features and returns the number of warnings.
func famOptions(m *famModel, env string) int {
	warn := 0
	wish := map[string]string{}
	for _, field := range strings.Split(env, ",") {
		if !strings.HasPrefix(field, "cpu.") {
			continue
		}
		kv := strings.SplitN(field[4:], "=", 2)
		if len(kv) < 2 || kv[1] != "on" && kv[1] != "off" {
			warn++
			continue
		}
		if kv[0] == "all" {
			for o := range m.options {
				wish[o] = kv[1]
			}
		} else if _, ok := m.options[kv[0]]; ok {
			wish[kv[0]] = kv[1]
		} else {
			warn++
		}
	}
	for o, w := range wish {
		f := m.options[o]
		if w == "on" && !m.on[f] {
			warn++
		} else if w == "off" {
			m.on[f] = false
		}
	}
	return warn
}

func famEnv(r *Rand, m *famModel) string {
	names := []string{"all"}
	for o := range m.options {
		names = append(names, o)
	}
	sort.Strings(names)
	var fs []string
	for n := r.Intn(6); n > 0; n-- {
		k, v := names[r.Intn(len(names))], []string{"on", "off"}[r.Intn(2)]
		f := "cpu." + k + "=" + v
		switch r.Intn(14) {
		case 0:
			f = []string{"cpu." + k, "cpu." + k + "=", "cpu." + k + "=ON", "cpu." + strings.ToUpper(k) + "=" + v, "cpu.avx=off", "cpu.=" + v}[r.Intn(6)]
		case 1:
			f = []string{"gctrace=1", "", "cpu", "cpu.", "xcpu." + k + "=" + v}[r.Intn(5)]
		}
		fs = append(fs, f)
	}
	return strings.Join(fs, ",")
}

func famMachine(r *Rand, t string) *famReq {
	word := func() uint64 {
		switch r.Intn(6) {
		case 0:
			return 0
		case 1:
			return ^uint64(0)
		case 2:
			return 1 << uint(r.Intn(64))
		case 3:
			return ^(uint64(1) << uint(r.Intn(64)))
		case 4:
			return r.U64() | r.U64()
		}
		return r.U64()
	}
	q := &famReq{Target: t, HW: [2]uint64{word(), word()}, Words: map[string][]uint64{}, Sysctl: map[string][2]int32{}}
	if r.Intn(3) == 0 { // the bits that matter, one by one
		q.HW[0] = q.HW[0]&^0x30ffa | r.U64()&0x30ffa
		q.HW[1] = q.HW[1]&^0xb00000 | r.U64()&0xb00000
	}
	arch := t[strings.IndexByte(t, '/')+1:]
	if arch == "arm" || strings.HasPrefix(arch, "mips") && !strings.HasPrefix(arch, "mips64") {
		q.HW[0] &= 0xffffffff
		q.HW[1] &= 0xffffffff
	}
	switch arch {
	case "arm64":
		impl := []uint64{'A', 'A', 'A', 'A', 'B', 0x51, 0x61, 0, 0xff, 0xc1}[r.Intn(10)]
		part := []uint64{0xd0c, 0xd40, 0xd0c, 0xd40, 0xd0b, 0xd41, 0x0d0, 0xc0d, 0, 0xfff, 0xd4c}[r.Intn(11)]
		q.Words["getMIDR"] = []uint64{impl<<24 | part<<4 | r.U64()&0xf0000f | r.U64()<<48>>16&^0xffffffff}
		isar := r.U64() &^ 0xfffff0
		for i, vs := range [][]uint64{{0, 1, 2}, {0, 1}, {0, 1, 2}, {0, 1}, {0, 2}} {
			isar |= vs[r.Intn(len(vs))] << uint(4*(i+1))
		}
		q.Words["getisar0"] = []uint64{isar}
		for _, n := range []string{"hw.optional.armv8_1_atomics", "hw.optional.armv8_crc32"} {
			if v := r.Intn(5); v > 0 {
				q.Sysctl[n] = [][2]int32{{0, 0}, {0, 1}, {-1, 1}, {0, 1}}[v-1]
			}
		}
		for _, n := range []string{"hw.optional.armv8_2_fhm", "hw.optional.neon", "hw.optional.floatingpoint"} {
			q.Sysctl[n] = [2]int32{0, int32(r.Intn(2))}
		}
	case "ppc64", "ppc64le":
		q.Words["getsystemcfg"] = []uint64{word()}
	case "s390x":
		for n, k := range map[string]int{"stfle": 4, "kmQuery": 2, "kmcQuery": 2, "kmctrQuery": 2, "kmaQuery": 2, "kimdQuery": 2, "klmdQuery": 2, "kdsaQuery": 2} {
			q.Words[n] = make([]uint64, k)
		}
		for _, n := range []string{"stfle", "kmQuery", "kmcQuery", "kmctrQuery", "kmaQuery", "kimdQuery", "klmdQuery", "kdsaQuery"} {
			w := q.Words[n]
			dense := r.Intn(4)
			for i := range w {
				w[i] = word()
				if dense > 0 { // most functions present
					w[i] = ^(word() & word() & word())
				}
				if dense > 2 {
					w[i] = ^uint64(0)
				}
			}
			if r.Intn(2) == 0 { // everything the code may look at, but one
				for _, b := range []int{1, 2, 3, 9, 10, 11, 18, 19, 20, 32, 33, 34, 35, 36, 37, 40, 44, 65} {
					w[b/64] |= 1 << uint(63-b%64)
				}
				b := []int{1, 2, 3, 9, 10, 11, 18, 19, 20, 32, 33, 34, 35, 36, 37, 40, 44, 65}[r.Intn(18)]
				w[b/64] &^= 1 << uint(63-b%64)
			}
			if n == "stfle" && r.Intn(3) > 0 {
				for _, b := range []int{1, 7, 17, 18, 21, 30, 42, 57, 76, 77, 135, 146, 155} {
					w[b/64] &^= 1 << uint(63-b%64)
					if r.Intn(5) > 0 {
						w[b/64] |= 1 << uint(63-b%64)
					}
				}
			}
		}
	}
	return q
}

func checkC29(c *Ctx) {
	c.Rule = "one evaluation = one Initialize call of the real detection code of a processor family judged: all feature flags of all families, the name, the warnings and which instructions were executed; distinct = distinct (machine, options). 'machine_code' counts runs of the assembly functions on models of their processors."
	path := os.Getenv("VERIF_FAMILIES")
	lst, err := exec.Command(path, "list").CombinedOutput()
	if err != nil {
		panic("harness: " + err.Error())
	}
	have := map[string]bool{}
	for _, l := range strings.Fields(string(lst)) {
		have[l] = true
	}
	var ts []string
	for t := range have {
		ts = append(ts, t)
	}
	sort.Strings(ts)
	c.Count("families", int64(len(ts)))
	spun := false
	for _, t := range ts {
		t := t
		if spun {
			c.Note("family %s is left out after one that did not end", t)
			continue
		}
		c.Do("family "+t, func() {
			p := &famProbe{newCPUProbe(path)}
			defer func() { p.p.close(); spun = p.p.spun }()
			judge := func(q *famReq) bool {
				a, lines, ok := p.ask(q)
				b, _ := json.Marshal(q)
				what := string(b)
				if !ok {
					c.Fail("crash", "%s: the program ended: %.600s", what, strings.Join(lines, " | "))
					return false
				}
				m := famOracle(q)
				warn := famOptions(m, q.Env)
				c.Seen(hashS(what), true)
				var bad []string
				for f, g := range a.Features {
					if g == m.on[f] || strings.Join(m.unjudged, " ") == f {
						continue
					}
					bad = append(bad, fmt.Sprintf("%s is %v, want %v", f, g, m.on[f]))
				}
				for f, v := range m.on {
					if _, there := a.Features[f]; !there {
						c.Note("%s is not reported any more", f)
					}
					if v {
						c.Count("features_seen_on", 1)
					} else {
						c.Count("features_seen_off", 1)
					}
				}
				sort.Strings(bad)
				if len(bad) > 0 {
					c.Fail("feature:"+strings.SplitN(bad[0], " ", 2)[0], "%s: %s", what, strings.Join(bad, "; "))
				}
				if a.Name != "" {
					c.Fail("name", "%s: the processor's name is %q, there is none to be read", what, a.Name)
				}
				if len(lines) != warn {
					c.Fail("warnings", "%s: %d warnings, want %d: %q", what, len(lines), warn, lines)
				}
				for _, n := range m.banned {
					if a.Use[n] > 0 {
						c.Fail("instruction:"+n, "%s: %s is executed although the machine does not have it", what, n)
					}
				}
				for n, k := range a.Use {
					c.Count("scripted:"+n, int64(k))
				}
				if q.Env != "" && len(c.Samples) < 6 {
					c.Sample("%s -> %q", what, lines)
				}
				return true
			}
			for i := 0; i < c.N(2000, 60000); i++ {
				q := famMachine(c.R, t)
				if c.R.Intn(3) == 0 {
					q.Env = famEnv(c.R, famOracle(q))
				}
				if !judge(q) {
					return
				}
			}
			// every bit of the capability words alone and all but one
			for i := 0; i < 64; i++ {
				for k := 0; k < 4; k++ {
					q := famMachine(c.R, t)
					q.HW = [2]uint64{}
					q.HW[k&1] = 1 << uint(i)
					if k > 1 {
						q.HW[0], q.HW[1] = ^q.HW[0], ^q.HW[1]
					}
					if !judge(q) {
						return
					}
				}
			}
		})
	}
	c29Machine(c)
}

type famProbe struct{ p *cpuProbe }

func (f *famProbe) ask(q *famReq) (a famAns, lines []string, ok bool) {
	lines, ok = f.p.send(q)
	return a, lines, ok && f.p.out.Decode(&a) == nil
}
