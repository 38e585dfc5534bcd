package main

import (
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"os"
	"strings"
)

// The machine code of the functions behind the detection of S390X and ARM64, which the families program replaces by
// tables: it is run on small models of these processors whose special instructions are scripted.

// asmFuncs reads the listing of an object file: the code of each function.
func asmFuncs(path string) (map[string][]byte, []string) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, nil
	}
	fs, order, cur := map[string][]byte{}, []string{}, ""
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "TEXT ") {
			cur = strings.Fields(l)[1]
			cur = strings.TrimSuffix(cur[strings.LastIndexByte(cur, '.')+1:], "(SB)")
			if _, ok := fs[cur]; !ok {
				order = append(order, cur)
				fs[cur] = nil
			}
			continue
		}
		f := strings.Fields(l)
		if cur == "" || len(f) < 3 || !strings.Contains(f[0], ":") {
			continue
		}
		if h, err := hex.DecodeString(f[2]); err == nil {
			fs[cur] = append(fs[cur], h...)
		}
	}
	return fs, order
}

type asmStop struct {
	unknown bool
	what    string
}

const asmBase, asmSP = 0x10000, 0x10800 // the stack's memory, and the stack pointer at entry; the return value is at asmSP+8

type asmMachine struct {
	mem   [4096]byte
	wrote [4096]bool
	r     [32]uint64
	rnd   *Rand
	used  []string
}

func (m *asmMachine) at(a uint64, n int, write bool) []byte {
	if a < asmBase || a+uint64(n) > asmBase+uint64(len(m.mem)) {
		panic(asmStop{what: fmt.Sprintf("access to %#x, which is none of the function's memory", a)})
	}
	i := int(a - asmBase)
	if write {
		for k := i; k < i+n; k++ {
			m.wrote[k] = true
		}
	}
	return m.mem[i : i+n]
}

// run ends with nil at the return, or tells why it stops before.
func (m *asmMachine) run(code []byte, step func(code []byte, pc int) (int, bool)) (stop *asmStop) {
	defer func() {
		if e := recover(); e != nil {
			s, ok := e.(asmStop)
			if !ok {
				panic(e)
			}
			stop = &s
		}
	}()
	for i := range m.mem {
		m.mem[i] = byte(m.rnd.U64())
	}
	for i := range m.r {
		m.r[i] = m.rnd.U64()
	}
	for pc, n := 0, 0; ; n++ {
		if pc < 0 || pc >= len(code) {
			return &asmStop{what: "it runs beyond its end"}
		}
		if n > 10000 {
			return &asmStop{what: "it does not return"}
		}
		next, done := step(code, pc)
		if done {
			return nil
		}
		pc = next
	}
}

var asmQueries = map[uint16]string{0xb92e: "km", 0xb92f: "kmc", 0xb92d: "kmctr", 0xb929: "kma", 0xb93e: "kimd", 0xb93f: "klmd", 0xb93a: "kdsa", 0xb92a: "kmf", 0xb92b: "kmo", 0xb91e: "kmac", 0xb928: "pckmo", 0xb92c: "pcc", 0xb93c: "ppno"}

// runS390X calls a function of no arguments; blocks are the answers of the query functions, fac those of STFLE.
func (m *asmMachine) runS390X(code []byte, blocks map[string][16]byte, fac []uint64) *asmStop {
	first := true
	return m.run(code, func(code []byte, pc int) (int, bool) {
		if first {
			first = false
			m.r[15], m.r[14] = asmSP, 0xfffffffffffffff0
		}
		n := []int{2, 4, 4, 6}[code[pc]>>6]
		if pc+n > len(code) {
			return len(code), false
		}
		c := code[pc : pc+n]
		op := uint16(c[0])<<8 | uint16(c[1])
		r1, lo := int(c[1]>>4), c[1]&15
		base := func(b byte, d uint64) uint64 {
			if b&15 == 0 {
				return d
			}
			return m.r[b&15] + d
		}
		unknown := func() { panic(asmStop{unknown: true, what: "instruction " + hex.EncodeToString(c)}) }
		switch {
		case op == 0x07fe:
			if m.r[14] != 0xfffffffffffffff0 {
				panic(asmStop{what: "it returns to somewhere else"})
			}
			if m.r[15] != asmSP {
				panic(asmStop{what: "it changes the stack pointer"})
			}
			return 0, true
		case op&0xfff0 == 0x0700, op == 0x1800 && n == 2: // no operation
		case c[0] == 0x41: // LA
			m.r[r1] = base(c[2]>>4, base(lo, uint64(c[2]&15)<<8|uint64(c[3])))
		case c[0] == 0xa7 && lo == 9: // LGHI
			m.r[r1] = uint64(int64(int16(binary.BigEndian.Uint16(c[2:]))))
		case c[0] == 0xa7 && lo == 0xb: // AGHI
			m.r[r1] += uint64(int64(int16(binary.BigEndian.Uint16(c[2:]))))
		case c[0] == 0xa5 && lo == 0xf: // LLILL
			m.r[r1] = uint64(binary.BigEndian.Uint16(c[2:]))
		case c[0] == 0xc0 && lo == 1: // LGFI
			m.r[r1] = uint64(int64(int32(binary.BigEndian.Uint32(c[2:]))))
		case c[0] == 0xc0 && lo == 0xf: // LLILF
			m.r[r1] = uint64(binary.BigEndian.Uint32(c[2:]))
		case op == 0xb904: // LGR
			m.r[c[3]>>4] = m.r[c[3]&15]
		case op == 0xb982: // XGR
			m.r[c[3]>>4] ^= m.r[c[3]&15]
		case c[0] == 0xe3:
			d := int64(int8(c[4]))<<12 | int64(c[2]&15)<<8 | int64(c[3])
			a := base(c[2]>>4, base(lo, uint64(d)))
			switch c[5] {
			case 0x71: // LAY
				m.r[r1] = a
			case 0x04: // LG
				m.r[r1] = binary.BigEndian.Uint64(m.at(a, 8, false))
			case 0x24: // STG
				binary.BigEndian.PutUint64(m.at(a, 8, true), m.r[r1])
			default:
				unknown()
			}
		case op == 0xe548: // MVGHI
			a := base(c[2]>>4, uint64(c[2]&15)<<8|uint64(c[3]))
			binary.BigEndian.PutUint64(m.at(a, 8, true), uint64(int64(int16(binary.BigEndian.Uint16(c[4:])))))
		case c[0] == 0xeb && (c[5] == 0x24 || c[5] == 0x04): // STMG, LMG
			a := base(c[2]>>4, uint64(int64(int8(c[4]))<<12|int64(c[2]&15)<<8|int64(c[3])))
			for i := r1; ; i = (i + 1) & 15 {
				if c[5] == 0x24 {
					binary.BigEndian.PutUint64(m.at(a, 8, true), m.r[i])
				} else {
					m.r[i] = binary.BigEndian.Uint64(m.at(a, 8, false))
				}
				if a += 8; i == int(lo) {
					break
				}
			}
		case c[0] == 0xd7 || c[0] == 0xd2: // XC, MVC
			l := int(c[1]) + 1
			d := base(c[2]>>4, uint64(c[2]&15)<<8|uint64(c[3]))
			s := base(c[4]>>4, uint64(c[4]&15)<<8|uint64(c[5]))
			for i := 0; i < l; i++ {
				v := m.at(s+uint64(i), 1, false)[0]
				o := m.at(d+uint64(i), 1, true)
				if c[0] == 0xd7 {
					v ^= o[0]
				}
				o[0] = v
			}
		case op == 0xb2b0: // STFLE
			a := base(c[2]>>4, uint64(c[2]&15)<<8|uint64(c[3]))
			if a&7 != 0 {
				panic(asmStop{what: "STFLE at an address that is not a multiple of eight"})
			}
			m.used = append(m.used, "stfle")
			k := int(m.r[0]&0xff) + 1
			for i := 0; i < k && i < len(fac); i++ {
				binary.BigEndian.PutUint64(m.at(a+uint64(8*i), 8, true), fac[i])
			}
			m.r[0] = m.r[0]&^0xff | uint64(len(fac)-1)
		default:
			q, ok := asmQueries[op]
			if !ok {
				unknown()
			}
			m.used = append(m.used, q)
			x, y, z := c[3]>>4, c[3]&15, c[2]>>4
			bad := func(r byte) bool { return r == 0 || r&1 == 1 }
			switch q {
			case "km", "kmc", "kmf", "kmo":
				ok = !bad(x) && !bad(y)
			case "kmctr", "kma":
				ok = !bad(x) && !bad(y) && !bad(z)
			case "kimd", "klmd", "kdsa", "kmac":
				ok = !bad(y)
			}
			if !ok {
				panic(asmStop{what: fmt.Sprintf("%s with registers that give a specification exception (%x)", q, c)})
			}
			if m.r[0]&0x7f != 0 {
				panic(asmStop{what: fmt.Sprintf("%s executes its function %d, which is not the query", q, m.r[0]&0x7f)})
			}
			b, ok := blocks[q]
			if !ok {
				panic(asmStop{what: q + " is executed"})
			}
			copy(m.at(m.r[1], 16, true), b[:])
		}
		return pc + n, false
	})
}

// runARM64 calls a function of no arguments; regs are the system registers by the MRS instruction that reads them to X0.
func (m *asmMachine) runARM64(code []byte, regs map[uint32]uint64) *asmStop {
	first := true
	return m.run(code, func(code []byte, pc int) (int, bool) {
		if first {
			first = false
			m.r[31], m.r[30] = asmSP, 0xfffffffffffffff0
		}
		if pc+4 > len(code) {
			return len(code), false
		}
		w := binary.BigEndian.Uint32(code[pc:]) // the listing shows words
		rd, rn := int(w&31), int(w>>5&31)
		x := func(r int) uint64 {
			if r == 31 {
				return 0
			}
			return m.r[r]
		}
		set := func(r int, v uint64) {
			if r != 31 {
				m.r[r] = v
			}
		}
		imm := uint64(w >> 10 & 0xfff)
		s9 := uint64(int64(int32(w<<11)) >> 23)
		switch {
		case w == 0xd65f03c0:
			if m.r[30] != 0xfffffffffffffff0 {
				panic(asmStop{what: "it returns to somewhere else"})
			}
			if m.r[31] != asmSP {
				panic(asmStop{what: "it changes the stack pointer"})
			}
			return 0, true
		case w&0xfffff01f == 0xd503201f, w&0xfffff01f == 0xd503301f: // hints, barriers
		case w&0xfff00000 == 0xd5300000: // MRS
			v, ok := regs[w&^31]
			if !ok {
				panic(asmStop{what: fmt.Sprintf("it reads another system register (%08x)", w)})
			}
			m.used = append(m.used, "mrs")
			set(rd, v)
		case w&0xffc00000 == 0xf9000000: // STR X
			binary.LittleEndian.PutUint64(m.at(m.r[rn]+imm*8, 8, true), x(rd))
		case w&0xffc00000 == 0xf9400000: // LDR X
			set(rd, binary.LittleEndian.Uint64(m.at(m.r[rn]+imm*8, 8, false)))
		case w&0xffc00000 == 0xb9000000: // STR W
			binary.LittleEndian.PutUint32(m.at(m.r[rn]+imm*4, 4, true), uint32(x(rd)))
		case w&0xffe00000 == 0xf8000000, w&0xffe00000 == 0xf8400000: // STUR, LDUR, pre- and post-indexed
			a := m.r[rn]
			if w>>10&3 != 1 {
				a += s9
			}
			if w>>22&1 == 0 {
				binary.LittleEndian.PutUint64(m.at(a, 8, true), x(rd))
			} else {
				set(rd, binary.LittleEndian.Uint64(m.at(a, 8, false)))
			}
			switch w >> 10 & 3 {
			case 1:
				m.r[rn] += s9
			case 3:
				m.r[rn] = a
			case 2:
				panic(asmStop{unknown: true, what: fmt.Sprintf("instruction %08x", w)})
			}
		case w&0xff800000 == 0x91000000: // ADD
			m.r[rd] = m.r[rn] + imm<<(w>>22&1*12)
		case w&0xff800000 == 0xd1000000: // SUB
			m.r[rd] = m.r[rn] - imm<<(w>>22&1*12)
		case w&0xffe0ffe0 == 0xaa0003e0: // MOV
			set(rd, x(int(w>>16&31)))
		case w&0xff800000 == 0xd2800000: // MOVZ
			set(rd, uint64(w>>5&0xffff)<<(16*(w>>21&3)))
		default:
			panic(asmStop{unknown: true, what: fmt.Sprintf("instruction %08x", w)})
		}
		return pc + 4, false
	})
}

func c29Machine(c *Ctx) {
	noted := map[string]bool{}
	judge := func(arch, name string, m *asmMachine, stop *asmStop, want []byte) {
		what := arch + " " + name
		if stop != nil && stop.unknown {
			if noted[what] {
				return
			}
			noted[what] = true
			c.Note("%s is not judged: %s", what, stop.what)
			return
		}
		c.Count("machine_code:"+what, 1)
		c.Seen(m.rnd.U64(), true)
		if stop != nil {
			c.Fail("machine:"+name, "%s, run on a scripted processor: %s", what, stop.what)
			return
		}
		i := asmSP + 8 - asmBase
		if string(m.mem[i:i+len(want)]) != string(want) {
			c.Fail("machine:"+name, "%s, run on a scripted processor, returns %x, the processor said %x (instructions used: %v)", what, m.mem[i:i+len(want)], want, m.used)
			return
		}
		for k, w := range m.wrote {
			if w && k >= asmSP-asmBase && (k < i || k >= i+len(want)) {
				c.Fail("machine:"+name, "%s, run on a scripted processor, writes %d bytes from its result", what, k-i)
				return
			}
		}
	}
	s390x, order := asmFuncs(os.Getenv("VERIF_S390X"))
	for _, name := range order {
		q := strings.TrimSuffix(name, "Query")
		code, known := s390x[name], name == "stfle"
		for _, n := range asmQueries {
			known = known || n == q && q != name
		}
		if !known {
			c.Note("s390x %s is not judged: not known", name)
			continue
		}
		c.Do("machine s390x "+name, func() {
			for i := 0; i < c.N(200, 2000); i++ {
				m := &asmMachine{rnd: c.R}
				if name == "stfle" {
					fac := make([]uint64, []int{1, 2, 3, 4, 5, 30}[i%6])
					for j := range fac {
						fac[j] = c.R.U64()
					}
					want := make([]byte, 32)
					for j := 0; j < 4 && j < len(fac); j++ {
						binary.BigEndian.PutUint64(want[8*j:], fac[j])
					}
					judge("s390x", name, m, m.runS390X(code, nil, fac), want)
					continue
				}
				var b [16]byte
				for j := range b {
					b[j] = byte(c.R.U64())
				}
				judge("s390x", name, m, m.runS390X(code, map[string][16]byte{q: b}, nil), b[:])
			}
		})
	}
	arm64, order := asmFuncs(os.Getenv("VERIF_ARM64"))
	for _, name := range order {
		name := name
		ins, known := map[string]uint32{"getisar0": 0xd5380600, "getMIDR": 0xd5380000}[name]
		if !known {
			c.Note("arm64 %s is not judged: not known", name)
			continue
		}
		c.Do("machine arm64 "+name, func() {
			for i := 0; i < c.N(200, 2000); i++ {
				m := &asmMachine{rnd: c.R}
				v := c.R.U64()
				want := make([]byte, 8)
				binary.LittleEndian.PutUint64(want, v)
				judge("arm64", name, m, m.runARM64(arm64[name], map[uint32]uint64{ins: v}), want)
			}
		})
	}
}
