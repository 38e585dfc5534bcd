//go:build amd64

package main

import (
	"os"
	"strings"
)

// isaReturns steps through the calls on some processors and looks at the stack and frame pointers when they return.
func isaReturns(c *Ctx) {
	c.Rule = "one evaluation = one call of a package function single-stepped on a scripted processor, with stack pointer and frame pointer read where the function begins and where it returns to; distinct = distinct (build, processor, function, length, alignment)"
	for _, arch := range []string{"amd64", "386"} {
		p := isaProgramFor(c, arch)
		if p == nil {
			continue
		}
		seen := map[uint64]struct{}{}
		for mi := range isaMachines {
			m := &isaMachines[mi]
			if mi%c.N(5, 1) != 0 && mi != len(isaMachines)-1 {
				continue
			}
			c.Do("return/"+arch+"/"+m.name, func() {
				var o isaOrder
				for _, fn := range isaFns() {
					for _, n := range []int{0, 1, 3, 8, 17, 33, 64, 65, 130} {
						o.Cases = append(o.Cases, isaCase{fn, n, [2]int{c.R.Intn(9), c.R.Intn(9)}, c.R.U64()})
					}
				}
				got := p.trace(c, m, o, seen)
				if len(got.traces) != len(o.Cases) {
					at := "before the first call"
					if len(got.traces) < len(o.Cases) {
						at = o.Cases[len(got.traces)].String()
					}
					if got.exit == 3 && len(got.traces) == 0 {
						panic("harness: " + got.ended)
					}
					c.Fail("ended:"+arch, "%s: %d of %d calls were made, then (%s) %s", m.name, len(got.traces), len(o.Cases), at, got.ended)
					return
				}
				for i, t := range got.traces {
					q := o.Cases[i]
					c.Seen(mix(hashS(arch, m.name, q.Fn), q.N, q.Off[0], q.Off[1]), t.returns > 0)
					c.Count("returns_judged_"+arch, int64(t.returns))
					for _, s := range t.bad {
						c.Fail("return:"+q.Fn, "%v on %q: %s", q, m.name, s)
					}
				}
			})
		}
	}
}

func isaProgramFor(c *Ctx, arch string) *isaProgram {
	path := os.Getenv("VERIF_ISA_" + strings.ToUpper(arch))
	if path == "" {
		c.Note("no program for %s", arch)
		return nil
	}
	asm := map[string]bool{}
	for _, n := range strings.Fields(os.Getenv("VERIF_ISA_ASM_" + strings.ToUpper(arch))) {
		asm[n] = true
	}
	p, err := loadIsaProgram(arch, path, asm)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return p
}
