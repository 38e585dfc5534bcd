package main

import (
	"bytes"
	"syscall"
	"unsafe"
)

const hugeWindow = 16 << 10

// reserve maps n bytes of zeroes that take memory only where they are written; nil: no address space for them.
func reserve(n int) []byte {
	call := uintptr(syscall.SYS_MMAP)
	if unsafe.Sizeof(call) == 4 {
		call = 192 // mmap2
	}
	p, _, e := syscall.Syscall6(call, 0, uintptr(n), syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE, ^uintptr(0), 0)
	if e != 0 {
		return nil
	}
	return unsafe.Slice((*byte)(*(*unsafe.Pointer)(unsafe.Pointer(&p))), n)
}

func unreserve(b []byte) {
	syscall.Syscall(syscall.SYS_MUNMAP, uintptr(unsafe.Pointer(unsafe.SliceData(b))), uintptr(len(b)), 0)
}

// hugeSizes are numbers of units at which 32-bit lengths in units or bytes go wrong.
func hugeSizes(unit int) []int {
	if unsafe.Sizeof(unit) == 4 {
		return []int{(1<<31 - 4096) / unit, 1 << 30 / unit, 1<<30/unit + 33}
	}
	big := 1 << (31 * (unsafe.Sizeof(unit) / 8)) // not a constant expression that 32-bit builds refuse
	return []int{big + 1, big + 200, 2*big + 1, 2*big + 200, big/unit + 1, 2*big/unit + 33}
}

// hugeMismatch runs one operation with one huge slice and the others short: the shortest one decides.
func hugeMismatch(c *Ctx, op *Op) {
	const short = 101
	scale := 0.75
	if op.IntOut {
		scale = 32767
	}
	for k := 0; k <= len(op.InEl); k++ { // k == len: the output
		unit := op.OutEl * op.OutUnit
		if k < len(op.InEl) {
			unit = op.InEl[k] * op.InUnit[k]
		}
		for _, n := range hugeSizes(unit) {
			c.Do(op.Name+"/mismatch "+itoa(k)+" "+itoa(n), func() {
				var ms [][]byte
				alloc := func(i, unit int) []byte {
					l := short * unit
					if i == k {
						l = n * unit
					}
					b := reserve(l)
					if b != nil {
						ms = append(ms, b)
					}
					return b
				}
				defer func() {
					for _, m := range ms {
						unreserve(m)
					}
				}()
				var ins [][]byte
				for i := range op.InEl {
					b := alloc(i, op.InEl[i]*op.InUnit[i])
					if len(b) == 0 {
						c.Count("huge_no_address_space", 1)
						return
					}
					genBytes(c.R, op.InKind[i], 1, b[:short*op.InEl[i]*op.InUnit[i]])
					ins = append(ins, b)
				}
				ub := op.OutEl * op.OutUnit
				out := alloc(len(ins), ub)
				if len(out) == 0 {
					c.Count("huge_no_address_space", 1)
					return
				}
				see := out[:short*ub]
				if len(out) > len(see) {
					see = out[:short*ub+hugeWindow]
				}
				if op.Accum {
					genBytes(c.R, op.InKind[0], 1, see)
				} else {
					fill(see, 0xA7)
				}
				prev := append([]byte(nil), see...)
				op.Call(ins, out, scale)
				var want [16]byte
				in := make([][]byte, len(ins))
				for u := 0; u < short; u++ {
					for i := range ins {
						s := op.InEl[i] * op.InUnit[i]
						in[i] = ins[i][u*s : u*s+s]
					}
					exact := op.Model(in, prev[u*ub:u*ub+ub], scale, want[:ub])
					got := see[u*ub : u*ub+ub]
					if exact && op.Same != nil && !op.Same(in, got, want[:ub]) || exact && op.Same == nil && !bytes.Equal(got, want[:ub]) {
						c.Fail("mismatch:"+op.Name, "%s: slice %d of %d units, the others of %d: unit %d: input %x scale %g -> %x, want %x", op.Name, k, n, short, u, in, scale, got, want[:ub])
						break
					}
				}
				if !bytes.Equal(see[short*ub:], prev[short*ub:]) {
					c.Fail("mismatch:"+op.Name, "%s: slice %d of %d units, the others of %d: output beyond unit %d was changed", op.Name, k, n, short, short)
				}
				c.Seen(mix(hashS(op.Name, "mismatch"), k, n), true)
				c.Count("huge_mismatch_calls", 1)
			})
		}
	}
}
