package main

import (
	"bytes"
	"fmt"
	"runtime"
	"syscall"
	"unsafe"
)

// Slices of more than 2^31 and 2^32 bytes and elements. Real memory is needed only where values are compared: the bulk of a
// slice is one 4 MB block mapped again and again, the windows around the interesting positions are memory of their own, and both
// ends lie against inaccessible pages.

const (
	hugeBlock = 4 << 20
)

type hugeMem struct {
	base  uintptr
	total int
	b     []byte // the slice
	win   [][2]int
}

func rawMap(addr uintptr, n int, prot, flags int, fd uintptr) uintptr {
	p, _, e := syscall.Syscall6(syscall.SYS_MMAP, addr, uintptr(n), uintptr(prot), uintptr(flags), fd, 0)
	if e != 0 {
		panic(fmt.Sprintf("harness: mmap of %d bytes: %v", n, e))
	}
	return p
}

func memfd() uintptr {
	name := []byte("huge\x00")
	fd, _, e := syscall.Syscall(319, uintptr(unsafe.Pointer(&name[0])), 1, 0)
	if e != 0 {
		panic("harness: memfd_create: " + e.Error())
	}
	if e := syscall.Ftruncate(int(fd), hugeBlock); e != nil {
		panic("harness: ftruncate: " + e.Error())
	}
	return fd
}

// newHuge makes a slice of n bytes whose end (or start, when atStart is set) lies at an inaccessible page, with its own memory around the
// given byte positions and at both ends.
func newHuge(n int, atStart bool, at []int) *hugeMem {
	const none = syscall.PROT_NONE
	const rw = syscall.PROT_READ | syscall.PROT_WRITE
	body := (n + pageSize - 1) / pageSize * pageSize
	h := &hugeMem{total: body + 2*pageSize}
	h.base = rawMap(0, h.total, none, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE, ^uintptr(0))
	fd := memfd()
	lo := h.base + pageSize
	for o := 0; o < body; o += hugeBlock {
		l := hugeBlock
		if o+l > body {
			l = body - o
		}
		rawMap(lo+uintptr(o), l, rw, syscall.MAP_SHARED|syscall.MAP_FIXED|0x8000, fd) // populated at once
	}
	syscall.Close(int(fd))
	off := body - n
	if atStart {
		off = 0
	}
	for _, p := range append([]int{0, n}, at...) {
		a, b := (p+off-hugeWindow)&^(pageSize-1), (p+off+hugeWindow+pageSize-1)&^(pageSize-1)
		if a < 0 {
			a = 0
		}
		if b > body {
			b = body
		}
		if a >= b {
			continue
		}
		rawMap(lo+uintptr(a), b-a, rw, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_FIXED|0x8000, ^uintptr(0))
		x, y := a-off, b-off
		if x < 0 {
			x = 0
		}
		if y > n {
			y = n
		}
		h.win = append(h.win, [2]int{x, y})
	}
	p := lo + uintptr(off)
	h.b = unsafe.Slice((*byte)(*(*unsafe.Pointer)(unsafe.Pointer(&p))), n)
	return h
}

func (h *hugeMem) free() {
	syscall.Syscall(syscall.SYS_MUNMAP, h.base, uintptr(h.total), 0)
}

// gen puts generated values into the shared block and into every window.
func (h *hugeMem) gen(r *Rand, kind string, mode int) {
	blk := len(h.b)
	if blk > hugeBlock+2*hugeWindow {
		o := hugeWindow * 2 // past the first window
		for o%8 != 0 {
			o++
		}
		genBytes(r, kind, mode, h.b[o:o+hugeBlock])
	}
	for _, w := range h.win {
		a := (w[0] + 7) &^ 7
		genBytes(r, kind, mode, h.b[a:w[1]&^7])
	}
}

func hugeOK(c *Ctx) bool {
	return c.Variant == "amd64" && runtime.GOARCH == "amd64"
}

// huge runs one operation on slices whose length crosses the given number of units.
func huge(c *Ctx, op *Op, tag string, n int, atStart bool) {
	c.Do(op.Name+"/huge"+tag+" "+itoa(n), func() {
		var at []int // in units
		for _, bits := range []uint{31, 32} {
			at = append(at, 1<<bits)
			for i := range op.InEl {
				at = append(at, 1<<bits/(op.InEl[i]*op.InUnit[i]))
			}
			at = append(at, 1<<bits/(op.OutEl*op.OutUnit))
		}
		mem := func(unit int) *hugeMem {
			var p []int
			for _, u := range at {
				if u < n {
					p = append(p, u*unit)
				}
			}
			return newHuge(n*unit, atStart, p)
		}
		var ins [][]byte
		for i := range op.InEl {
			h := mem(op.InEl[i] * op.InUnit[i])
			defer h.free()
			h.gen(c.R, op.InKind[i], 1)
			ins = append(ins, h.b)
		}
		ub := op.OutEl * op.OutUnit
		o := mem(ub)
		defer o.free()
		var prev [][]byte
		if op.Accum {
			o.gen(c.R, op.InKind[0], 1)
		}
		for _, w := range o.win {
			if !op.Accum {
				fill(o.b[w[0]:w[1]], 0xA7)
			}
			prev = append(prev, append([]byte(nil), o.b[w[0]:w[1]]...))
		}
		scale := 0.75
		if op.IntOut {
			scale = 32767
		}
		op.Call(ins, o.b, scale)
		var want [16]byte
		in := make([][]byte, len(ins))
		for k, w := range o.win {
			bad := 0
			for u := (w[0] + ub - 1) / ub; (u+1)*ub <= w[1] && bad < 2; u++ {
				for i := range ins {
					s := op.InEl[i] * op.InUnit[i]
					in[i] = ins[i][u*s : u*s+s]
				}
				pv := prev[k][u*ub-w[0] : u*ub-w[0]+ub]
				exact := op.Model(in, pv, scale, want[:ub])
				got := o.b[u*ub : u*ub+ub]
				if exact && op.Same != nil && !op.Same(in, got, want[:ub]) || exact && op.Same == nil && !bytes.Equal(got, want[:ub]) {
					c.Fail("huge:"+op.Name, "%s: unit %d of %d: input %x scale %g -> %x, want %x", op.Name, u, n, in, scale, got, want[:ub])
					bad++
				}
				c.Count("huge_units", 1)
			}
		}
		c.Seen(mix(hashS(op.Name, "huge", tag), n, btoi(atStart)), true)
		c.Count("huge_calls", 1)
		c.Count("huge_bytes", int64(len(o.b)))
	})
}

// hugeOps covers every selected operation: the largest slice crosses 2^32 bytes, and the number of units 2^32 (or, quick, 2^31 where a unit is large).
func hugeOps(c *Ctx, sel func(*Op) bool) {
	if !hugeOK(c) {
		return
	}
	for _, op := range ops {
		if !sel(op) {
			continue
		}
		big := op.OutEl * op.OutUnit
		for i := range op.InEl {
			if k := op.InEl[i] * op.InUnit[i]; k > big {
				big = k
			}
		}
		huge(c, op, "", 1<<32/big+4099, false)
		if big <= 8 || c.Thorough() {
			huge(c, op, "", 1<<32+4103, true)
		} else {
			huge(c, op, "", 1<<31+4101, true)
		}
		if c.Thorough() {
			huge(c, op, "", 1<<31+4101, false)
		}
	}
}

// hugeReduce has the extreme element beyond, at and before the 2^31 and 2^32 boundaries.
func hugeReduce(c *Ctx, name string, f func([]float32) float32, isMax bool) {
	if !hugeOK(c) {
		return
	}
	sizes := []int{1<<32 + 4103}
	if c.Thorough() {
		sizes = append(sizes, 1<<30+4099, 1<<31+4101)
	}
	for _, n := range sizes {
		c.Do(name+"/huge "+itoa(n), func() {
			pos := []int{n - 1, 1 << 30}
			if c.Thorough() {
				pos = append(pos, 0, n-17)
				for _, p := range []int{1 << 29, 1 << 30, 1 << 31, 1 << 32} {
					pos = append(pos, p-1, p, p+1)
				}
			}
			var at []int
			for _, p := range pos {
				if p < n {
					at = append(at, 4*p)
				}
			}
			h := newHuge(4*n, false, at)
			defer h.free()
			v := as[float32](h.b)
			for _, p := range pos {
				if p >= n {
					continue
				}
				v[p] = -3
				if isMax {
					v[p] = 3
				}
				want := v[p]
				if got := f(v); got != want {
					c.Fail("huge:"+name, "%s: %d elements, all 0 except index %d = %v: got %v", name, n, p, want, got)
				}
				v[p] = 0
				c.Seen(mix(hashS(name, "huge"), n, p), true)
				c.Count("huge_calls", 1)
			}
		})
	}
}
