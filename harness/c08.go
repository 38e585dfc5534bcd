package main

import (
	"bytes"
	"fmt"
)

func init() { checks["C08"] = checkC08 }

func checkC08(c *Ctx) {
	c.Rule = "one evaluation = one stream run through an instance in one way (whole, split, interleaved with other instances) with output, readers and the response to a further tail compared bit for bit with the whole run; distinct = distinct (processor, configuration, stream length, partition)."
	tail := 40
	for _, pt := range procTypes() {
		pt := pt
		before := c.Evals
		var blocks, calls int64
		// runs a stream in parts, then the tail in one block; returns everything observable
		run := func(s stream, data []byte, parts []int) []byte {
			var out []byte
			pos := 0
			for _, k := range parts {
				b := k * pt.el * pt.unit
				out = append(out, s.feed(data[pos:pos+b])...)
				pos += b
				blocks++
			}
			if s.read != nil {
				out = append(out, s.read()...)
				out = append(out, s.read()...)
			}
			calls++
			return append(append(out, '|'), s.feed(data[pos:])...)
		}
		judge := func(key, desc string, parts []int, got, want []byte) {
			if !bytes.Equal(got, want) {
				k := 0
				for k < len(got) && k < len(want) && got[k] == want[k] {
					k++
				}
				c.Fail(key+":"+pt.name, "%s (%s): %s differs from the whole run at output byte %d of %d (lengths %d, %d); blocks %v", pt.name, desc, key, k, len(want), len(got), len(want), headI(parts))
			}
		}
		// all two-way splits, and all partitions of very short streams
		for n := 0; n <= c.N(64, 160); n++ {
			c.Do(fmt.Sprintf("%s/two %d", pt.name, n), func() {
				for rep := 0; rep < 3; rep++ {
					desc, mk := pt.conf(c.R)
					data := pt.gen(c.R, (n+tail)*pt.unit)
					want := run(mk(), data, []int{n})
					for cut := 0; cut <= n; cut++ {
						p := []int{cut, n - cut}
						got := run(mk(), data, p)
						c.Seen(mix(hashS(pt.name, desc), n, cut, rep), n > 1)
						judge("split", desc, p, got, want)
					}
					ones := make([]int, n)
					for i := range ones {
						ones[i] = 1
					}
					judge("split", desc, ones, run(mk(), data, ones), want)
				}
			})
		}
		for n := 0; n <= 9; n++ {
			c.Do(fmt.Sprintf("%s/all partitions %d", pt.name, n), func() {
				desc, mk := pt.conf(c.R)
				data := pt.gen(c.R, (n+tail)*pt.unit)
				want := run(mk(), data, []int{n})
				for m := 0; m < 1<<uint(max(n-1, 0)); m++ {
					var p []int
					k := 1
					for i := 0; i < n; i++ {
						if i == n-1 || m>>uint(i)&1 == 1 {
							p = append(p, k)
							k = 1
						} else {
							k++
						}
					}
					c.Seen(mix(hashS(pt.name, desc, "p"), n, m), n > 1)
					judge("split", desc, p, run(mk(), data, p), want)
				}
			})
		}
		// random partitions of long streams, several instances interleaved
		for rep := 0; rep < c.N(200, 3000); rep++ {
			c.Do(fmt.Sprintf("%s/random %d", pt.name, rep), func() {
				desc, mk := pt.conf(c.R)
				n := 1 + c.R.Intn(c.N(3000, 12000))
				if rep%100 == 99 {
					n = 140000 + c.R.Intn(5000) // longer than any 16-bit counter
				}
				if pt.name == "Goertzel" || pt.name == "Goertzel32" || pt.name == "ComplexGoertzel" {
					n = 1 + n/4
				}
				k := 2 + c.R.Intn(3)
				var datas [][]byte
				var wants [][]byte
				var partss [][]int
				for i := 0; i < k; i++ {
					d := pt.gen(c.R, (n+tail)*pt.unit)
					if i == 1 {
						d = datas[0] // two instances with the same stream
					}
					datas = append(datas, d)
					wants = append(wants, run(mk(), d, []int{n}))
					partss = append(partss, c.R.Split(n))
				}
				judge("same-stream", desc, nil, wants[1], wants[0])
				// interleaved
				insts := make([]stream, k)
				outs := make([][]byte, k)
				pos := make([]int, k)
				idx := make([]int, k)
				for i := range insts {
					insts[i] = mk()
				}
				for left := k; left > 0; {
					left = 0
					i := c.R.Intn(k)
					for j := range insts {
						if idx[j] < len(partss[j]) {
							left++
						}
					}
					if left > 0 && idx[i] < len(partss[i]) {
						b := partss[i][idx[i]] * pt.el * pt.unit
						outs[i] = append(outs[i], insts[i].feed(datas[i][pos[i]:pos[i]+b])...)
						pos[i] += b
						idx[i]++
						blocks++
					}
				}
				for i := range insts {
					if insts[i].read != nil {
						outs[i] = append(outs[i], insts[i].read()...)
						outs[i] = append(outs[i], insts[i].read()...)
					}
					outs[i] = append(append(outs[i], '|'), insts[i].feed(datas[i][pos[i]:])...)
					c.Seen(mix(hashS(pt.name, desc, fmt.Sprint(partss[i])), n, rep, i), len(partss[i]) > 1)
					judge("interleaved", desc, partss[i], outs[i], wants[i])
				}
			})
		}
		c.Count("runs:"+pt.name, c.Evals-before)
		c.Count("blocks_fed", blocks)
		c.Count("streams", calls)
		c.Sample("%s: all two-way splits up to %d units, all partitions up to 9, %d random interleaved sets", pt.name, c.N(64, 160), c.N(200, 3000))
	}
}

func headI(p []int) []int {
	if len(p) > 20 {
		return p[:20]
	}
	return p
}
