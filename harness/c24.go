package main

import (
	"bytes"
	"fmt"
	"math"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/samuel/go-dsp/borip"
	"github.com/samuel/go-dsp/dsp"
	"github.com/samuel/go-dsp/dsp/ax25"
	"github.com/samuel/go-dsp/dsp/dtmf"
)

func init() { checks["C24"] = checkC24 }

// conTask is one piece of work: run may be called from any goroutine, uses only its own instances and outputs, and
// reads only shared inputs. step is called between blocks (schedule perturbation).
type conTask struct {
	name string
	run  func(step func()) []byte
}

func aligned(n int) []byte { return bytesOf(make([]uint64, n/8+2))[:n] }

func f64(v ...float64) []byte { return f64bytes(v) }

func conTasks(c *Ctx, round int) []conTask {
	r := c.R
	var ts []conTask
	add := func(name string, f func(step func()) []byte) { ts = append(ts, conTask{name, f}) }

	// slice operations on shared inputs
	for _, op := range ops {
		op := op
		n := []int{1 + r.Intn(9), 1 + r.Intn(70), 200 + r.Intn(900)}[r.Intn(3)]
		in := make([][]byte, len(op.InEl))
		lens := make([]int, len(op.InEl))
		for i := range in {
			lens[i] = n * op.InUnit[i]
			in[i] = aligned(lens[i] * op.InEl[i])
			genBytes(r, op.InKind[i], r.Intn(4), in[i])
		}
		outLen := n * op.OutUnit
		if len(op.InEl) > 0 && op.OutUnit == 0 {
			outLen = 1
		}
		scale := opScales[r.Intn(len(opScales))]
		add("op "+op.Name, func(step func()) []byte {
			var all []byte
			for k := 0; k < 3; k++ {
				out := aligned(outLen * op.OutEl)
				for i := range out {
					out[i] = 0x33
				}
				if op.Accum {
					for i := range out {
						out[i] = 0
					}
				}
				op.Call(in, out, scale)
				all = append(all, out...)
				step()
			}
			return all
		})
	}
	// stateful processors: the instances of one configuration share its tables
	for _, p := range procTypes() {
		p := p
		desc, mk := p.conf(r)
		var blocks [][]byte
		for k := 0; k < 4; k++ {
			n := r.Intn(200)
			n -= n % p.unit
			blocks = append(blocks, p.gen(r, n))
		}
		add("proc "+p.name+" "+desc, func(step func()) []byte {
			a, b := mk(), mk()
			var all []byte
			for _, blk := range blocks {
				all = append(all, a.feed(blk)...)
				step()
				all = append(all, b.feed(blk)...)
				if a.read != nil {
					all = append(all, a.read()...)
					all = append(all, b.read()...)
				}
				step()
			}
			return all
		})
	}
	// sliding DFT with a shared window
	{
		n := 8 + r.Intn(60)
		w := make([]float64, n)
		w32 := make([]float32, n)
		for i := range w { // not from the library: nothing of it may run before the first concurrent phase
			w32[i] = float32(i%5) / 8
			w[i] = float64(w32[i])
		}
		x := as[float64](genF64s(r, 300))
		k := r.Intn(n)
		add("SDFT", func(step func()) []byte {
			var o []byte
			s, s2 := dsp.NewSDFT(k, n, w), dsp.NewSDFT(k, n, nil)
			t := dsp.NewSDFT32(k, n, w32)
			for i, v := range x {
				y, y2 := s.Filter(complex(v, -v)), s2.Filter(complex(v, 0))
				z := t.Filter(complex(float32(v), 1))
				o = append(o, f64(real(y), imag(y), real(y2), imag(y2), float64(real(z)), float64(imag(z)))...)
				if i%100 == 0 {
					step()
				}
			}
			return o
		})
	}
	// filter design
	{
		var args [12]float64
		rate := r.LogU(1000, 2e6)
		for i := range args {
			args[i] = r.Range(0.01, 0.49) * rate
		}
		q := r.Range(0.3, 5)
		in := as[float64](genF64s(r, 60))
		add("biquad design", func(step func()) []byte {
			fs := []*dsp.BiQuadFilter{
				dsp.NewLowPassBiQuadFilter(rate, args[0], q), dsp.NewHighPassBiQuadFilter(rate, args[1], q),
				dsp.NewBandPassConstantSkirtGainBiQuadFilter(rate, args[2], q), dsp.NewBandPassConstantPeakGainBiQuadFilter(rate, args[3], q),
				dsp.NotchBiQuadFilter(rate, args[4], q), dsp.AllPassBiQuadFilter(rate, args[5], q), dsp.PeakingEQBiQuadFilter(rate, args[6], q, 6),
				dsp.LowShelfBiQuadFilter(rate, args[7], 0.7, -3), dsp.HighShelfBiQuadFilter(rate, args[8], 0.7, 3)}
			step()
			var o []byte
			for _, f := range fs {
				y := make([]float64, len(in))
				f.Filter(in, y)
				o = append(o, f64bytes(y)...)
				step()
			}
			return o
		})
	}
	// windows
	{
		n := r.Intn(130)
		add("windows", func(step func()) []byte {
			var o []byte
			for _, f := range []func([]float64){dsp.TriangleWindow, dsp.HammingWindow, dsp.HanningWindow, dsp.BlackmanWindow, dsp.NuttallWindow} {
				w := make([]float64, n)
				f(w)
				o = append(o, f64bytes(w)...)
				step()
			}
			for _, f := range []func([]float32){dsp.TriangleWindowF32, dsp.HammingWindowF32, dsp.HanningWindowF32, dsp.BlackmanWindowF32, dsp.NuttallWindowF32} {
				w := make([]float32, n)
				f(w)
				o = append(o, bytesOf(w)...)
				step()
			}
			return o
		})
	}
	// interpolation in shared samples
	{
		s := as[float64](genF64s(r, 8+r.Intn(60)))
		s32 := as[float32](genF32s(r, 8+r.Intn(60)))
		var xs []float64
		for i := 0; i < 60; i++ {
			xs = append(xs, r.Range(-3, 70))
		}
		add("interpolation", func(step func()) []byte {
			var o []byte
			for _, x := range xs {
				o = append(o, f64(dsp.Linear(s, x), dsp.Hermite4p3o(s, x), dsp.Optimal2x4p4o(s, x), dsp.Optimal2x6p5o(s, x))...)
				y := float32(x)
				o = append(o, f64(float64(dsp.LinearF32(s32, y)), float64(dsp.Hermite4p3oF32(s32, y)), float64(dsp.Optimal2x4p4oF32(s32, y)), float64(dsp.Optimal2x6p5oF32(s32, y)))...)
			}
			step()
			return o
		})
	}
	// scalar functions and reductions over shared inputs
	{
		v := as[float32](genF32s(r, 200))
		add("scalars", func(step func()) []byte {
			var o []byte
			for i := 0; i+3 < len(v); i++ {
				a, b := complex(v[i], v[i+1]), complex(v[i+2], v[i+3])
				o = append(o, f64(float64(dsp.FastAtan2(v[i], v[i+1])), float64(dsp.FastAtan2_2(v[i], v[i+1])), float64(dsp.FastPhase32(a)),
					float64(dsp.Phase32(b)), float64(real(dsp.Conj32(a))), float64(imag(dsp.Conj32(a))), dsp.PolarDiscriminator(complex128(a), complex128(b)), float64(dsp.PolarDiscriminator32(a, b)))...)
				x, y := int(v[i]*1000)%8000, int(v[i+1]*1000)%8000
				o = append(o, f64(float64(dsp.Atan2LUT(y, x)), float64(dsp.FastAtan2Fixed(y, x)))...)
				if i%50 == 0 {
					step()
				}
			}
			o = append(o, f64(float64(dsp.VMaxF32(v)), float64(dsp.VMinF32(v)))...)
			return o
		})
	}
	// DTMF from shared frequency sets and a shared buffer (overlapping blocks)
	{
		lo, hi := append([]uint64{}, stdLow...), append([]uint64{}, stdHigh...)
		buf := make([]float32, 1200)
		k := r.Intn(16)
		for i := range buf {
			t := 2 * math.Pi * float64(i) / 8000
			buf[i] = float32(math.Sin(t*float64(lo[k/4])) + math.Sin(t*float64(hi[k%4])) + 0.05*r.Norm())
		}
		add("DTMF", func(step func()) []byte {
			var o []byte
			for _, d := range []*dtmf.DTMF{dtmf.NewStandard(8000, 205), dtmf.New(lo, hi, 8000, 240, dsp.BlackmanWindowF32)} {
				for at := 0; at+300 < len(buf); at += 70 {
					key, th := d.Feed(buf[at : at+300])
					o = append(o, f64(float64(key), float64(th))...)
					step()
				}
			}
			return o
		})
	}
	// AX.25
	{
		var fs []*axFrame
		for i := 0; i < 5; i++ {
			fs = append(fs, r.anyFrame())
		}
		bits, _, _ := r.streamOf(fs, 100)
		add("AX25", func(step func()) []byte {
			var o []byte
			d := ax25.NewDecoder()
			var kept []*ax25.Frame
			for i, b := range bits {
				if f := d.Feed(int(b)); f != nil {
					kept = append(kept, f)
				}
				if i%200 == 0 {
					step()
				}
			}
			for _, f := range kept {
				o = append(o, fmt.Sprintf("%v %v %v %v %v %v %d %d %v %v %v %v %x\n", f.Source, f.Destination, f.Repeaters, f.V1, f.Command, f.Type, f.SendSeq, f.RecvSeq, f.PollFinal, f.UnnumberedType, f.SupervisoryType, f.PID, f.Info)...)
			}
			for i := 0; i < 256; i++ {
				o = append(o, ax25.PID(i).String()+ax25.UnnumberedType(i).String()+ax25.SupervisoryType(i).String()+ax25.FrameType(i).String()...)
			}
			return o
		})
	}
	// BorIP packets
	{
		var q []dgram
		for i := 0; i < 8; i++ {
			b := make([]byte, r.Intn(400))
			r.Bytes(b)
			q = append(q, dgram{b: b})
		}
		add("PacketReader", func(step func()) []byte {
			var o []byte
			rd := borip.NewPacketReader(&scriptConn{q: q, r: NewRand(1)}, true)
			s := make([]complex128, 33)
			for {
				n, err := rd.ReadSamples(s)
				for _, v := range s[:n] {
					o = append(o, f64(real(v), imag(v))...)
				}
				h := rd.Header()
				o = append(o, h.Flags, h.Notification, byte(h.Idx), byte(h.Idx>>8))
				if err == errNoMore {
					return o
				}
				step()
			}
		})
	}
	// BorIP client
	if round%2 == 0 {
		type exch struct {
			k    int
			call borCall
			line string
		}
		var ex []exch
		for i := 0; i < 12; i++ {
			k := r.Intn(nBorKinds)
			call := r.borCall(k)
			line, _ := r.conforming(k, call)
			if r.Intn(4) == 0 {
				line, _ = r.errReply(k, call)
			}
			ex = append(ex, exch{k, call, line})
		}
		add("BorIP client", func(step func()) []byte {
			var o []byte
			s := newBorSrv()
			defer s.ln.Close()
			bor, err := borip.Dial(s.session(reply("DEVICE -")))
			if err != nil {
				return []byte("dial: " + err.Error())
			}
			for _, e := range ex {
				s.replies <- reply(e.line)
				got, err := e.call.do(bor)
				o = append(o, fmt.Sprint(e.call.name, got, err, bor.Device() != nil)...)
				step()
			}
			for i := 0; i < 3; i++ {
				s.replies <- reply("DEVICE -")
			}
			bor.Close()
			s.wait()
			o = append(o, fmt.Sprintf("%q", s.lines())...)
			return o
		})
	}
	return ts
}

func checkC24(c *Ctx) {
	c.Rule = "one evaluation = one task (a processor history, a slice operation, a decoder, a client session) run next to the others and its output compared byte for byte with the output of the same task run alone, the race detector watching in the race build; distinct = distinct task configurations."
	workers := 16
	type span struct{ from, to int64 }
	for round := 0; round < c.N(100, 1500); round++ {
		c.Do(fmt.Sprintf("round %d", round), func() {
			ts := conTasks(c, round)
			alone := make([][]byte, len(ts))
			nop := func() {}
			var mu sync.Mutex
			var evals, steps int64
			// A goroutine of either phase synchronises with no other between its start and its end (only with the start):
			// what it does is unordered with all the others for the race detector, whatever the schedule was.
			guard := func(w int, f func()) {
				defer func() {
					if r := recover(); r != nil {
						mu.Lock()
						c.Fail("panic", "panic in goroutine %d: %v %s", w, r, trimStack(string(debug.Stack())))
						mu.Unlock()
					}
				}()
				debug.SetPanicOnFault(true)
				f()
			}
			runAlone := func() {
				for i, t := range ts {
					alone[i] = t.run(nop)
					c.Seen(hashS(c.Seed, round, t.name), true)
				}
			}
			cold := round%2 == 0
			if cold {
				// cold: the very first use of each function (round 0) and of each configuration is by all goroutines at once
				got := make([][][]byte, len(ts))
				for i := range ts {
					got[i] = make([][]byte, workers)
					start := make(chan struct{})
					var wg sync.WaitGroup
					for w := 0; w < workers; w++ {
						w := w
						rw := NewRand(c.R.U64())
						wg.Add(1)
						go func() {
							defer wg.Done()
							guard(w, func() {
								step := func() {
									if rw.Intn(4) == 0 {
										runtime.Gosched()
									}
								}
								<-start
								got[i][w] = ts[i].run(step)
							})
						}()
					}
					close(start)
					wg.Wait()
				}
				runAlone()
				for i := range ts {
					for w := range got[i] {
						evals++
						if got[i][w] != nil && !bytes.Equal(got[i][w], alone[i]) {
							c.Fail("differs:"+keyOf(ts[i].name)+" "+secondWord(ts[i].name), "%s: the result of the first, concurrent use differs from the result alone (goroutine %d)", ts[i].name, w)
						}
					}
				}
				c.Count("cold_starts", int64(len(ts)))
			} else {
				runAlone()
			}
			spans := make([][]span, workers)
			stepsOf := make([]int64, workers)
			bad := make([][]string, workers)
			start := make(chan struct{})
			var wg sync.WaitGroup
			t0 := time.Now()
			for w := 0; w < workers; w++ {
				rw := NewRand(c.R.U64())
				w := w
				wg.Add(1)
				go func() {
					defer wg.Done()
					guard(w, func() {
						step := func() {
							stepsOf[w]++
							if rw.Intn(3) == 0 {
								runtime.Gosched()
							}
						}
						<-start
						for pass := 0; pass < 2; pass++ {
							off := rw.Intn(len(ts))
							if pass == 1 {
								off = round % len(ts) // everybody in the same order: the same task at the same time
							}
							for j := range ts {
								i := (j + off) % len(ts)
								if pass == 0 {
									i = (j*7 + off) % len(ts)
								}
								from := int64(time.Since(t0))
								got := ts[i].run(step)
								spans[w] = append(spans[w], span{from, int64(time.Since(t0))})
								if !bytes.Equal(got, alone[i]) {
									bad[w] = append(bad[w], fmt.Sprintf("%s\x00(goroutine %d, pass %d)", ts[i].name, w, pass))
								}
							}
						}
					})
				}()
			}
			close(start)
			wg.Wait()
			for w := range bad {
				for _, b := range bad[w] {
					name, where, _ := strings.Cut(b, "\x00")
					c.Fail("differs:"+keyOf(name)+" "+secondWord(name), "%s: the result next to other goroutines differs from the result alone %s", name, where)
				}
				steps += stepsOf[w]
				evals += int64(len(spans[w]))
			}
			// and once more alone: nothing was left behind
			for i, t := range ts {
				if !bytes.Equal(t.run(nop), alone[i]) {
					c.Fail("after:"+keyOf(t.name)+" "+secondWord(t.name), "%s: the result after the concurrent phase differs from the result before", t.name)
				}
				evals++
			}
			c.Evals += evals
			c.Count("concurrent_task_runs", evals)
			c.Count("schedule_points", steps)
			// how many task runs were under way at the same time, from the recorded start and end times
			type ev struct {
				t int64
				d int64
			}
			var evs []ev
			for w := range spans {
				for _, s := range spans[w] {
					evs = append(evs, ev{s.from, 1}, ev{s.to, -1})
				}
			}
			sort.Slice(evs, func(i, j int) bool {
				if evs[i].t != evs[j].t {
					return evs[i].t < evs[j].t
				}
				return evs[i].d < evs[j].d
			})
			var live int64
			for _, e := range evs {
				live += e.d
				if live > c.Counters["max_tasks_in_flight"] {
					c.Counters["max_tasks_in_flight"] = live
				}
			}
			c.Counters["tasks_per_round"] = int64(len(ts))
			c.Counters["goroutines"] = int64(workers)
		})
	}
	c.Sample("tasks: every slice operation, every processor type, SDFT, design, windows, interpolation, scalars, DTMF, AX.25, packet reader, BorIP client")
}

func secondWord(s string) string {
	var a, b string
	fmt.Sscan(s, &a, &b)
	return b
}
