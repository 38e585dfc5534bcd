package main

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"github.com/samuel/go-dsp/borip"
	"github.com/samuel/go-dsp/dsp"
	"github.com/samuel/go-dsp/dsp/ax25"
	"github.com/samuel/go-dsp/dsp/dtmf"
)

func init() { checks["C34"] = checkC34 }

// held is what is in use once nothing but live data is left.
type held struct {
	heap    int64
	objects int64
	gor     int
	fds     int
}

func settled(fds bool) held {
	var h held
	for i := 0; i < 3; i++ { // finalizers and pools need more than one collection
		runtime.GC()
	}
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	h.heap, h.objects = int64(ms.HeapAlloc), int64(ms.Mallocs-ms.Frees)
	h.gor = runtime.NumGoroutine()
	if fds {
		e, _ := os.ReadDir("/proc/self/fd")
		h.fds = len(e)
	}
	return h
}

// threadCPU is the processor time of this thread (the checks run locked to it).
func threadCPU() time.Duration {
	var ts syscall.Timespec
	if _, _, e := syscall.RawSyscall(syscall.SYS_CLOCK_GETTIME, 3, uintptr(unsafe.Pointer(&ts)), 0); e != 0 {
		return 0
	}
	return time.Duration(ts.Nano())
}

const (
	heldSlack = 96 << 10 // growth of the heap that is not put down to the subject
	longer    = 8        // how much more work the long run does
)

// steady runs batches of n steps and compares what is held, what is allocated and how long it takes early and late. The work of every
// batch is the same, so none of the three has a reason to grow. cpu is false where other goroutines share the work.
func steady(c *Ctx, key, what string, n int, cpu bool, mk func() (step func(i int), done func())) {
	c.Do(key+"/"+what, func() {
		step, done := mk()
		batch := func() (alloc int64, t time.Duration) {
			var a, b runtime.MemStats
			runtime.ReadMemStats(&a)
			t0 := threadCPU()
			for i := 0; i < n; i++ {
				step(i)
			}
			t = threadCPU() - t0
			runtime.ReadMemStats(&b)
			return int64(b.TotalAlloc - a.TotalAlloc), t
		}
		batch() // caches and tables that are filled once
		h0 := settled(!cpu)
		var early, late []time.Duration
		a0, t := batch()
		early = append(early, t)
		for i := 0; i < 2; i++ {
			_, t = batch()
			early = append(early, t)
		}
		for i := 0; i < longer-2; i++ {
			batch()
		}
		var a1 int64
		for i := 0; i < 3; i++ {
			a1, t = batch()
			late = append(late, t)
		}
		h1 := settled(!cpu)
		for t := 0; t < 300 && !cpu && (h1.gor > h0.gor || h1.fds > h0.fds); t++ { // what is closed ends a little later
			time.Sleep(10 * time.Millisecond)
			h1 = settled(true)
		}
		steps := int64(n) * (longer + 4)
		c.Evals += steps
		c.Seen(hashS(key, what), true)
		c.Count("steps:"+key, steps)
		if d := h1.heap - h0.heap; d > heldSlack {
			c.Fail("held:"+key, "%s: %d more steps left %d more bytes in %d more objects in use", what, steps, d, h1.objects-h0.objects)
		}
		if h1.gor > h0.gor+2 {
			c.Fail("goroutines:"+key, "%s: %d goroutines before and %d after %d more steps", what, h0.gor, h1.gor, steps)
		}
		if h1.fds > h0.fds+4 {
			c.Fail("descriptors:"+key, "%s: %d descriptors before and %d after %d more steps", what, h0.fds, h1.fds, steps)
		}
		if a1 > 2*a0+heldSlack {
			c.Fail("allocated:"+key, "%s: %d steps allocate %d bytes at first and %d after %d steps", what, n, a0, a1, steps)
		}
		if cpu {
			// least of several, and measured again for as long as it looks too long: load on the machine only ever adds
			min := func(v []time.Duration) time.Duration {
				m := v[0]
				for _, x := range v {
					if x < m {
						m = x
					}
				}
				return m
			}
			limit := 4*min(early) + 5*time.Millisecond
			for k := 0; k < 12 && min(late) > limit; k++ {
				time.Sleep(time.Duration(k) * 20 * time.Millisecond)
				_, t = batch()
				late = append(late, t)
			}
			if min(late) > limit {
				c.Fail("slower:"+key, "%s: %d steps take %v at first and %v after %d steps", what, n, min(early), min(late), steps)
			}
		}
		if done != nil {
			done()
		}
		runtime.KeepAlive(step)
	})
}

// loopConn hands out the same datagrams for ever.
type loopConn struct {
	scriptConn
	i int
}

func (l *loopConn) ReadFrom(p []byte) (int, net.Addr, error) {
	d := l.q[l.i%len(l.q)]
	l.i++
	if d.err != nil {
		return 0, nil, d.err
	}
	return copy(p, d.b), &net.UDPAddr{IP: net.IPv4(127, 0, byte(l.i>>16), byte(l.i)), Port: 1 + l.i%60000}, nil
}

func checkC34(c *Ctx) {
	c.Rule = "one evaluation = one step (a block of samples, a batch of bits, a packet, a command, a session); distinct = distinct (object, configuration). What is in use after a garbage collection (bytes, goroutines, descriptors) after n steps is compared with what is in use after 9 n and more, as are the bytes allocated and the processor time of n steps early and late."
	if c.Variant == "server" {
		serverSteady(c)
		return
	}
	for _, pt := range procTypes() {
		pt := pt
		for k := 0; k < c.N(4, 12); k++ {
			r := NewRand(c.Seed*977 + hashS(pt.name) + uint64(k))
			desc, mk := pt.conf(r)
			units := []int{1, 64, 250, 7}[k%4]
			data := pt.gen(r, units*pt.unit)
			for i := range data { // nothing that may turn into subnormals or overflow on the way
				if pt.name != "I32Rotate90Filter" {
					data[i] = 0
				}
			}
			switch pt.el {
			case 8, 16:
				if !strings.HasSuffix(pt.name, "32") && pt.name != "LowPassDownsampleComplexFilter" && pt.name != "FMDemodFilter" && pt.name != "Rotate90Filter" {
					for i := 0; i+8 <= len(data); i += 8 {
						putF64(data[i:], r.Range(-1, 1))
					}
					break
				}
				fallthrough
			case 4:
				if pt.name != "I32Rotate90Filter" {
					for i := 0; i+4 <= len(data); i += 4 {
						putF32(data[i:], float32(r.Range(-1, 1)))
					}
				}
			}
			steady(c, pt.name, fmt.Sprintf("%s, blocks of %d, %d", desc, units*pt.unit, k), c.N(1500, 6000), true, func() (func(int), func()) {
				s := mk()
				return func(int) {
					s.feed(data)
					if s.read != nil {
						s.read()
					}
				}, nil
			})
			steady(c, pt.name, fmt.Sprintf("%s, new instances, %d", desc, k), c.N(800, 3000), true, func() (func(int), func()) {
				return func(int) {
					s := mk()
					s.feed(data)
				}, nil
			})
		}
	}
	r := NewRand(c.Seed * 31)
	for _, op := range ops {
		op := op
		steady(c, "slice operations", op.Name, c.N(2000, 8000), true, func() (func(int), func()) {
			var in [][]byte
			for i := range op.InEl {
				b := bytesOf(make([]uint64, 100*op.InEl[i]*op.InUnit[i]/8+1))[:100*op.InEl[i]*op.InUnit[i]]
				genBytes(r, op.InKind[i], 1, b)
				in = append(in, b)
			}
			out := bytesOf(make([]uint64, 100*op.OutEl*op.OutUnit/8+1))[:100*op.OutEl*op.OutUnit]
			return func(i int) {
				if op.Accum && i%8 == 0 {
					fill(out, 0)
				}
				op.Call(in, out, 0.75)
			}, nil
		})
	}
	steady(c, "scalar functions", "arctangents, interpolation, windows", c.N(3000, 20000), true, func() (func(int), func()) {
		v := []float32{1, 2, 3, 2, 1}
		w64, w32 := make([]float64, 20), make([]float32, 20)
		return func(i int) {
			dsp.FastAtan2(float32(i%7)-3, float32(i%5)-2)
			x := float32(i%401) / 100
			dsp.LinearF32(v, x)
			dsp.Hermite4p3oF32(v, x)
			dsp.Optimal2x4p4oF32(v, x)
			dsp.Optimal2x6p5oF32(v, x)
			dsp.FastAtan2_2(float32(i%7)-3, float32(i%5)-2)
			dsp.VMaxF32(v)
			dsp.VMinF32(v)
			dsp.HammingWindow(w64)
			dsp.HanningWindowF32(w32)
		}, nil
	})
	g64, g32, gc := make([]float64, 97), make([]float32, 97), make([]complex128, 97)
	for i := range g64 {
		g64[i] = r.Range(-1, 1)
		g32[i], gc[i] = float32(g64[i]), complex(g64[i], r.Range(-1, 1))
	}
	fr := []uint64{697, 770, 852}
	steady(c, "Goertzel", "feed, read, reset", c.N(4000, 20000), true, func() (func(int), func()) {
		a, b, d := dsp.NewGoertzel(fr, 8000, 97), dsp.NewGoertzel32(fr, 8000, 97), dsp.NewComplexGoertzel(fr, 8000, 97)
		return func(int) {
			a.Feed(g64)
			a.Magnitude()
			a.Complex()
			a.Reset()
			b.Feed(g32)
			b.Magnitude()
			b.Complex()
			b.Reset()
			d.Feed(gc)
			d.Magnitude()
			d.Complex()
			d.Reset()
		}, nil
	})
	for _, n := range []int{1, 16, 1000} {
		steady(c, "SDFT", "n="+itoa(n), c.N(20000, 100000), true, func() (func(int), func()) {
			w, w32 := make([]float64, n), make([]float32, n)
			dsp.HammingWindow(w)
			dsp.HammingWindowF32(w32)
			a, b := dsp.NewSDFT(n/3, n, w), dsp.NewSDFT32(n/3, n, w32)
			return func(i int) {
				a.Filter(gc[i%97])
				b.Filter(complex64(gc[i%97]))
			}, nil
		})
	}
	steady(c, "DCFilter", "FilterOne", c.N(20000, 100000), true, func() (func(int), func()) {
		a, b := dsp.NewDCFilter(0.99), dsp.NewDCFilter32(0.99)
		return func(i int) {
			a.FilterOne(g64[i%97])
			b.FilterOne(g32[i%97])
		}, nil
	})
	steady(c, "DTMF", "blocks", c.N(2000, 10000), true, func() (func(int), func()) {
		d := dtmf.NewStandard(8000, 205)
		return func(i int) {
			d.Feed(g32)
			d.Feed(g32[:i%97])
		}, nil
	})
	steady(c, "DTMF", "instances", c.N(500, 3000), true, func() (func(int), func()) {
		return func(i int) { dtmf.NewStandard(8000, 205).Feed(g32) }, nil
	})

	// AX.25: traffic of all kinds, damaged frames, noise, a transmitter that never ends its frame
	feeds := map[string][]byte{}
	var frames []*axFrame
	for i := 0; i < 12; i++ {
		frames = append(frames, r.anyFrame())
	}
	feeds["frames"], _, _ = r.streamOf(frames, 20)
	bad := append([]byte(nil), feeds["frames"]...)
	for i := 100; i < len(bad); i += 150 {
		bad[i] ^= 1
	}
	feeds["damaged frames"] = bad
	noise := make([]byte, 3000)
	r.Bytes(noise)
	for i := range noise {
		noise[i] &= 1
	}
	feeds["noise"] = noise
	never := make([]byte, 3000)
	for i := range never {
		never[i] = byte(i & 1)
	}
	feeds["no flag"] = never
	feeds["flags"] = []byte(strings.Repeat("\x00\x01\x01\x01\x01\x01\x01\x00", 300))
	feeds["ones"] = []byte(strings.Repeat("\x01", 3000))
	long := &bitBuf{}
	long.flag()
	long.octets(r.infoBytes(900)) // more than any frame may have
	long.flag()
	feeds["overlong frames"] = long.b
	for _, what := range []string{"frames", "damaged frames", "noise", "no flag", "flags", "ones", "overlong frames"} {
		bits := feeds[what]
		for _, start := range []bool{true, false} {
			steady(c, "ax25.Feed", fmt.Sprintf("%s, after a flag: %v", what, start), c.N(400, 2000), true, func() (func(int), func()) {
				d := ax25.NewDecoder()
				if start {
					for _, b := range []int{0, 1, 1, 1, 1, 1, 1, 0} {
						d.Feed(b)
					}
				}
				return func(int) {
					for _, b := range bits {
						if f := d.Feed(int(b)); f != nil {
							_ = fmt.Sprint(f.Source, f.Destination, f.Type, f.PID, f.UnnumberedType, f.SupervisoryType)
						}
					}
				}, nil
			})
		}
	}
	// no two frames alike
	steady(c, "ax25.Feed", "distinct frames", c.N(3000, 10000), true, func() (func(int), func()) {
		d := ax25.NewDecoder()
		q := NewRand(c.Seed * 7)
		return func(int) {
			f := &axFrame{dst: q.addr(), src: q.addr(), control: 0x03, pid: 0xf0, info: q.infoBytes(20)}
			s := &bitBuf{}
			s.flag()
			s.octets(withCRC(f.octets()))
			s.flag()
			for _, b := range s.b {
				d.Feed(int(b))
			}
		}, nil
	})
	steady(c, "ax25.Feed", "distinct frames of all kinds", c.N(2000, 10000), true, func() (func(int), func()) {
		d := ax25.NewDecoder()
		q := NewRand(c.Seed * 9)
		return func(int) {
			s := &bitBuf{}
			s.flag()
			s.octets(withCRC(q.frame(q.Intn(4) == 0, q.Intn(9), q.Intn(20)).octets()))
			s.flag()
			for _, b := range s.b {
				d.Feed(int(b))
			}
		}, nil
	})
	// few stations, every protocol and every frame type, and sequence numbers that go round
	steady(c, "ax25.Feed", "conversations", c.N(3000, 10000), true, func() (func(int), func()) {
		d := ax25.NewDecoder()
		q := NewRand(c.Seed * 11)
		var stations []axAddr
		for i := 0; i < 6; i++ {
			stations = append(stations, q.addr())
		}
		pids := []byte{0x01, 0x06, 0x07, 0x08, 0x10, 0x20, 0xc3, 0xc4, 0xca, 0xcb, 0xcc, 0xcd, 0xce, 0xcf, 0xf0, 0xff}
		n := 0
		return func(int) {
			n++
			f := &axFrame{dst: stations[q.Intn(6)], src: stations[q.Intn(6)], info: q.infoBytes(100), pid: pids[n%len(pids)]}
			switch q.Intn(4) {
			case 0:
				f.control = 0x03
			case 1:
				f.control = byte(q.Intn(256))
			default:
				f.control = byte(n&7)<<1 | byte(n>>3&7)<<5
			}
			s := &bitBuf{}
			s.flag()
			s.octets(withCRC(f.octets()))
			s.flag()
			for _, b := range s.b {
				d.Feed(int(b))
			}
		}, nil
	})
	steady(c, "ax25.NewDecoder", "instances", c.N(500, 3000), true, func() (func(int), func()) {
		return func(int) {
			d := ax25.NewDecoder()
			for _, b := range feeds["frames"] {
				d.Feed(int(b))
			}
		}, nil
	})

	// the packet reader
	for _, headers := range []bool{true, false} {
		for _, n := range []int{1, 100, 5000} {
			steady(c, "PacketReader", fmt.Sprintf("headers %v, reads of %d", headers, n), c.N(1500, 6000), true, func() (func(int), func()) {
				l := &loopConn{}
				for i := 0; i < 30; i++ {
					d := dgram{b: make([]byte, []int{0, 3, 4, 5, 20, 1472, 4100}[i%7])}
					r.Bytes(d.b)
					if i%9 == 8 {
						d.err = errors.New("scripted")
					}
					l.q = append(l.q, d)
				}
				rd := borip.NewPacketReader(l, headers)
				buf := make([]complex128, n)
				return func(int) {
					rd.ReadSamples(buf)
					rd.Header()
				}, nil
			})
		}
	}
	for _, one := range []struct {
		what    string
		headers bool
		d       dgram
	}{
		{"headers, a datagram too short for one", true, dgram{b: make([]byte, 3)}},
		{"no headers, a datagram too short for a sample", false, dgram{b: make([]byte, 3)}},
		{"an empty datagram", true, dgram{b: []byte{}}},
		{"an error", true, dgram{err: errors.New("scripted")}},
		{"a header alone", true, dgram{b: make([]byte, 4)}},
		{"one sample", true, dgram{b: make([]byte, 8)}},
		{"one sample and no header", false, dgram{b: make([]byte, 4)}},
		{"a broken sample", true, dgram{b: make([]byte, 14)}},
		{"flags", true, dgram{b: []byte{0xff, 0xff, 0xff, 0xff, 1, 2, 3, 4}}},
	} {
		one := one
		steady(c, "PacketReader", "nothing but: "+one.what, c.N(8000, 20000), true, func() (func(int), func()) {
			l := &loopConn{scriptConn: scriptConn{q: []dgram{one.d}}}
			rd := borip.NewPacketReader(l, one.headers)
			buf := make([]complex128, 1)
			return func(i int) {
				if len(one.d.b) > 4 {
					one.d.b[2], one.d.b[3] = byte(i), byte(i>>8) // the sequence number
				}
				rd.ReadSamples(buf)
				rd.Header()
			}, nil
		})
	}
	steady(c, "PacketReader", "instances", c.N(100, 1000), true, func() (func(int), func()) {
		buf := make([]complex128, 10)
		return func(int) {
			borip.NewPacketReader(&loopConn{scriptConn: scriptConn{q: []dgram{{b: make([]byte, 20)}}}}, true).ReadSamples(buf)
		}, nil
	})
	clientSteady(c)
	c.Sample("every streaming processor, Goertzel, SDFT, DTMF, AX.25 decoder (frames, damage, noise, no flag), packet reader, client commands and sessions; %d times the work of the first measurement", longer+4)
}

// clientSteady talks to a minimal server in this process.
func clientSteady(c *Ctx) {
	loopbackOnce.Do(loopbackUp)
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer ln.Close()
	var mode atomic.Int32 // how the server answers
	go func() {
		for {
			conn, err := ln.Accept()
			if err != nil {
				return
			}
			go func() {
				defer conn.Close()
				hello := "DEVICE -\n"
				switch mode.Load() {
				case 5:
					hello = "HELLO there, this is not what you expect\n"
				case 6:
					hello = "DEVICE"
				}
				io.WriteString(conn, hello)
				if mode.Load() == 6 {
					return
				}
				rd := bufio.NewReader(conn)
				for lines := 0; ; lines++ {
					l, err := rd.ReadString('\n')
					if err != nil || mode.Load() == 4 && lines == 5 {
						return
					}
					w := strings.Fields(l)
					rep := w[0] + " OK 1 2 3 4"
					switch {
					case mode.Load() == 1:
						rep = w[0] + " FAIL something is wrong"
					case mode.Load() == 2:
						rep = "OTHER OK 1 2 3 4"
					case mode.Load() == 3:
						rep = "\x00" + strings.Repeat("junk ", lines%50)
					case w[0] == "DEVICE" && w[len(w)-1] == "!":
						rep = "DEVICE -"
					case w[0] == "DEVICE":
						rep = "DEVICE Dev|-5.0|30.0|1.0|3200000.0|16256|A,B|serial"
					case w[0] == "HEADER" && len(w) == 1:
						rep = "HEADER ON"
					case len(w) == 1 && w[0] != "GO" && w[0] != "STOP":
						rep = w[0] + " 100000"
					}
					if _, err := conn.Write([]byte(rep + "\n")); err != nil {
						return
					}
				}
			}()
		}
	}()
	n := 0
	all := func(b *borip.BorIP) {
		n++ // no two commands alike
		b.SelectDevice("-")
		b.Device()
		b.SetFrequency(1e8 + float64(n))
		b.Frequency()
		b.SetAntenna("A" + itoa(n))
		b.Antenna()
		b.SetRate(1e6 + float64(n))
		b.Rate()
		b.SetGain(float64(n) / 8)
		b.Gain()
		b.SetDestination("127.0.0.1:" + itoa(1024+n%60000))
		b.Destination()
		b.SetHeaderEnabled(true)
		b.HeaderEnabled()
		b.Go()
		b.Stop()
	}
	dial := func() *borip.BorIP {
		b, err := borip.Dial(ln.Addr().String())
		if err != nil {
			panic("harness: dial: " + err.Error())
		}
		return b
	}
	names := []string{"good answers", "refusals", "answers to other commands", "junk", "connections that break", "another hello", "no hello"}
	for m, name := range names {
		mode.Store(int32(m))
		if m <= 3 {
			steady(c, "BorIP", "one session, "+name, c.N(150, 800), false, func() (func(int), func()) {
				b := dial()
				return func(int) { all(b) }, b.Close
			})
		}
		steady(c, "BorIP", "sessions, "+name, c.N(50, 300), false, func() (func(int), func()) {
			return func(i int) {
				b, err := borip.Dial(ln.Addr().String())
				if err != nil {
					return
				}
				all(b)
				if i%2 == 0 {
					b.Go()
				}
				b.Close()
			}, nil
		})
	}
	l2, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic("harness: " + err.Error())
	}
	nobody := l2.Addr().String()
	l2.Close()
	steady(c, "BorIP", "nobody there", c.N(100, 600), false, func() (func(int), func()) {
		return func(i int) {
			if b, err := borip.Dial(nobody); err == nil {
				b.Close()
			}
		}, nil
	})
}

// serverSteady compares what the server holds after some sessions with what it holds after many more.
func serverSteady(c *Ctx) {
	stat := func(s *srvProc, at held) held {
		var h held
		for t := 0; t < 400; t++ {
			rs := s.do(stubReq{Op: "stat"})
			h = held{heap: rs.Heap, gor: rs.Goroutines, fds: s.fds()}
			if at.heap != 0 && h.gor <= at.gor && h.fds <= at.fds && h.heap <= at.heap+heldSlack {
				break
			}
			if at.heap == 0 && t > 30 {
				break
			}
			time.Sleep(10 * time.Millisecond)
		}
		return h
	}
	mustOK := func(s *srvProc, cl *rawCli, line string) {
		rp, ok := cl.ask(s, c, line)
		if !ok || !strings.HasPrefix(rp, strings.Fields(line)[0]) {
			c.Count("unexpected_replies", 1) // judged by C26
		}
	}
	loopbackOnce.Do(loopbackUp)
	sink := newSink()
	defer sink.close()
	buf := make([]byte, 8192)
	c.R.Bytes(buf)
	commands := []string{"FREQ", "FREQ 100000000", "RATE", "RATE 1000000", "GAIN", "GAIN 12", "ANTENNA", "ANTENNA x", "DEST", "DEST nowhere:x", "STOP", "STOP", "NONSENSE", "HEADER", "HEADER ON", "FREQ abc", "device ?", ""}
	vary := 0
	// pipelined sends n lines, some hundred at a time, and reads as many answers
	pipelined := func(k *rawCli, n int, line func() string) {
		for n > 0 {
			m, b := 300, strings.Builder{}
			if m > n {
				m = n
			}
			n -= m
			for i := 0; i < m; i++ {
				b.WriteString(line() + "\n")
			}
			k.send(b.String())
			for i := 0; i < m; i++ {
				if l, _ := k.line(); l == "" {
					c.Count("unexpected_replies", 1) // judged by C26
					return
				}
			}
		}
	}
	type way struct {
		name string
		n    int
		run  func(s *srvProc, keep *rawCli, n int)
	}
	session := func(s *srvProc, i int) {
		cl := s.dial(c)
		mustOK(s, cl, "DEVICE -")
		mustOK(s, cl, "DEST "+sink.conn.LocalAddr().String())
		mustOK(s, cl, "GO")
		s.do(stubReq{Op: "deliver", Dev: 0, Bufs: [][]byte{buf}})
		switch i % 4 {
		case 0:
			mustOK(s, cl, "STOP")
			s.do(stubReq{Op: "deliver", Dev: 0, Bufs: [][]byte{buf}})
		case 1:
			s.do(stubReq{Op: "end", Dev: 0})
		case 2:
			mustOK(s, cl, "DEVICE !")
		}
		cl.conn.Close()
		for t := 0; t < 2000 && s.state()[0].Open; t++ {
			time.Sleep(2 * time.Millisecond)
		}
		sink.take()
	}
	ways := []way{
		{"sessions", 30, func(s *srvProc, _ *rawCli, n int) {
			for i := 0; i < n; i++ {
				session(s, i)
			}
		}},
		{"idle sessions", 60, func(s *srvProc, _ *rawCli, n int) {
			for i := 0; i < n; i++ {
				cl := s.dial(c)
				if i%2 == 0 {
					cl.send("DEVICE") // and no line end
				}
				cl.conn.Close()
			}
		}},
		{"overlong lines", 20, func(s *srvProc, _ *rawCli, n int) {
			junk := strings.Repeat("FREQ 1", 3000)
			for i := 0; i < n; i++ {
				cl := s.dial(c)
				if i%2 == 0 {
					mustOK(s, cl, "DEVICE -")
				}
				cl.send(junk)
				cl.line() // until it hangs up, or answers
				cl.conn.Close()
			}
		}},
		{"resets", 20, func(s *srvProc, _ *rawCli, n int) {
			for i := 0; i < n; i++ {
				cl := s.dial(c)
				mustOK(s, cl, "DEVICE -")
				mustOK(s, cl, "DEST "+sink.conn.LocalAddr().String())
				if i%2 == 0 {
					mustOK(s, cl, "GO")
				}
				cl.conn.(*net.TCPConn).SetLinger(0)
				cl.conn.Close()
				for t := 0; t < 2000 && s.state()[0].Open; t++ {
					time.Sleep(2 * time.Millisecond)
				}
			}
		}},
		{"a receiver that fails", 20, func(s *srvProc, k *rawCli, n int) {
			cf := stubConf{Name: "one", EndNil: true}
			for i := 0; i < n; i++ {
				bad := cf
				if i%9 == 8 {
					bad.OpenErr = true
				} else {
					bad.Fail = map[string]bool{[]string{"SetCenterFreq", "GetCenterFreq", "SetSampleRate", "GetSampleRate", "SetTunerGain", "GetTunerGain", "ResetBuffer", "SetAGCMode"}[i%9]: true}
				}
				s.do(stubReq{Op: "conf", Dev: 0, Conf: &bad})
				k.ask(s, c, "DEVICE -")
				for _, l := range []string{"FREQ", "FREQ 1000000", "RATE", "RATE 1000000", "GAIN", "GAIN 3"} {
					k.ask(s, c, l)
				}
				k.ask(s, c, "DEST "+sink.conn.LocalAddr().String())
				if rp, _ := k.ask(s, c, "GO"); strings.HasPrefix(rp, "GO OK") {
					k.ask(s, c, "STOP")
					s.do(stubReq{Op: "deliver", Dev: 0, Bufs: [][]byte{buf}})
				}
				k.ask(s, c, "DEVICE !")
			}
			s.do(stubReq{Op: "conf", Dev: 0, Conf: &cf})
		}},
		{"nobody listens", 20, func(s *srvProc, k *rawCli, n int) {
			for i := 0; i < n; i++ {
				mustOK(s, k, "DEST 127.0.0.1:9")
				mustOK(s, k, "GO")
				s.do(stubReq{Op: "deliver", Dev: 0, Bufs: [][]byte{buf, buf}})
				mustOK(s, k, "STOP")
				s.do(stubReq{Op: "deliver", Dev: 0, Bufs: [][]byte{buf}})
			}
		}},
		{"commands", 40, func(s *srvProc, k *rawCli, n int) {
			for i := 0; i < n; i++ {
				vary++
				more := []string{"FREQ " + itoa(100000000+vary), "RATE " + itoa(1000000+vary), "GAIN " + itoa(vary), "ANTENNA a" + itoa(vary),
					"DEST 127.0." + itoa(vary%200) + "." + itoa(1+vary%250) + ":" + itoa(1024+vary%60000), "WORD" + itoa(vary), "FREQ x" + itoa(vary)}
				for _, l := range append(more, commands...) {
					if l == "" {
						k.send("\n")
						continue
					}
					rp, ok := k.ask(s, c, l)
					if !ok || rp == "" {
						c.Count("unexpected_replies", 1)
					}
				}
				sink.take()
			}
		}},
		{"streams of one session", 30, func(s *srvProc, k *rawCli, n int) {
			mustOK(s, k, "DEST "+sink.conn.LocalAddr().String())
			for i := 0; i < n; i++ {
				mustOK(s, k, "GO")
				s.do(stubReq{Op: "deliver", Dev: 0, Bufs: [][]byte{buf}})
				if i%3 == 0 {
					s.do(stubReq{Op: "end", Dev: 0})
				} else {
					mustOK(s, k, "STOP")
					s.do(stubReq{Op: "deliver", Dev: 0, Bufs: [][]byte{buf}})
				}
				sink.take()
			}
		}},
		{"many short sessions", 1200, func(s *srvProc, _ *rawCli, n int) {
			for i := 0; i < n; i++ {
				cl := s.dial(c)
				cl.send("DEST 127.0.0.1:" + itoa(1024+i%60000) + "\n")
				if i%2 == 0 { // half of them leave no port behind
					cl.conn.(*net.TCPConn).SetLinger(0)
				}
				cl.conn.Close()
			}
		}},
		{"distinct words", 1500, func(s *srvProc, k *rawCli, n int) {
			pipelined(k, n, func() string { vary++; return "WORD" + itoa(vary) + " " + itoa(vary) })
		}},
		{"distinct destinations", 1500, func(s *srvProc, k *rawCli, n int) {
			pipelined(k, n, func() string {
				vary++
				return fmt.Sprintf("DEST 127.%d.%d.%d:%d", vary>>16, vary>>8&255, vary&255, 1024+vary%60000)
			})
		}},
		{"distinct settings", 3000, func(s *srvProc, k *rawCli, n int) {
			pipelined(k, n, func() string {
				vary++
				return []string{"FREQ ", "RATE ", "GAIN ", "ANTENNA a"}[vary%4] + itoa(1000000+vary)
			})
		}},
		{"distinct faults", 3000, func(s *srvProc, k *rawCli, n int) {
			pipelined(k, n, func() string {
				vary++
				return []string{"FREQ x", "RATE -", "GAIN 1x", "DEST nowhere:x", "HEADER y", "DEST :z", "FREQ 1 2 "}[vary%7] + itoa(1000000+vary)
			})
		}},
		{"many short streams", 250, func(s *srvProc, k *rawCli, n int) {
			mustOK(s, k, "DEST "+sink.conn.LocalAddr().String())
			for i := 0; i < n; i++ {
				mustOK(s, k, "GO")
				if i%2 == 0 {
					s.do(stubReq{Op: "end", Dev: 0})
					continue
				}
				mustOK(s, k, "STOP")
				s.do(stubReq{Op: "deliver", Dev: 0, Bufs: [][]byte{buf}})
				sink.take()
			}
		}},
		{"reselections", 60, func(s *srvProc, k *rawCli, n int) {
			for i := 0; i < n; i++ {
				mustOK(s, k, "DEVICE -")
				if i%2 == 0 {
					mustOK(s, k, "DEVICE !")
				}
			}
			mustOK(s, k, "DEVICE -")
		}},
		{"buffers of one stream", 100, func(s *srvProc, k *rawCli, n int) {
			mustOK(s, k, "DEST "+sink.conn.LocalAddr().String())
			cl := k
			rp, _ := cl.ask(s, c, "GO")
			_ = rp // RUNNING from the second time on
			for i := 0; i < n; i++ {
				s.do(stubReq{Op: "deliver", Dev: 0, Bufs: [][]byte{buf}})
				if i%10 == 9 {
					sink.take()
				}
			}
		}},
	}
	for _, w := range ways {
		w := w
		c.Do("server/"+w.name, func() {
			s := startServer(c, []stubConf{{Name: "one", EndNil: true, Gains: []int{0, 100, 200}}})
			s.guarded(c, func() {
				var keep *rawCli
				if !map[string]bool{"sessions": true, "idle sessions": true, "overlong lines": true, "resets": true, "many short sessions": true}[w.name] {
					keep = s.dial(c)
					defer keep.conn.Close()
					mustOK(s, keep, "DEVICE -")
				}
				n := c.N(w.n, 4*w.n)
				w.run(s, keep, n)
				h0 := stat(s, held{})
				w.run(s, keep, longer*n)
				h1 := stat(s, h0)
				c.Evals += int64((longer + 1) * n)
				c.Count("server:"+w.name, int64((longer+1)*n))
				c.Seen(hashS("server", w.name), true)
				if h1.gor > h0.gor+2 {
					c.Fail("goroutines:server", "%s: %d goroutines after %d, %d after %d", w.name, h0.gor, n, h1.gor, (longer+1)*n)
				}
				if h1.fds > h0.fds+8 {
					c.Fail("descriptors:server", "%s: %d descriptors after %d, %d after %d", w.name, h0.fds, n, h1.fds, (longer+1)*n)
				}
				if h1.heap > h0.heap+2*heldSlack {
					c.Fail("held:server", "%s: %d bytes in use after %d, %d after %d", w.name, h0.heap, n, h1.heap, (longer+1)*n)
				}
				c.Sample("server, %s: %d bytes, %d goroutines, %d descriptors after %d; %d, %d, %d after %d", w.name, h0.heap, h0.gor, h0.fds, n, h1.heap, h1.gor, h1.fds, (longer+1)*n)
			})
		})
	}
}
