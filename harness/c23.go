package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"net"
	"time"

	"github.com/samuel/go-dsp/borip"
)

func init() { checks["C23"] = checkC23 }

var errNoMore = errors.New("harness: script exhausted")

type netTimeout struct{}

func (netTimeout) Error() string   { return "i/o timeout (scripted)" }
func (netTimeout) Timeout() bool   { return true }
func (netTimeout) Temporary() bool { return true }

type dgram struct {
	b   []byte
	err error
	// late datagrams arrive after hours of silence: only a deadline set by the reader itself can expire before
	late bool
}

// scriptConn hands out scripted datagrams and errors; it fills the rest of the caller's buffer with junk.
type scriptConn struct {
	q     []dgram
	given int
	bufs  [][]byte // buffers datagrams were delivered to
	minP  int
	r     *Rand
	dead  time.Time // read deadline the reader has set
	shut  bool
}

func (s *scriptConn) ReadFrom(p []byte) (int, net.Addr, error) {
	if s.minP == 0 || len(p) < s.minP {
		s.minP = len(p)
	}
	if s.shut {
		return 0, nil, net.ErrClosed
	}
	if s.given >= len(s.q) {
		return 0, nil, errNoMore
	}
	d := s.q[s.given]
	if d.late && !s.dead.IsZero() { // this datagram comes after any deadline
		s.dead = time.Time{}
		return 0, nil, netTimeout{}
	}
	s.given++
	if d.err != nil && s.r.Bool() { // a net.PacketConn may have put something there
		n := s.r.Intn(40)
		if n > len(p) {
			n = len(p)
		}
		s.r.Bytes(p[:n])
		return n, &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1}, d.err
	}
	if d.err != nil {
		return 0, nil, d.err
	}
	n := copy(p, d.b)
	for i := n; i < len(p) && i < n+64; i++ { // stale bytes behind the datagram must not matter
		p[i] = byte(s.r.U64())
	}
	return n, &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1}, nil
}
func (s *scriptConn) WriteTo([]byte, net.Addr) (int, error) {
	return 0, errors.New("harness: nothing to write")
}
func (s *scriptConn) Close() error                      { s.shut = true; return nil }
func (s *scriptConn) LocalAddr() net.Addr               { return &net.UDPAddr{} }
func (s *scriptConn) SetDeadline(t time.Time) error     { s.dead = t; return nil }
func (s *scriptConn) SetReadDeadline(t time.Time) error { s.dead = t; return nil }
func (s *scriptConn) SetWriteDeadline(time.Time) error  { return nil }

// event is what the reader owes: samples of one packet, or an error.
type pktEvent struct {
	samples []complex128
	hdr     borip.PacketHeader
	hasHdr  bool
	err     error
}

func owed(q []dgram, headers bool) []pktEvent {
	var ev []pktEvent
	for _, d := range q {
		if d.err != nil {
			ev = append(ev, pktEvent{err: d.err})
			continue
		}
		b := d.b
		e := pktEvent{}
		if headers {
			if len(b) < 4 {
				ev = append(ev, pktEvent{err: borip.ErrShortPacket})
				continue
			}
			e.hasHdr = true
			e.hdr = borip.PacketHeader{Flags: b[0], Notification: b[1], Idx: uint16(b[2]) | uint16(b[3])<<8}
			b = b[4:]
		}
		for len(b) >= 4 {
			i := int32(b[0]) | int32(b[1])<<8
			q := int32(b[2]) | int32(b[3])<<8
			if i > 32767 {
				i -= 65536
			}
			if q > 32767 {
				q -= 65536
			}
			e.samples = append(e.samples, complex(float64(i), float64(q)))
			b = b[4:]
		}
		ev = append(ev, e)
	}
	return ev
}

func checkC23(c *Ctx) {
	c.Rule = "one evaluation = one ReadSamples call whose samples, error and header were reconciled with the ledger of scripted datagrams (every sample exactly once, in order); distinct = distinct (packet sizes, read sizes, header mode) histories."
	// reconcile drives one reader over the script
	reconcile := func(name string, conn net.PacketConn, given func() int, q []dgram, headers bool, sizes func() int) {
		ev := owed(q, headers)
		rd := borip.NewPacketReader(conn, headers)
		pos, off := 0, 0 // next owed event, samples of it already delivered
		idle := 0
		h := uint64(0)
		const poison = -12345.5
		var buf []complex128
		for step := 0; ; step++ {
			n := sizes()
			h = mix(h, n)
			if cap(buf) < n+8 {
				buf = make([]complex128, n+8)
			}
			s := buf[:n:n]
			guard := buf[n : n+8]
			for i := range guard {
				guard[i] = poison
			}
			for i := range s {
				s[i] = poison
			}
			got, err := rd.ReadSamples(s)
			c.Evals++
			for i := range guard {
				if guard[i] != poison {
					c.Fail("overrun:"+name, "memory behind the slice of %d samples was written", n)
					return
				}
			}
			if got < 0 || got > n {
				c.Fail("count:"+name, "ReadSamples into %d samples returned %d", n, got)
				return
			}
			first := pos
			for i := 0; i < got; i++ {
				for pos < len(ev) && ev[pos].err == nil && off >= len(ev[pos].samples) {
					pos++
					off = 0
				}
				if pos >= len(ev) {
					c.Fail("phantom:"+name, "sample %v returned after all datagrams were delivered (headers %v)", s[i], headers)
					return
				}
				if ev[pos].err != nil {
					c.Fail("phantom:"+name, "sample %v returned where %v was owed (headers %v)", s[i], ev[pos].err, headers)
					return
				}
				if s[i] != ev[pos].samples[off] {
					c.Fail("sample:"+name, "packet %d sample %d is %v, want %v (headers %v, slice %d)", pos, off, s[i], ev[pos].samples[off], headers, n)
					return
				}
				if i == 0 {
					first = pos
				}
				off++
				c.Count("samples", 1)
				if headers && i == got-1 {
					if hd := rd.Header(); hd != ev[pos].hdr {
						c.Fail("header:"+name, "Header() is %+v after samples of a packet with %+v", hd, ev[pos].hdr)
						return
					}
					c.Count("headers_checked", 1)
				}
			}
			if headers && got > 0 && pos != first {
				c.Fail("mixed:"+name, "one read returned samples of packets %d to %d: Header() cannot report where they came from", first, pos)
				return
			}
			if err != nil {
				for pos < len(ev) && ev[pos].err == nil && off >= len(ev[pos].samples) {
					pos++
					off = 0
				}
				if pos >= len(ev) {
					if err != errNoMore {
						c.Fail("error:"+name, "error %v at the end of the script, want the connection's own error", err)
					}
					c.Count("streams", 1)
					break
				}
				if ev[pos].err != err {
					c.Fail("error:"+name, "error %v, owed %v, %d samples of packet %d outstanding", err, ev[pos].err, len(ev[pos].samples)-off, pos)
					return
				}
				pos++
				off = 0
				c.Count("errors_delivered", 1)
				idle = 0
				continue
			}
			if got > 0 {
				idle = 0
			} else if n > 0 {
				// nothing read: only a packet without samples may account for it
				if idle++; idle > len(q)+4 {
					c.Fail("stall:"+name, "%d reads into non-empty slices in a row returned nothing", idle)
					return
				}
				if pos < len(ev) && ev[pos].err == nil && off < len(ev[pos].samples) && given() > pos && off > 0 {
					c.Fail("stall:"+name, "read into %d samples returned 0 though %d samples are outstanding", n, len(ev[pos].samples)-off)
					return
				}
			}
			if step > 3000000 {
				c.Fail("stall:"+name, "no end in sight")
				return
			}
		}
		for _, d := range q {
			h = mix(h, len(d.b))
		}
		c.Seen(h, true)
	}
	packet := func(n int) []byte {
		b := make([]byte, n)
		c.R.Bytes(b)
		switch c.R.Intn(4) {
		case 0:
			for i := 0; i+4 <= n; i += 4 {
				binary.LittleEndian.PutUint16(b[i:], []uint16{0, 1, 0x7fff, 0x8000, 0xffff, 0x00ff, 0xff00, 0x0080}[c.R.Intn(8)])
				binary.LittleEndian.PutUint16(b[i+2:], []uint16{0, 1, 0x7fff, 0x8000, 0xffff, 0x00ff, 0xff00, 0x0080}[c.R.Intn(8)])
			}
		}
		return b
	}
	pktErrs := []error{errors.New("read udp: connection refused"), netTimeout{}, net.ErrClosed}
	// exhaustive small sizes: packet length x slice length, both modes, followed by an ordinary packet
	for _, headers := range []bool{false, true} {
		for pl := 0; pl <= 44; pl++ {
			c.Do(fmt.Sprintf("small headers=%v packet=%d", headers, pl), func() {
				for sl := 0; sl <= 12; sl++ {
					q := []dgram{{b: packet(pl)}, {b: packet(4 * c.R.Intn(6))}, {b: packet(pl)}, {b: packet(12 + c.R.Intn(40))}}
					if c.R.Intn(3) == 0 {
						q = append(q[:2:2], append([]dgram{{err: pktErrs[c.R.Intn(3)]}}, q[2:]...)...)
					}
					conn := &scriptConn{q: q, r: c.R}
					turn := 0
					reconcile("small", conn, func() int { return conn.given }, q, headers, func() int {
						turn++
						if sl == 0 && turn%2 == 0 {
							return 3
						}
						return sl
					})
				}
			})
		}
	}
	// all 16-bit values in both components
	c.Do("flags", func() { // the names of the header's flag bits
		for _, f := range []struct {
			name      string
			have, bit int
		}{{"FlagNone", borip.FlagNone, 0}, {"FlagHardwareOverrun", borip.FlagHardwareOverrun, 1}, {"FlagNetworkOverrun", borip.FlagNetworkOverrun, 2}, {"FlagBufferOverrun", borip.FlagBufferOverrun, 4},
			{"FlagEmptyPayload", borip.FlagEmptyPayload, 8}, {"FlagStreamStart", borip.FlagStreamStart, 0x10}, {"FlagBufferUnderrun", borip.FlagBufferUnderrun, 0x40}, {"FlagHardwareTimeout", borip.FlagHardwareTimeout, 0x80}} {
			c.Evals++
			if f.have != f.bit {
				c.Fail("flags", "%s is %#x, the protocol's bit is %#x", f.name, f.have, f.bit)
			}
		}
	})
	c.Do("values", func() {
		for _, headers := range []bool{false, true} {
			var q []dgram
			for base := 0; base < 65536; base += 4096 {
				var b []byte
				if headers {
					b = packet(4)
				}
				for v := base; v < base+4096; v++ {
					w := 65535 - v
					b = append(b, byte(v), byte(v>>8), byte(w), byte(w>>8))
				}
				q = append(q, dgram{b: b})
			}
			conn := &scriptConn{q: q, r: c.R}
			reconcile("values", conn, func() int { return conn.given }, q, headers, func() int { return 1 + c.R.Intn(5000) })
		}
	})
	for i := 0; i < c.N(700, 12000); i++ {
		c.Do(fmt.Sprintf("random %d", i), func() {
			headers := i%2 == 0
			var q []dgram
			max := []int{8, 40, 200, 2000, 16388, 65507}[c.R.Intn(6)]
			np := 1 + c.R.Intn(30)
			if max > 10000 {
				np = 1 + c.R.Intn(6)
			}
			for k := 0; k < np; k++ {
				n := c.R.Intn(max + 1)
				switch c.R.Intn(6) {
				case 0:
					n = c.R.Intn(9) // runts
				case 1, 2:
					n &^= 3
				case 3:
					n = max
				}
				if c.R.Intn(10) == 0 {
					q = append(q, dgram{err: pktErrs[c.R.Intn(3)]})
					continue
				}
				q = append(q, dgram{b: packet(n), late: c.R.Intn(8) == 0})
			}
			conn := &scriptConn{q: q, r: c.R}
			style := c.R.Intn(6)
			fixed := 1 + c.R.Intn(max/4+4)
			if max > 10000 && style == 2 {
				style = 1
			}
			reconcile("random", conn, func() int { return conn.given }, q, headers, func() int {
				switch style {
				case 0: // as large as any packet
					return max/4 + 1
				case 1:
					return fixed
				case 2:
					return 1
				case 3:
					return 1 + c.R.Intn(max/4+4)
				case 4: // zero now and then
					if c.R.Bool() {
						return 0
					}
					return 1 + c.R.Intn(max/2+4)
				default:
					return 1 + c.R.Intn(2*max+4)
				}
			})
		})
	}
	// the largest datagrams there are, and one real socket
	c.Do("large", func() {
		for _, n := range []int{65507, 65508, 65535, 65536, 131072, 262143, 262144} {
			for _, headers := range []bool{false, true} {
				q := []dgram{{b: packet(n)}, {b: packet(20)}}
				conn := &scriptConn{q: q, r: c.R}
				f := 1 + c.R.Intn(70000)
				reconcile("large", conn, func() int { return conn.given }, q, headers, func() int { return f })
			}
		}
	})
	c.Do("socket", func() {
		for round := 0; round < c.N(6, 60); round++ {
			pc, err := net.ListenPacket("udp", "127.0.0.1:0")
			if err != nil {
				panic("harness: " + err.Error())
			}
			out, err := net.Dial("udp", pc.LocalAddr().String())
			if err != nil {
				panic("harness: " + err.Error())
			}
			headers := round%2 == 0
			q := []dgram{}
			for k := 0; k < 40; k++ {
				q = append(q, dgram{b: packet(1 + c.R.Intn(1472))})
			}
			sc := &sockConn{PacketConn: pc, out: out, q: q}
			f := 1 + c.R.Intn(400)
			reconcile("socket", sc, func() int { return sc.given }, q, headers, func() int { return f })
			pc.Close()
			out.Close()
		}
	})
	c.Sample("packet sizes 0..44 x slice sizes 0..12 exhaustively, random to 65507, up to 262144")
}

// sockConn sends the next datagram through the kernel just before the reader asks for it.
type sockConn struct {
	net.PacketConn
	out   net.Conn
	q     []dgram
	given int
}

func (s *sockConn) ReadFrom(p []byte) (int, net.Addr, error) {
	if s.given >= len(s.q) {
		return 0, nil, errNoMore
	}
	d := s.q[s.given]
	s.given++
	if _, err := s.out.Write(d.b); err != nil {
		panic("harness: udp write: " + err.Error())
	}
	s.PacketConn.SetReadDeadline(time.Now().Add(20 * time.Second))
	n, a, err := s.PacketConn.ReadFrom(p)
	if err != nil {
		panic("harness: udp read: " + err.Error())
	}
	return n, a, nil
}
