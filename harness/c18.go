package main

import (
	"bytes"
	"fmt"

	"github.com/samuel/go-dsp/dsp/ax25"
)

func init() {
	checks["C18"] = checkC18
	checks["C19"] = checkC19
	checks["C20"] = checkC20
}

// ---- independent AX.25 transmitter ----

type axAddr struct {
	call  string
	ssid  int
	flags byte // bits 5..7 of the SSID octet (C/H and reserved bits)
}

type axFrame struct {
	flex     bool
	flexHead [2]byte // QSO number bits; the marker and command bits are set by encode
	dst, src axAddr
	reps     []axAddr
	control  byte
	pid      byte
	info     []byte // also the information field of U frames without PID (not compared there)
	cmd      bool   // FlexNet command bit
}

func axCRC(b []byte) uint16 { // bitwise CRC-16/X.25, not table driven
	crc := uint16(0xffff)
	for _, x := range b {
		for i := 0; i < 8; i++ {
			bit := (uint16(x)>>uint(i) ^ crc) & 1
			crc >>= 1
			if bit != 0 {
				crc ^= 0x8408
			}
		}
	}
	return ^crc
}

func withCRC(b []byte) []byte {
	c := axCRC(b)
	return append(append([]byte{}, b...), byte(c), byte(c>>8))
}

func encAddr(a axAddr, last bool) []byte {
	b := make([]byte, 7)
	for i := 0; i < 6; i++ {
		ch := byte(' ')
		if i < len(a.call) {
			ch = a.call[i]
		}
		b[i] = ch << 1
	}
	b[6] = byte(a.ssid)<<1 | a.flags
	if last {
		b[6] |= 1
	}
	return b
}

func axHasPID(control byte) bool {
	return control&1 == 0 || control&^0x10 == 0x03
}

// octets is the frame without its check sequence.
func (f *axFrame) octets() []byte {
	var b []byte
	if f.flex {
		h := make([]byte, 7)
		h[0] = f.flexHead[0]
		h[1] = f.flexHead[1]&^3 | 1
		if f.cmd {
			h[1] |= 2
		}
		var v uint64 // 36 bits of characters, then 4 zero bits... packed from bit 1 of octet 2's top
		for i := 0; i < 6; i++ {
			ch := uint64(0)
			if i < len(f.dst.call) {
				ch = uint64(f.dst.call[i] - 0x20)
			}
			v = v<<6 | ch
		}
		v = v<<4 | uint64(f.dst.ssid)
		for i := 0; i < 5; i++ {
			h[2+i] = byte(v >> uint(8*(4-i)))
		}
		b = append(b, h...)
	} else {
		b = append(b, encAddr(f.dst, false)...)
		b = append(b, encAddr(f.src, len(f.reps) == 0)...)
		for i, r := range f.reps {
			b = append(b, encAddr(r, i == len(f.reps)-1)...)
		}
	}
	b = append(b, f.control)
	if axHasPID(f.control) {
		b = append(b, f.pid)
	}
	return append(b, f.info...)
}

type bitBuf struct {
	b    []byte // one bit per element
	ones int
}

func (s *bitBuf) raw(bits ...byte) {
	s.b = append(s.b, bits...)
	for _, x := range bits {
		if x == 1 {
			s.ones++
		} else {
			s.ones = 0
		}
	}
}
func (s *bitBuf) flag() { s.raw(0, 1, 1, 1, 1, 1, 1, 0); s.ones = 0 }
func (s *bitBuf) sharedZeroFlag() { // the zero of the previous flag is the first zero of this one
	s.raw(1, 1, 1, 1, 1, 1, 0)
	s.ones = 0
}
func (s *bitBuf) stuffBit(x byte) {
	s.b = append(s.b, x)
	if x == 1 {
		s.ones++
		if s.ones == 5 {
			s.b = append(s.b, 0)
			s.ones = 0
		}
	} else {
		s.ones = 0
	}
}
func (s *bitBuf) octets(o []byte) {
	for _, x := range o {
		for i := 0; i < 8; i++ {
			s.stuffBit(x >> uint(i) & 1)
		}
	}
}

// ---- what the decoder has to say about a frame ----

func (f *axFrame) want() ax25.Frame {
	w := ax25.Frame{}
	w.Destination = ax25.Address{Callsign: f.dst.call, SSID: f.dst.ssid}
	if f.flex {
		w.V1, w.Command = false, f.cmd
	} else {
		w.Source = ax25.Address{Callsign: f.src.call, SSID: f.src.ssid}
		for _, r := range f.reps {
			w.Repeaters = append(w.Repeaters, ax25.Address{Callsign: r.call, SSID: r.ssid})
		}
		dc, sc := f.dst.flags&0x80 != 0, f.src.flags&0x80 != 0
		w.V1 = dc == sc
		w.Command = !w.V1 && dc
	}
	c := f.control
	w.PollFinal = c>>4&1 == 1
	switch {
	case c&1 == 0:
		w.Type = ax25.IFrame
		w.SendSeq, w.RecvSeq = int(c>>1&7), int(c>>5&7)
	case c&3 == 1:
		w.Type = ax25.SFrame
		w.SupervisoryType = map[byte]ax25.SupervisoryType{0: ax25.RR, 1: ax25.RNR, 2: ax25.REJ, 3: ax25.SREJ}[c>>2&3]
		w.RecvSeq = int(c >> 5 & 7)
	default:
		w.Type = ax25.UFrame
		w.UnnumberedType = ax25.UnnumberedType(c &^ 0x10)
	}
	if axHasPID(c) {
		w.PID = ax25.PID(f.pid)
		w.Info = f.info
	}
	return w
}

func axDiff(got *ax25.Frame, w ax25.Frame, judgeInfo bool) string {
	switch {
	case got.Source != w.Source:
		return fmt.Sprintf("source %v, want %v", got.Source, w.Source)
	case got.Destination != w.Destination:
		return fmt.Sprintf("destination %v, want %v", got.Destination, w.Destination)
	case fmt.Sprint(got.Repeaters) != fmt.Sprint(w.Repeaters):
		return fmt.Sprintf("repeaters %v, want %v", got.Repeaters, w.Repeaters)
	case got.V1 != w.V1 || got.Command != w.Command:
		return fmt.Sprintf("V1 %v command %v, want %v %v", got.V1, got.Command, w.V1, w.Command)
	case got.Type != w.Type:
		return fmt.Sprintf("type %v, want %v", got.Type, w.Type)
	case got.SendSeq != w.SendSeq || got.RecvSeq != w.RecvSeq:
		return fmt.Sprintf("sequence numbers %d %d, want %d %d", got.SendSeq, got.RecvSeq, w.SendSeq, w.RecvSeq)
	case got.PollFinal != w.PollFinal:
		return fmt.Sprintf("poll/final %v, want %v", got.PollFinal, w.PollFinal)
	case got.UnnumberedType != w.UnnumberedType:
		return fmt.Sprintf("unnumbered type %v, want %v", got.UnnumberedType, w.UnnumberedType)
	case got.SupervisoryType != w.SupervisoryType:
		return fmt.Sprintf("supervisory type %v, want %v", got.SupervisoryType, w.SupervisoryType)
	}
	if judgeInfo {
		if got.PID != w.PID {
			return fmt.Sprintf("PID %v, want %v", got.PID, w.PID)
		}
		if !bytes.Equal(got.Info, w.Info) {
			return fmt.Sprintf("info % x, want % x", got.Info, w.Info)
		}
	}
	return ""
}

// ---- generators ----

const callChars = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"

func (r *Rand) call() string {
	n := 1 + r.Intn(6)
	b := make([]byte, n)
	for i := range b {
		b[i] = callChars[r.Intn(len(callChars))]
	}
	return string(b)
}

func (r *Rand) addr() axAddr {
	return axAddr{r.call(), r.Intn(16), byte(r.Intn(8)) << 5}
}

var axU = []byte{0x6f, 0x2f, 0x43, 0x0f, 0x63, 0x87, 0x03, 0xaf, 0xe3}
var axPIDs = []byte{0x01, 0x06, 0x07, 0x08, 0xc3, 0xc4, 0xca, 0xcb, 0xcc, 0xcd, 0xce, 0xcf, 0xf0}

func (r *Rand) control() byte {
	p := byte(r.Intn(2)) << 4
	switch r.Intn(6) {
	case 0, 1:
		return byte(r.Intn(8))<<1 | byte(r.Intn(8))<<5 | p
	case 2:
		return byte(r.Intn(4))<<2 | 1 | byte(r.Intn(8))<<5 | p
	case 3:
		return axU[r.Intn(len(axU))] | p
	case 4:
		return byte(r.Intn(256))&^0x10 | 3 | p // any unnumbered
	}
	return 0x03 | p
}

func (r *Rand) infoBytes(n int) []byte {
	b := make([]byte, n)
	switch r.Intn(8) {
	case 0: // all ones: the most stuffing
		for i := range b {
			b[i] = 0xff
		}
	case 1:
	case 2:
		for i := range b {
			b[i] = 0x7e
		}
	case 3:
		for i := range b {
			b[i] = []byte{0x1f, 0x3f, 0x7f, 0xf8, 0xfc, 0xfe, 0x7c, 0x3e, 0xff, 0x00}[r.Intn(10)]
		}
	case 4:
		for i := range b {
			b[i] = 0x7d + byte(r.Intn(3))
		}
	default:
		r.Bytes(b)
	}
	return b
}

// frame generates a well-formed frame. room < 0: any length.
func (r *Rand) frame(flex bool, nrep, infoLen int) *axFrame {
	f := &axFrame{flex: flex, dst: r.addr(), control: r.control(), pid: axPIDs[r.Intn(len(axPIDs))]}
	if r.Intn(4) == 0 {
		f.pid = byte(r.Intn(256))
	}
	if flex {
		f.flexHead = [2]byte{byte(r.Intn(256)), byte(r.Intn(256))}
		f.cmd = r.Bool()
		f.dst.flags = 0
	} else {
		f.src = r.addr()
		for i := 0; i < nrep; i++ {
			f.reps = append(f.reps, r.addr())
		}
	}
	if infoLen >= 0 {
		if !axHasPID(f.control) && infoLen > 0 && r.Intn(3) > 0 {
			// information belongs in I and UI frames; some U frames carry one too
			if r.Bool() {
				f.control = f.control&0x10 | 0x03
			} else {
				f.control &^= 1
			}
		}
		if f.control&3 != 1 {
			f.info = r.infoBytes(infoLen)
		}
	}
	return f
}

const axMax = 512

func (r *Rand) anyFrame() *axFrame {
	flex := r.Intn(4) == 0
	nrep := 0
	if r.Bool() {
		nrep = r.Intn(9)
	}
	head := 16 + 7*nrep
	if flex {
		head = 9
	}
	room := axMax - 2 - head
	n := 0
	switch r.Intn(8) {
	case 0:
		n = 0
	case 1:
		n = room - r.Intn(4)
	case 2:
		n = r.Intn(room + 1)
	default:
		n = r.Intn(40)
	}
	return r.frame(flex, nrep, n)
}

func (f *axFrame) String() string {
	return fmt.Sprintf("flex=%v dst=%s-%d src=%s-%d rep=%d ctl=%02x pid=%02x info=%d", f.flex, f.dst.call, f.dst.ssid, f.src.call, f.src.ssid, len(f.reps), f.control, f.pid, len(f.info))
}

func feedBits(d *ax25.AX25, bits []byte, at func(i int, f *ax25.Frame)) {
	for i, b := range bits {
		if f := d.Feed(int(b)); f != nil {
			at(i, f)
		}
	}
}

type axExpect struct {
	at int // index of the last bit of the closing flag
	f  *axFrame
}

// streamOf sends the frames with all kinds of fill between them; expects lists where each frame must appear.
func (r *Rand) streamOf(frames []*axFrame, noise int) (bits []byte, exp []axExpect, quietFrom int) {
	s := &bitBuf{}
	for i := 0; i < noise; i++ {
		switch r.Intn(3) {
		case 0:
			s.raw(1)
		default:
			s.raw(byte(r.Intn(2)))
		}
	}
	s.flag()
	quietFrom = len(s.b)
	for _, f := range frames {
		s.octets(withCRC(f.octets()))
		s.flag()
		exp = append(exp, axExpect{len(s.b) - 1, f})
		switch r.Intn(6) {
		case 0:
			for k := r.Intn(5); k >= 0; k-- {
				s.flag()
			}
		case 1:
			for k := r.Intn(5); k >= 0; k-- {
				s.sharedZeroFlag()
			}
		case 2: // carrier idle (ones: abort), then a new flag
			for k := 7 + r.Intn(40); k >= 0; k-- {
				s.raw(1)
			}
			s.ones = 0
			s.flag()
		case 3: // zeros as fill: short garbage, then a flag
			for k := r.Intn(60); k >= 0; k-- {
				s.raw(0)
			}
			s.flag()
		}
	}
	return s.b, exp, quietFrom
}

func checkC18(c *Ctx) {
	c.Rule = "one evaluation = one frame sent by the independent transmitter and compared field by field with what the decoder returned at the last bit of its closing flag (and nothing anywhere else); distinct = distinct frames (all octets)."
	run := func(name string, frames []*axFrame, noise int, d *ax25.AX25) {
		bits, exp, quiet := c.R.streamOf(frames, noise)
		if d == nil {
			d = ax25.NewDecoder()
		}
		next := 0
		feedBits(d, bits, func(i int, f *ax25.Frame) {
			if i < quiet {
				return // noise: judged by C19
			}
			for next < len(exp) && exp[next].at < i {
				c.Fail("lost:"+name, "frame not delivered: %s octets % x", exp[next].f, exp[next].f.octets())
				next++
			}
			if next >= len(exp) || exp[next].at != i {
				c.Fail("extra:"+name, "a frame was returned at bit %d where none ends: %+v", i, *f)
				return
			}
			w := exp[next].f
			if df := axDiff(f, w.want(), axHasPID(w.control)); df != "" {
				c.Fail("fields:"+name, "%s; sent %s octets % x", df, w, w.octets())
			}
			c.Count("frames_delivered", 1)
			c.Count("type_"+f.Type.String(), 1)
			next++
		})
		for ; next < len(exp); next++ {
			c.Fail("lost:"+name, "frame not delivered: %s octets % x", exp[next].f, exp[next].f.octets())
		}
		for _, f := range frames {
			c.Seen(hashB(f.octets()), true)
		}
		c.Count("bits", int64(len(bits)))
	}
	// every control octet, both headers
	for _, flex := range []bool{false, true} {
		c.Do(fmt.Sprintf("controls flex=%v", flex), func() {
			var fs []*axFrame
			for ctl := 0; ctl < 256; ctl++ {
				f := c.R.frame(flex, c.R.Intn(3), -1)
				f.control = byte(ctl)
				if axHasPID(f.control) {
					f.info = c.R.infoBytes(c.R.Intn(6))
				}
				fs = append(fs, f)
			}
			run("control", fs, 0, nil)
		})
		// every PID
		c.Do(fmt.Sprintf("pids flex=%v", flex), func() {
			var fs []*axFrame
			for p := 0; p < 256; p++ {
				f := c.R.frame(flex, c.R.Intn(2), -1)
				f.control = 0x03
				f.pid = byte(p)
				f.info = c.R.infoBytes(c.R.Intn(6))
				fs = append(fs, f)
			}
			run("pid", fs, 0, nil)
		})
		// every character at every position of the callsign, every length, every SSID and flag combination
		c.Do(fmt.Sprintf("callsigns flex=%v", flex), func() {
			var fs []*axFrame
			for _, ch := range callChars {
				for n := 1; n <= 6; n++ {
					f := c.R.frame(flex, 2, 3)
					call := func() string {
						b := []byte(c.R.call())
						for len(b) < n {
							b = append(b, callChars[c.R.Intn(len(callChars))])
						}
						b = b[:n]
						b[n-1] = byte(ch)
						return string(b)
					}
					f.dst.call = call()
					if !flex {
						f.src.call = call()
						for i := range f.reps {
							f.reps[i].call = call()
						}
					}
					fs = append(fs, f)
				}
			}
			for ssid := 0; ssid < 16; ssid++ {
				for fl := 0; fl < 8; fl++ {
					for fl2 := 0; fl2 < 8; fl2++ {
						f := c.R.frame(flex, c.R.Intn(2), 3)
						f.dst.ssid, f.src.ssid = ssid, 15-ssid
						f.dst.flags, f.src.flags = byte(fl)<<5, byte(fl2)<<5
						if flex {
							f.dst.flags = 0
						}
						fs = append(fs, f)
					}
				}
			}
			run("callsign", fs, 0, nil)
		})
		// every number of repeaters with every information length near both limits
		c.Do(fmt.Sprintf("lengths flex=%v", flex), func() {
			for nrep := 0; nrep <= 8; nrep++ {
				var fs []*axFrame
				head := 16 + 7*nrep
				if flex {
					head = 9
				}
				step := 1
				if !c.Thorough() && nrep%4 != 0 {
					step = 17
				}
				for n := 0; n <= axMax-2-head; n += step {
					f := c.R.frame(flex, nrep, -1)
					f.control = f.control&0x10 | 3
					f.info = c.R.infoBytes(n)
					fs = append(fs, f)
				}
				for n := axMax - 2 - head - 8; n <= axMax-2-head; n++ {
					f := c.R.frame(flex, nrep, -1)
					f.control &^= 1
					f.info = c.R.infoBytes(n)
					fs = append(fs, f)
				}
				run("length", fs, 0, nil)
				if flex {
					break
				}
			}
		})
	}
	// every information byte value pair around the stuffing boundary
	c.Do("bytepairs", func() {
		var fs []*axFrame
		for a := 0; a < 256; a++ {
			info := make([]byte, 0, 300)
			for b := 0; b < 256; b += 1 + c.R.Intn(2) {
				info = append(info, byte(a), byte(b))
				if len(info) > 480 {
					break
				}
			}
			f := c.R.frame(false, 0, -1)
			f.control = 3
			f.info = info
			fs = append(fs, f)
		}
		run("bytepair", fs, 0, nil)
	})
	// random sequences on one decoder that lives through noise
	for i := 0; i < c.N(600, 6000); i++ {
		c.Do(fmt.Sprintf("sequence %d", i), func() {
			d := ax25.NewDecoder()
			for k := 0; k < 6; k++ {
				var fs []*axFrame
				for j := c.R.Intn(12); j >= 0; j-- {
					fs = append(fs, c.R.anyFrame())
				}
				noise := 0
				if c.R.Bool() {
					noise = c.R.Intn(c.R.Intn(9000) + 1)
				}
				run("sequence", fs, noise, d)
			}
		})
	}
	// a very long history on one decoder: counters must not wear out
	c.Do("long", func() {
		d := ax25.NewDecoder()
		for k := 0; k < c.N(3000, 60000); k++ {
			fs := []*axFrame{c.R.anyFrame(), c.R.anyFrame()}
			noise := 0
			if k%5 == 0 {
				noise = c.R.Intn(300)
			}
			run("long", fs, noise, d)
		}
	})
	c.Sample("e.g. %s", NewRand(c.Seed).anyFrame())
}

// ---- C19: reference receiver ----

// axRef is an independent receiver: it works on runs of ones and keeps the raw bits since the last flag.
type axRef struct {
	open   bool   // a flag was seen and no abort since
	raw    []byte // bits since the last flag (with stuffing)
	ones   int
	prev   byte
	nbits  int
	began  bool
	before byte // bit before the current run of ones
}

type axJudge struct {
	closing  bool   // this bit completed a flag
	open     bool   // a frame was open
	octets   []byte // whole octets of the destuffed bits before the closing flag
	over     []byte // the octets a receiver sees that does not hold back the flag's own bits
	rest     int    // bits beyond whole octets
	demanded bool
}

func destuff(raw []byte) []byte {
	out := make([]byte, 0, len(raw))
	ones := 0
	for _, b := range raw {
		if b == 0 && ones == 5 {
			ones = 0
			continue
		}
		if b == 1 {
			ones++
		} else {
			ones = 0
		}
		out = append(out, b)
	}
	return out
}

func packBits(bits []byte) []byte {
	o := make([]byte, 0, len(bits)/8)
	for i := 0; i+8 <= len(bits); i += 8 {
		var x byte
		for k := 0; k < 8; k++ {
			x |= bits[i+k] << uint(k)
		}
		o = append(o, x)
	}
	return o
}

// feed returns the judgement when the bit completes a flag, nil otherwise.
func (r *axRef) feed(b byte) *axJudge {
	if b == 1 {
		r.ones++
		if r.ones >= 7 {
			r.open = false
			r.raw = r.raw[:0]
		}
		if r.open {
			r.raw = append(r.raw, 1)
		}
		return nil
	}
	n := r.ones
	r.ones = 0
	if n == 6 { // zero, six ones, zero (before the first bit of all the line counts as zero)
		j := &axJudge{closing: true, open: r.open}
		if r.open {
			// raw ends with the flag's 0111111, or, directly after a flag sharing its zero, with 111111
			body := r.raw
			if len(body) >= 7 {
				body = body[:len(body)-7]
			} else {
				body = nil
			}
			d := destuff(body)
			j.octets, j.rest = packBits(d), len(d)%8
			j.over = packBits(destuff(r.raw))
		}
		r.open = true
		r.raw = r.raw[:0]
		return j
	}
	if r.open {
		r.raw = append(r.raw, 0)
	}
	return nil
}

func crcGood(o []byte) bool {
	if len(o) < 3 {
		return false
	}
	n := len(o) - 2
	return axCRC(o[:n]) == uint16(o[n])|uint16(o[n+1])<<8
}

func headerFits(o []byte) bool { // o with check sequence
	if len(o) < 10 {
		return false
	}
	return o[1]&1 != 0 || len(o) >= 17
}

// parseRef decodes octets (without check sequence) into a frame; ok is false when it is not a well-formed frame.
func parseRef(o []byte) (f *axFrame, ok bool) {
	f = &axFrame{}
	addr := func(b []byte) (a axAddr, good bool) {
		good = true
		end := false
		for _, x := range b[:6] {
			if x&1 != 0 {
				good = false
			}
			ch := x >> 1
			if ch == ' ' {
				end = true
			} else {
				if end || ch < 0x21 || ch > 0x7e {
					good = false
				}
				a.call += string(rune(ch))
			}
		}
		if a.call == "" {
			good = false
		}
		a.ssid = int(b[6] >> 1 & 15)
		a.flags = b[6] & 0xe0
		return
	}
	if len(o) < 8 {
		return nil, false
	}
	ok = true
	if o[1]&1 != 0 {
		f.flex = true
		f.cmd = o[1]&2 != 0
		var v uint64
		for _, x := range o[2:7] {
			v = v<<8 | uint64(x)
		}
		end := false
		for i := 0; i < 6; i++ {
			ch := byte(v >> uint(34-6*i) & 0x3f)
			if ch == 0 {
				end = true
				continue
			}
			if end {
				ok = false
			}
			f.dst.call += string(rune(ch + 0x20))
		}
		f.dst.ssid = int(v & 15)
		if f.dst.call == "" {
			ok = false
		}
		o = o[7:]
	} else {
		var g bool
		n := 0
		for {
			if len(o) < 8 {
				return nil, false
			}
			var a axAddr
			a, g = addr(o[:7])
			ok = ok && g
			last := o[6]&1 != 0
			o = o[7:]
			switch n {
			case 0:
				f.dst = a
				if last {
					return nil, false
				}
			case 1:
				f.src = a
			default:
				f.reps = append(f.reps, a)
			}
			n++
			if last {
				break
			}
			if n > 10 {
				return nil, false
			}
		}
		if len(f.reps) > 8 {
			return nil, false
		}
	}
	f.control = o[0]
	o = o[1:]
	if axHasPID(f.control) {
		if len(o) == 0 {
			return nil, false
		}
		f.pid = o[0]
		o = o[1:]
	} else if f.control&3 == 1 && len(o) > 0 {
		return f, ok // supervisory frame with something behind: still must not be lost, info not judged
	}
	f.info = o
	return f, ok
}

func checkC19(c *Ctx) {
	c.Rule = "one evaluation = one closing flag or returned frame judged by the independent reference receiver (a returned frame must end at a flag and be justified by a correct check sequence over the octets since the previous flag; a justified well-formed frame must be returned with its fields); distinct = distinct octet strings between flags, plus distinct mutated streams."
	monitor := func(name string, d *ax25.AX25, ref *axRef, bits []byte) {
		for i, b := range bits {
			f := d.Feed(int(b))
			j := ref.feed(b)
			if j == nil {
				if f != nil {
					c.Fail("notflag:"+name, "frame returned at bit %d, which does not complete a flag: %+v", i, *f)
				}
				continue
			}
			if f == nil && (!j.open || len(j.octets) < 3) {
				c.Count("flags_idle", 1)
				continue
			}
			good := j.open && crcGood(j.octets) && len(j.octets) <= axMax && headerFits(j.octets)
			goodOver := j.open && crcGood(j.over) && len(j.over) <= axMax && headerFits(j.over)
			c.Seen(mix(hashB(j.octets), j.rest, len(j.octets)), len(j.octets) > 2)
			if f != nil {
				c.Count("frames_returned", 1)
				if !good && !goodOver {
					c.Fail("unjustified:"+name, "frame returned at bit %d though open=%v and the %d octets since the previous flag are over-long, too short or have a wrong check sequence: % x; frame %+v", i, j.open, len(j.octets), j.octets, *f)
					continue
				}
				if good && j.rest == 0 {
					if w, ok := parseRef(j.octets[:len(j.octets)-2]); ok {
						judge := axHasPID(w.control)
						if df := axDiff(f, w.want(), judge); df != "" {
							c.Fail("fields:"+name, "%s for octets % x", df, j.octets)
						}
					}
				}
				continue
			}
			if good && j.rest == 0 {
				if w, ok := parseRef(j.octets[:len(j.octets)-2]); ok {
					c.Fail("lost:"+name, "well-formed frame %s lost: octets % x", w, j.octets)
				}
				c.Count("malformed_header_dropped", 1)
			} else {
				c.Count("bad_frames_dropped", 1)
			}
		}
		c.Count("bits", int64(len(bits)))
	}
	// probe: after any event the next well-formed frame is delivered
	probe := func(name string, d *ax25.AX25, ref *axRef, leadFlag bool) {
		s := &bitBuf{}
		if leadFlag {
			s.flag()
		}
		f := c.R.anyFrame()
		s.octets(withCRC(f.octets()))
		s.flag()
		var got *ax25.Frame
		for i, b := range s.b {
			fr := d.Feed(int(b))
			ref.feed(b)
			if fr != nil && i == len(s.b)-1 {
				got = fr
			} else if fr != nil && i > 8 {
				c.Fail("notflag:"+name, "frame returned inside a frame")
			}
		}
		if got == nil {
			c.Fail("recover:"+name, "the well-formed frame after the disturbance was not delivered: %s", f)
		} else if df := axDiff(got, f.want(), axHasPID(f.control)); df != "" {
			c.Fail("recover:"+name, "the well-formed frame after the disturbance is wrong: %s; sent %s octets % x", df, f, f.octets())
		}
		c.Count("recoveries", 1)
		c.Evals++
	}
	dec := func() (*ax25.AX25, *axRef) { return ax25.NewDecoder(), &axRef{} }

	// every one of the 65536 check sequences behind a frame body: exactly the right one is accepted
	for i := 0; i < c.N(4, 40); i++ {
		c.Do(fmt.Sprintf("check sequences %d", i), func() {
			f := c.R.frame(i%4 == 3, c.R.Intn(2), c.R.Intn(4))
			body := f.octets()
			right := axCRC(body)
			d, ref := dec()
			for k := 0; k < 65536; k++ {
				x := uint16(k*40503 + i) // all values, neighbours unrelated
				s := &bitBuf{}
				s.flag()
				s.octets(append(append([]byte{}, body...), byte(x), byte(x>>8)))
				s.flag()
				monitor("check sequence", d, ref, s.b)
			}
			c.Count("check_sequences_tried", 65536)
			c.Sample("all check sequences behind % x (right: %04x)", body, right)
		})
	}
	// the last octet, or the last two, would have to be made of the bits of the closing flag
	for i := 0; i < c.N(6, 60); i++ {
		c.Do(fmt.Sprintf("borrowed octets %d", i), func() {
			d, ref := dec()
			for k := 0; k < 8; k++ { // bits more than whole octets
				extra := []byte{0, 1, 0, 1, 1, 0, 1}[:k]
				raw, right := byte(0xfc), byte(0x7e)
				q := byte(0)
				if k > 0 {
					raw, right = byte(0xff<<uint(9-k)), byte(0xff>>uint(9-k))
					for j, b := range append(append([]byte{}, extra...), 0, 1, 1, 1, 1, 1, 1)[:8] {
						q |= b << uint(j)
					}
				}
				for _, p := range []byte{0, raw, right, 0xff, 0x7e, 0x3f} {
					for two := 0; two < 2; two++ {
						// two: the check sequence is (q, p), else it is (last whole octet, q) or, without extra bits, (last whole octet, p)
						o := c.R.frame(i%3 == 2, c.R.Intn(2), 4+c.R.Intn(6)).octets()
						at := len(o) - 3
						var want, mask uint16
						switch {
						case k > 0 && two == 1:
							want, mask = uint16(q)|uint16(p)<<8, 0xffff
						case k > 0:
							want, mask = uint16(q)<<8, 0xff00
						default:
							want, mask = uint16(p)<<8, 0xff00
						}
						var crc uint16
						for x := 0; x < 65536; x++ {
							o[at], o[at+1] = byte(x), byte(x>>8)
							if crc = axCRC(o); crc&mask == want {
								break
							}
						}
						s := &bitBuf{}
						s.flag()
						if !(k > 0 && two == 1) {
							o = append(o, byte(crc))
						}
						s.octets(o)
						s.raw(extra...)
						s.flag()
						monitor("borrowed octets", d, ref, s.b)
						c.Count("borrowed_octets", 1)
					}
				}
				probe("borrowed octets", d, ref, c.R.Bool())
			}
		})
	}
	// every pair of flipped bits of some short valid frames
	for i := 0; i < c.N(2, 20); i++ {
		c.Do(fmt.Sprintf("double flips %d", i), func() {
			f := c.R.frame(i%2 == 1, 0, c.R.Intn(3))
			full := withCRC(f.octets())
			d, ref := dec()
			for p := 0; p < len(full)*8; p++ {
				for q := p + 1; q < len(full)*8; q++ {
					m := append([]byte{}, full...)
					m[p/8] ^= 1 << uint(p%8)
					m[q/8] ^= 1 << uint(q%8)
					s := &bitBuf{}
					s.flag()
					s.octets(m)
					s.flag()
					monitor("double flip", d, ref, s.b)
				}
			}
		})
	}
	// every single-bit flip, every deletion, every insertion, every truncation and abort of some valid frames
	for i := 0; i < c.N(60, 600); i++ {
		c.Do(fmt.Sprintf("mutations %d", i), func() {
			f := c.R.frame(i%3 == 0, c.R.Intn(3), c.R.Intn(20))
			if i == 1 {
				f.info = bytes.Repeat([]byte{0xff}, 20)
				f.control = 3
			}
			s := &bitBuf{}
			s.octets(withCRC(f.octets()))
			body := s.b
			d, ref := dec()
			flag := []byte{0, 1, 1, 1, 1, 1, 1, 0}
			cat := func(parts ...[]byte) []byte { return bytes.Join(parts, nil) }
			for p := 0; p <= len(body); p++ {
				if p < len(body) {
					m := append([]byte{}, body...)
					m[p] ^= 1
					monitor("flip", d, ref, cat(flag, m, flag))
					monitor("delete", d, ref, cat(flag, body[:p], body[p+1:], flag))
					w := 2 + c.R.Intn(15)
					m = append([]byte{}, body...)
					m[p] ^= 1
					for q := p + 1; q < p+w && q < len(m); q++ {
						m[q] ^= byte(c.R.Intn(2))
					}
					monitor("burst", d, ref, cat(flag, m, flag))
				}
				for b := byte(0); b < 2; b++ {
					monitor("insert", d, ref, cat(flag, body[:p], []byte{b}, body[p:], flag))
				}
				monitor("truncate", d, ref, cat(flag, body[:p], flag))
				monitor("head cut", d, ref, cat(flag, body[p:], flag))
				ab := bytes.Repeat([]byte{1}, 7+c.R.Intn(9))
				monitor("abort", d, ref, cat(flag, body[:p], ab, []byte{0}, body[p:], flag))
				// aborted, and the rest of the line is a whole valid frame without an opening flag
				monitor("abort then frame without flag", d, ref, cat(flag, body[:p], ab, []byte{0}, body, flag))
				monitor("abort at once", d, ref, cat(flag, ab, []byte{0}, body, flag))
				if p%16 == 0 {
					probe("mutation", d, ref, c.R.Bool())
				}
			}
		})
	}
	// the frame on a fresh decoder without an opening flag; with k leading bits of a flag missing
	for i := 0; i < c.N(2000, 20000); i++ {
		c.Do(fmt.Sprintf("start %d", i), func() {
			d, ref := dec()
			f := c.R.anyFrame()
			s := &bitBuf{}
			s.octets(withCRC(f.octets()))
			flag := []byte{0, 1, 1, 1, 1, 1, 1, 0}
			monitor("no opening flag", d, ref, append(append(append([]byte{}, flag[c.R.Intn(9):]...), s.b...), flag...))
			probe("start", d, ref, c.R.Bool())
		})
	}
	// over-long frames, in every way that could fool a receiver that mishandles the limit
	for i := 0; i < c.N(1000, 12000); i++ {
		c.Do(fmt.Sprintf("overlong %d", i), func() {
			d, ref := dec()
			for k := 0; k < 3; k++ {
				var o []byte
				kind := (i + k) % 6
				switch kind {
				case 0: // valid check sequence over everything, 513.. octets
					f := c.R.frame(c.R.Intn(3) == 0, 0, -1)
					f.control = 3
					f.info = c.R.infoBytes(600)
					n := axMax - 1 + c.R.Intn(5)
					if c.R.Intn(3) == 0 {
						n = axMax + 1 + c.R.Intn(80)
					}
					o = withCRC(f.octets()[:n-2])
				case 1: // the first 512 octets are a valid frame, more follows
					f := c.R.frame(false, 0, -1)
					f.control = 3
					f.info = c.R.infoBytes(600)
					o = withCRC(f.octets()[:axMax-2-c.R.Intn(2)])
					o = append(o, c.R.infoBytes(1+c.R.Intn(40))...)
				case 2: // a valid frame follows after 509..516 octets, without a flag
					o = c.R.infoBytes(axMax - 3 + c.R.Intn(8))
					o = append(o, withCRC(c.R.frame(c.R.Bool(), c.R.Intn(2), c.R.Intn(20)).octets())...)
				case 3: // twice around
					o = append(c.R.infoBytes(2*axMax-3+c.R.Intn(8)), withCRC(c.R.frame(c.R.Bool(), 0, c.R.Intn(20)).octets())...)
				case 4: // the first part is valid
					o = withCRC(c.R.frame(false, 0, 5).octets())
					o = append(o, c.R.infoBytes(axMax-len(o)+c.R.Intn(600))...)
				case 5: // very long
					o = c.R.infoBytes(2000 + c.R.Intn(9000))
					o = withCRC(o)
				}
				s := &bitBuf{}
				s.flag()
				s.octets(o)
				if c.R.Intn(4) == 0 {
					for x := c.R.Intn(8); x > 0; x-- {
						s.stuffBit(byte(c.R.Intn(2)))
					}
				}
				s.flag()
				monitor(fmt.Sprintf("overlong%d", kind), d, ref, s.b)
				probe("overlong", d, ref, c.R.Bool())
			}
		})
	}
	// too short for the header, with a correct check sequence; headers that never end; all lengths
	for i := 0; i < c.N(120, 1200); i++ {
		c.Do(fmt.Sprintf("short %d", i), func() {
			d, ref := dec()
			for n := 0; n < 90; n++ {
				o := make([]byte, n)
				c.R.Bytes(o)
				switch i % 4 {
				case 0: // address octets never marked last
					for k := range o {
						o[k] &^= 1
					}
				case 1:
					o = c.R.frame(false, 8, 10).octets()
					if n < len(o) {
						o = o[:n]
					}
				case 2: // FlexNet marker
					if n > 1 {
						o[1] |= 1
					}
				}
				s := &bitBuf{}
				s.flag()
				s.octets(withCRC(o))
				s.flag()
				monitor("short", d, ref, s.b)
				if n%10 == 0 {
					probe("short", d, ref, c.R.Bool())
				}
			}
		})
	}
	// noise of several kinds, then recovery
	for i := 0; i < c.N(600, 8000); i++ {
		c.Do(fmt.Sprintf("noise %d", i), func() {
			d, ref := dec()
			for k := 0; k < 4; k++ {
				n := 1 + c.R.Intn(8000)
				bits := make([]byte, n)
				p := c.R.F64()
				run := 0
				for j := range bits {
					switch (i + k) % 4 {
					case 0:
						bits[j] = byte(c.R.Intn(2))
					case 1:
						if c.R.F64() < p {
							bits[j] = 1
						}
					case 2: // avoids aborts: runs of at most six ones
						bits[j] = byte(c.R.Intn(2))
						if run >= 5 && c.R.Intn(30) > 0 {
							bits[j] = 0
						}
						if run >= 6 {
							bits[j] = 0
						}
						if bits[j] == 1 {
							run++
						} else {
							run = 0
						}
					case 3: // long runs
						if c.R.Intn(9) == 0 {
							p = float64(c.R.Intn(2))
						}
						bits[j] = byte(p + 0.5)
					}
				}
				monitor("noise", d, ref, bits)
				probe("noise", d, ref, true)
			}
		})
	}
	// one receiver for a very long time: noise and frames in turn
	c.Do("long noise", func() {
		d, ref := dec()
		for k := 0; k < c.N(6000, 60000); k++ {
			bits := make([]byte, c.R.Intn(700))
			for j := range bits {
				bits[j] = byte(c.R.Intn(2))
			}
			monitor("long noise", d, ref, bits)
			probe("long noise", d, ref, true)
		}
	})
	// valid sequences with random damage: multi-step histories on one decoder
	for i := 0; i < c.N(800, 10000); i++ {
		c.Do(fmt.Sprintf("history %d", i), func() {
			d, ref := dec()
			for k := 0; k < 8; k++ {
				var fs []*axFrame
				for j := c.R.Intn(5); j >= 0; j-- {
					fs = append(fs, c.R.anyFrame())
				}
				bits, _, _ := c.R.streamOf(fs, c.R.Intn(50))
				for x := c.R.Intn(4); x > 0; x-- {
					p := c.R.Intn(len(bits))
					switch c.R.Intn(4) {
					case 0:
						bits[p] ^= 1
					case 1:
						bits = append(bits[:p], bits[p+1:]...)
					case 2:
						bits = append(bits[:p:p], append([]byte{byte(c.R.Intn(2))}, bits[p:]...)...)
					case 3:
						bits = bits[:p+1]
					}
				}
				monitor("history", d, ref, bits)
				probe("history", d, ref, true)
			}
		})
	}
}

// ---- C20 ----

func cloneFrame(f *ax25.Frame) ax25.Frame {
	g := *f
	g.Repeaters = append([]ax25.Address{}, f.Repeaters...)
	for i := range g.Repeaters {
		g.Repeaters[i].Callsign = string(append([]byte{}, g.Repeaters[i].Callsign...))
	}
	g.Source.Callsign = string(append([]byte{}, f.Source.Callsign...))
	g.Destination.Callsign = string(append([]byte{}, f.Destination.Callsign...))
	g.Info = append([]byte{}, f.Info...)
	return g
}

func checkC20(c *Ctx) {
	c.Rule = "one evaluation = one re-check of a retained frame against its deep snapshot after later bits were fed, or one comparison of a frame with what another decoder made of the same bits; distinct = distinct retained frames."
	type kept struct {
		f    *ax25.Frame
		snap ax25.Frame
		when int
	}
	for i := 0; i < c.N(1000, 10000); i++ {
		c.Do(fmt.Sprintf("retain %d", i), func() {
			var fs []*axFrame
			same := i%3 == 0 // frames of equal length overwrite a shared buffer completely, others only partly
			n := 2 + c.R.Intn(14)
			base := c.R.anyFrame()
			for k := 0; k < n; k++ {
				if same {
					f := c.R.frame(base.flex, len(base.reps), -1)
					f.control = 3
					f.info = c.R.infoBytes(len(base.info) + 1)
					if 2+len(f.octets()) > axMax {
						f.info = f.info[:len(f.info)-2]
					}
					fs = append(fs, f)
				} else {
					fs = append(fs, c.R.anyFrame())
				}
			}
			bits, exp, _ := c.R.streamOf(fs, c.R.Intn(40))
			d := ax25.NewDecoder()
			d2 := ax25.NewDecoder() // the caller of this one scribbles over every frame it gets
			var keep []kept
			var owned []*ax25.Frame // frames of d2
			check := func(at int) bool {
				for _, k := range keep {
					c.Evals++
					if df := axDiff(k.f, k.snap, true); df != "" {
						c.Fail("changed", "frame delivered at bit %d changed by bit %d: %s", k.when, at, df)
						return false
					}
				}
				c.Count("recheck_rounds", 1)
				return true
			}
			for j, b := range bits {
				f := d.Feed(int(b))
				g := d2.Feed(int(b))
				if (f == nil) != (g == nil) {
					c.Fail("scribble", "bit %d: a decoder whose frames were modified by their owner disagrees on delivery (%v, %v)", j, f != nil, g != nil)
					return
				}
				if f != nil {
					if df := axDiff(g, *f, true); df != "" {
						c.Fail("scribble", "bit %d: frame differs after earlier frames were modified by their owner: %s", j, df)
						return
					}
					// the owner goes on filling the room behind earlier frames
					for _, o := range owned {
						e := o.Info[len(o.Info):cap(o.Info)]
						for q := range e {
							e[q] = byte(j)
						}
						a := o.Repeaters[len(o.Repeaters):cap(o.Repeaters)]
						for q := range a {
							a[q] = ax25.Address{Callsign: "WWWWWW", SSID: j}
						}
						c.Count("extended_frames", 1)
					}
					if df := axDiff(g, *f, true); df != "" {
						c.Fail("scribble", "bit %d: frame changes when an earlier frame is extended by its owner: %s", j, df)
						return
					}
					mine := *g
					owned = append(owned, &mine)
					keep = append(keep, kept{f, cloneFrame(f), j})
					c.Seen(hashB(f.Info)^hashS(f.Source, f.Destination), true)
					c.Count("frames_retained", 1)
					// the owner modifies, extends and keeps its frame
					for q := range g.Info {
						g.Info[q] ^= 0xff
					}
					for q := range g.Repeaters {
						g.Repeaters[q] = ax25.Address{Callsign: "XXXXXX", SSID: 99}
					}
					g.Info = append(g.Info, 0xff, 0xff, 0xff)
					if cap(g.Info) > len(g.Info) {
						e := g.Info[len(g.Info):cap(g.Info)]
						for q := range e {
							e[q] = 0xee
						}
					}
					g.Repeaters = append(g.Repeaters, ax25.Address{Callsign: "YYY"})
					g.Source.Callsign = "Z"
				}
				if len(keep) > 0 && (j < 400 || f != nil || j%61 == 0) {
					if !check(j) {
						return
					}
				}
			}
			check(len(bits))
			// noise afterwards
			for q := 0; q < 5000; q++ {
				d.Feed(c.R.Intn(2))
			}
			check(len(bits) + 5000)
			if len(keep) < len(exp) {
				c.Count("streams_with_undelivered", 1) // judged by C18
			}
			_ = exp
		})
	}
	// several decoders interleaved, and the same stream twice
	for i := 0; i < c.N(400, 6000); i++ {
		c.Do(fmt.Sprintf("interleave %d", i), func() {
			k := 2 + c.R.Intn(6)
			streams := make([][]byte, k)
			alone := make([][]ax25.Frame, k)
			for s := range streams {
				var fs []*axFrame
				for j := c.R.Intn(6); j >= 0; j-- {
					fs = append(fs, c.R.anyFrame())
				}
				streams[s], _, _ = c.R.streamOf(fs, c.R.Intn(200))
				if s > 0 && c.R.Intn(3) == 0 {
					streams[s] = streams[s-1]
				}
				feedBits(ax25.NewDecoder(), streams[s], func(_ int, f *ax25.Frame) { alone[s] = append(alone[s], cloneFrame(f)) })
			}
			decs := make([]*ax25.AX25, k)
			pos := make([]int, k)
			got := make([][]*ax25.Frame, k)
			for s := range decs {
				decs[s] = ax25.NewDecoder()
			}
			for {
				s := c.R.Intn(k)
				for t := 0; t < k && pos[s] >= len(streams[s]); t++ {
					s = (s + 1) % k
				}
				if pos[s] >= len(streams[s]) {
					break
				}
				for t := c.R.Intn(20); t >= 0 && pos[s] < len(streams[s]); t-- {
					if f := decs[s].Feed(int(streams[s][pos[s]])); f != nil {
						got[s] = append(got[s], f)
					}
					pos[s]++
				}
			}
			for s := range got {
				if len(got[s]) != len(alone[s]) {
					c.Fail("interleave", "decoder %d of %d returned %d frames interleaved, %d alone", s, k, len(got[s]), len(alone[s]))
					return
				}
				for j := range got[s] {
					c.Evals++
					c.Count("interleaved_frames", 1)
					if df := axDiff(got[s][j], alone[s][j], true); df != "" {
						c.Fail("interleave", "decoder %d of %d, frame %d: interleaved and at the end of the run it is not what it was alone: %s", s, k, j, df)
						return
					}
				}
			}
		})
	}
}
