package main

import (
	"fmt"
	"math"
	"net"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/samuel/go-dsp/borip"
)

func init() { checks["C37"] = checkC37 }

// cutter is a TCP relay in front of the server: it hands the bytes on in pieces of its own choice, with pauses, and can cut the
// connection in both directions.
type cutter struct {
	ln   net.Listener
	mu   sync.Mutex
	c, s net.Conn
	mode int // 0: as they come, 1: single bytes, 2: random pieces with pauses
}

func newCutter(mode int, seed uint64) *cutter {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic("harness: " + err.Error())
	}
	x := &cutter{ln: ln, mode: mode}
	go func() {
		a, err := ln.Accept()
		ln.Close()
		if err != nil {
			return
		}
		b, err := net.Dial("tcp", srvAddr)
		if err != nil {
			a.Close()
			return
		}
		x.mu.Lock()
		x.c, x.s = a, b
		x.mu.Unlock()
		go x.relay(a, b, NewRand(seed))
		x.relay(b, a, NewRand(seed+1))
	}()
	return x
}

func (x *cutter) relay(from, to net.Conn, r *Rand) {
	defer from.Close()
	defer to.Close()
	buf := make([]byte, 4096)
	for {
		n, err := from.Read(buf)
		for p := buf[:n]; len(p) > 0; {
			k := len(p)
			switch x.mode {
			case 1:
				k = 1
			case 2:
				k = 1 + r.Intn(k)
				if r.Intn(3) == 0 {
					time.Sleep(time.Duration(r.Intn(2000)) * time.Microsecond)
				}
			}
			if _, err := to.Write(p[:k]); err != nil {
				return
			}
			p = p[k:]
		}
		if err != nil {
			return
		}
	}
}

// cut ends the connection, in mode "reset" without the orderly end.
func (x *cutter) cut(reset bool) {
	x.ln.Close()
	x.mu.Lock()
	defer x.mu.Unlock()
	for _, k := range []net.Conn{x.c, x.s} {
		if t, ok := k.(*net.TCPConn); ok && reset {
			t.SetLinger(0) // of both before either is closed: the relays close the other
		}
	}
	for _, k := range []net.Conn{x.s, x.c} {
		if k != nil {
			k.Close()
		}
	}
}

// ---- model of one client and of the receivers ----

type cliModel struct {
	name string
	bor  *borip.BorIP
	via  *cutter
	dev  int // index of the receiver, -1: none
	run  bool
	dest string
	sink *udpSink
	rd   *borip.PacketReader
	seq  int
	want *borip.Device // what Device() is to return; nil with known false: not judged
	know bool
	desc string             // want in words
	vals map[string]float64 // what this client's receiver was last told
}

type pairModel struct {
	c      *Ctx
	mu     *sync.Mutex // guards c
	r      *Rand
	s      *srvProc
	confs  []stubConf
	holder []*cliModel
	ending []int
	hist   []string
	bad    bool
	many   bool // several models share the server: only what this client's own receiver shows is judged
}

func (m *pairModel) note(format string, args ...interface{}) {
	m.hist = append(m.hist, fmt.Sprintf(format, args...))
}

func (m *pairModel) fail(key, format string, args ...interface{}) bool {
	h := m.hist
	if len(h) > 16 {
		h = h[len(h)-16:]
	}
	m.mu.Lock()
	m.c.Fail(key, "%s\n  history: %s", fmt.Sprintf(format, args...), strings.Join(h, " ; "))
	m.mu.Unlock()
	m.bad = true
	return false
}

func (m *pairModel) count(name string, n int64) {
	m.mu.Lock()
	m.c.Count(name, n)
	m.mu.Unlock()
}

func (m *pairModel) seen(h uint64) {
	m.mu.Lock()
	m.c.Seen(h, true)
	m.mu.Unlock()
}

// call runs one client call; one that does not return is a violation.
func (m *pairModel) call(cl *cliModel, what string, f func()) bool {
	done := make(chan interface{}, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case p := <-done:
		if p != nil {
			return m.fail("panic", "%s.%s panics: %v", cl.name, what, p)
		}
	case <-time.After(replyTimeout):
		if m.s.dead() {
			panic(srvDead{})
		}
		return m.fail("hang", "%s.%s does not return within %v", cl.name, what, replyTimeout)
	}
	if m.s.dead() {
		panic(srvDead{})
	}
	return true
}

func (m *pairModel) st(cl *cliModel) stubState { return m.s.state()[cl.dev] }

func (m *pairModel) fails(cl *cliModel, methods ...string) bool {
	for _, x := range methods {
		if m.confs[cl.dev].Fail[x] {
			return true
		}
	}
	return false
}

func stepped(v float64, st uint) float64 {
	v = math.Floor(v)
	if st > 1 {
		v = math.Floor(v/float64(st)) * float64(st)
	}
	return v
}

func (m *pairModel) dial(cl *cliModel) bool {
	addr := srvAddr
	cl.via = nil
	if k := m.r.Intn(4); k > 0 {
		cl.via = newCutter(k-1, m.r.U64())
		addr = cl.via.ln.Addr().String()
	}
	var err error
	if !m.call(cl, "Dial", func() { cl.bor, err = borip.Dial(addr) }) {
		return false
	}
	if err != nil {
		return m.fail("dial", "%s: Dial: %v", cl.name, err)
	}
	cl.dev, cl.run, cl.dest, cl.want, cl.know = -1, false, "127.0.0.1:28888", nil, true
	cl.vals = map[string]float64{}
	m.note("%s dials", cl.name)
	return true
}

// drop forgets the receiver of a client in the model.
func (m *pairModel) drop(cl *cliModel) {
	if cl.dev >= 0 {
		m.holder[cl.dev] = nil
		m.ending[cl.dev] = 0
	}
	cl.dev, cl.run = -1, false
	cl.vals = map[string]float64{}
}

// settled waits until the server has noticed that a client is gone.
func (m *pairModel) settled(i int) bool {
	var x stubState
	for t := 0; t < 12000; t++ {
		if x = m.s.state()[i]; !x.Open {
			return true
		}
		time.Sleep(5 * time.Millisecond)
	}
	return m.fail("release", "a minute after its client has gone the receiver %q is still taken: %+v", x.Name, x)
}

// devices compares all receivers with the model.
func (m *pairModel) devices(when string) bool {
	for i, x := range m.s.state() {
		h := m.holder[i]
		if m.many && h == nil {
			continue
		}
		if len(x.Log) > 0 {
			return m.fail("receiver", "%s: receiver %q was misused: %v", when, x.Name, x.Log)
		}
		want := m.ending[i]
		if h != nil && h.run {
			want++
		}
		if x.Open != (h != nil) || x.Async != want {
			return m.fail("receiver", "%s: receiver %q open=%v with %d streams; the clients' calls make it open=%v with %d", when, x.Name, x.Open, x.Async, h != nil, want)
		}
	}
	return true
}

// one makes one call on a client. In company a client is selected for and left by the caller.
func (m *pairModel) one(cl *cliModel) bool {
	r := m.r
	what := r.Intn(100)
	if cl.dev >= 0 && r.Intn(6) == 0 && !cl.run {
		what = 70 // streams are wanted
	}
	if m.many && (what < 14 || what >= 90 && what < 94) {
		what = 94
	}
	errOf := func(name string, err error, wantErr bool, why string) bool {
		if (err != nil) != wantErr {
			return m.fail("result:"+name, "%s.%s returns error %v; %s", cl.name, name, err, why)
		}
		return true
	}
	// query judges a call that reads a value of the receiver
	query := func(name, get string, f func() (float64, error), val func(stubState) float64) bool {
		var v float64
		var err error
		if !m.call(cl, name, func() { v, err = f() }) {
			return false
		}
		m.note("%s.%s() = %v, %v", cl.name, name, v, err)
		if cl.dev < 0 {
			return errOf(name, err, true, "no receiver is selected")
		}
		if m.fails(cl, get) {
			return errOf(name, err, true, "the receiver does not tell")
		}
		if st := m.st(cl); err != nil || v != val(st) {
			return m.fail("result:"+name, "%s.%s() = %v, %v; the receiver has %v", cl.name, name, v, err, val(st))
		}
		if w, ok := cl.vals[name]; ok && v != w {
			return m.fail("result:"+name, "%s.%s() = %v, last set to %v", cl.name, name, v, w)
		}
		return true
	}
	switch {
	case what < 14: // select
		hint := []string{"-", "-", "-", "", "!", "RTL", "RTL tuner=e4k", "?"}[r.Intn(8)]
		var d *borip.Device
		var err error
		old := cl.dev
		if !m.call(cl, "SelectDevice", func() { d, err = cl.bor.SelectDevice(hint) }) {
			return false
		}
		m.note("%s.SelectDevice(%q) = %v, %v", cl.name, hint, d, err)
		switch hint {
		case "!":
			m.drop(cl)
			cl.want, cl.know = nil, true
			if d != nil || err != nil {
				return m.fail("result:SelectDevice", "%s.SelectDevice(!) returns %+v, %v; the receiver is released: nil, nil", cl.name, d, err)
			}
		case "-", "":
			free := 0
			m.drop(cl)
			for i := range m.confs {
				if m.holder[i] == nil && !m.confs[i].OpenErr {
					free++
				}
			}
			if free == 0 {
				cl.know = false // whether Device still is the one released is not said
				return errOf("SelectDevice", err, true, "no receiver is free")
			}
			if err != nil || d == nil {
				return m.fail("result:SelectDevice", "%s.SelectDevice(%q) returns %+v, %v; %d receivers are free", cl.name, hint, d, err, free)
			}
			for i, cf := range m.confs {
				if cf.Name == d.Name {
					if m.holder[i] != nil || cf.OpenErr {
						return m.fail("result:SelectDevice", "%s.SelectDevice returns %q, which is not free", cl.name, d.Name)
					}
					cl.dev = i
				}
			}
			if cl.dev < 0 {
				return m.fail("result:SelectDevice", "%s.SelectDevice returns %+v: there is no such receiver", cl.name, d)
			}
			m.holder[cl.dev] = cl
			cf := m.confs[cl.dev]
			if d.SamplesPerPacket != 4096 || len(d.ValidAntennas) == 0 || d.Serial != "" {
				return m.fail("result:SelectDevice", "%s.SelectDevice returns %+v", cl.name, *d)
			}
			if g := cf.Gains; len(g) > 0 && !cf.GainsErr {
				if d.MinGain != float64(g[0]) || d.MaxGain != float64(g[len(g)-1]) || len(g) > 1 && d.GainStep != float64(g[1]-g[0]) {
					return m.fail("result:SelectDevice", "%s.SelectDevice returns %+v; the tuner's gains are %v", cl.name, *d, g)
				}
			}
			cl.want, cl.know, cl.desc = d, true, fmt.Sprintf("%+v", *d)
		default:
			if cl.dev != old {
				panic("harness: model")
			}
			if err == nil || d != nil {
				return m.fail("result:SelectDevice", "%s.SelectDevice(%q) returns %+v, %v; the server knows no such receiver", cl.name, hint, d, err)
			}
		}
	case what < 18:
		var d *borip.Device
		if !m.call(cl, "Device", func() { d = cl.bor.Device() }) {
			return false
		}
		m.note("%s.Device()", cl.name)
		if cl.know && ((d == nil) != (cl.want == nil) || d != nil && fmt.Sprintf("%+v", *d) != cl.desc) {
			return m.fail("result:Device", "%s.Device() = %+v, selected is %+v", cl.name, d, cl.desc)
		}
	case what < 28:
		v := math.Floor(r.Range(0, 2e9))
		if r.Intn(3) == 0 {
			v = r.Range(0, 4.2e9)
		}
		var t, a, td, ad float64
		var err error
		if !m.call(cl, "SetFrequency", func() { t, a, td, ad, err = cl.bor.SetFrequency(v) }) {
			return false
		}
		m.note("%s.SetFrequency(%v) = %v, %v, %v, %v, %v", cl.name, v, t, a, td, ad, err)
		if cl.dev < 0 {
			return errOf("SetFrequency", err, true, "no receiver is selected")
		}
		if m.fails(cl, "SetCenterFreq", "GetCenterFreq") {
			if !m.fails(cl, "SetCenterFreq") {
				delete(cl.vals, "Frequency")
			}
			return errOf("SetFrequency", err, true, "the receiver refuses")
		}
		st := m.st(cl)
		w := stepped(v, m.confs[cl.dev].FreqStep)
		if err != nil || math.Abs(t-v) > 1e-5 || a != float64(st.Freq) || td != 0 || ad != 0 || float64(st.Freq) != w {
			return m.fail("result:SetFrequency", "%s.SetFrequency(%v) = %v, %v, %v, %v, %v; the receiver is tuned to %v, want %v", cl.name, v, t, a, td, ad, err, st.Freq, w)
		}
		cl.vals["Frequency"] = w
	case what < 32:
		return query("Frequency", "GetCenterFreq", cl.bor.Frequency, func(s stubState) float64 { return float64(s.Freq) })
	case what < 40:
		v := math.Floor(r.Range(0, 3.2e6))
		if r.Intn(3) == 0 {
			v = r.Range(0, 1e7)
		}
		var got float64
		var err error
		if !m.call(cl, "SetRate", func() { got, err = cl.bor.SetRate(v) }) {
			return false
		}
		m.note("%s.SetRate(%v) = %v, %v", cl.name, v, got, err)
		if cl.dev < 0 {
			return errOf("SetRate", err, true, "no receiver is selected")
		}
		if m.fails(cl, "SetSampleRate", "GetSampleRate") {
			if !m.fails(cl, "SetSampleRate") {
				delete(cl.vals, "Rate")
			}
			return errOf("SetRate", err, true, "the receiver refuses")
		}
		st := m.st(cl)
		w := stepped(v, m.confs[cl.dev].RateStep)
		if err != nil || got != float64(st.Rate) || got != w {
			return m.fail("result:SetRate", "%s.SetRate(%v) = %v, %v; the receiver runs at %v, want %v", cl.name, v, got, err, st.Rate, w)
		}
		cl.vals["Rate"] = w
	case what < 44:
		return query("Rate", "GetSampleRate", cl.bor.Rate, func(s stubState) float64 { return float64(s.Rate) })
	case what < 50:
		n := r.Intn(700) - 150
		var err error
		if !m.call(cl, "SetGain", func() { err = cl.bor.SetGain(float64(n)) }) {
			return false
		}
		m.note("%s.SetGain(%v) = %v", cl.name, n, err)
		if cl.dev < 0 {
			return errOf("SetGain", err, true, "no receiver is selected")
		}
		if m.fails(cl, "SetTunerGain", "GetTunerGain") {
			if !m.fails(cl, "SetTunerGain") {
				delete(cl.vals, "Gain")
			}
			return errOf("SetGain", err, true, "the receiver refuses")
		}
		best, first := n, true
		for _, g := range m.confs[cl.dev].Gains {
			if first || iabs(g-n) < iabs(best-n) {
				best, first = g, false
			}
		}
		if st := m.st(cl); err != nil || st.Gain != best {
			return m.fail("result:SetGain", "%s.SetGain(%v) = %v; the receiver's gain is %v, its nearest is %v", cl.name, n, err, st.Gain, best)
		}
		cl.vals["Gain"] = float64(best)
	case what < 53:
		return query("Gain", "GetTunerGain", cl.bor.Gain, func(s stubState) float64 { return float64(s.Gain) })
	case what < 58:
		var a string
		var err error
		if r.Bool() {
			if !m.call(cl, "Antenna", func() { a, err = cl.bor.Antenna() }) {
				return false
			}
			m.note("%s.Antenna() = %q, %v", cl.name, a, err)
			if cl.dev < 0 {
				return errOf("Antenna", err, true, "no receiver is selected")
			}
			if d := cl.want; err != nil || cl.know && d != nil && a != d.ValidAntennas[0] {
				return m.fail("result:Antenna", "%s.Antenna() = %q, %v", cl.name, a, err)
			}
			return true
		}
		if !m.call(cl, "SetAntenna", func() { err = cl.bor.SetAntenna("default") }) {
			return false
		}
		m.note("%s.SetAntenna() = %v", cl.name, err)
		return errOf("SetAntenna", err, cl.dev < 0, "an error exactly if no receiver is selected")
	case what < 62: // the header command is not known to the server: whatever the result, what follows is undisturbed
		if !m.call(cl, "Header", func() {
			if r.Bool() {
				cl.bor.HeaderEnabled()
			} else {
				cl.bor.SetHeaderEnabled(true)
			}
		}) {
			return false
		}
		m.note("%s header", cl.name)
	case what < 66:
		var a string
		var err error
		if !m.call(cl, "Destination", func() { a, err = cl.bor.Destination() }) {
			return false
		}
		m.note("%s.Destination() = %q, %v", cl.name, a, err)
		if err != nil || a != cl.dest {
			return m.fail("result:Destination", "%s.Destination() = %q, %v; it is %q", cl.name, a, err, cl.dest)
		}
	case what < 70:
		arg := cl.sink.conn.LocalAddr().String()
		valid := true
		switch r.Intn(5) {
		case 0:
			arg, valid = []string{"nowhere", "127.0.0.1", "127.0.0.1:99999", ":::", "1.2.3:x"}[r.Intn(5)], false
		case 1:
			if !cl.run { // an address nobody reads
				arg = "127.0.0.1:" + strconv.Itoa(1+r.Intn(1000))
			}
		}
		if cl.run && valid {
			return true
		}
		var a string
		var err error
		if !m.call(cl, "SetDestination", func() { a, err = cl.bor.SetDestination(arg) }) {
			return false
		}
		m.note("%s.SetDestination(%q) = %q, %v", cl.name, arg, a, err)
		if !valid {
			return errOf("SetDestination", err, true, "that is no address")
		}
		if err != nil || a != arg {
			return m.fail("result:SetDestination", "%s.SetDestination(%q) = %q, %v", cl.name, arg, a, err)
		}
		cl.dest = arg
	case what < 80:
		me := cl.sink.conn.LocalAddr().String()
		if !cl.run && cl.dest != me {
			var err error
			if !m.call(cl, "SetDestination", func() { _, err = cl.bor.SetDestination(me) }) || !errOf("SetDestination", err, false, "the address is good") {
				return false
			}
			cl.dest = me
		}
		var err error
		if !m.call(cl, "Go", func() { err = cl.bor.Go() }) {
			return false
		}
		m.note("%s.Go() = %v", cl.name, err)
		switch {
		case cl.dev < 0:
			return errOf("Go", err, true, "no receiver is selected")
		case cl.run:
			return errOf("Go", err, true, "the stream is running")
		case m.fails(cl, "ResetBuffer"):
			return errOf("Go", err, true, "the receiver refuses")
		}
		if !errOf("Go", err, false, "the stream can start") {
			return false
		}
		cl.run, cl.seq = true, 0
		m.count("streams", 1)
	case what < 86:
		var err error
		if !m.call(cl, "Stop", func() { err = cl.bor.Stop() }) {
			return false
		}
		m.note("%s.Stop() = %v", cl.name, err)
		if cl.run {
			m.ending[cl.dev]++
		}
		was := cl.run
		cl.run = false
		return errOf("Stop", err, !was, "an error exactly if no stream is running")
	case what < 90: // the receiver itself ends the stream
		if cl.run {
			if !m.flush(cl) {
				return false
			}
			m.s.do(stubReq{Op: "end", Dev: cl.dev})
			m.note("the receiver of %s ends its stream", cl.name)
			cl.run = false
			m.count("streams_ended_by_the_receiver", 1)
		}
	case what < 94: // leave
		d := cl.dev
		switch {
		case cl.via != nil && r.Bool():
			reset := r.Bool()
			m.note("the connection of %s breaks (reset=%v)", cl.name, reset)
			cl.via.cut(reset)
			var err error
			if !m.call(cl, "Rate", func() {
				if _, err = cl.bor.Rate(); err == nil {
					_, err = cl.bor.Rate()
				}
			}) {
				return false
			}
			if err == nil {
				return m.fail("result:Rate", "%s.Rate() succeeds after the connection broke", cl.name)
			}
			if !m.call(cl, "Close", cl.bor.Close) {
				return false
			}
			m.count("connections_broken", 1)
		default:
			if !m.call(cl, "Close", cl.bor.Close) {
				return false
			}
			m.note("%s.Close()", cl.name)
			m.count("closes", 1)
			if d >= 0 && cl.know && cl.via == nil && !m.many {
				// Close gives the receiver back itself: nothing to wait for
				if x := m.s.state()[d]; x.Open || x.Async != 0 {
					return m.fail("release", "when %s.Close has returned the receiver %q is open=%v with %d streams", cl.name, x.Name, x.Open, x.Async)
				}
			}
		}
		if d >= 0 && !m.settled(d) {
			return false
		}
		m.drop(cl)
		return m.dial(cl)
	default:
		if cl.run {
			return m.stream(cl)
		}
	}
	return true
}

// flush lets the streams that were stopped notice it.
func (m *pairModel) flush(cl *cliModel) bool {
	for m.ending[cl.dev] > 0 {
		b := make([]byte, 512)
		m.r.Bytes(b)
		q := m.s.do(stubReq{Op: "deliver", Dev: cl.dev, Bufs: [][]byte{b}})
		if len(q.Rets) != 1 || !q.Rets[0] {
			return m.fail("stream", "the stream %s stopped goes on", cl.name)
		}
		m.ending[cl.dev]--
	}
	return true
}

// stream delivers buffers at the receiver and reads them back through the packet reader.
func (m *pairModel) stream(cl *cliModel) bool {
	if !m.flush(cl) {
		return false
	}
	r := m.r
	for k := 1 + r.Intn(4); k > 0; k-- {
		b := make([]byte, 2+2*r.Intn(16384))
		switch r.Intn(6) {
		case 0:
			b = b[:2*r.Intn(5)]
		case 1:
			b = make([]byte, 8192*(1+r.Intn(4)))
		}
		r.Bytes(b)
		q := m.s.do(stubReq{Op: "deliver", Dev: cl.dev, Bufs: [][]byte{b}})
		if len(q.Rets) != 1 || q.Rets[0] {
			return m.fail("stream", "the running stream of %s ended itself", cl.name)
		}
		m.note("%d bytes for %s", len(b), cl.name)
		for at := 0; at < len(b); {
			z := make([]complex128, 1+r.Intn(5000))
			if r.Intn(5) == 0 {
				z = z[:1+r.Intn(len(z))%7]
			}
			cl.sink.conn.SetReadDeadline(time.Now().Add(30 * time.Second))
			n, err := cl.rd.ReadSamples(z)
			if err != nil {
				return m.fail("samples", "%s: ReadSamples: %v at byte %d of a buffer of %d", cl.name, err, at, len(b))
			}
			end := (at/8192 + 1) * 8192 // of the packet
			if end > len(b) {
				end = len(b)
			}
			want := (end - at) / 2
			if want > len(z) {
				want = len(z)
			}
			h := cl.rd.Header()
			fl := byte(0)
			if cl.seq == 0 {
				fl = borip.FlagStreamStart
			}
			if n != want || h.Idx != uint16(cl.seq) || h.Flags != fl || h.Notification != 0 {
				return m.fail("samples", "%s: ReadSamples returns %d samples with header %+v at byte %d of a buffer of %d; want %d samples, number %d, flags %#x", cl.name, n, h, at, len(b), want, cl.seq, fl)
			}
			for _, v := range z[:n] {
				i, q := int16(uint16(b[at]^0x80)*257), int16(uint16(b[at+1]^0x80)*257)
				if v != complex(float64(i), float64(q)) {
					return m.fail("samples", "%s: sample at byte %d of a buffer of %d is %v, want (%d,%d)", cl.name, at, len(b), v, i, q)
				}
				at += 2
			}
			if at == end {
				cl.seq++
			}
			m.count("samples_through_server_and_client", int64(n))
			m.seen(mix(hashB(b), at, cl.seq, n))
		}
	}
	return true
}

func (m *pairModel) client(name string) *cliModel {
	cl := &cliModel{name: name, dev: -1, sink: newSink()}
	cl.rd = borip.NewPacketReader(cl.sink.conn, true)
	return cl
}

// tenure is the time a client has a receiver: for certain between from and to, possibly between early and late.
type tenure struct {
	dev, cli              int
	early, from, to, late time.Time
}

func checkC37(c *Ctx) {
	c.Rule = "one evaluation = one call of the repository's client against the repository's server judged against the state of the receivers, or one ReadSamples judged against the bytes the receiver delivered; distinct = distinct (call, result, place in the history) or (samples, place in the stream)."
	var mu sync.Mutex
	confsOf := func(n int) []stubConf {
		var out []stubConf
		for i := 0; i < n; i++ {
			cf := c.R.stubConf(i)
			if c.R.Intn(3) == 0 {
				for k := 1 + c.R.Intn(2); k > 0; k-- {
					cf.Fail[stubMethods[c.R.Intn(len(stubMethods))]] = true
				}
			}
			cf.OpenErr = n > 1 && c.R.Intn(8) == 0
			out = append(out, cf)
		}
		return out
	}
	for rep := 0; rep < c.N(60, 700); rep++ {
		c.Do(fmt.Sprintf("histories %d", rep), func() {
			confs := confsOf(1 + c.R.Intn(3))
			s := startServer(c, confs)
			s.guarded(c, func() {
				m := &pairModel{c: c, mu: &mu, r: c.R, s: s, confs: confs, holder: make([]*cliModel, len(confs)), ending: make([]int, len(confs))}
				var cls []*cliModel
				for i := 0; i < 1+c.R.Intn(4); i++ {
					cl := m.client(fmt.Sprintf("c%d", i))
					defer cl.sink.close()
					if !m.dial(cl) {
						return
					}
					cls = append(cls, cl)
				}
				for k := 0; k < 90; k++ {
					i := c.R.Intn(len(cls))
					if !m.one(cls[i]) || !m.devices("after "+m.last()) {
						return
					}
					m.seen(mix(hashS(m.last()), k))
					c.Count("calls_judged", 1)
				}
				for _, cl := range cls {
					d := cl.dev
					if !m.call(cl, "Close", cl.bor.Close) || d >= 0 && !m.settled(d) {
						return
					}
					m.drop(cl)
				}
				if m.devices("at the end") {
					c.Count("histories", 1)
				}
			})
		})
	}
	// clients at the same time: every client sees its own receiver only, no receiver has two, and one is refused only if all are taken
	for rep := 0; rep < c.N(16, 160); rep++ {
		c.Do(fmt.Sprintf("together %d", rep), func() {
			confs := confsOf(1 + c.R.Intn(4))
			for i := range confs {
				confs[i].OpenErr = false
			}
			s := startServer(c, confs)
			s.guarded(c, func() {
				n := 2 + c.R.Intn(5)
				var wg sync.WaitGroup
				var hmu sync.Mutex
				var all []tenure
				never := time.Now().Add(time.Hour)
				breaks := rep%2 == 0
				type refusal struct {
					cli      int
					from, to time.Time
				}
				var refused []refusal
				died := make(chan bool, n)
				other := make(chan interface{}, n)
				stop := time.Now().Add(time.Duration(c.N(700, 1500)) * time.Millisecond)
				for g := 0; g < n; g++ {
					m := &pairModel{c: c, mu: &mu, r: NewRand(c.R.U64()), s: s, confs: confs, holder: make([]*cliModel, len(confs)), ending: make([]int, len(confs)), many: true}
					cl := m.client(fmt.Sprintf("c%d", g))
					wg.Add(1)
					go func(g int) {
						defer wg.Done()
						defer cl.sink.close()
						defer func() {
							if r := recover(); r != nil {
								if _, ok := r.(srvDead); ok {
									died <- true
									return
								}
								other <- r
							}
						}()
						begin := func(dev int, t0, t1 time.Time) int {
							hmu.Lock()
							defer hmu.Unlock()
							all = append(all, tenure{dev: dev, cli: g, early: t0, from: t1, to: never, late: never})
							return len(all) - 1
						}
						sure := func(i int) {
							hmu.Lock()
							all[i].to = time.Now()
							hmu.Unlock()
						}
						maybe := func(i int) {
							hmu.Lock()
							all[i].late = time.Now()
							hmu.Unlock()
						}
						for time.Now().Before(stop) && !m.bad {
							if !m.dial(cl) {
								return
							}
							gone := false
							for k := 0; k < 3 && !m.bad; k++ {
								t0 := time.Now()
								var d *borip.Device
								var err error
								if !m.call(cl, "SelectDevice", func() { d, err = cl.bor.SelectDevice("-") }) {
									return
								}
								t1 := time.Now()
								m.note("%s.SelectDevice = %v", cl.name, err)
								m.count("selections_in_competition", 1)
								if err != nil {
									hmu.Lock()
									refused = append(refused, refusal{g, t0, t1})
									hmu.Unlock()
									m.count("refused_all_taken", 1)
									time.Sleep(time.Duration(m.r.Intn(3000)) * time.Microsecond)
									continue
								}
								if d == nil {
									m.fail("result:SelectDevice", "%s.SelectDevice returns neither receiver nor error", cl.name)
									return
								}
								for i, cf := range confs {
									if cf.Name == d.Name {
										cl.dev = i
									}
								}
								if cl.dev < 0 {
									m.fail("result:SelectDevice", "%s.SelectDevice returns %+v", cl.name, *d)
									return
								}
								// from the answer to the call that gives it back it is ours for certain
								hi := begin(cl.dev, t0, t1)
								m.holder[cl.dev] = cl
								cl.want, cl.know, cl.desc = d, true, fmt.Sprintf("%+v", *d)
								for j := m.r.Intn(25); j > 0; j-- {
									if !m.one(cl) || !m.devices("after "+m.last()) {
										return
									}
									m.seen(mix(hashS(m.last()), g, j))
									m.count("calls_judged", 1)
								}
								sure(hi)
								if m.r.Bool() {
									if !m.call(cl, "SelectDevice", func() { d, err = cl.bor.SelectDevice("!") }) {
										return
									}
									if err != nil || d != nil {
										m.fail("result:SelectDevice", "%s.SelectDevice(!) returns %+v, %v", cl.name, d, err)
										return
									}
									m.note("%s releases", cl.name)
									maybe(hi)
									m.drop(cl)
									cl.want, cl.know = nil, true
									continue
								}
								if breaks && cl.via != nil && m.r.Bool() {
									cl.via.cut(m.r.Bool()) // the server notices some time later
									m.count("connections_broken", 1)
									hi = -1
								}
								if !m.call(cl, "Close", cl.bor.Close) {
									return
								}
								m.note("%s.Close()", cl.name)
								if hi >= 0 {
									maybe(hi)
								}
								m.drop(cl)
								gone = true
								break
							}
							if !gone && !m.call(cl, "Close", cl.bor.Close) {
								return
							}
						}
					}(g)
				}
				wg.Wait()
				select {
				case r := <-other:
					panic(r)
				case <-died:
					panic(srvDead{})
				default:
				}
				if len(c.Viol) > 0 {
					return
				}
				for i, a := range all {
					for _, b := range all[:i] {
						if a.dev == b.dev && a.cli != b.cli && a.from.Before(b.to) && b.from.Before(a.to) {
							c.Fail("shared", "receiver %q belongs to clients %d and %d at the same time", confs[a.dev].Name, a.cli, b.cli)
							return
						}
					}
				}
				// a selection is refused only if every receiver was somebody else's at some moment of the call
				for _, x := range refused {
					for dev := range confs {
						taken := false
						for _, h := range all {
							if h.dev == dev && h.cli != x.cli && h.early.Before(x.to) && x.from.Before(h.late) {
								taken = true
							}
						}
						if !taken {
							// a connection of this client that broke earlier may hold it as well
							for _, h := range all {
								taken = taken || h.dev == dev && h.late == never
							}
						}
						if !taken {
							c.Fail("refused", "client %d was refused although receiver %q belonged to nobody else at any moment of the call", x.cli, confs[dev].Name)
							return
						}
						c.Count("refusals_judged", 1)
					}
				}
				for i := range confs {
					m := &pairModel{c: c, mu: &mu, r: c.R, s: s, confs: confs, holder: make([]*cliModel, len(confs)), ending: make([]int, len(confs))}
					if !m.settled(i) {
						return
					}
				}
				m := &pairModel{c: c, mu: &mu, r: c.R, s: s, confs: confs, holder: make([]*cliModel, len(confs)), ending: make([]int, len(confs))}
				if m.devices("when all clients have left") {
					c.Count("runs_together", 1)
				}
				// and everything can be selected again
				for k := range confs {
					cl := m.client(fmt.Sprintf("after%d", k))
					defer cl.sink.close()
					if !m.dial(cl) {
						return
					}
					var err error
					if !m.call(cl, "SelectDevice", func() { _, err = cl.bor.SelectDevice("-") }) {
						return
					}
					if err != nil {
						m.fail("lost", "after all clients have left only %d of %d receivers can be selected: %v", k, len(confs), err)
						return
					}
				}
			})
		})
	}
}

func (m *pairModel) last() string {
	if len(m.hist) == 0 {
		return ""
	}
	return m.hist[len(m.hist)-1]
}
