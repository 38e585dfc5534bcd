package main

import (
	"bufio"
	"bytes"
	"fmt"
	"math"
	"net"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/samuel/go-dsp/borip"
)

func init() {
	checks["C21"] = checkC21
	checks["C22"] = checkC22
}

// ---- scripted server ----

type srvReply struct {
	chunks [][]byte
	delay  time.Duration // before the first chunk
	then   byte          // 0 go on, 'c' close, 'r' reset, 'w' close the write side only
}

type borSrv struct {
	ln      net.Listener
	uses    int
	leaks   int
	mu      sync.Mutex
	conn    net.Conn
	log     []string // lines received
	tail    []byte   // bytes received after the last line end
	replies chan srvReply
	done    chan string // how the client's side ended
}

func newBorSrv() *borSrv {
	s := &borSrv{}
	s.listen()
	return s
}

func (s *borSrv) listen() {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic("harness: listen: " + err.Error())
	}
	s.ln = ln
	s.uses = 0
}

// session prepares for one client connection that gets the hello first.
func (s *borSrv) session(hello srvReply) string {
	if s.uses >= 2000 { // another port: no shortage of connection pairs in TIME_WAIT
		s.ln.Close()
		s.listen()
	}
	s.uses++
	s.mu.Lock()
	s.log, s.tail, s.conn = nil, nil, nil
	s.mu.Unlock()
	replies, done, ln := make(chan srvReply, 64), make(chan string, 1), s.ln
	s.replies, s.done = replies, done
	go func() {
		conn, err := ln.Accept()
		if err != nil {
			done <- "accept"
			return
		}
		s.mu.Lock()
		s.conn = conn
		s.mu.Unlock()
		defer conn.Close()
		if !s.send(conn, hello) {
			if hello.then == 'w' {
				done <- s.drain(conn)
			} else {
				done <- "closed by server"
			}
			return
		}
		rd := bufio.NewReaderSize(conn, 1<<16)
		for {
			line, err := rd.ReadString('\n')
			s.mu.Lock()
			if err != nil {
				s.tail = []byte(line)
				s.mu.Unlock()
				if strings.Contains(err.Error(), "EOF") {
					done <- "closed by client"
				} else {
					done <- "broken: " + err.Error()
				}
				return
			}
			s.log = append(s.log, line)
			s.mu.Unlock()
			var r srvReply
			select {
			case r = <-replies:
			default:
				r = srvReply{chunks: [][]byte{[]byte("UNSCRIPTED FAIL more lines than calls\n")}}
			}
			if !s.send(conn, r) {
				if r.then == 'w' {
					done <- s.drain(conn)
				} else {
					done <- "closed by server"
				}
				return
			}
		}
	}()
	return ln.Addr().String()
}

func (s *borSrv) drain(conn net.Conn) string {
	wait := 4 * time.Second
	if s.leaks >= 3 {
		wait = 20 * time.Millisecond // enough witnesses: do not wait for every further one
	}
	conn.SetReadDeadline(time.Now().Add(wait))
	b := make([]byte, 4096)
	for {
		n, err := conn.Read(b)
		s.mu.Lock()
		s.tail = append(s.tail, b[:n]...)
		s.mu.Unlock()
		if err != nil {
			if ne, ok := err.(net.Error); ok && ne.Timeout() {
				if s.leaks++; s.leaks > 3 {
					return "closed by client (not awaited)"
				}
				return "left open by client"
			}
			return "closed by client"
		}
	}
}

func (s *borSrv) send(conn net.Conn, r srvReply) bool {
	if r.delay > 0 {
		time.Sleep(r.delay)
	}
	for i, c := range r.chunks {
		if i > 0 {
			time.Sleep(200 * time.Microsecond)
		}
		if _, err := conn.Write(c); err != nil {
			break
		}
	}
	switch r.then {
	case 'c':
		conn.Close()
		return false
	case 'r':
		conn.(*net.TCPConn).SetLinger(0)
		conn.Close()
		return false
	case 'w':
		conn.(*net.TCPConn).CloseWrite()
		return false
	}
	return true
}

func (s *borSrv) lines() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]string{}, s.log...)
}

// guard runs a client call; when it does not return in time the connection is cut and the case fails.
func (s *borSrv) guard(c *Ctx, what string, f func()) {
	hung := make(chan bool, 1)
	t := time.AfterFunc(20*time.Second, func() {
		hung <- true
		s.mu.Lock()
		if s.conn != nil {
			s.conn.Close()
		}
		s.mu.Unlock()
	})
	f()
	t.Stop()
	select {
	case <-hung:
		c.Fail("hang:"+keyOf(what), "%s did not return while the server had answered", what)
	default:
	}
}

func (s *borSrv) wait() string {
	select {
	case e := <-s.done:
		return e
	case <-time.After(10 * time.Second):
		s.mu.Lock()
		if s.conn != nil {
			s.conn.Close()
		}
		s.mu.Unlock()
		return "left open by client"
	}
}

func reply(line string) srvReply { return srvReply{chunks: [][]byte{[]byte(line + "\n")}} }

func (r *Rand) splitReply(line string) srvReply {
	b := []byte(line + "\n")
	if r.Intn(6) == 0 {
		b = []byte(line + "\r\n")
	}
	if r.Intn(6) > 0 {
		return srvReply{chunks: [][]byte{b}}
	}
	var out [][]byte
	for len(b) > 0 {
		n := 1 + r.Intn(len(b))
		out = append(out, b[:n])
		b = b[n:]
	}
	return srvReply{chunks: out}
}

// ---- the calls ----

type borCall struct {
	name string
	line func() string // documentation only
	do   func(b *borip.BorIP) ([]interface{}, error)
	cmd  string
	arg  string // expected argument; for numbers num is compared instead
	num  *float64
	set  bool // OK replies
}

var errTexts = []string{"FAIL", "FAIL device error", "DEVICE no active device", "UNKNOWN", "HIGH 1234.5", "LOW", "FAIL  two  blanks", "FAIL OK", "fail", "ok", "FAIL: |x|"}

func plainDecimal(s string) bool {
	if s == "" {
		return false
	}
	dots := 0
	for i, ch := range s {
		switch {
		case ch >= '0' && ch <= '9':
		case ch == '-' && i == 0 && len(s) > 1:
		case ch == '.' && dots == 0:
			dots++
		default:
			return false
		}
	}
	return true
}

func (r *Rand) num() float64 {
	switch r.Intn(8) {
	case 0:
		return float64(r.Intn(2000000000))
	case 1:
		return -float64(r.Intn(100))
	case 2:
		return math.Float64frombits(r.U64()&^(0x7ff<<52) | uint64(1023-60+r.Intn(120))<<52)
	case 3:
		return []float64{0, 1, 1e6, 100.7e6, 0.1, 1e-7, 1e21, 1e22, 123456789012345678, -1e-9, 5e-324, math.MaxFloat64, 0.30000000000000004}[r.Intn(13)]
	case 4:
		return float64(r.Intn(2000)) / 1000 * 1e6
	default:
		return math.Round(r.LogU(1, 1e10)*100) / 100
	}
}

func (r *Rand) numText() (string, float64) {
	v := r.num()
	var s string
	switch r.Intn(4) {
	case 0:
		s = strconv.FormatFloat(v, 'f', -1, 64)
	case 1:
		s = strconv.FormatFloat(v, 'f', 6, 64)
	case 2:
		s = strconv.FormatFloat(v, 'e', -1, 64)
	default:
		s = strconv.Itoa(r.Intn(1 << 30))
	}
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return "0", 0
	}
	return s, f
}

func (r *Rand) word() string {
	const a = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_/+.:()#"
	n := 1 + r.Intn(12)
	b := make([]byte, n)
	for i := range b {
		b[i] = a[r.Intn(len(a))]
	}
	return string(b)
}

func (r *Rand) phrase() string {
	w := []string{r.word()}
	for r.Intn(3) == 0 {
		w = append(w, r.word())
		if r.Intn(8) == 0 {
			w = append(w, "", r.word()) // two blanks in a row
		}
	}
	if r.Intn(400) == 0 { // longer than any buffer on the way
		n := []int{4096, 4097, 8192, 65536, 70000, 300000}[r.Intn(6)]
		w = append(w, strings.Repeat(r.word()+" ", n/8)+"end")
	}
	return strings.Join(w, " ")
}

func (r *Rand) device() (string, *borip.Device) {
	d := &borip.Device{Name: "d" + r.phrase()}
	switch r.Intn(12) {
	case 0:
		d.Name = ""
	case 1:
		d.Name = " " + d.Name
	case 2:
		d.Name += " "
	}
	var n [4]string
	for i, p := range []*float64{&d.MinGain, &d.MaxGain, &d.GainStep, &d.FPGAFreq} {
		n[i], *p = r.numText()
	}
	d.SamplesPerPacket = r.Intn(1 << 20)
	if r.Intn(5) == 0 {
		d.SamplesPerPacket = []int{0, 1, math.MaxInt32, 16256}[r.Intn(4)]
	}
	for i := r.Intn(4); i >= 0; i-- {
		d.ValidAntennas = append(d.ValidAntennas, r.phrase())
		if r.Intn(8) == 0 {
			d.ValidAntennas[len(d.ValidAntennas)-1] = " " + r.word()
		}
	}
	spp := strconv.Itoa(d.SamplesPerPacket)
	if r.Intn(6) == 0 {
		spp = "0" + spp
	}
	s := strings.Join([]string{d.Name, n[0], n[1], n[2], n[3], spp, strings.Join(d.ValidAntennas, ",")}, "|")
	if r.Intn(3) > 0 {
		d.Serial = r.phrase()
		s += "|" + d.Serial
	}
	return s, d
}

const nBorKinds = 16

var borKindNames = [nBorKinds]string{"SetFrequency", "Frequency", "SetAntenna", "Antenna", "SetRate", "Rate", "SetGain", "Gain",
	"SetDestination", "Destination", "SetHeaderEnabled", "HeaderEnabled", "Go", "Stop", "SelectDevice", "Deselect"}

// call makes one call of kind k with random arguments.
func (r *Rand) borCall(k int) borCall {
	c := borCall{name: borKindNames[k], set: true}
	num := func(cmd string) float64 {
		v := r.num()
		c.cmd, c.num = cmd, &v
		return v
	}
	one := func(v interface{}, err error) ([]interface{}, error) { return []interface{}{v}, err }
	switch k {
	case 0:
		v := num("FREQ")
		c.do = func(b *borip.BorIP) ([]interface{}, error) {
			a1, a2, a3, a4, err := b.SetFrequency(v)
			return []interface{}{a1, a2, a3, a4}, err
		}
	case 1:
		c.cmd, c.set = "FREQ", false
		c.do = func(b *borip.BorIP) ([]interface{}, error) { return one(b.Frequency()) }
	case 2:
		a := r.phrase()
		c.cmd, c.arg = "ANTENNA", a
		c.do = func(b *borip.BorIP) ([]interface{}, error) { return nil, b.SetAntenna(a) }
	case 3:
		c.cmd, c.set = "ANTENNA", false
		c.do = func(b *borip.BorIP) ([]interface{}, error) { return one(b.Antenna()) }
	case 4:
		v := num("RATE")
		c.do = func(b *borip.BorIP) ([]interface{}, error) { return one(b.SetRate(v)) }
	case 5:
		c.cmd, c.set = "RATE", false
		c.do = func(b *borip.BorIP) ([]interface{}, error) { return one(b.Rate()) }
	case 6:
		v := num("GAIN")
		c.do = func(b *borip.BorIP) ([]interface{}, error) { return nil, b.SetGain(v) }
	case 7:
		c.cmd, c.set = "GAIN", false
		c.do = func(b *borip.BorIP) ([]interface{}, error) { return one(b.Gain()) }
	case 8:
		a := r.word()
		c.cmd, c.arg = "DEST", a
		c.do = func(b *borip.BorIP) ([]interface{}, error) { return one(b.SetDestination(a)) }
	case 9:
		c.cmd, c.set = "DEST", false
		c.do = func(b *borip.BorIP) ([]interface{}, error) { return one(b.Destination()) }
	case 10:
		on := r.Bool()
		c.cmd, c.arg = "HEADER", map[bool]string{true: "ON", false: "OFF"}[on]
		c.do = func(b *borip.BorIP) ([]interface{}, error) { return nil, b.SetHeaderEnabled(on) }
	case 11:
		c.cmd, c.set = "HEADER", false
		c.do = func(b *borip.BorIP) ([]interface{}, error) { return one(b.HeaderEnabled()) }
	case 12:
		c.cmd = "GO"
		c.do = func(b *borip.BorIP) ([]interface{}, error) { return nil, b.Go() }
	case 13:
		c.cmd = "STOP"
		c.do = func(b *borip.BorIP) ([]interface{}, error) { return nil, b.Stop() }
	case 14, 15:
		h := r.phrase()
		if k == 15 {
			h = "!"
		} else if x := r.Intn(8); x < 2 {
			h = "-"
		} else if x < 5 { // the same receivers again and again
			h = []string{"RTL", "Terratec NOXON (rev 3)"}[r.Intn(2)]
		}
		c.cmd, c.arg, c.set = "DEVICE", h, false
		c.do = func(b *borip.BorIP) ([]interface{}, error) {
			d, err := b.SelectDevice(h)
			if d == nil {
				return []interface{}{nil}, err
			}
			return []interface{}{*d}, err
		}
	}
	return c
}

// conforming gives a successful reply to the call and the values it has to return.
func (r *Rand) conforming(k int, c borCall) (string, []interface{}) {
	switch k {
	case 0:
		n := r.Intn(5)
		s := "FREQ OK"
		w := []interface{}{0.0, 0.0, 0.0, 0.0}
		for i := 0; i < n; i++ {
			t, v := r.numText()
			s += " " + t
			w[i] = v
		}
		return s, w
	case 1, 5, 7:
		t, v := r.numText()
		return c.cmd + " " + t, []interface{}{v}
	case 3:
		a := r.phrase()
		return "ANTENNA " + a, []interface{}{a}
	case 4:
		t, v := r.numText()
		return "RATE OK " + t, []interface{}{v}
	case 6:
		s := "GAIN OK"
		if r.Bool() {
			t, _ := r.numText()
			s += " " + t
		}
		return s, nil
	case 8:
		a := r.word()
		return "DEST OK " + a, []interface{}{a}
	case 9:
		a := r.word()
		return "DEST " + a, []interface{}{a}
	case 11:
		on := r.Bool()
		return "HEADER " + map[bool]string{true: "ON", false: "OFF"}[on], []interface{}{on}
	case 14:
		s, d := r.device()
		if k := strings.Index(s, "|"); k >= 0 && c.arg != "-" && !strings.Contains(c.arg, "|") && r.Bool() { // named as it was asked for
			s, d.Name = c.arg+s[k:], c.arg
		}
		return "DEVICE " + s, []interface{}{*d}
	case 15:
		return "DEVICE -", []interface{}{nil}
	}
	return c.cmd + " OK", nil
}

func (r *Rand) errReply(k int, c borCall) (line, text string) {
	switch {
	case k == 14 || k == 15:
		text = []string{"no devices available", "unknown hint", "x", "in use by 1.2.3.4"}[r.Intn(4)]
		return "DEVICE - " + text, text
	case !c.set:
		text = []string{"- failed to get it", "- no DEST set", "DEVICE no active device", "UNKNOWN", "FAIL", "-"}[r.Intn(6)]
		return c.cmd + " " + text, text
	case k == 12 && r.Bool():
		return "GO RUNNING", "RUNNING"
	case k == 13 && r.Bool():
		return "STOP STOPPED", "STOPPED"
	}
	text = errTexts[r.Intn(len(errTexts))]
	return c.cmd + " " + text, text
}

func (c borCall) lineOK(line string) string {
	if !strings.HasSuffix(line, "\n") {
		return "no line end"
	}
	l := strings.TrimSuffix(line[:len(line)-1], "\r")
	want := c.cmd
	if c.num == nil {
		if c.arg != "" {
			want += " " + c.arg
		}
		if strings.TrimRight(l, " ") != want {
			return fmt.Sprintf("sent %q, want %q", l, want)
		}
		return ""
	}
	f := strings.SplitN(strings.TrimRight(l, " "), " ", 2)
	if len(f) != 2 || f[0] != c.cmd || !plainDecimal(f[1]) {
		return fmt.Sprintf("sent %q, want %s and %v in plain decimal", l, c.cmd, *c.num)
	}
	if v, err := strconv.ParseFloat(f[1], 64); err != nil || v != *c.num {
		return fmt.Sprintf("sent %q, which does not read back as %v", l, *c.num)
	}
	return ""
}

// slowSessions runs sessions in which the server or the user takes its time, beside the rest of the check.
func slowSessions(thorough bool) <-chan []string {
	type pause struct{ hello, reply, idle time.Duration }
	ps := []pause{{0, 3 * time.Second, 6 * time.Second}, {2500 * time.Millisecond, 0, 9 * time.Second}, {0, 11 * time.Second, 0}, {5500 * time.Millisecond, 5500 * time.Millisecond, 0}}
	if thorough {
		ps = append(ps, pause{35 * time.Second, 0, 35 * time.Second}, pause{0, 65 * time.Second, 0}, pause{0, 0, 125 * time.Second})
	}
	out := make(chan []string, 1)
	go func() {
		var mu sync.Mutex
		var bad []string
		var wg sync.WaitGroup
		for _, p := range ps {
			p := p
			wg.Add(1)
			go func() {
				defer wg.Done()
				fail := func(f string, a ...interface{}) {
					mu.Lock()
					bad = append(bad, fmt.Sprintf("hello after %v, user idle for %v, reply after %v: ", p.hello, p.idle, p.reply)+fmt.Sprintf(f, a...))
					mu.Unlock()
				}
				s := newBorSrv()
				defer s.ln.Close()
				addr := s.session(srvReply{chunks: [][]byte{[]byte("DEVICE -\n")}, delay: p.hello})
				bor, err := borip.Dial(addr)
				if err != nil {
					fail("Dial: %v", err)
					return
				}
				s.replies <- srvReply{chunks: [][]byte{[]byte("GO OK\n")}, delay: p.reply / 2}
				s.replies <- srvReply{chunks: [][]byte{[]byte("FREQ 1234.5\n")}, delay: p.reply}
				s.replies <- reply("STOP OK")
				if err := bor.Go(); err != nil {
					fail("Go: %v", err)
				}
				time.Sleep(p.idle)
				if v, err := bor.Frequency(); err != nil || v != 1234.5 {
					fail("Frequency: %v %v", v, err)
				}
				bor.Close()
				if how := s.wait(); how != "closed by client" {
					fail("after Close the connection was %s", how)
				}
				if l := s.lines(); fmt.Sprintf("%q", l) != fmt.Sprintf("%q", []string{"GO\n", "FREQ\n", "STOP\n"}) {
					fail("the lines sent are %q", l)
				}
			}()
		}
		wg.Wait()
		out <- bad
	}()
	return out
}

func checkC21(c *Ctx) {
	slow := slowSessions(c.N(0, 1) == 1)
	defer c.Do("slow sessions", func() {
		bad := <-slow
		c.Seen(hashS("slow"), true)
		c.Count("slow_sessions", 1)
		for _, b := range bad {
			c.Fail("slow", "%s", b)
		}
	})
	c.Rule = "one evaluation = one client call against the scripted server (line sent, values returned, remembered device checked) or one Close with its wire log; distinct = distinct (call, argument, reply)."
	s := newBorSrv()
	defer func() { s.ln.Close() }()
	c.Do("sessions", func() {})
	for i := 0; i < c.N(900, 12000); i++ {
		c.Do(fmt.Sprintf("session %d", i), func() {
			hello := c.R.splitReply("DEVICE -")
			addr := s.session(hello)
			var bor *borip.BorIP
			var err error
			s.guard(c, "Dial", func() { bor, err = borip.Dial(addr) })
			if err != nil {
				c.Fail("dial", "Dial failed although the server said hello: %v", err)
				s.wait()
				return
			}
			running, dev := false, (*borip.Device)(nil)
			devKnown := true
			var sent []borCall
			n := c.R.Intn(24)
			for j := 0; j < n; j++ {
				k := c.R.Intn(nBorKinds)
				if i < nBorKinds*4 && j == 0 {
					k = i % nBorKinds
				}
				call := c.R.borCall(k)
				fail := c.R.Intn(4) == 0
				var line, text string
				var want []interface{}
				if fail {
					line, text = c.R.errReply(k, call)
				} else {
					line, want = c.R.conforming(k, call)
				}
				s.replies <- c.R.splitReply(line)
				var got []interface{}
				s.guard(c, call.name, func() { got, err = call.do(bor) })
				sent = append(sent, call)
				c.Seen(hashS(call.name, call.arg, call.num != nil, line, i, j), true)
				log := s.lines()
				if len(log) != len(sent) {
					c.Fail("lines:"+call.name, "%d lines sent for %d calls: %q", len(log), len(sent), log)
					break
				}
				if d := call.lineOK(log[len(log)-1]); d != "" {
					c.Fail("line:"+call.name, "%s %s", call.name, d)
				}
				if fail {
					c.Count("errors_reported", 1)
					if err == nil {
						c.Fail("noerror:"+call.name, "%s returned %v and no error for the reply %q", call.name, got, line)
					} else if !strings.Contains(err.Error(), text) {
						c.Fail("errtext:"+call.name, "%s: error %q does not carry the server's text of reply %q", call.name, err, line)
					}
					if k == 14 || k == 15 {
						devKnown = false // what the server has selected after a failure is its business
						if d := bor.Device(); d != nil && d != dev {
							c.Fail("device", "a device is remembered that was not selected")
						}
						dev = bor.Device()
						devKnown = true
					}
					continue
				}
				c.Count("calls_ok", 1)
				if err != nil {
					c.Fail("error:"+call.name, "%s: error %v for the reply %q", call.name, err, line)
					if k == 14 || k == 15 {
						dev = bor.Device()
					}
					continue
				}
				if want != nil && !reflect.DeepEqual(got, want) {
					c.Fail("value:"+call.name, "%s returned %v, want %v for the reply %q", call.name, got, want, line)
				}
				switch k {
				case 12:
					running = true
				case 13:
					running = false
				case 14:
					dev = bor.Device()
					if dev == nil || !reflect.DeepEqual(*dev, want[0]) {
						c.Fail("device", "Device() is %+v after selecting %+v", dev, want[0])
					}
				case 15:
					dev = nil
				}
				if devKnown && bor.Device() != dev {
					c.Fail("device", "after %s: Device() is %+v, want %+v", call.name, bor.Device(), dev)
				}
			}
			// Close: STOP when running, then DEVICE ! when a device is selected, then the connection
			var want []string
			if running {
				want = append(want, "STOP")
				s.replies <- reply([]string{"STOP OK", "STOP FAIL x"}[c.R.Intn(2)])
			}
			if dev != nil {
				want = append(want, "DEVICE !")
				s.replies <- reply([]string{"DEVICE -", "DEVICE - no"}[c.R.Intn(2)])
			}
			before := len(s.lines())
			s.guard(c, "Close", func() { bor.Close() })
			how := s.wait()
			if how != "closed by client" {
				c.Fail("close", "after Close the connection was %s", how)
			}
			var tail []string
			for _, l := range s.lines()[before:] {
				tail = append(tail, strings.TrimSpace(l))
			}
			if len(s.tail) > 0 {
				tail = append(tail, "unfinished: "+string(s.tail))
			}
			if fmt.Sprint(tail) != fmt.Sprint(want) {
				c.Fail("close", "Close sent %q, want %q (running %v, device %v)", tail, want, running, dev != nil)
			}
			c.Evals++
			c.Count("closes", 1)
			c.Count(fmt.Sprintf("close_running_%v_device_%v", running, dev != nil), 1)
		})
	}
	c.Sample("calls: %s", strings.Join(borKindNames[:], " "))
}

// usable is the independent judgement of a reply: 1 success is possible, 0 must be an error.
func usable(k int, cmd string, raw []byte) bool {
	i := bytes.IndexByte(raw, '\n')
	if i < 0 {
		return false
	}
	l := strings.TrimSpace(string(raw[:i]))
	w := strings.Split(l, " ")
	if w[0] != cmd || len(w) < 2 {
		return false
	}
	rest := l[len(cmd)+1:]
	isNum := func(s string) bool { _, err := strconv.ParseFloat(s, 64); return err == nil }
	switch k {
	case 0, 2, 6, 10, 12, 13:
		return w[1] == "OK"
	case 4:
		return w[1] == "OK" && len(w) > 2 && isNum(w[2])
	case 8:
		return w[1] == "OK" && len(w) > 2 // an empty word between two blanks is not judged
	case 1, 5, 7:
		return isNum(strings.TrimSpace(rest))
	case 3, 9:
		f := w[1]
		return !(f == "-" || f == "DEVICE" || f == "FAIL" || f == "UNKNOWN")
	case 11:
		return rest == "ON" || rest == "OFF"
	case 14, 15:
		if rest == "-" {
			return true
		}
		if rest[0] == '-' {
			return false
		}
		p := strings.Split(rest, "|")
		if len(p) < 7 {
			return false
		}
		for _, x := range p[1:5] {
			if !isNum(x) {
				return false
			}
		}
		_, err := strconv.ParseInt(p[5], 10, 32)
		return err == nil
	}
	return true
}

func (r *Rand) mutateLine(b []byte) []byte {
	b = append([]byte{}, b...)
	for m := 1 + r.Intn(3); m > 0; m-- {
		p := r.Intn(len(b) + 1)
		switch r.Intn(9) {
		case 0:
			if p < len(b) {
				b[p] = byte(r.Intn(256))
			}
		case 1:
			if p < len(b) {
				b = append(b[:p], b[p+1:]...)
			}
		case 2:
			b = append(b[:p:p], append([]byte{" |-\n\r0OK,.\t\x00"[r.Intn(12)]}, b[p:]...)...)
		case 3:
			b = b[:p]
		case 4: // drop a word
			w := bytes.Split(b, []byte(" "))
			i := r.Intn(len(w))
			w = append(w[:i:i], w[i+1:]...)
			b = bytes.Join(w, []byte(" "))
		case 5: // double a word
			w := bytes.Split(b, []byte(" "))
			i := r.Intn(len(w))
			w = append(w[:i:i], append([][]byte{w[i]}, w[i:]...)...)
			b = bytes.Join(w, []byte(" "))
		case 6: // drop a field
			w := bytes.Split(b, []byte("|"))
			i := r.Intn(len(w))
			w = append(w[:i:i], w[i+1:]...)
			b = bytes.Join(w, []byte("|"))
		case 7: // replace a field or word
			sep := []byte(" ")
			if r.Bool() {
				sep = []byte("|")
			}
			w := bytes.Split(b, sep)
			w[r.Intn(len(w))] = []byte([]string{"", "x", "-", "OK", "NaN", "1e999", "99999999999999999999", "0x10", "+Inf", "-1", "1_0", "FAIL", "\x00\xff", "１"}[r.Intn(14)])
			b = bytes.Join(w, sep)
		case 8:
			b = bytes.ToLower(b)
		}
	}
	return b
}

func checkC22(c *Ctx) {
	c.Rule = "one evaluation = one client call answered by a hostile or broken server, judged against an independent decision whether those reply bytes can be a usable answer; distinct = distinct (call, reply bytes, way the connection ended)."
	s := newBorSrv()
	defer func() { s.ln.Close() }()
	wrongCmd := []string{"FREQ", "RATE", "GAIN", "ANTENNA", "DEST", "HEADER", "GO", "STOP", "DEVICE", "OK", "XXXX"}

	dial := func(hello srvReply) *borip.BorIP {
		addr := s.session(hello)
		var bor *borip.BorIP
		var err error
		s.guard(c, "Dial", func() { bor, err = borip.Dial(addr) })
		if err != nil {
			if hello.then == 0 && strings.TrimSpace(string(bytes.Join(hello.chunks, nil))) == "DEVICE -" {
				c.Fail("dial", "Dial failed although the server said hello: %v", err)
			}
			return nil
		}
		return bor
	}
	// one judged call
	exchange := func(bor *borip.BorIP, k int, call borCall, raw []byte, then byte) {
		r := srvReply{chunks: [][]byte{raw}, then: then}
		if len(raw) > 1 && c.R.Intn(5) == 0 {
			p := 1 + c.R.Intn(len(raw)-1)
			r.chunks = [][]byte{raw[:p], raw[p:]}
		}
		s.replies <- r
		var got []interface{}
		var err error
		devBefore := bor.Device()
		s.guard(c, call.name, func() { got, err = call.do(bor) })
		c.Seen(mix(hashB(raw), k, int(then)), true)
		ok := usable(k, call.cmd, raw)
		short := raw
		if len(short) > 300 {
			short = short[:300]
		}
		if err == nil {
			c.Count("success_reported", 1)
			if !ok {
				c.Fail("false success:"+call.name, "%s returned %v and no error for the reply %q (then %q)", call.name, got, short, then)
			}
		} else {
			c.Count("error_reported", 1)
		}
		if (k == 14 || k == 15) && bor.Device() != devBefore && err != nil && then == 0 {
			c.Fail("failed device:"+call.name, "DEVICE failed with %v but %+v is remembered as selected, not %+v; reply %q", err, bor.Device(), devBefore, short)
		}
		if k == 14 && err == nil && got[0] == nil && bor.Device() != nil {
			c.Fail("failed device:"+call.name, "no device was returned but %+v is remembered as selected; reply %q", bor.Device(), short)
		}
	}
	// whether Close tries to stop a stream tells whether it is marked as running
	finish := func(bor *borip.BorIP, broken bool, ranOK, devOK bool, what string) {
		for i := 0; i < 4; i++ {
			s.replies <- reply([]string{"STOP OK", "DEVICE -", "garbage", "", "STOP"}[c.R.Intn(5)])
		}
		before := len(s.lines())
		s.guard(c, "Close", func() { bor.Close() })
		how := s.wait()
		c.Evals++
		c.Count("closes", 1)
		if how == "left open by client" {
			c.Fail("leak", "after Close (%s) the connection is still open", what)
		}
		if !broken {
			for _, l := range s.lines()[before:] {
				l = strings.TrimSpace(l)
				if l == "STOP" && !ranOK {
					c.Fail("failed go", "Close stops a stream that was never started (%s)", what)
				}
				if strings.HasPrefix(l, "DEVICE") && !devOK {
					c.Fail("failed device", "Close releases a device that was never selected (%s)", what)
				}
			}
		}
	}

	// Dial: every prefix of hello, then the connection ends in every way; garbage hellos
	for _, hello := range []string{"DEVICE -\n", "DEVICE - hello there\r\n", "HTTP/1.1 400 Bad Request\r\n\r\n", "\n", "\x00\xff\xfe\n", "DEVICE Some|1|2|3|4|5|a|b\n"} {
		for p := 0; p <= len(hello); p++ {
			for _, then := range []byte{'c', 'w', 'r'} {
				c.Do(fmt.Sprintf("dial %q %d %c", hello[:8%len(hello)], p, then), func() {
					addr := s.session(srvReply{chunks: [][]byte{[]byte(hello[:p])}, then: then})
					var bor *borip.BorIP
					var err error
					s.guard(c, "Dial", func() { bor, err = borip.Dial(addr) })
					c.Seen(mix(hashS(hello), p, int(then)), true)
					complete := strings.Contains(hello[:p], "\n")
					if err == nil {
						if !complete {
							c.Fail("false success:Dial", "Dial succeeded although the server sent only %q", hello[:p])
						}
						c.Count("dial_ok", 1)
						var got []interface{}
						var e2 error
						call := c.R.borCall(c.R.Intn(nBorKinds))
						s.guard(c, call.name, func() { got, e2 = call.do(bor) })
						if e2 == nil {
							if then != 'r' && !strings.Contains(hello, "\n\n") && strings.Count(hello, "\n") == 1 {
								c.Fail("false success:"+call.name, "%s returned %v and no error on a connection the server had ended", call.name, got)
							}
						}
						s.guard(c, "Close", func() { bor.Close() })
					} else {
						c.Count("dial_failed", 1)
					}
					if how := s.wait(); how == "left open by client" {
						c.Fail("leak", "the connection is left open (Dial error: %v, hello %q, ended %q)", err, hello[:p], then)
					}
				})
			}
		}
	}
	// nobody listens
	c.Do("dial refused", func() {
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic("harness: listen")
		}
		a := ln.Addr().String()
		ln.Close()
		if b, err := borip.Dial(a); err == nil {
			c.Fail("false success:Dial", "Dial to a closed port gave %v", b)
		}
		for _, bad := range []string{"", "nonsense", "127.0.0.1:notaport", "127.0.0.1:99999999"} {
			if _, err := borip.Dial(bad); err == nil {
				c.Fail("false success:Dial", "Dial(%q) succeeded", bad)
			}
			c.Evals++
		}
	})
	// each call: its conforming reply cut at every byte, the connection ending there in three ways
	for k := 0; k < nBorKinds; k++ {
		for v := 0; v < c.N(2, 12); v++ {
			c.Do(fmt.Sprintf("cut %s %d", borKindNames[k], v), func() {
				call := c.R.borCall(k)
				line, _ := c.R.conforming(k, call)
				if v%2 == 1 {
					line, _ = c.R.errReply(k, call)
				}
				raw := []byte(line + "\n")
				for p := 0; p <= len(raw); p++ {
					then := []byte{'c', 'w', 'r'}[(p+v)%3]
					bor := dial(reply("DEVICE -"))
					if bor == nil {
						s.wait()
						return
					}
					// with 'r' the kernel may discard bytes already sent: success is then only possible when all was read
					exchange(bor, k, call, raw[:p], then)
					if c.R.Bool() {
						k2 := c.R.Intn(nBorKinds)
						call2 := c.R.borCall(k2)
						var e2 error
						s.guard(c, call2.name, func() { _, e2 = call2.do(bor) })
						if e2 == nil {
							c.Fail("false success:"+call2.name, "%s succeeded on a broken connection", call2.name)
						}
					}
					finish(bor, true, false, false, "broken connection")
				}
			})
		}
	}
	// each call: structured hostile replies on a living connection
	for k := 0; k < nBorKinds; k++ {
		c.Do("shapes "+borKindNames[k], func() {
			var replies []string
			for _, cmd := range append([]string{c.R.borCall(k).cmd}, wrongCmd...) {
				for _, rest := range []string{"", " ", " OK", " OK ", " OK 5", " OK  5", " OK x", " OK 1 2 3 4", " OK 1 2 3 4 5 6 7", "  OK 5", " OK\t5", " 5", " -", " - ", " -x", " - x", " !", " ON", " OFF", " on", " OK ON",
					" FAIL", " DEVICE", " DEVICE OK", " RUNNING", "OK", "OK 5", "5", " NaN", " 0x1p4", " |", " ||||||", " |||||||", " a|1|2|3|4|5|b", " a|1|2|3|4|5|b|c", " a|1|2|3|4|5", " a|x|2|3|4|5|b|c",
					" a|1|x|3|4|5|b|c", " a|1|2|x|4|5|b|c", " a|1|2|3|x|5|b|c", " a|1|2|3|4|x|b|c", " a|1|2|3|4|5.5|b|c", " a|1|2|3|4|99999999999|b|c", " a|1|2|3|4|5|b|c|d|e", " -|1|2|3|4|5|b|c", "\x00", " \x00 OK", " OK\x00", " \xff\xfe", " ok 5", " Ok", " KO", " OKAY 5"} {
					replies = append(replies, cmd+rest)
				}
			}
			replies = append(replies, "", " ", "\r", "OK", " OK", "  ", "5", "\x00", "ok", strings.Repeat("A", 5000), strings.Repeat(" ", 3000), strings.Repeat("|", 3000), "DEVICE "+strings.Repeat("|", 3000))
			bor := dial(reply("DEVICE -"))
			if bor == nil {
				s.wait()
				return
			}
			ranOK, devOK := false, false
			for _, l := range replies {
				call := c.R.borCall(k)
				exchange(bor, k, call, []byte(l+"\n"), 0)
				u := usable(k, call.cmd, []byte(l+"\n"))
				if k == 12 && u {
					ranOK = true
				}
				if bor.Device() != nil {
					devOK = true
				}
			}
			finish(bor, false, ranOK, devOK, "after hostile replies")
		})
	}
	// failed GO / DEVICE leave no marks
	for i, l := range []string{"GO", "GO FAIL no DEST set", "GO DEVICE no active device", "GO RUNNING", "GO ok", "GOOK", "STOP OK", "", "OK", "GO  OK", "DEVICE OK"} {
		c.Do(fmt.Sprintf("mark go %d", i), func() {
			bor := dial(reply("DEVICE -"))
			if bor == nil {
				s.wait()
				return
			}
			exchange(bor, 12, c.R.borCall(12), []byte(l+"\n"), 0)
			finish(bor, false, false, false, "GO answered "+strconv.Quote(l))
		})
	}
	for i, l := range []string{"DEVICE", "DEVICE - no", "DEVICE -", "DEVICE a|1|2", "DEVICE a|x|2|3|4|5|b|c", "DEVICE a|1|2|3|4|x|b|c", "GAIN a|1|2|3|4|5|b|c", "", "DEVICE a|1|2|3||5|b|c", "DEVICE -a|1|2|3|4|5|b|c", "DEVICE OK"} {
		c.Do(fmt.Sprintf("mark device %d", i), func() {
			bor := dial(reply("DEVICE -"))
			if bor == nil {
				s.wait()
				return
			}
			exchange(bor, 14, c.R.borCall(14), []byte(l+"\n"), 0)
			finish(bor, false, false, false, "DEVICE answered "+strconv.Quote(l))
		})
	}
	// a failed STOP leaves the stream marked as running: Close tries again
	for i, l := range []string{"STOP", "STOP FAIL busy", "STOP DEVICE no active device", "STOP STOPPED", "STOP ok", "GO OK", "", "OK", "STOP  OK", "STOPOK", "STOP OK"} {
		c.Do(fmt.Sprintf("mark stop %d", i), func() {
			bor := dial(reply("DEVICE -"))
			if bor == nil {
				s.wait()
				return
			}
			exchange(bor, 12, c.R.borCall(12), []byte("GO OK\n"), 0)
			exchange(bor, 13, c.R.borCall(13), []byte(l+"\n"), 0)
			s.replies <- reply("STOP OK")
			before := len(s.lines())
			s.guard(c, "Close", func() { bor.Close() })
			s.wait()
			n := 0
			for _, l := range s.lines()[before:] {
				if strings.TrimSpace(l) == "STOP" {
					n++
				}
			}
			if want := 1 - btoi(l == "STOP OK"); n != want {
				c.Fail("failed stop", "GO OK, STOP answered %q, Close: STOP is sent %d times, want %d", l, n, want)
			}
			c.Evals++
			c.Count("closes", 1)
		})
	}
	// random mutations of conforming replies, several calls per connection, the connection sometimes ends
	for i := 0; i < c.N(700, 12000); i++ {
		c.Do(fmt.Sprintf("mutate %d", i), func() {
			bor := dial(c.R.splitReply("DEVICE -"))
			if bor == nil {
				s.wait()
				return
			}
			broken, ranOK, devOK := false, false, false
			for j := 0; j < 30 && !broken; j++ {
				k := c.R.Intn(nBorKinds)
				call := c.R.borCall(k)
				line, _ := c.R.conforming(k, call)
				if c.R.Intn(4) == 0 {
					line, _ = c.R.errReply(k, call)
				}
				var raw []byte
				switch c.R.Intn(12) {
				case 0:
					raw = make([]byte, c.R.Intn(60))
					c.R.Bytes(raw)
				case 1:
					k2 := c.R.Intn(nBorKinds)
					line, _ = c.R.conforming(k2, c.R.borCall(k2))
					raw = []byte(line)
				case 2:
					raw = bytes.Repeat([]byte(c.R.phrase()+" "), c.R.Intn(3000))
				default:
					raw = c.R.mutateLine([]byte(line))
				}
				if x := bytes.IndexByte(raw, '\n'); x >= 0 {
					raw = raw[:x] // the rest would answer the next call
				}
				then := byte(0)
				if c.R.Intn(12) == 0 {
					then = []byte{'c', 'w', 'r'}[c.R.Intn(3)]
					broken = true
				}
				if then == 0 || c.R.Bool() {
					raw = append(raw, '\n')
				}
				exchange(bor, k, call, raw, then)
				if k == 12 && usable(k, call.cmd, raw) {
					ranOK = true
				}
				if bor.Device() != nil {
					devOK = true
				}
			}
			finish(bor, broken, ranOK, devOK, "after mutated replies")
		})
	}
	// a reply without an end, then the connection breaks
	for _, n := range []int{4095, 4096, 65536, 3000000} {
		c.Do(fmt.Sprintf("endless %d", n), func() {
			bor := dial(reply("DEVICE -"))
			if bor == nil {
				s.wait()
				return
			}
			k := c.R.Intn(nBorKinds)
			exchange(bor, k, c.R.borCall(k), append([]byte("FREQ OK "), bytes.Repeat([]byte("9"), n)...), 'c')
			finish(bor, true, false, false, "endless reply")
		})
	}
	c.Sample("calls: %s", strings.Join(borKindNames[:], " "))
}
