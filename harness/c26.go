package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"github.com/samuel/go-dsp/borip"
)

func init() {
	checks["C26"] = checkC26
	checks["C27"] = checkC27
}

// ---- the real server program, with scripted receivers (stubs/go-rtlsdr) ----

type stubConf struct {
	Name     string
	Gains    []int
	GainsErr bool
	XtalErr  bool
	OpenErr  bool
	FreqStep uint
	RateStep uint
	Fail     map[string]bool
	Auto     int
	AutoSize int
	AutoEnd  int
	EndNil   bool
}

type stubState struct {
	Name                  string
	Open                  bool
	Opens, Closes, Resets int
	Freq, Rate            uint
	Gain, AGC             int
	Async                 int
	Log                   []string
}

type stubReq struct {
	Op   string
	Dev  int
	Bufs [][]byte
	Conf *stubConf
}

type stubResp struct {
	Rets       []bool
	Idle       bool
	Devs       []stubState
	Heap       int64
	Goroutines int
}

const srvAddr = "127.0.0.1:28888"

type srvProc struct {
	cmd    *exec.Cmd
	mu     sync.Mutex
	conn   net.Conn
	dec    *json.Decoder
	enc    *json.Encoder
	errf   string
	exited chan struct{}
	dir    string
	keepMu sync.Mutex
	keep   []net.Conn
}

var loopbackOnce sync.Once

// loopbackUp switches the loopback interface on (needed when run.py put the worker into a network namespace of its own).
func loopbackUp() {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_DGRAM, 0)
	if err != nil {
		return
	}
	defer syscall.Close(fd)
	var req [40]byte
	copy(req[:], "lo")
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, uintptr(fd), syscall.SIOCGIFFLAGS, uintptr(unsafe.Pointer(&req[0]))); e != 0 {
		return
	}
	if req[16]&syscall.IFF_UP == 0 {
		req[16] |= syscall.IFF_UP
		syscall.Syscall(syscall.SYS_IOCTL, uintptr(fd), syscall.SIOCSIFFLAGS, uintptr(unsafe.Pointer(&req[0])))
	}
}

// launchServer runs the server with arguments of its own; ln is where its receivers will report. Nothing is waited for.
func launchServer(confs []stubConf, free bool, prepare func(dir string), args ...string) (s *srvProc, ln net.Listener) {
	loopbackOnce.Do(loopbackUp)
	bin := os.Getenv("VERIF_SERVER")
	if bin == "" {
		panic("harness: no server binary")
	}
	base := os.Getenv("VERIF_SCRATCH")
	dir, err := os.MkdirTemp("", "srv")
	if err != nil {
		panic("harness: " + err.Error())
	}
	s = &srvProc{errf: filepath.Join(dir, "stderr"), exited: make(chan struct{}), dir: dir}
	ln, err = net.Listen("unix", filepath.Join(dir, "ctl"))
	if err != nil {
		panic("harness: " + err.Error())
	}
	// somebody else's server must not be taken for ours
	for t := 0; free; t++ {
		l, err := net.Listen("tcp", "0.0.0.0:28888")
		if err == nil {
			l.Close()
			break
		}
		if t > 600 {
			panic("harness: port 28888 is in use: " + err.Error())
		}
		time.Sleep(100 * time.Millisecond)
	}
	if prepare != nil {
		prepare(dir)
	}
	js, _ := json.Marshal(confs)
	s.cmd = exec.Command(bin, args...)
	s.cmd.Dir = dir
	s.cmd.Env = append(os.Environ(), "RTL_STUB="+filepath.Join(dir, "ctl"), "RTL_STUB_CONF="+string(js),
		"GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+filepath.Join(base, "race.server"), "GOTRACEBACK=all")
	f, err := os.Create(s.errf)
	if err != nil {
		panic("harness: " + err.Error())
	}
	s.cmd.Stdout, s.cmd.Stderr = f, f
	s.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := s.cmd.Start(); err != nil {
		panic("harness: " + err.Error())
	}
	f.Close()
	go func() {
		s.cmd.Wait()
		close(s.exited)
	}()
	return s, ln
}

func startServer(c *Ctx, confs []stubConf, args ...string) *srvProc {
	s, ln := launchServer(confs, true, nil, args...)
	defer ln.Close()
	began := time.Now()
	ln.(*net.UnixListener).SetDeadline(time.Now().Add(60 * time.Second))
	conn, err := ln.Accept()
	if err != nil {
		panic("harness: the server did not start: " + s.tail())
	}
	hung := false
	s.conn = conn
	s.dec, s.enc = json.NewDecoder(conn), json.NewEncoder(conn)
	for t := 0; ; t++ {
		p, err := net.Dial("tcp", srvAddr)
		if err == nil {
			p.Close()
			break
		}
		select {
		case <-s.exited:
			c.Fail("start", "the server ended at its start with %d devices: %s", len(confs), s.tail())
			return s
		default:
		}
		if cpuTime(s.cmd.Process.Pid) > spinLimit {
			hung = true
		} else if time.Since(began) > 120*time.Second {
			panic("harness: the server does not accept connections: " + s.tail())
		}
		if hung {
			c.Fail("start", "the server with %d devices uses %v of processor time without accepting a connection", len(confs), spinLimit)
			s.cmd.Process.Kill()
			<-s.exited
			return s
		}
		time.Sleep(10 * time.Millisecond)
	}
	return s
}

func (s *srvProc) tail() string {
	b, _ := os.ReadFile(s.errf)
	if i := bytes.Index(b, []byte("panic: ")); i >= 0 {
		b = b[i:]
		if len(b) > 1500 {
			b = b[:1500]
		}
	} else if i := bytes.Index(b, []byte("fatal error: ")); i >= 0 {
		b = b[i:]
		if len(b) > 1500 {
			b = b[:1500]
		}
	} else if len(b) > 1500 {
		b = b[len(b)-1500:]
	}
	return string(b)
}

func (s *srvProc) dead() bool {
	select {
	case <-s.exited:
		return true
	default:
		return false
	}
}

// stop ends the server and reports if it had ended before.
func (s *srvProc) stop(c *Ctx) {
	if s.dead() {
		c.Fail("crash", "the server ended by itself: %s", s.tail())
	}
	s.cmd.Process.Kill()
	<-s.exited
	s.conn.Close()
	os.RemoveAll(s.dir)
}

type srvDead struct{ what string }

func (s *srvProc) do(q stubReq) stubResp {
	s.mu.Lock()
	defer s.mu.Unlock()
	var r stubResp
	s.conn.SetDeadline(time.Now().Add(120 * time.Second))
	if err := s.enc.Encode(&q); err != nil {
		panic(srvDead{})
	}
	if err := s.dec.Decode(&r); err != nil {
		var ne net.Error
		if errors.As(err, &ne) && ne.Timeout() {
			panic("stub request " + q.Op + " not answered within 120 s: the callback of the stream does not return")
		}
		panic(srvDead{})
	}
	return r
}

func (s *srvProc) state() []stubState { return s.do(stubReq{Op: "state"}).Devs }

func (s *srvProc) fds() int {
	e, err := os.ReadDir(fmt.Sprintf("/proc/%d/fd", s.cmd.Process.Pid))
	if err != nil {
		return -1
	}
	return len(e)
}

// guarded runs f; a server that died on the way is one violation.
func (s *srvProc) guarded(c *Ctx, f func()) {
	defer s.stop(c)
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(srvDead); ok {
				for t := 0; t < 300 && !s.dead(); t++ {
					time.Sleep(10 * time.Millisecond)
				}
				if !s.dead() {
					if d := r.(srvDead); d.what != "" {
						c.Fail("hangup", "the server lives but %s", d.what)
						return
					}
					panic("harness: lost the connection to a living server")
				}
				return
			}
			panic(r)
		}
	}()
	if !s.dead() {
		f()
	}
}

// ---- a raw protocol client ----

type rawCli struct {
	conn net.Conn
	rd   *bufio.Reader
}

const replyTimeout = 60 * time.Second

func (s *srvProc) dial(c *Ctx) *rawCli {
	conn, err := net.Dial("tcp", srvAddr)
	if err != nil {
		if s.dead() {
			panic(srvDead{})
		}
		panic("harness: dial: " + err.Error())
	}
	s.keepMu.Lock()
	s.keep = append(s.keep, conn) // a connection nobody refers to any more would be closed by its finalizer
	s.keepMu.Unlock()
	r := &rawCli{conn, bufio.NewReaderSize(conn, 1<<16)}
	l, err := r.line()
	if err != nil {
		panic(srvDead{fmt.Sprintf("a new connection got no hello (%v)", err)})
	}
	if l != "DEVICE -" {
		c.Fail("hello", "the first line of a session is %q", l)
	}
	return r
}

func (r *rawCli) line() (string, error) {
	r.conn.SetReadDeadline(time.Now().Add(replyTimeout))
	l, err := r.rd.ReadString('\n')
	return strings.TrimSuffix(l, "\n"), err
}

func (r *rawCli) send(s string) error {
	r.conn.SetWriteDeadline(time.Now().Add(replyTimeout))
	_, err := r.conn.Write([]byte(s))
	return err
}

// ask sends one command line and returns the reply line.
func (r *rawCli) ask(s *srvProc, c *Ctx, line string) (string, bool) {
	if err := r.send(line + "\n"); err != nil {
		panic(srvDead{fmt.Sprintf("the connection broke when %q was sent (%v)", line, err)})
	}
	l, err := r.line()
	if err != nil {
		var ne net.Error
		if errors.As(err, &ne) && ne.Timeout() {
			c.Fail("noreply:"+cmdWord(line), "no reply to %q within %v", line, replyTimeout)
			return "", false
		}
		for t := 0; t < 200 && !s.dead(); t++ {
			time.Sleep(10 * time.Millisecond)
		}
		if !s.dead() {
			c.Fail("hangup:"+cmdWord(line), "the server closed the connection (%v) instead of answering %q", err, line)
			return "", false
		}
		panic(srvDead{})
	}
	return l, true
}

func cmdWord(line string) string {
	return strings.ToUpper(strings.SplitN(strings.TrimSpace(line), " ", 2)[0])
}

// ---- model ----

type mDev struct {
	conf   stubConf
	holder *mCli
	ending int  // streams that were stopped but have not ended at the device
	live   bool // a stream is running
}

type mCli struct {
	raw  *rawCli
	dev  *mDev
	dest string
}

type srvModel struct {
	c    *Ctx
	s    *srvProc
	devs []*mDev
	clis []*mCli
	hist []string

	defFreq, defRate uint // what a newly selected receiver is set to; 0: not known
}

func (m *srvModel) fail(key, format string, args ...interface{}) {
	h := m.hist
	if len(h) > 14 {
		h = h[len(h)-14:]
	}
	m.c.Fail(key, "%s\n  history: %s", fmt.Sprintf(format, args...), strings.Join(h, " ; "))
}

func (m *srvModel) idx(d *mDev) int {
	for i, x := range m.devs {
		if x == d {
			return i
		}
	}
	return -1
}

func (m *srvModel) release(cl *mCli) {
	if cl.dev != nil {
		cl.dev.holder = nil
		cl.dev.live = false
		cl.dev.ending = 0
		cl.dev = nil
	}
}

func num(s string) (float64, bool) {
	v, err := strconv.ParseFloat(s, 64)
	return v, err == nil
}

// command sends one command and judges the reply and the device states after it.
func (m *srvModel) command(ci int, cmd, arg string) bool {
	cl := m.clis[ci]
	c := m.c
	line := cmd
	if arg != "" {
		line += " " + arg
	}
	sent := line
	switch c.R.Intn(8) {
	case 0:
		sent = strings.ToLower(cmd) + strings.TrimPrefix(line, cmd)
	case 1:
		sent = line + "\r"
	case 2:
		sent = "  " + line + " \t"
	case 3:
		sent = "\n \r\n\n" + line // empty lines get no reply
	}
	before := m.s.state()
	m.hist = append(m.hist, fmt.Sprintf("%d:%q", ci, line))
	rep, ok := cl.raw.ask(m.s, c, sent)
	if !ok {
		return false
	}
	m.hist = append(m.hist, fmt.Sprintf("-> %q", rep))
	after := m.s.state()
	c.Seen(mix(hashS(line, rep), len(m.hist)), true)
	c.Count("replies_judged", 1)
	f := strings.Split(rep, " ")
	key := "reply:" + cmd
	bad := func(why string) bool {
		m.fail(key, "%s: client %d sent %q, reply %q", why, ci, line, rep)
		return false
	}
	if f[0] != cmd {
		return bad("the reply does not start with the command")
	}
	if len(f) < 2 {
		return bad("the reply says nothing")
	}
	var st, st0 stubState
	if cl.dev != nil {
		st, st0 = after[m.idx(cl.dev)], before[m.idx(cl.dev)]
	}
	needDev := func() (bool, bool) { // judged, verdict
		if cl.dev != nil {
			return false, true
		}
		if f[1] != "DEVICE" {
			return true, bad("no device is selected, the reply must be DEVICE")
		}
		return true, true
	}
	fails := func(methods ...string) bool {
		for _, x := range methods {
			if cl.dev.conf.Fail[x] {
				return true
			}
		}
		return false
	}
	isErr := func() bool { return strings.HasPrefix(f[1], "-") }
	verdict := true
	setget := func(set, get string, val func(stubState) float64, step uint, min, max float64) bool {
		if arg == "" {
			if fails(get) {
				if !isErr() {
					return bad("the device does not tell the value, the reply must start with -")
				}
				return true
			}
			v, isNum := num(f[1])
			if !isNum || v != val(st) {
				return bad(fmt.Sprintf("the device is set to %v", val(st)))
			}
			return true
		}
		w, err := strconv.ParseFloat(strings.SplitN(arg, " ", 2)[0], 64)
		if err != nil {
			if f[1] != "FAIL" {
				return bad("not a number: the reply must be FAIL")
			}
			if val(st) != val(st0) {
				return bad("not a number, yet the device was changed")
			}
			return true
		}
		if fails(set, get) {
			if f[1] != "FAIL" {
				return bad("the device refuses: the reply must be FAIL")
			}
			if fails(set) && val(st) != val(st0) {
				return bad("the harness' device changed though it refused")
			}
			return true
		}
		if w < min || w > max || w != w { // no such setting exists: any answer
			return true
		}
		if f[1] != "OK" {
			return bad("the device accepts: the reply must be OK")
		}
		lo, hi := math.Floor(w), math.Ceil(w)
		if step > 1 {
			q := float64(step)
			lo, hi = math.Floor(lo/q)*q, math.Floor(hi/q)*q
		}
		if set != "SetTunerGain" && val(st) != lo && val(st) != hi {
			return bad(fmt.Sprintf("the device was set to %v", val(st)))
		}
		return true
	}
	switch cmd {
	case "FREQ":
		if j, v := needDev(); j {
			verdict = v
			break
		}
		verdict = setget("SetCenterFreq", "GetCenterFreq", func(s stubState) float64 { return float64(s.Freq) }, cl.dev.conf.FreqStep, 0, 4e9)
		if w, ok := num(arg); verdict && arg != "" && ok && f[1] == "OK" && w >= 0 && w <= 4e9 {
			if len(f) < 4 {
				verdict = bad("the reply to a tuned frequency has no requested and actual frequency")
				break
			}
			t, ok1 := num(f[2])
			a, ok2 := num(f[3])
			if !ok1 || !ok2 || math.Abs(t-w) > 1e-5 || a != float64(st.Freq) {
				verdict = bad(fmt.Sprintf("requested %v, the device is tuned to %v", w, st.Freq))
			}
		}
	case "RATE":
		if j, v := needDev(); j {
			verdict = v
			break
		}
		verdict = setget("SetSampleRate", "GetSampleRate", func(s stubState) float64 { return float64(s.Rate) }, cl.dev.conf.RateStep, 0, 2e9)
		if w, ok := num(arg); verdict && arg != "" && ok && f[1] == "OK" && w >= 0 && w <= 2e9 {
			if v, isNum := num(f[len(f)-1]); len(f) < 3 || !isNum || v != float64(st.Rate) {
				verdict = bad(fmt.Sprintf("the device runs at %v", st.Rate))
			}
		}
	case "GAIN":
		if j, v := needDev(); j {
			verdict = v
			break
		}
		verdict = setget("SetTunerGain", "GetTunerGain", func(s stubState) float64 { return float64(s.Gain) }, 1, -1000, 1000)
		if w, ok := num(arg); verdict && arg != "" && ok && f[1] == "OK" && w >= -1000 && w <= 1000 {
			if v, isNum := num(f[len(f)-1]); len(f) < 3 || !isNum || v != float64(st.Gain) {
				verdict = bad(fmt.Sprintf("the device's gain is %v", st.Gain))
			}
			if n := int(w); float64(n) == w { // the stub tuner picks the nearest it has
				best, first := n, true
				for _, g := range cl.dev.conf.Gains {
					if first || iabs(g-n) < iabs(best-n) {
						best, first = g, false
					}
				}
				if st.Gain != best {
					verdict = bad(fmt.Sprintf("the device's gain became %v", st.Gain))
				}
			}
		}
	case "ANTENNA":
		if j, v := needDev(); j {
			verdict = v
			break
		}
		if arg == "" {
			if len(f) != 2 || f[1] == "OK" || f[1] == "" {
				verdict = bad("the reply must be the antenna")
			}
		} else if f[1] != "OK" {
			verdict = bad("the only antenna is selected: the reply must be OK")
		}
	case "DEST":
		if arg == "" {
			if cl.dest != "" && f[1] != cl.dest {
				verdict = bad("the destination is " + cl.dest)
			}
			break
		}
		want, valid := destOf(arg)
		switch {
		case valid && (len(f) < 3 || f[1] != "OK" || f[2] != want):
			verdict = bad("the reply must be OK " + want)
		case valid:
			cl.dest = want
		case f[1] == "OK" && len(f) > 2 && !strings.Contains(arg, ":"): // a default port is fine
			cl.dest = f[2]
		case f[1] != "FAIL":
			verdict = bad("no usable address: the reply must be FAIL")
		}
	case "GO":
		if cl.dev == nil {
			_, verdict = needDev()
			break
		}
		if cl.dev.live {
			if f[1] != "RUNNING" {
				verdict = bad("the stream is running already: the reply must be RUNNING")
			}
			break
		}
		if fails("ResetBuffer") {
			if f[1] != "FAIL" {
				verdict = bad("the device refuses: the reply must be FAIL")
			}
			break
		}
		if f[1] != "OK" {
			verdict = bad("the stream can start: the reply must be OK")
			break
		}
		cl.dev.live = true
	case "STOP":
		running := cl.dev != nil && cl.dev.live
		if running {
			cl.dev.live = false
			cl.dev.ending++
			if f[1] != "OK" {
				verdict = bad("the stream was running: the reply must be OK")
			}
		} else if f[1] != "STOPPED" {
			verdict = bad("no stream is running: the reply must be STOPPED")
		}
	case "DEVICE":
		switch arg {
		case "-":
			m.release(cl)
			text := strings.TrimPrefix(rep, "DEVICE ")
			var free []*mDev
			for _, d := range m.devs {
				if d.holder == nil && !d.conf.OpenErr {
					free = append(free, d)
				}
			}
			if len(free) == 0 {
				if !isErr() {
					verdict = bad("no device is free")
				}
				break
			}
			p := strings.Split(text, "|")
			if len(p) < 7 {
				verdict = bad("not a device description")
				break
			}
			for _, d := range free {
				if d.conf.Name == p[0] {
					cl.dev = d
					d.holder = cl
				}
			}
			if cl.dev == nil {
				verdict = bad("that is no free device")
				break
			}
			g := cl.dev.conf.Gains
			min, ok1 := num(p[1])
			max, ok2 := num(p[2])
			stp, ok3 := num(p[3])
			_, ok4 := num(p[4])
			n, ok5 := num(p[5])
			if !ok1 || !ok2 || !ok3 || !ok4 || !ok5 || n != 4096 || p[6] == "" {
				verdict = bad("malformed device description")
				break
			}
			if len(g) > 0 && !cl.dev.conf.GainsErr && (min != float64(g[0]) || max != float64(g[len(g)-1])) || len(g) > 1 && !cl.dev.conf.GainsErr && stp != float64(g[1]-g[0]) {
				verdict = bad(fmt.Sprintf("the tuner's gains are %v", g))
			}
			st := after[m.idx(cl.dev)]
			for _, x := range []struct {
				method    string
				what      string
				have, def uint
				step      uint
			}{{"SetCenterFreq", "frequency", st.Freq, m.defFreq, cl.dev.conf.FreqStep}, {"SetSampleRate", "rate", st.Rate, m.defRate, cl.dev.conf.RateStep}} {
				want := x.def
				if x.step > 1 {
					want = want / x.step * x.step
				}
				if verdict && x.def != 0 && !cl.dev.conf.Fail[x.method] && x.have != want {
					verdict = bad(fmt.Sprintf("the newly selected receiver's %s is %d; a receiver starts at %d", x.what, x.have, want))
				}
			}
			if verdict && st.AGC != 0 && !cl.dev.conf.Fail["SetAGCMode"] {
				verdict = bad("the newly selected receiver's automatic gain was not switched off")
			}
		case "!":
			m.release(cl)
			if f[1] != "-" {
				verdict = bad("the device is released: the reply must be -")
			}
		default:
			if !isErr() {
				verdict = bad("no such device: the reply must start with -")
			}
		}
	default:
		if f[1] != "UNKNOWN" {
			verdict = bad("unknown command: the reply must be UNKNOWN")
		}
	}
	if !verdict {
		return false
	}
	return m.devices("after "+line, m.s.state())
}

func iabs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}

// devices compares the state of the devices with the model.
func (m *srvModel) devices(when string, sts []stubState) bool {
	for i, d := range m.devs {
		s := sts[i]
		if len(s.Log) > 0 {
			m.fail("device", "%s: device %q was misused: %v", when, s.Name, s.Log)
			return false
		}
		if s.Open != (d.holder != nil) {
			m.fail("device", "%s: device %q open=%v, selected by a client=%v", when, s.Name, s.Open, d.holder != nil)
			return false
		}
		want := d.ending
		if d.live {
			want++
		}
		if s.Async != want {
			m.fail("device", "%s: %d streams at device %q, want %d", when, s.Async, s.Name, want)
			return false
		}
	}
	return true
}

// deliver gives one buffer to the device.
func (m *srvModel) deliver(i int, buf []byte) bool {
	d := m.devs[i]
	r := m.s.do(stubReq{Op: "deliver", Dev: i, Bufs: [][]byte{buf}})
	m.hist = append(m.hist, fmt.Sprintf("buffer(%s)=%v", d.conf.Name, r.Rets))
	switch {
	case d.ending > 0:
		if len(r.Rets) != 1 || !r.Rets[0] {
			m.fail("stream", "the stopped stream of %q goes on with the next buffer", d.conf.Name)
			return false
		}
		d.ending--
	case d.live:
		if len(r.Rets) != 1 || r.Rets[0] {
			m.fail("stream", "the running stream of %q ended itself", d.conf.Name)
			return false
		}
	default:
		if !r.Idle {
			m.fail("stream", "device %q has a stream that nobody started", d.conf.Name)
			return false
		}
	}
	m.c.Count("buffers_delivered", 1)
	return m.devices("after a buffer", r.Devs)
}

// end ends the running stream from the device's side.
func (m *srvModel) end(i int) bool {
	d := m.devs[i]
	for d.ending > 0 {
		if !m.deliver(i, make([]byte, 512)) {
			return false
		}
	}
	if !d.live {
		return true
	}
	m.s.do(stubReq{Op: "end", Dev: i})
	m.hist = append(m.hist, fmt.Sprintf("device %s ends its stream", d.conf.Name))
	d.live = false
	m.c.Count("device_side_ends", 1)
	return true
}

// destOf is the address a destination argument names; only literal addresses are used.
func destOf(arg string) (string, bool) {
	h, p, err := net.SplitHostPort(strings.SplitN(arg, " ", 2)[0])
	if err != nil {
		return "", false
	}
	n, err := strconv.Atoi(p)
	if err != nil || n < 0 || n > 65535 || h != "" && net.ParseIP(h) == nil {
		return "", false
	}
	if h == "" {
		return ":" + strconv.Itoa(n), true
	}
	a := net.UDPAddr{IP: net.ParseIP(h), Port: n}
	return a.String(), true
}

func (r *Rand) stubConf(i int) stubConf {
	gains := [][]int{{-99, -40, 71, 179, 192}, {0, 9, 14, 27, 37, 77, 87, 125, 144, 157, 166, 197, 207, 229, 254, 280, 297, 328, 338, 364, 372, 386, 402, 421, 434, 439, 445, 480, 496},
		{-10, 15, 40, 65, 90, 115, 140, 165, 190, 215, 240, 290, 340, 420}, {0}, {}, {5, 6}, {-30}, {-800, -250, 0, 333, 777, 999}, {100, 700}, {-12, -11, -10, -9, -8, -7, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}}
	c := stubConf{Name: fmt.Sprintf("%s #%d", []string{"Generic RTL2832U OEM", "ezcap USB 2.0 DVB-T/DAB/FM dongle", "Terratec"}[r.Intn(3)], i), Gains: gains[r.Intn(len(gains))],
		FreqStep: uint([]int{1, 1, 7, 1000}[r.Intn(4)]), RateStep: uint([]int{1, 1, 5, 250}[r.Intn(4)]), Fail: map[string]bool{}, EndNil: r.Bool()}
	c.GainsErr = r.Intn(8) == 0
	c.XtalErr = r.Intn(6) == 0
	return c
}

var stubMethods = []string{"SetCenterFreq", "GetCenterFreq", "SetSampleRate", "GetSampleRate", "SetTunerGain", "GetTunerGain", "SetAGCMode", "ResetBuffer"}

func (r *Rand) srvCommand() (cmd, arg string) {
	number := func(max float64) string {
		switch r.Intn(10) {
		case 0:
			return []string{"abc", "1.2.3", "--4", "0x", "1e", ",5", "1_0"}[r.Intn(7)]
		case 1:
			return []string{"-1", "1e12", "NaN", "inf", "-inf", "1e300", "-0", "4294967296", "18446744073709551616"}[r.Intn(9)]
		case 2:
			return strconv.FormatFloat(r.Range(0, max), 'f', -1, 64)
		case 3:
			return strconv.FormatFloat(math.Floor(r.Range(0, max)), 'e', -1, 64)
		}
		return strconv.FormatFloat(math.Floor(r.Range(0, max)), 'f', -1, 64)
	}
	switch r.Intn(17) {
	case 0:
		return "FREQ", ""
	case 1:
		if r.Intn(4) == 0 { // up to the whole range the device interface can express
			return "FREQ", number(4e9)
		}
		return "FREQ", number(1.7e9)
	case 2:
		return "RATE", ""
	case 3:
		return "RATE", number(3.2e6)
	case 4:
		return "GAIN", ""
	case 5:
		if r.Bool() {
			if r.Intn(4) == 0 {
				return "GAIN", strconv.Itoa(r.Intn(25) - 12)
			}
			return "GAIN", strconv.Itoa(r.Intn(700) - 150)
		}
		return "GAIN", number(500)
	case 6:
		return "ANTENNA", []string{"", "default"}[r.Intn(2)]
	case 7:
		return "DEST", ""
	case 8:
		return "DEST", []string{"127.0.0.1:" + strconv.Itoa(1024+r.Intn(60000)), "127.0.0.1:" + strconv.Itoa(1024+r.Intn(60000)), "[::1]:" + strconv.Itoa(1024+r.Intn(60000)), "127.0.0.1", "127.0.0.1:99999", "1.2.3:x", "[::1", "127.0.0.2:28888"}[r.Intn(8)]
	case 9, 10:
		return "GO", ""
	case 11, 12:
		return "STOP", ""
	case 13, 14:
		return "DEVICE", "-"
	case 15:
		if r.Intn(3) == 0 {
			return "DEVICE", []string{"RTL", "RTL tuner=e4k", "0", "!!", "-1", "default"}[r.Intn(6)]
		}
		return "DEVICE", "!"
	}
	w := []string{"HEADER", "HELLO", "X", "FREQUENCY", "GOO", "STOPPED", "QUIT", "OK", "-", "\"", "DEVICES", "%S%D%N", "{}"}[r.Intn(13)]
	return w, []string{"", "ON", "1 2 3", "  x"}[r.Intn(4)]
}

func checkC26(c *Ctx) {
	c.Rule = "one evaluation = one reply line of the real server program judged against a model of the protocol and of its scripted receivers (state read back after every command), or one session of a client of the concurrent phase; distinct = distinct (command line, reply, place in the history)."
	// what a newly selected receiver is set to does not depend on what happened before
	var defFreq, defRate uint
	c.Do("defaults", func() {
		cf := c.R.stubConf(0)
		cf.FreqStep, cf.RateStep = 1, 1
		s := startServer(c, []stubConf{cf})
		s.guarded(c, func() {
			m := &srvModel{c: c, s: s, devs: []*mDev{{conf: cf}}}
			m.clis = append(m.clis, &mCli{raw: s.dial(c)})
			if !m.command(0, "DEVICE", "-") {
				return
			}
			st := s.state()[0]
			if st.Freq <= 1 || st.Rate == 0 {
				m.fail("reply:DEVICE", "a newly selected receiver is at frequency %d, rate %d", st.Freq, st.Rate)
				return
			}
			defFreq, defRate = st.Freq, st.Rate
		})
	})
	// every receiver fault against every command
	for rep := 0; rep < c.N(2, 20); rep++ {
		c.Do(fmt.Sprintf("faults %d", rep), func() {
			r := c.R
			confs := []stubConf{r.stubConf(0)}
			s := startServer(c, confs)
			s.guarded(c, func() {
				m := &srvModel{c: c, s: s, defFreq: defFreq, defRate: defRate, devs: []*mDev{{conf: confs[0]}}}
				for i := 0; i < 2; i++ {
					cl := &mCli{raw: s.dial(c)}
					host, _, _ := net.SplitHostPort(cl.raw.conn.LocalAddr().String())
					cl.dest = host + ":28888"
					m.clis = append(m.clis, cl)
				}
				d := m.devs[0]
				set := func(open bool, fail ...string) {
					d.conf.Fail, d.conf.OpenErr = map[string]bool{}, open
					for _, x := range fail {
						d.conf.Fail[x] = true
					}
					cf := d.conf
					s.do(stubReq{Op: "conf", Conf: &cf})
					m.hist = append(m.hist, fmt.Sprintf("faults=%v open=%v", fail, open))
				}
				n := func(max int) string { return strconv.Itoa(1 + r.Intn(max)) }
				all := func() bool {
					for _, i := range r.perm(11) {
						var ok bool
						switch i {
						case 0:
							ok = m.command(0, "FREQ", "")
						case 1:
							ok = m.command(0, "FREQ", n(1700000000))
						case 2:
							ok = m.command(0, "RATE", "")
						case 3:
							ok = m.command(0, "RATE", n(3200000))
						case 4:
							ok = m.command(0, "GAIN", "")
						case 5:
							ok = m.command(0, "GAIN", n(500))
						case 6:
							ok = m.command(0, "ANTENNA", []string{"", "default"}[r.Intn(2)])
						case 7:
							ok = m.command(0, "GO", "") && m.command(0, "GO", "") && m.deliver(0, make([]byte, 512)) && m.command(0, "STOP", "") && m.command(0, "STOP", "") && m.deliver(0, make([]byte, 512))
						case 8:
							ok = m.command(0, "GO", "") && m.end(0) && m.command(0, "STOP", "") && m.deliver(0, make([]byte, 512))
						case 9:
							ok = m.command(1, "DEVICE", "-") && m.command(1, "GO", "")
							if m.clis[1].dev != nil {
								ok = ok && m.command(1, "DEVICE", "!")
							}
						case 10:
							ok = m.command(0, "DEST", "127.0.0.1:"+strconv.Itoa(1024+r.Intn(60000)))
						}
						if !ok {
							return false
						}
					}
					return true
				}
				for _, x := range r.perm(len(stubMethods) + 3) {
					set(false)
					if !m.command(0, "DEVICE", "-") || m.clis[0].dev == nil {
						return
					}
					var ok bool
					switch {
					case x < len(stubMethods): // fails while the receiver is held; then while it is selected; then works again
						set(false, stubMethods[x])
						ok = all() && m.command(0, "DEVICE", "-") && all()
					case x == len(stubMethods):
						set(true)
						ok = all() && m.command(0, "DEVICE", "-") && all()
					case x == len(stubMethods)+1:
						set(false, stubMethods...)
						ok = all() && m.command(0, "DEVICE", "!") && m.command(0, "DEVICE", "-") && all()
					default:
						ok = m.command(0, "GO", "")
						set(false, stubMethods...)
						ok = ok && all() && m.command(0, "GO", "") && m.deliver(0, make([]byte, 512))
					}
					set(false)
					if !ok || !all() || !m.command(0, "DEVICE", "!") || !all() {
						return
					}
					c.Count("faults_tried", 1)
				}
			})
		})
	}
	// one command at a time, several clients, full model
	for rep := 0; rep < c.N(40, 500); rep++ {
		c.Do(fmt.Sprintf("model %d", rep), func() {
			r := c.R
			nd := []int{1, 1, 2, 3, 0}[rep%5]
			var confs []stubConf
			for i := 0; i < nd; i++ {
				confs = append(confs, r.stubConf(i))
			}
			s := startServer(c, confs)
			s.guarded(c, func() {
				m := &srvModel{c: c, s: s, defFreq: defFreq, defRate: defRate}
				for _, cf := range confs {
					m.devs = append(m.devs, &mDev{conf: cf})
				}
				connect := func() *mCli {
					cl := &mCli{raw: s.dial(c)}
					host, _, _ := net.SplitHostPort(cl.raw.conn.LocalAddr().String())
					cl.dest = host + ":28888"
					return cl
				}
				nc := 1 + r.Intn(3)
				for i := 0; i < nc; i++ {
					m.clis = append(m.clis, connect())
				}
				for st := 0; st < c.N(120, 250); st++ {
					ci := r.Intn(nc)
					if st == 0 && rep%2 == 0 { // most of the commands need a device
						if !m.command(ci, "DEVICE", "-") {
							return
						}
						continue
					}
					switch x := r.Intn(40); {
					case x < 4 && nd > 0:
						buf := make([]byte, []int{0, 2, 512, 8192, 32768, 16384 + 512}[r.Intn(6)])
						r.Bytes(buf)
						if !m.deliver(r.Intn(nd), buf) {
							return
						}
					case x == 4 && nd > 0:
						if !m.end(r.Intn(nd)) {
							return
						}
					case x == 5 && nd > 0: // other faults from now on
						d := m.devs[r.Intn(nd)]
						d.conf.Fail = map[string]bool{}
						if r.Intn(3) == 0 {
							for k := 0; k < 1+r.Intn(3); k++ {
								d.conf.Fail[stubMethods[r.Intn(len(stubMethods))]] = true
							}
						}
						d.conf.OpenErr = !d.conf.OpenErr && r.Intn(3) == 0
						cf := d.conf
						s.do(stubReq{Op: "conf", Dev: m.idx(d), Conf: &cf})
						m.hist = append(m.hist, fmt.Sprintf("faults(%s)=%v open=%v", d.conf.Name, d.conf.Fail, d.conf.OpenErr))
						if r.Bool() { // somebody tries what that does to the selection
							if d.holder != nil && r.Bool() {
								for i := range m.clis {
									if m.clis[i] == d.holder && !m.command(i, "DEVICE", "!") {
										return
									}
								}
							}
							if !m.command(r.Intn(nc), "DEVICE", "-") {
								return
							}
						}
					case x == 6: // leave and come back
						cl := m.clis[ci]
						switch r.Intn(3) {
						case 0:
							cl.raw.conn.(*net.TCPConn).SetLinger(0)
						case 1:
							cl.raw.send([]string{"FREQ", "GO", "DEV", "\n", "STOP"}[r.Intn(5)]) // an unfinished line
						}
						cl.raw.conn.Close()
						m.hist = append(m.hist, fmt.Sprintf("%d leaves", ci))
						had := cl.dev
						m.release(cl)
						if had != nil {
							i := m.idx(had)
							ok := false
							for t := 0; t < 2000 && !ok; t++ {
								ok = !s.state()[i].Open
								if !ok {
									time.Sleep(5 * time.Millisecond)
								}
							}
							if !ok {
								m.fail("device", "device %q is still open 10 s after its client left", had.conf.Name)
								return
							}
						}
						m.clis[ci] = connect()
						c.Count("disconnects", 1)
					case x == 7 && m.clis[ci].dev != nil: // a new stream while the old one has not noticed its end
						for _, w := range []string{"GO", "STOP", "GO"} {
							if !m.command(ci, w, "") {
								return
							}
						}
						for k := r.Intn(3); k >= 0; k-- {
							if d := m.clis[ci].dev; d != nil && !m.deliver(m.idx(d), make([]byte, 512)) {
								return
							}
						}
						if !m.command(ci, []string{"GO", "STOP"}[r.Intn(2)], "") {
							return
						}
						c.Count("quick_restarts", 1)
					default:
						cmd, arg := r.srvCommand()
						if !m.command(ci, cmd, arg) {
							return
						}
					}
				}
				if s.dead() {
					panic(srvDead{})
				}
			})
			c.Sample("%d devices, 1..3 clients: %v", nd, confs)
		})
	}
	// hostile bytes, many lines at once: one reply per non-empty line, in order
	for rep := 0; rep < c.N(12, 150); rep++ {
		c.Do(fmt.Sprintf("lines %d", rep), func() {
			r := c.R
			s := startServer(c, []stubConf{r.stubConf(0)})
			s.guarded(c, func() {
				other := s.dial(c)
				for sess := 0; sess < 12; sess++ {
					cl := s.dial(c)
					var want []string // the word each reply starts with
					var all bytes.Buffer
					for k := 0; k < 60; k++ {
						var line string
						switch r.Intn(4) {
						case 0:
							cmd, arg := r.srvCommand()
							line = cmd + " " + arg
						case 1:
							b := make([]byte, r.Intn(60))
							r.Bytes(b)
							line = strings.ReplaceAll(string(b), "\n", "?")
						case 2:
							line = []string{"", " ", "\r", "FREQ  5", "FREQ\t5", "GO GO", "STOP now", "DEVICE", "DEVICE  -", "DEVICE \x00", "RATE 1e309", "GAIN 9e18", "DEST :", "DEST ::::", "DEST  ", "ANTENNA  ", "\x00", "freq 1e400", "DEST [::1%lo]:99"}[r.Intn(19)]
						case 3:
							line = strings.Repeat([]string{"A", "FREQ ", "\xff", "9"}[r.Intn(4)], r.Intn(700))
						}
						all.WriteString(line + "\n")
						t := strings.TrimSpace(line)
						if t != "" {
							want = append(want, strings.ToUpper(strings.SplitN(t, " ", 2)[0]))
						}
					}
					// the reader must not wait for us while we wait for it
					go func() {
						b := all.Bytes()
						for _, n := range NewRand(uint64(sess)).Split(len(b)) {
							if cl.send(string(b[:n])) != nil {
								return
							}
							b = b[n:]
						}
					}()
					for k, w := range want {
						l, err := cl.line()
						if err != nil {
							for t := 0; t < 200 && !s.dead(); t++ {
								time.Sleep(10 * time.Millisecond)
							}
							if s.dead() {
								panic(srvDead{})
							}
							c.Fail("lines", "reply %d of %d missing (%v), to a line starting with %q", k, len(want), err, w)
							return
						}
						c.Seen(mix(hashS(l), k), true)
						if strings.SplitN(l, " ", 2)[0] != w {
							c.Fail("lines", "reply %d is %q, the line it answers starts with %q", k, l, w)
							return
						}
					}
					c.Count("replies_in_bulk", int64(len(want)))
					if r.Bool() { // a line that fits no buffer: the server may hang up, but on nobody else
						cl.send(strings.Repeat("Z", 5000+r.Intn(100000)) + "\n")
					}
					cl.conn.Close()
					if rep, ok := other.ask(s, c, "DEST"); ok && !strings.HasPrefix(rep, "DEST ") {
						c.Fail("lines", "another client's DEST is answered %q", rep)
					}
				}
			})
		})
	}
	// a crowd of clients, and clients that say nothing for a long time
	for rep := 0; rep < c.N(1, 3); rep++ {
		c.Do(fmt.Sprintf("crowd %d", rep), func() {
			r := c.R
			confs := []stubConf{r.stubConf(0), r.stubConf(1)}
			s := startServer(c, confs)
			s.guarded(c, func() {
				m := &srvModel{c: c, s: s, defFreq: defFreq, defRate: defRate}
				for _, cf := range confs {
					m.devs = append(m.devs, &mDev{conf: cf})
				}
				connect := func() {
					cl := &mCli{raw: s.dial(c)}
					host, _, _ := net.SplitHostPort(cl.raw.conn.LocalAddr().String())
					cl.dest = host + ":28888"
					m.clis = append(m.clis, cl)
				}
				start := time.Now()
				for i := 0; i < 4; i++ {
					connect()
				}
				ok := m.command(1, "DEVICE", "-") && m.command(1, "GO", "") && m.command(2, "DEVICE", "-") && m.command(3, "FREQ", "")
				for i := 0; ok && i < c.N(120, 400); i++ { // all at once
					connect()
					ok = m.command(len(m.clis)-1, []string{"FREQ", "DEST", "STOP", "NONSENSE"}[i%4], "")
				}
				for i := 4; ok && i < len(m.clis); i += 7 {
					ok = m.command(i, "DEST", "")
				}
				for i := 4; i < len(m.clis); i++ {
					m.clis[i].raw.conn.Close()
				}
				m.clis = m.clis[:4]
				for i := 0; ok && i < c.N(300, 1500); i++ { // one after the other
					connect()
					ok = m.command(4, "STOP", "")
					m.clis[4].raw.conn.Close()
					m.clis = m.clis[:4]
				}
				if !ok {
					return
				}
				c.Count("crowd_connections", int64(c.N(424, 1904)))
				if wait := []time.Duration{7 * time.Second, 35 * time.Second, 95 * time.Second}[rep]; time.Since(start) < wait {
					time.Sleep(wait - time.Since(start))
				}
				// client 0 has never said anything; 1 streams; 2 holds a receiver; 3 was refused one
				buf := make([]byte, 512)
				if m.command(0, "DEVICE", "-") && m.command(1, "GO", "") && m.deliver(0, buf) && m.deliver(1, buf) && m.command(2, "RATE", "") && m.command(3, "DEST", "") &&
					m.command(2, "DEVICE", "!") && m.command(0, "DEVICE", "-") && m.command(0, "GO", "") && m.deliver(1, buf) && m.command(1, "STOP", "") && m.deliver(0, buf) && m.command(1, "GAIN", "") {
					c.Count("patient_clients", 4)
				}
			})
		})
	}
	// many clients at once with free-running receivers: crashes, races, exclusive devices, reply per command
	for rep := 0; rep < c.N(10, 120); rep++ {
		c.Do(fmt.Sprintf("concurrent %d", rep), func() {
			r := c.R
			nd := 1 + r.Intn(3)
			var confs []stubConf
			for i := 0; i < nd; i++ {
				cf := r.stubConf(i)
				cf.Auto = []int{50, 300, 1500}[r.Intn(3)]
				cf.AutoSize = []int{512, 8192, 32768}[r.Intn(3)]
				if r.Bool() {
					cf.AutoEnd = 1 + r.Intn(30)
				}
				confs = append(confs, cf)
			}
			s := startServer(c, confs)
			s.guarded(c, func() {
				var mu sync.Mutex
				holder := map[string]int{}
				dead, how := false, srvDead{}
				var wg sync.WaitGroup
				K := 6
				evs := make([]int64, K)
				for k := 0; k < K; k++ {
					k := k
					rk := NewRand(r.U64())
					wg.Add(1)
					go func() {
						defer wg.Done()
						defer func() {
							if x := recover(); x != nil {
								mu.Lock()
								if d, ok := x.(srvDead); ok {
									dead, how = true, d
								} else {
									c.Fail("concurrent", "%v", x)
								}
								mu.Unlock()
							}
						}()
						for sess := 0; sess < c.N(5, 12); sess++ {
							mu.Lock()
							cc := &Ctx{perKey: map[string]int{}} // Fail of the shared recorder is not for goroutines
							mu.Unlock()
							cl := s.dial(cc)
							name := ""
							drop := func() {
								mu.Lock()
								if name != "" {
									delete(holder, name)
								}
								mu.Unlock()
								name = ""
							}
							for st := 0; st < 40; st++ {
								cmd, arg := rk.srvCommand()
								line := cmd
								if arg != "" {
									line += " " + arg
								}
								if cmd == "DEVICE" && (arg == "-" || arg == "!") {
									drop() // from here on somebody else may get it
								}
								rep, ok := cl.ask(s, cc, line)
								if !ok {
									break
								}
								evs[k]++
								f := strings.SplitN(rep, " ", 2)
								if f[0] != cmd || len(f) < 2 {
									cc.Fail("reply:"+cmd, "%q is answered %q", line, rep)
									break
								}
								if cmd == "DEVICE" && arg == "-" && !strings.HasPrefix(f[1], "-") {
									name = strings.SplitN(f[1], "|", 2)[0]
									mu.Lock()
									if h, ok := holder[name]; ok {
										cc.Fail("exclusive", "device %q was given to client %d while client %d has it", name, k, h)
									}
									holder[name] = k
									mu.Unlock()
								}
								if (cmd == "FREQ" || cmd == "RATE" || cmd == "GAIN" || cmd == "ANTENNA" || cmd == "GO") && (name == "") != (strings.SplitN(f[1], " ", 2)[0] == "DEVICE") {
									cc.Fail("reply:"+cmd, "%q is answered %q to a client with device %q", line, rep, name)
								}
								if cmd == "STOP" && name == "" && f[1] != "STOPPED" {
									cc.Fail("reply:STOP", "STOP is answered %q to a client without a device", f[1])
								}
								if rk.Intn(6) == 0 {
									time.Sleep(time.Duration(rk.Intn(3)) * time.Millisecond)
								}
							}
							drop()
							if rk.Bool() {
								cl.conn.(*net.TCPConn).SetLinger(0)
							}
							cl.conn.Close()
							if len(cc.Viol) > 0 {
								mu.Lock()
								for _, v := range cc.Viol {
									c.Fail(v.Key, "%s", v.Detail)
								}
								mu.Unlock()
								return
							}
						}
					}()
				}
				wg.Wait()
				if dead {
					panic(how)
				}
				for k := range evs {
					c.Evals += evs[k]
					c.Count("concurrent_replies", evs[k])
				}
				c.Seen(hashS("concurrent", rep, c.Seed), true)
				// everybody has left: every device is released
				for t := 0; ; t++ {
					open := ""
					for _, d := range s.state() {
						if d.Open {
							open = d.Name
						}
						if len(d.Log) > 0 {
							c.Fail("device", "device %q was misused: %v", d.Name, d.Log)
							return
						}
					}
					if open == "" {
						break
					}
					if t > 2000 {
						c.Fail("device", "device %q is still open 10 s after the last client left", open)
						return
					}
					time.Sleep(5 * time.Millisecond)
				}
			})
		})
	}
}

// ---- C27: the packet stream ----

type udpSink struct {
	conn *net.UDPConn
	mark *net.UDPConn
	n    int
}

func newSink() *udpSink {
	conn, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		panic("harness: " + err.Error())
	}
	conn.SetReadBuffer(1 << 22)
	mark, err := net.DialUDP("udp", nil, conn.LocalAddr().(*net.UDPAddr))
	if err != nil {
		panic("harness: " + err.Error())
	}
	return &udpSink{conn: conn, mark: mark}
}

func (u *udpSink) close() { u.conn.Close(); u.mark.Close() }

// take returns the datagrams that arrived so far: the ones queued before a marker of our own.
func (u *udpSink) take() [][]byte {
	u.n++
	mk := []byte(fmt.Sprintf("marker %d of the harness", u.n))
	if _, err := u.mark.Write(mk); err != nil {
		panic("harness: " + err.Error())
	}
	var out [][]byte
	buf := make([]byte, 70000)
	me := u.mark.LocalAddr().String()
	u.conn.SetReadDeadline(time.Now().Add(30 * time.Second))
	for {
		n, from, err := u.conn.ReadFromUDP(buf)
		if err != nil {
			panic("harness: the marker did not arrive: " + err.Error())
		}
		if from.String() == me {
			if bytes.Equal(buf[:n], mk) {
				return out
			}
			continue
		}
		out = append(out, append([]byte{}, buf[:n]...))
	}
}

// widen is the expected payload of sample bytes: each byte with the sign bit inverted, in both halves of a 16-bit sample.
func widen(b []byte) []byte {
	o := make([]byte, 2*len(b))
	for i, v := range b {
		o[2*i], o[2*i+1] = v^0x80, v^0x80
	}
	return o
}

func checkC27(c *Ctx) {
	c.Rule = "one evaluation = one datagram of the real server's stream judged (header, sequence number, start flag, payload bytes) against the bytes the scripted receiver delivered; distinct = distinct (buffer size, place in the stream, payload)."
	judge := func(key string, pk [][]byte, seq *int, first *bool, want []byte, hist string) bool {
		for _, p := range pk {
			if len(p) < 4 {
				c.Fail(key, "%s: a datagram of %d bytes has no header", hist, len(p))
				return false
			}
			fl := byte(0)
			if *first {
				fl = 0x10
			}
			got := int(p[2]) | int(p[3])<<8
			if got != *seq&0xffff {
				c.Fail(key, "%s: sequence number %d, want %d", hist, got, *seq&0xffff)
				return false
			}
			if p[0] != fl || p[1] != 0 {
				c.Fail(key, "%s: flags %#x, notification %#x in packet %d, want flags %#x", hist, p[0], p[1], *seq, fl)
				return false
			}
			if len(p)-4 > 4096*4 || len(p)%4 != 0 {
				c.Fail(key, "%s: a datagram of %d bytes of samples; whole pairs, at most 4096, are announced", hist, len(p)-4)
				return false
			}
			if len(p)-4 > len(want) || !bytes.Equal(p[4:], want[:len(p)-4]) {
				i := 0
				for i < len(p)-4 && i < len(want) && p[4+i] == want[i] {
					i++
				}
				c.Fail(key, "%s: packet %d: %d bytes of samples left to send, %d in the packet, the first difference at byte %d", hist, *seq, len(want), len(p)-4, i)
				return false
			}
			want = want[len(p)-4:]
			c.Seen(mix(hashB(p), *seq), len(p) > 4)
			*first = false
			*seq++
		}
		if len(want) > 0 {
			c.Fail(key, "%s: %d bytes of samples were not sent", hist, len(want))
			return false
		}
		return true
	}
	mustOK := func(s *srvProc, cl *rawCli, line string) {
		rep, ok := cl.ask(s, c, line)
		if f := strings.SplitN(rep, " ", 3); !ok || len(f) < 2 || f[1] != "OK" && !(f[0] == "DEVICE" && !strings.HasPrefix(f[1], "-")) {
			panic(fmt.Sprintf("%q is answered %q", line, rep))
		}
	}
	for rep := 0; rep < c.N(25, 300); rep++ {
		c.Do(fmt.Sprintf("stream %d", rep), func() {
			r := c.R
			nd := 1 + rep%2
			var confs []stubConf
			for i := 0; i < nd; i++ {
				cf := r.stubConf(i)
				confs = append(confs, cf)
			}
			s := startServer(c, confs)
			s.guarded(c, func() {
				type strm struct {
					cl    *rawCli
					sink  *udpSink
					dev   int
					live  bool
					pend  int // streams stopped, but the device has not noticed
					seq   int
					first bool
				}
				var ss []*strm
				for i := 0; i < nd; i++ {
					x := &strm{cl: s.dial(c), sink: newSink()}
					defer x.sink.close()
					rp, ok := x.cl.ask(s, c, "DEVICE -")
					if !ok {
						return
					}
					x.dev = -1
					for k := range confs {
						if strings.HasPrefix(rp, "DEVICE "+confs[k].Name+"|") {
							x.dev = k
						}
					}
					if x.dev < 0 {
						c.Fail("device", "DEVICE - is answered %q", rp)
						return
					}
					mustOK(s, x.cl, "DEST "+x.sink.conn.LocalAddr().String())
					ss = append(ss, x)
				}
				base := -1
				for st := 0; st < 60; st++ {
					x := ss[r.Intn(len(ss))]
					switch op := r.Intn(10); {
					case !x.live && op < 4:
						mustOK(s, x.cl, "GO")
						x.live, x.seq, x.first = true, 0, true
						c.Count("streams", 1)
					case x.live && op == 0:
						mustOK(s, x.cl, "STOP")
						x.live = false
						x.pend++
					case x.live && op == 1 && x.pend == 0:
						s.do(stubReq{Op: "end", Dev: x.dev})
						x.live = false
						c.Count("device_side_ends", 1)
					case x.live && op == 2:
						// DEVICE ! ends the stream too; nothing may be sent while the device closes
						rp, ok := x.cl.ask(s, c, "DEVICE !")
						if !ok || rp != "DEVICE -" {
							c.Fail("device", "DEVICE ! is answered %q", rp)
							return
						}
						x.live, x.pend = false, 0
						if pk := x.sink.take(); len(pk) > 0 {
							c.Fail("after", "%d packets after DEVICE !", len(pk))
							return
						}
						rp, ok = x.cl.ask(s, c, "DEVICE -")
						if !ok || !strings.HasPrefix(rp, "DEVICE "+confs[x.dev].Name+"|") {
							c.Fail("device", "DEVICE - is answered %q", rp)
							return
						}
					default:
						for x.pend > 0 { // the stopped stream ends at its next buffer and sends nothing of it
							b := make([]byte, 8192)
							r.Bytes(b)
							rs := s.do(stubReq{Op: "deliver", Dev: x.dev, Bufs: [][]byte{b}})
							if len(rs.Rets) != 1 || !rs.Rets[0] {
								c.Fail("after", "the stopped stream goes on")
								return
							}
							if pk := x.sink.take(); len(pk) > 0 {
								c.Fail("after", "%d packets after STOP", len(pk))
								return
							}
							x.pend--
							c.Count("stops_checked", 1)
						}
						n := 1 + r.Intn(5)
						var bufs [][]byte
						var want []byte
						tot := 0
						for k := 0; k < n; k++ {
							sz := []int{0, 2, 4, 512, 8190, 8192, 8194, 16384, 24576, 32768, 2 * r.Intn(16384), 40000}[r.Intn(12)]
							if tot += sz; tot > 40000 {
								break
							}
							b := make([]byte, sz)
							r.Bytes(b)
							bufs = append(bufs, b)
							want = append(want, widen(b)...)
						}
						if len(bufs) == 0 {
							continue
						}
						rs := s.do(stubReq{Op: "deliver", Dev: x.dev, Bufs: bufs})
						pk := x.sink.take()
						if !x.live {
							if !rs.Idle || len(pk) > 0 {
								c.Fail("after", "%d packets without a stream (device idle: %v)", len(pk), rs.Idle)
								return
							}
							continue
						}
						if len(rs.Rets) != len(bufs) || rs.Rets[len(rs.Rets)-1] {
							c.Fail("ended", "the stream ended itself: %v", rs.Rets)
							return
						}
						var sizes []int
						for _, b := range bufs {
							sizes = append(sizes, len(b))
						}
						if !judge("packet", pk, &x.seq, &x.first, want, fmt.Sprintf("buffers of %v bytes", sizes)) {
							return
						}
						c.Count("buffers", int64(len(bufs)))
					}
					for _, y := range ss { // nothing goes astray
						if pk := y.sink.take(); len(pk) > 0 {
							c.Fail("astray", "%d packets for a stream that got no buffer", len(pk))
							return
						}
					}
					_ = base
				}
				for _, d := range s.state() {
					if len(d.Log) > 0 {
						c.Fail("device", "device %q was misused: %v", d.Name, d.Log)
					}
				}
			})
		})
	}
	c.Do("sequence numbers beyond 65536", func() {
		s := startServer(c, []stubConf{{Name: "one"}})
		s.guarded(c, func() {
			cl, sink := s.dial(c), newSink()
			defer func() { cl.conn.Close() }() // and not before, by the garbage collector
			defer sink.close()
			mustOK(s, cl, "DEVICE -")
			mustOK(s, cl, "DEST "+sink.conn.LocalAddr().String())
			mustOK(s, cl, "GO")
			seq, first := 0, true
			total := 70000
			if c.Thorough() {
				total = 200000
			}
			for seq < total {
				var bufs [][]byte
				var want []byte
				for k := 0; k < 60; k++ {
					b := make([]byte, 2)
					c.R.Bytes(b)
					bufs = append(bufs, b)
					want = append(want, widen(b)...)
				}
				rs := s.do(stubReq{Op: "deliver", Dev: 0, Bufs: bufs})
				if len(rs.Rets) != len(bufs) {
					c.Fail("ended", "the stream ended itself after %d packets: %v idle=%v", seq, rs.Rets, rs.Idle)
					return
				}
				if !judge("packet", sink.take(), &seq, &first, want, "long stream") {
					return
				}
			}
			c.Count("packets_of_the_longest_stream", int64(seq))
		})
	})
	c.Do("sockets are released", func() {
		s := startServer(c, []stubConf{{Name: "one"}, {Name: "two", EndNil: true}})
		s.guarded(c, func() {
			cl, sink := s.dial(c), newSink()
			defer func() { cl.conn.Close() }() // and not before, by the garbage collector
			defer sink.close()
			cycle := func(i int) {
				rp, ok := cl.ask(s, c, "DEVICE -")
				dev := 0
				if !ok || strings.HasPrefix(rp, "DEVICE two|") {
					dev = 1
				}
				mustOK(s, cl, "DEST "+sink.conn.LocalAddr().String())
				mustOK(s, cl, "GO")
				seq, first := 0, true
				b := make([]byte, 8192)
				c.R.Bytes(b)
				s.do(stubReq{Op: "deliver", Dev: dev, Bufs: [][]byte{b}})
				judge("packet", sink.take(), &seq, &first, widen(b), "short stream")
				switch i % 4 {
				case 0:
					mustOK(s, cl, "STOP")
					s.do(stubReq{Op: "deliver", Dev: dev, Bufs: [][]byte{b}})
				case 1:
					s.do(stubReq{Op: "end", Dev: dev})
				case 2:
					cl.ask(s, c, "DEVICE !")
				case 3: // leave
					cl.conn.Close()
					for t := 0; t < 2000 && s.state()[dev].Open; t++ {
						time.Sleep(5 * time.Millisecond)
					}
					cl = s.dial(c)
				}
				if pk := sink.take(); len(pk) > 0 {
					c.Fail("after", "%d packets after the end of a stream (way %d)", len(pk), i%4)
				}
			}
			for i := 0; i < 8; i++ {
				cycle(i)
			}
			before0 := s.fds()
			n := c.N(80, 400)
			for i := 0; i < n; i++ {
				cycle(i)
			}
			after := s.fds()
			for t := 0; t < 200 && after > before0+8; t++ { // a connection of a client that left may be closed a little later
				time.Sleep(10 * time.Millisecond)
				after = s.fds()
			}
			c.Count("stream_cycles", int64(n))
			if before0 > 0 && after > before0+8 {
				c.Fail("leak", "%d open descriptors before and %d after %d streams", before0, after, n)
			}
			// a GO that the receiver refuses is no stream and leaves no socket
			rp, ok := cl.ask(s, c, "DEVICE -")
			dev, cf := 0, stubConf{Name: "one"}
			if !ok || strings.HasPrefix(rp, "DEVICE two|") {
				dev, cf = 1, stubConf{Name: "two", EndNil: true}
			}
			mustOK(s, cl, "DEST "+sink.conn.LocalAddr().String())
			bad := cf
			bad.Fail = map[string]bool{"ResetBuffer": true}
			s.do(stubReq{Op: "conf", Dev: dev, Conf: &bad})
			before, refused := s.fds(), 0
			for i := 0; i < 60; i++ {
				rp, ok := cl.ask(s, c, "GO")
				if ok && !strings.HasPrefix(rp, "GO OK") {
					refused++
				}
			}
			after = s.fds()
			s.do(stubReq{Op: "conf", Dev: dev, Conf: &cf})
			c.Count("refused_streams", int64(refused))
			if refused == 60 && before > 0 && after > before+20 {
				c.Fail("leak", "%d open descriptors before and %d after %d refused streams", before, after, refused)
			}
			mustOK(s, cl, "GO")
		})
	})
	c.Do("nobody listens", func() {
		s := startServer(c, []stubConf{{Name: "one"}})
		s.guarded(c, func() {
			cl, sink := s.dial(c), newSink()
			defer func() { cl.conn.Close() }() // and not before, by the garbage collector
			addr := sink.conn.LocalAddr().String()
			sink.close() // refused from now on
			mustOK(s, cl, "DEVICE -")
			mustOK(s, cl, "DEST "+addr)
			mustOK(s, cl, "GO")
			for i := 0; i < 20; i++ {
				rs := s.do(stubReq{Op: "deliver", Dev: 0, Bufs: [][]byte{make([]byte, 32768)}})
				if len(rs.Rets) != 1 || rs.Rets[0] {
					c.Fail("ended", "the stream ended itself because nobody listened")
					return
				}
				c.Seen(mix(hashS("nobody"), i), true)
			}
			mustOK(s, cl, "STOP")
		})
	})
	// a free-running receiver that reuses its buffers at once: what arrives is right wherever it belongs
	for rep := 0; rep < c.N(4, 40); rep++ {
		c.Do(fmt.Sprintf("free running %d", rep), func() {
			r := c.R
			size := []int{32768, 8192, 16384, 512}[rep%4]
			s := startServer(c, []stubConf{{Name: "one", Auto: 200, AutoSize: size, EndNil: r.Bool()}})
			s.guarded(c, func() {
				cl, sink := s.dial(c), newSink()
				defer func() { cl.conn.Close() }()
				defer func() { cl.conn.Close() }() // and not before, by the garbage collector
				defer sink.close()
				mustOK(s, cl, "DEVICE -")
				mustOK(s, cl, "DEST "+sink.conn.LocalAddr().String())
				for round := 0; round < 3; round++ {
					mustOK(s, cl, "GO")
					per := size
					if per > 8192 {
						per = 8192
					}
					last, got := -1, 0
					buf := make([]byte, 70000)
					for got < 400 {
						sink.conn.SetReadDeadline(time.Now().Add(30 * time.Second))
						n, err := sink.conn.Read(buf)
						if err != nil {
							c.Fail("free", "no packet within 30 s after %d packets: %v", got, err)
							return
						}
						p := buf[:n]
						if n != 4+2*per {
							c.Fail("free", "a packet of %d bytes, want %d", n, 4+2*per)
							return
						}
						seq := int(p[2]) | int(p[3])<<8
						if seq <= last && got > 0 {
							c.Fail("free", "packet %d after packet %d", seq, last)
							return
						}
						if (p[0] == 0x10) != (seq == 0) || p[0]&^0x10 != 0 {
							c.Fail("free", "flags %#x in packet %d", p[0], seq)
							return
						}
						for i := 0; i < per; i++ {
							v := rtlByte(seq*per+i) ^ 0x80
							if p[4+2*i] != v || p[5+2*i] != v {
								c.Fail("free", "packet %d, sample byte %d: %#x %#x, want %#x", seq, i, p[4+2*i], p[5+2*i], v)
								return
							}
						}
						last = seq
						got++
						c.Seen(mix(hashS("free", rep, round), seq), true)
					}
					mustOK(s, cl, "STOP")
					// at most the buffer in progress follows
					for t := 0; t < 2000 && s.state()[0].Async > 0; t++ {
						time.Sleep(2 * time.Millisecond)
					}
					if s.state()[0].Async > 0 {
						c.Fail("free", "the stream runs on after STOP")
						return
					}
					sink.take()
					c.Count("free_running_packets", int64(got))
				}
			})
		})
	}
	// with the repository's own client and packet reader
	for rep := 0; rep < c.N(12, 120); rep++ {
		c.Do(fmt.Sprintf("own client %d", rep), func() {
			r := c.R
			cf := r.stubConf(0)
			s := startServer(c, []stubConf{cf})
			s.guarded(c, func() {
				sink := newSink()
				defer sink.close()
				bor, err := borip.Dial(srvAddr)
				if err != nil {
					c.Fail("client", "Dial: %v", err)
					return
				}
				must := func(what string, err error) bool {
					if err != nil {
						c.Fail("client", "%s: %v", what, err)
						return false
					}
					return true
				}
				if err := bor.Go(); err == nil {
					c.Fail("client", "Go succeeds without a device")
					return
				}
				d, err := bor.SelectDevice("-")
				if !must("SelectDevice", err) {
					return
				}
				if d == nil || d.Name != cf.Name || d.SamplesPerPacket != 4096 {
					c.Fail("client", "SelectDevice returns %+v for the device %q", d, cf.Name)
					return
				}
				fr := math.Floor(r.Range(1e6, 1.7e9))
				if _, _, _, _, err := bor.SetFrequency(fr); !must("SetFrequency", err) {
					return
				}
				st := s.state()[0]
				if f, err := bor.Frequency(); !must("Frequency", err) || f != float64(st.Freq) || math.Abs(f-fr) >= float64(cf.FreqStep) {
					c.Fail("client", "Frequency returns %v, %v requested, the device is at %v", f, fr, st.Freq)
					return
				}
				rt := math.Floor(r.Range(1e5, 3e6))
				got, err := bor.SetRate(rt)
				if !must("SetRate", err) {
					return
				}
				if st = s.state()[0]; got != float64(st.Rate) || math.Abs(got-rt) >= float64(cf.RateStep) {
					c.Fail("client", "SetRate(%v) returns %v, the device is at %v", rt, got, st.Rate)
					return
				}
				if v, err := bor.Rate(); !must("Rate", err) || v != float64(st.Rate) {
					c.Fail("client", "Rate returns %v, the device is at %v", v, st.Rate)
					return
				}
				if !must("SetGain", bor.SetGain(float64(r.Intn(300)-100))) {
					return
				}
				if g, err := bor.Gain(); !must("Gain", err) || g != float64(s.state()[0].Gain) {
					c.Fail("client", "Gain returns %v, the device is at %v", g, s.state()[0].Gain)
					return
				}
				if a, err := bor.Antenna(); !must("Antenna", err) || a != d.ValidAntennas[0] {
					c.Fail("client", "Antenna returns %q, the device has %q", a, d.ValidAntennas)
					return
				}
				addr := sink.conn.LocalAddr().String()
				if a, err := bor.SetDestination(addr); !must("SetDestination", err) || a != addr {
					c.Fail("client", "SetDestination(%q) returns %q", addr, a)
					return
				}
				if a, err := bor.Destination(); !must("Destination", err) || a != addr {
					c.Fail("client", "Destination returns %q, want %q", a, addr)
					return
				}
				rd := borip.NewPacketReader(sink.conn, true)
				for round := 0; round < 2; round++ {
					if !must("Go", bor.Go()) {
						return
					}
					for k := 0; k < 6; k++ {
						b := make([]byte, 2+2*r.Intn(16384))
						r.Bytes(b)
						s.do(stubReq{Op: "deliver", Dev: 0, Bufs: [][]byte{b}})
						for at := 0; at < len(b); {
							z := make([]complex128, 1+r.Intn(5000))
							sink.conn.SetReadDeadline(time.Now().Add(30 * time.Second))
							n, err := rd.ReadSamples(z)
							if !must("ReadSamples", err) {
								return
							}
							for _, v := range z[:n] {
								if at >= len(b) {
									c.Fail("client", "more samples than the device delivered")
									return
								}
								i, q := int16(uint16(b[at]^0x80)*257), int16(uint16(b[at+1]^0x80)*257)
								if v != complex(float64(i), float64(q)) {
									c.Fail("client", "sample %d of a buffer of %d bytes: %v, want (%d,%d)", at/2, len(b), v, i, q)
									return
								}
								at += 2
								c.Count("samples_through_client", 1)
							}
						}
						c.Seen(mix(hashB(b), k), true)
					}
					if !must("Stop", bor.Stop()) {
						return
					}
					s.do(stubReq{Op: "deliver", Dev: 0, Bufs: [][]byte{make([]byte, 512)}}) // the stopped stream notices
				}
				if rep%2 == 0 && !must("Go", bor.Go()) {
					return
				}
				bor.Close()
				for t := 0; t < 2000 && s.state()[0].Open; t++ {
					time.Sleep(5 * time.Millisecond)
				}
				if x := s.state()[0]; x.Open || x.Async != 0 || len(x.Log) > 0 {
					c.Fail("client", "after Close the device is %+v", x)
				}
			})
		})
	}
}

// rtlByte is what the scripted receiver delivers when it runs freely (stubs/go-rtlsdr).
func rtlByte(i int) byte {
	x := uint32(i)*2654435761 + 12345
	return byte(x>>24) ^ byte(x>>13)
}

var _ = io.EOF
