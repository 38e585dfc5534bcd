// Package rtl stands in for github.com/samuel/go-rtlsdr/rtl (not available here, and it needs hardware): scripted receivers
// under the control of the process that started the server, over the unix socket named by RTL_STUB.  It has the part of the
// interface boripserver uses, with the behaviour of librtlsdr that matters to it: one user per device, Close waits for a
// running ReadAsync, ReadAsync returns at once and calls back from its own goroutine until the callback returns true or the
// device goes away (callback with nil), two ReadAsync calls on one device run one after the other.
package rtl

import (
	"encoding/json"
	"errors"
	"net"
	"os"
	"runtime"
	"strconv"
	"sync"
	"time"
)

type conf struct {
	Name     string
	Gains    []int
	GainsErr bool
	XtalErr  bool
	OpenErr  bool
	FreqStep uint
	RateStep uint
	Fail     map[string]bool // method name -> returns an error
	Auto     int             // free running: microseconds between buffers, 0: only buffers that are delivered on demand
	AutoSize int
	AutoEnd  int  // device-side end of a free-running stream after this many buffers, 0: never
	EndNil   bool // call back with nil after a stream the callback ended
}

type sim struct {
	mu      sync.Mutex
	c       conf
	isOpen  bool
	opens   int
	closes  int
	freq    uint
	rate    uint
	gain    int
	resets  int
	agc     int
	log     []string // misuse: a closed device used, a second open, ...
	async   sync.Mutex
	feed    chan delivery
	nAsync  int // ReadAsync goroutines alive
	closing bool
	fresh   bool // the buffer was reset since the device was opened and since the last stream
}

type delivery struct {
	buf  []byte
	end  bool
	done chan bool
}

var sims []*sim

type request struct {
	Op   string
	Dev  int
	Bufs [][]byte
	Conf *conf
}

type response struct {
	Rets []bool // return values of the callback, one per buffer
	Idle bool   // no stream is running on the device
	Devs []state

	Heap       int64 // "stat": bytes in use after a collection
	Goroutines int
}

type state struct {
	Name                  string
	Open                  bool
	Opens, Closes, Resets int
	Freq, Rate            uint
	Gain, AGC             int
	Async                 int
	Log                   []string
}

func init() {
	path := os.Getenv("RTL_STUB")
	if path == "" {
		return
	}
	var cs []conf
	if err := json.Unmarshal([]byte(os.Getenv("RTL_STUB_CONF")), &cs); err != nil {
		panic("rtl stub: " + err.Error())
	}
	for _, c := range cs {
		sims = append(sims, &sim{c: c, feed: make(chan delivery), rate: 2048000, freq: 1, agc: -1})
	}
	conn, err := net.Dial("unix", path)
	if err != nil {
		panic("rtl stub: " + err.Error())
	}
	go serve(conn)
}

func serve(conn net.Conn) {
	dec, enc := json.NewDecoder(conn), json.NewEncoder(conn)
	for {
		var q request
		if dec.Decode(&q) != nil {
			os.Exit(0) // the controller is gone
		}
		var r response
		switch q.Op {
		case "deliver", "end":
			s := sims[q.Dev]
			if q.Op == "end" {
				q.Bufs = [][]byte{nil}
			}
			for _, b := range q.Bufs {
				d := delivery{buf: b, end: q.Op == "end", done: make(chan bool, 1)}
				sent := false
				for t := 0; t < 2000 && !sent; t++ { // a stream that was just started may not be listening yet
					s.mu.Lock()
					n := s.nAsync
					s.mu.Unlock()
					if n == 0 {
						break
					}
					select {
					case s.feed <- d:
						sent = true
					case <-time.After(time.Millisecond):
					}
				}
				if !sent {
					r.Idle = true
					break
				}
				ret := <-d.done
				r.Rets = append(r.Rets, ret)
				if ret {
					break
				}
			}
		case "stat":
			for i := 0; i < 3; i++ {
				runtime.GC()
			}
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			r.Heap, r.Goroutines = int64(ms.HeapAlloc), runtime.NumGoroutine()
		case "conf":
			s := sims[q.Dev]
			s.mu.Lock()
			s.c = *q.Conf
			s.mu.Unlock()
		}
		for _, s := range sims {
			s.mu.Lock()
			r.Devs = append(r.Devs, state{s.c.Name, s.isOpen, s.opens, s.closes, s.resets, s.freq, s.rate, s.gain, s.agc, s.nAsync, append([]string{}, s.log...)})
			s.mu.Unlock()
		}
		if enc.Encode(&r) != nil {
			os.Exit(0)
		}
	}
}

var errDev = errors.New("rtl: device error")

func GetDeviceCount() int { return len(sims) }

func GetDeviceName(index int) string {
	if index < 0 || index >= len(sims) {
		return ""
	}
	return sims[index].c.Name
}

type Device struct {
	s      *sim
	mu     sync.Mutex
	closed bool
}

func Open(index int) (*Device, error) {
	if index < 0 || index >= len(sims) {
		return nil, errDev
	}
	s := sims[index]
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.c.OpenErr {
		return nil, errDev
	}
	if s.isOpen {
		s.log = append(s.log, "opened while open")
		return nil, errDev
	}
	s.isOpen = true
	s.closing = false
	s.fresh = false
	s.opens++
	return &Device{s: s}, nil
}

func (d *Device) Close() error {
	s := d.s
	s.mu.Lock()
	if d.closed {
		s.log = append(s.log, "closed twice")
		s.mu.Unlock()
		return errDev
	}
	d.closed = true
	s.closing = true
	s.mu.Unlock()
	for t := 0; ; t++ { // as rtlsdr_close: wait for the asynchronous reader
		s.mu.Lock()
		n := s.nAsync
		if n == 0 {
			break
		}
		if t == 3000 {
			s.log = append(s.log, "closed while its stream keeps running")
			break
		}
		s.mu.Unlock()
		time.Sleep(time.Millisecond)
	}
	s.isOpen = false
	s.closing = false
	s.closes++
	s.mu.Unlock()
	return nil
}

// use begins a call: an error if the device was closed or the method is to fail.
func (d *Device) use(what string) (*sim, error) {
	s := d.s
	s.mu.Lock()
	if d.closed {
		s.log = append(s.log, what+" on a closed device")
		s.mu.Unlock()
		return nil, errDev
	}
	if s.c.Fail[what] {
		s.mu.Unlock()
		return nil, errDev
	}
	return s, nil
}

func step(v, st uint) uint {
	if st > 1 {
		return v / st * st
	}
	return v
}

func (d *Device) SetCenterFreq(f uint) error {
	s, err := d.use("SetCenterFreq")
	if err != nil {
		return err
	}
	defer s.mu.Unlock()
	s.freq = step(uint(uint32(f)), s.c.FreqStep) // 32 bits, as in the C library
	return nil
}

func (d *Device) GetCenterFreq() (uint, error) {
	s, err := d.use("GetCenterFreq")
	if err != nil {
		return 0, err
	}
	defer s.mu.Unlock()
	return s.freq, nil
}

func (d *Device) SetSampleRate(f uint) error {
	s, err := d.use("SetSampleRate")
	if err != nil {
		return err
	}
	defer s.mu.Unlock()
	s.rate = step(uint(uint32(f)), s.c.RateStep)
	return nil
}

func (d *Device) GetSampleRate() (int, error) {
	s, err := d.use("GetSampleRate")
	if err != nil {
		return 0, err
	}
	defer s.mu.Unlock()
	return int(s.rate), nil
}

func (d *Device) SetTunerGain(g int) error {
	s, err := d.use("SetTunerGain")
	if err != nil {
		return err
	}
	defer s.mu.Unlock()
	g = int(int32(g))
	s.gain = g
	if n := len(s.c.Gains); n > 0 { // the nearest the tuner has
		best := s.c.Gains[0]
		for _, x := range s.c.Gains {
			if abs(x-g) < abs(best-g) {
				best = x
			}
		}
		s.gain = best
	}
	return nil
}

func abs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}

func (d *Device) GetTunerGain() (int, error) {
	s, err := d.use("GetTunerGain")
	if err != nil {
		return 0, err
	}
	defer s.mu.Unlock()
	return s.gain, nil
}

func (d *Device) GetTunerGains() ([]int, error) {
	s, err := d.use("GetTunerGains")
	if err != nil {
		return nil, err
	}
	defer s.mu.Unlock()
	if s.c.GainsErr {
		return nil, errDev
	}
	return append([]int{}, s.c.Gains...), nil
}

func (d *Device) GetXtalFreq() (rtlFreq, tunerFreq uint, err error) {
	s, err := d.use("GetXtalFreq")
	if err != nil {
		return 0, 0, err
	}
	defer s.mu.Unlock()
	if s.c.XtalErr {
		return 0, 0, errDev
	}
	return 28800000, 28800000, nil
}

func (d *Device) SetAGCMode(on bool) error {
	s, err := d.use("SetAGCMode")
	if err != nil {
		return err
	}
	defer s.mu.Unlock()
	s.agc = 0
	if on {
		s.agc = 1
	}
	return nil
}

func (d *Device) ResetBuffer() error {
	s, err := d.use("ResetBuffer")
	if err != nil {
		return err
	}
	defer s.mu.Unlock()
	s.resets++
	s.fresh = true
	return nil
}

// Byte is sample byte i of what a free-running device receives.
func Byte(i int) byte {
	x := uint32(i)*2654435761 + 12345
	return byte(x>>24) ^ byte(x>>13)
}

func (d *Device) ReadAsync(nBuffers, bufferSize int, cb func([]byte) bool) error {
	s, err := d.use("ReadAsync")
	if err != nil {
		return err
	}
	s.nAsync++
	if !s.fresh { // librtlsdr: mandatory before streaming, the device's buffer holds old samples
		s.log = append(s.log, "ReadAsync without ResetBuffer")
	}
	s.fresh = false
	if bufferSize <= 0 || bufferSize%512 != 0 || nBuffers <= 0 {
		s.log = append(s.log, "ReadAsync with "+strconv.Itoa(nBuffers)+" buffers of "+strconv.Itoa(bufferSize)+" bytes")
	}
	s.mu.Unlock()
	go func() {
		s.async.Lock()
		defer s.async.Unlock()
		var once sync.Once
		gone := func() { // before the controller hears of it
			once.Do(func() {
				s.mu.Lock()
				s.nAsync--
				s.mu.Unlock()
			})
		}
		defer gone()
		s.mu.Lock()
		auto, size, end, endNil := s.c.Auto, s.c.AutoSize, s.c.AutoEnd, s.c.EndNil
		s.mu.Unlock()
		if auto > 0 {
			buf := make([]byte, size)
			pos := 0
			for n := 0; end == 0 || n < end; n++ {
				for i := range buf {
					buf[i] = Byte(pos)
					pos++
				}
				if cb(buf) {
					if endNil {
						cb(nil)
					}
					return
				}
				for i := range buf { // the driver reuses its buffers
					buf[i] = 0xEE
				}
				time.Sleep(time.Duration(auto) * time.Microsecond)
			}
			cb(nil)
			return
		}
		tick := time.NewTicker(2 * time.Millisecond)
		defer tick.Stop()
		own := make([]byte, bufferSize)
		for {
			select {
			case del := <-s.feed:
				if del.end {
					cb(nil)
					gone()
					del.done <- true
					return
				}
				b := del.buf
				if len(b) <= len(own) {
					b = own[:copy(own, del.buf)]
				}
				ret := cb(b)
				for i := range b { // the driver reuses its buffers
					b[i] = 0xEE
				}
				if ret {
					if endNil {
						cb(nil)
					}
					gone()
					del.done <- true
					return
				}
				del.done <- false
			case <-tick.C:
				s.mu.Lock()
				c := s.closing
				s.mu.Unlock()
				if c { // buffers keep coming while Close waits
					for i := range own {
						own[i] = 0x5A
					}
					if cb(own) {
						if endNil {
							cb(nil)
						}
						return
					}
				}
			}
		}
	}()
	return nil
}
