package main

// Runs the server given as the first argument with scripted receivers (rtl.go beside this file) and talks to it.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

type devConf struct {
	Name     string
	Gains    []int
	OpenErr  bool
	FreqStep uint
	RateStep uint
	Fail     map[string]bool
	Auto     int
	AutoSize int
}

type devState struct {
	Name                  string
	Open                  bool
	Opens, Closes, Resets int
	Freq, Rate            uint
	Gain, AGC             int
	Async                 int
	Log                   []string
}

type request struct {
	Op   string
	Dev  int
	Bufs [][]byte
	Conf *devConf
}

type response struct {
	Rets []bool
	Idle bool
	Devs []devState

	Heap       int64
	Goroutines int
}

type server struct {
	cmd  *exec.Cmd
	enc  *json.Encoder
	dec  *json.Decoder
	dead chan struct{}
	dir  string
}

var running *server

// args are the arguments of the server.
var args []string

func fail(format string, args ...interface{}) {
	fmt.Printf("BROKEN: "+format+"\n", args...)
	if running != nil {
		running.stop()
	}
	os.Exit(1)
}

func trouble(err error) {
	if err != nil {
		fmt.Println("cannot run:", err)
		if running != nil {
			running.stop()
		}
		os.Exit(9)
	}
}

func loopback() {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_DGRAM, 0)
	if err != nil {
		return
	}
	defer syscall.Close(fd)
	var req [40]byte
	copy(req[:], "lo")
	syscall.Syscall(syscall.SYS_IOCTL, uintptr(fd), syscall.SIOCGIFFLAGS, uintptr(unsafe.Pointer(&req[0])))
	if req[16]&syscall.IFF_UP == 0 {
		req[16] |= syscall.IFF_UP
		syscall.Syscall(syscall.SYS_IOCTL, uintptr(fd), syscall.SIOCSIFFLAGS, uintptr(unsafe.Pointer(&req[0])))
	}
}

func start(confs ...devConf) *server {
	loopback()
	dir, err := os.MkdirTemp("", "demo")
	trouble(err)
	ln, err := net.Listen("unix", filepath.Join(dir, "ctl"))
	trouble(err)
	defer ln.Close()
	js, _ := json.Marshal(confs)
	s := &server{dead: make(chan struct{}), dir: dir}
	s.cmd = exec.Command(os.Args[1], args...)
	s.cmd.Dir = dir
	s.cmd.Env = append(os.Environ(), "RTL_STUB="+filepath.Join(dir, "ctl"), "RTL_STUB_CONF="+string(js))
	trouble(s.cmd.Start())
	go func() { s.cmd.Wait(); close(s.dead) }()
	running = s
	ln.(*net.UnixListener).SetDeadline(time.Now().Add(20 * time.Second))
	c, err := ln.Accept()
	trouble(err)
	s.enc, s.dec = json.NewEncoder(c), json.NewDecoder(c)
	for t := 0; ; t++ {
		k, err := net.Dial("tcp", "127.0.0.1:28888")
		if err == nil {
			k.Close()
			break
		}
		if t > 300 {
			trouble(err)
		}
		time.Sleep(50 * time.Millisecond)
	}
	return s
}

func (s *server) stop() {
	s.cmd.Process.Kill()
	<-s.dead
	os.RemoveAll(s.dir)
}

func (s *server) do(q request) response {
	var r response
	if s.enc.Encode(&q) != nil || s.dec.Decode(&r) != nil {
		fail("the server ended by itself")
	}
	return r
}

// deliver hands one buffer to the receiver's stream; false: the stream ended or there is none.
func (s *server) deliver(dev int, b []byte) bool {
	r := s.do(request{Op: "deliver", Dev: dev, Bufs: [][]byte{b}})
	return len(r.Rets) == 1 && !r.Rets[0]
}

func (s *server) state(dev int) devState { return s.do(request{Op: "state"}).Devs[dev] }

var kept []net.Conn

type client struct {
	conn net.Conn
	rd   *bufio.Reader
}

func (s *server) dial() *client {
	c, err := net.Dial("tcp", "127.0.0.1:28888")
	trouble(err)
	kept = append(kept, c) // not to be closed by its finalizer
	k := &client{c, bufio.NewReader(c)}
	if l := k.line(); l != "DEVICE -" {
		fail("hello %q", l)
	}
	return k
}

func (k *client) line() string {
	k.conn.SetReadDeadline(time.Now().Add(20 * time.Second))
	l, err := k.rd.ReadString('\n')
	if err != nil {
		fail("no reply: %v", err)
	}
	return strings.TrimSuffix(l, "\n")
}

func (k *client) ask(cmd string) string {
	fmt.Fprintf(k.conn, "%s\n", cmd)
	return k.line()
}

func (k *client) want(cmd, reply string) {
	if got := k.ask(cmd); got != reply {
		fail("%q is answered %q, not %q", cmd, got, reply)
	}
}

// sink receives datagrams.
func sink() *net.UDPConn {
	u, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
	trouble(err)
	u.SetReadBuffer(1 << 21)
	return u
}

// next is the next datagram, nil if none comes within d.
func next(u *net.UDPConn, d time.Duration) []byte {
	b := make([]byte, 70000)
	u.SetReadDeadline(time.Now().Add(d))
	n, err := u.Read(b)
	if err != nil {
		return nil
	}
	return b[:n]
}
