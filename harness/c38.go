package main

import (
	"bufio"
	"compress/gzip"
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

// C38: the life of the server process. It comes up with the receivers it finds, serves on every address, outlives any number of
// connections and the lack of descriptors, and ends when it is interrupted.

func init() { checks["C38"] = checkC38 }

type rlimit64 struct{ cur, max uint64 }

func prlimit(pid int, new *rlimit64) (old rlimit64) {
	if _, _, e := syscall.RawSyscall6(syscall.SYS_PRLIMIT64, uintptr(pid), syscall.RLIMIT_NOFILE, uintptr(unsafe.Pointer(new)), uintptr(unsafe.Pointer(&old)), 0, 0); e != 0 {
		panic("harness: prlimit: " + e.Error())
	}
	return
}

// lineWithin reads a line, or returns false when none came in time.
func (r *rawCli) lineWithin(d time.Duration) (string, bool) {
	r.conn.SetReadDeadline(time.Now().Add(d))
	defer r.conn.SetReadDeadline(time.Time{})
	l, err := r.rd.ReadString('\n')
	return strings.TrimSuffix(l, "\n"), err == nil
}

func rawFrom(from, to string) (*rawCli, error) {
	d := net.Dialer{Timeout: replyTimeout}
	if from != "" {
		d.LocalAddr = &net.TCPAddr{IP: net.ParseIP(from)}
	}
	conn, err := d.Dial("tcp", to)
	if err != nil {
		return nil, err
	}
	return &rawCli{conn, bufio.NewReader(conn)}, nil
}

// ended waits for the server to end by itself.
func (s *srvProc) ended(d time.Duration) bool {
	select {
	case <-s.exited:
		return true
	case <-time.After(d):
		return false
	}
}

func checkC38(c *Ctx) {
	c.Rule = "one evaluation = one start or end of the server process, connection, or command judged; distinct = distinct (case, state at that moment)."
	seen := func(parts ...interface{}) { c.Evals++; c.Seen(hashS(fmt.Sprint(parts...)), true) }

	// ---- what it finds, it offers ----
	for i := 0; i < c.N(8, 60); i++ {
		i := i
		c.Do(fmt.Sprintf("receivers %d", i), func() {
			r := c.R
			n := []int{0, 1, 2, 3, 5, 12}[i%6]
			var confs []stubConf
			var want []string
			for k := 0; k < n; k++ {
				name := ""
				if r.Intn(4) > 0 || n == 1 && i < 6 {
					name = fmt.Sprintf("%s %d", []string{"Generic RTL2832U", "Terratec NOXON (rev 3)", "ezcap", "x"}[r.Intn(4)], k)
					want = append(want, name)
				}
				confs = append(confs, stubConf{Name: name, EndNil: true})
			}
			s := startServer(c, confs)
			s.guarded(c, func() {
				for round := 0; round < 2; round++ {
					var got []string
					var cls []*rawCli
					for k := 0; k <= len(want); k++ {
						cl := s.dial(c)
						cls = append(cls, cl)
						rp, ok := cl.ask(s, c, "DEVICE -")
						if !ok {
							return
						}
						seen("receivers", n, len(want), k, round)
						if k == len(want) {
							if !strings.HasPrefix(rp, "DEVICE - ") {
								c.Fail("receivers", "%d named receivers are in use and one more selection is answered %q", len(want), rp)
							}
							continue
						}
						name := strings.SplitN(strings.TrimPrefix(rp, "DEVICE "), "|", 2)[0]
						got = append(got, name)
						for _, d := range s.state() {
							held := false
							for _, g := range got {
								held = held || g == d.Name
							}
							if held != d.Open {
								c.Fail("receivers", "selected are %q, and the receiver named %q is open: %v", got, d.Name, d.Open)
							}
						}
					}
					sort.Strings(got)
					exp := append([]string{}, want...)
					sort.Strings(exp)
					if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", exp) {
						c.Fail("receivers", "receivers found %q, clients could select %q", exp, got)
					}
					for _, cl := range cls {
						if round == 0 {
							cl.ask(s, c, "DEVICE !")
						}
						cl.conn.Close()
					}
				}
			})
		})
	}

	// ---- every address ----
	c.Do("addresses", func() {
		s := startServer(c, []stubConf{{Name: "one", EndNil: true}})
		s.guarded(c, func() {
			for i, to := range []string{"127.0.0.1", "127.0.0.2", "127.1.2.3", "127.255.255.254", "127.0.0.1"} {
				from := []string{"127.0.0.1", "127.0.0.9", "127.200.0.1", "127.0.0.1", "127.9.8.7"}[i]
				cl, err := rawFrom(from, to+":28888")
				if err != nil {
					c.Fail("address", "no connection from %s to %s:28888: %v", from, to, err)
					continue
				}
				hello, _ := cl.line()
				rp, _ := cl.ask(s, c, "DEST")
				seen("address", i)
				if hello != "DEVICE -" || rp != "DEST "+from+":28888" {
					c.Fail("address", "from %s to %s: hello %q, default destination %q", from, to, hello, rp)
				}
				cl.conn.Close()
			}
		})
	})

	// ---- any number of connections ----
	for rep := 0; rep < c.N(2, 8); rep++ {
		rep := rep
		c.Do(fmt.Sprintf("crowd %d", rep), func() {
			s := startServer(c, []stubConf{{Name: "one", EndNil: true}})
			s.guarded(c, func() {
				first := s.dial(c)
				defer first.conn.Close()
				if rp, ok := first.ask(s, c, "DEVICE -"); !ok || !strings.HasPrefix(rp, "DEVICE one|") {
					c.Fail("crowd", "DEVICE - is answered %q", rp)
					return
				}
				n := c.N(400, 1500)
				cls := make([]*rawCli, n)
				var wg sync.WaitGroup
				var mu sync.Mutex
				bad := ""
				for i := range cls {
					i := i
					wg.Add(1)
					go func() {
						defer wg.Done()
						cl, err := rawFrom("", srvAddr)
						if err == nil {
							cls[i] = cl
							if i%5 == 4 { // comes and goes
								cl.conn.(*net.TCPConn).SetLinger(0)
								cl.conn.Close()
								return
							}
							if i%5 == 3 { // never says or reads anything
								return
							}
							var l string
							if l, err = cl.line(); err == nil && l != "DEVICE -" {
								err = fmt.Errorf("hello %q", l)
							}
							if err == nil && i%5 < 2 {
								cl.send(fmt.Sprintf("WORD%d\n", i))
								if l, err = cl.line(); err == nil && l != fmt.Sprintf("WORD%d UNKNOWN", i) {
									err = fmt.Errorf("WORD%d is answered %q", i, l)
								}
							}
						}
						if err != nil {
							mu.Lock()
							bad = fmt.Sprintf("connection %d of %d: %v", i, n, err)
							mu.Unlock()
						}
					}()
				}
				wg.Wait()
				c.Evals += int64(n)
				seen("crowd", rep)
				c.Count("connections", int64(n))
				if bad != "" {
					c.Fail("crowd", "%s", bad)
				}
				// one of them asks without ever reading
				if deaf, err := rawFrom("", srvAddr); err == nil {
					deaf.conn.SetWriteDeadline(time.Now().Add(2 * time.Second))
					deaf.conn.Write([]byte(strings.Repeat("FREQ\nUNHEARD\n", 200000)))
					defer deaf.conn.Close()
				}
				for i := 0; i < n; i += 37 {
					if cl := cls[i]; cl != nil && i%5 < 3 {
						if rp, ok := cl.ask(s, c, fmt.Sprintf("AGAIN%d", i)); !ok || rp != fmt.Sprintf("AGAIN%d UNKNOWN", i) {
							c.Fail("crowd", "connection %d of %d is answered %q", i, n, rp)
							break
						}
						c.Evals++
					}
				}
				if rp, ok := first.ask(s, c, "FREQ 100000000"); !ok || !strings.HasPrefix(rp, "FREQ OK 100000000") {
					c.Fail("crowd", "with %d connections open the first one is answered %q", n, rp)
				}
				for _, cl := range cls {
					if cl != nil {
						cl.conn.Close()
					}
				}
				last := s.dial(c)
				defer last.conn.Close()
				if rp, ok := last.ask(s, c, "FREQ"); !ok || !strings.HasPrefix(rp, "FREQ DEVICE") {
					c.Fail("crowd", "after %d connections a new one is answered %q", n, rp)
				}
			})
		})
	}

	// ---- any length of silence ----
	c.Do("silence", func() {
		s := startServer(c, []stubConf{{Name: "one", EndNil: true}, {Name: "two", EndNil: true}})
		s.guarded(c, func() {
			sink := newSink()
			defer sink.close()
			var cls []*rawCli
			for i := 0; i < 4; i++ { // nothing said, half a line said, a receiver held, a stream running
				cl := s.dial(c)
				defer cl.conn.Close()
				cls = append(cls, cl)
			}
			cls[1].send("NOTH")
			cls[2].ask(s, c, "DEVICE -")
			cls[3].ask(s, c, "DEVICE -")
			cls[3].ask(s, c, "DEST "+sink.conn.LocalAddr().String())
			if rp, _ := cls[3].ask(s, c, "GO"); rp != "GO OK" {
				c.Fail("silence", "GO is answered %q", rp)
			}
			d := time.Duration(c.N(33, 130)) * time.Second
			time.Sleep(d)
			for i, what := range []string{"NOTHING", "ING", "FREQ", "STOP"} {
				want := []string{"NOTHING UNKNOWN", "NOTHING UNKNOWN", "FREQ 144100000", "STOP OK"}[i]
				rp, ok := cls[i].ask(s, c, what)
				seen("silence", i)
				if ok && rp != want {
					c.Fail("silence", "after %v of silence %q is answered %q", d, what, rp)
				}
			}
		})
	})

	// ---- no descriptors left ----
	for rep := 0; rep < c.N(2, 8); rep++ {
		rep := rep
		c.Do(fmt.Sprintf("descriptors %d", rep), func() { c.descriptors(rep, seen) })
	}

	// ---- the end ----
	states := []string{"nothing going on", "sessions", "a stream", "a client that does not read", "a stopped stream that has not ended", "no descriptors left"}
	for i := 0; i < c.N(1, 3); i++ {
		for st, name := range states {
			for _, prof := range []bool{false, true} {
				st, name, prof := st, name, prof
				c.Do(fmt.Sprintf("interrupt %d, %s, profile %v", i, name, prof), func() { c.interrupted(st, name, prof, seen) })
			}
		}
	}

	// ---- no start ----
	for i, what := range []string{"the port is taken", "an unknown option", "a malformed option", "the profile cannot be written"} {
		i, what := i, what
		c.Do("no start: "+what, func() {
			var taken net.Listener
			var args []string
			prepare := func(dir string) {}
			switch i {
			case 0:
				l, err := net.Listen("tcp", "0.0.0.0:28888")
				if err != nil {
					panic("harness: " + err.Error())
				}
				taken = l
				defer l.Close()
			case 1:
				args = []string{"-no.such.option"}
			case 2:
				args = []string{"-profile.cpu=perhaps"}
			case 3:
				args = []string{"-profile.cpu"}
				prepare = func(dir string) { os.Mkdir(filepath.Join(dir, "cpu.prof"), 0700) }
			}
			s, ln := launchServer([]stubConf{{Name: "one"}}, i != 0, prepare, args...)
			defer os.RemoveAll(s.dir)
			defer ln.Close()
			go func() {
				if conn, err := ln.Accept(); err == nil {
					s.conn = conn
					io.Copy(io.Discard, conn)
				}
			}()
			seen("no start", i)
			if !s.ended(60 * time.Second) {
				s.cmd.Process.Kill()
				<-s.exited
				c.Fail("nostart", "%s: the server does not end", what)
				return
			}
			if s.cmd.ProcessState.ExitCode() <= 0 {
				c.Fail("nostart", "%s: the server ends with %v", what, s.cmd.ProcessState)
			}
			if b, _ := os.ReadFile(s.errf); len(b) == 0 {
				c.Fail("nostart", "%s: the server ends without a word", what)
			}
			_ = taken
		})
	}
	c.Sample("receivers found (blank names left out), addresses of 127/8, crowds of connections, descriptors exhausted and freed, interrupts in %d states with and without profile, four starts that must fail", len(states))
}

// fillUp opens connections until the server has no descriptor for one more.
func (c *Ctx) fillUp(s *srvProc, room int) (served, waiting []*rawCli) {
	pid := s.cmd.Process.Pid
	lim := prlimit(pid, nil)
	highest := 0
	es, _ := os.ReadDir(fmt.Sprintf("/proc/%d/fd", pid))
	for _, e := range es {
		var fd int
		if fmt.Sscan(e.Name(), &fd); fd > highest {
			highest = fd
		}
	}
	prlimit(pid, &rlimit64{uint64(highest + 1 + room), lim.max})
	for k := 0; k < room+20; k++ {
		cl, err := rawFrom("", srvAddr)
		if err != nil {
			break // not even the kernel takes it
		}
		patience := 20 * time.Second
		if len(waiting) > 0 {
			patience = 20 * time.Millisecond
		} else if s.fds() > highest+room {
			patience = 500 * time.Millisecond
		}
		if l, ok := cl.lineWithin(patience); ok {
			if l != "DEVICE -" {
				c.Fail("hello", "the first line of a session is %q", l)
			}
			served = append(served, cl)
		} else {
			waiting = append(waiting, cl)
			if len(waiting) == 6 {
				break
			}
		}
	}
	return
}

func (c *Ctx) descriptors(rep int, seen func(...interface{})) {
	s := startServer(c, []stubConf{{Name: "one", EndNil: true}, {Name: "two", EndNil: true}})
	s.guarded(c, func() {
		sink := newSink()
		defer sink.close()
		a, b := s.dial(c), s.dial(c)
		defer func() { a.conn.Close(); b.conn.Close() }()
		must := func(cl *rawCli, line, want string) {
			rp, ok := cl.ask(s, c, line)
			c.Evals++
			if ok && !strings.HasPrefix(rp, want) {
				c.Fail("descriptors", "%q is answered %q, not %q", line, rp, want)
			}
		}
		must(a, "DEVICE -", "DEVICE ")
		must(b, "DEVICE -", "DEVICE ")
		to := "DEST " + sink.conn.LocalAddr().String()
		must(a, to, "DEST OK")
		must(b, to, "DEST OK")
		must(a, "GO", "GO OK")
		dev := 0
		if s.state()[1].Async > 0 {
			dev = 1
		}
		lim := prlimit(s.cmd.Process.Pid, nil)
		served, waiting := c.fillUp(s, 3+5*rep)
		if len(waiting) == 0 {
			c.Fail("descriptors", "harness: the server has descriptors for %d connections more", len(served))
			return
		}
		c.Count("connections_refused", int64(len(waiting)))
		// what is open goes on
		t0, l0 := cpuTime(s.cmd.Process.Pid), fileSize(s.errf)
		time.Sleep(2 * time.Second)
		if t := cpuTime(s.cmd.Process.Pid) - t0; t > time.Second {
			c.Fail("spin", "while it has no descriptor for the next connection the server uses %v of processor time in two seconds", t)
		}
		if n := fileSize(s.errf) - l0; n > 64<<10 {
			c.Fail("flood", "while it has no descriptor for the next connection the server writes %d bytes to its log in two seconds", n)
		}
		for i := 0; i < 10; i++ {
			must(a, fmt.Sprintf("FREQ %d", 100000000+i), "FREQ OK")
			must(b, "RATE", "RATE 1000000")
			buf := make([]byte, 8192)
			c.R.Bytes(buf)
			rs := s.do(stubReq{Op: "deliver", Dev: dev, Bufs: [][]byte{buf}})
			if rs.Idle || len(sink.take()) != 1 {
				c.Fail("descriptors", "the stream does not go on while descriptors are short")
			}
		}
		must(b, "GO", "GO FAIL")
		must(b, "STOP", "STOP STOPPED")
		for _, cl := range served {
			must(cl, "NOTHING", "NOTHING UNKNOWN")
		}
		seen("descriptors", rep, "short")
		// room again: those who wait are served
		if rep%2 == 0 {
			prlimit(s.cmd.Process.Pid, &lim)
		} else {
			for _, cl := range served {
				cl.conn.Close()
			}
		}
		for i, cl := range waiting {
			if i >= len(served) && rep%2 == 1 {
				break
			}
			if l, ok := cl.lineWithin(replyTimeout); !ok || l != "DEVICE -" {
				c.Fail("descriptors", "with descriptors free again a waiting connection gets %q", l)
				break
			}
			must(cl, "NOTHING", "NOTHING UNKNOWN")
		}
		prlimit(s.cmd.Process.Pid, &lim)
		for _, cl := range append(served, waiting...) {
			cl.conn.Close()
		}
		must(b, "GO", "GO OK")
		must(a, "STOP", "STOP OK")
		n := s.dial(c)
		must(n, "STOP", "STOP STOPPED")
		n.conn.Close()
		seen("descriptors", rep, "again")
	})
}

func fileSize(name string) int64 {
	st, err := os.Stat(name)
	if err != nil {
		return 0
	}
	return st.Size()
}

func (c *Ctx) interrupted(st int, name string, prof bool, seen func(...interface{})) {
	var args []string
	if prof {
		args = []string{"-profile.cpu"}
	}
	s := startServer(c, []stubConf{{Name: "one", EndNil: true}}, args...)
	if s.dead() {
		return
	}
	defer os.RemoveAll(s.dir)
	defer s.conn.Close()
	var open []net.Conn
	defer func() {
		for _, x := range open {
			x.Close()
		}
	}()
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(srvDead); !ok {
					panic(r)
				}
			}
		}()
		sink := newSink()
		defer sink.close()
		switch st {
		case 1, 2, 3, 4:
			for i := 0; i < 5; i++ {
				cl := s.dial(c)
				open = append(open, cl.conn)
				cl.ask(s, c, "DEVICE -")
				cl.ask(s, c, "DEST "+sink.conn.LocalAddr().String())
				if i == 0 && (st == 2 || st == 4) {
					cl.ask(s, c, "GO")
					s.do(stubReq{Op: "deliver", Dev: 0, Bufs: [][]byte{make([]byte, 8192)}})
					if st == 4 {
						cl.ask(s, c, "STOP")
					}
				}
			}
			if st == 3 {
				cl := s.dial(c)
				open = append(open, cl.conn)
				cl.conn.SetWriteDeadline(time.Now().Add(2 * time.Second))
				cl.conn.Write([]byte(strings.Repeat("UNHEARD\n", 1<<20)))
			}
		case 5:
			a, b := c.fillUp(s, 4)
			for _, cl := range append(a, b...) {
				open = append(open, cl.conn)
			}
		}
		if prof {
			time.Sleep(300 * time.Millisecond)
		}
	}()
	if s.dead() {
		c.Fail("crash", "%s: the server ended by itself: %s", name, s.tail())
		return
	}
	time.Sleep(100 * time.Millisecond) // until the handler is certain to be there
	s.cmd.Process.Signal(os.Interrupt)
	seen("interrupt", st, prof)
	if !s.ended(60 * time.Second) {
		s.cmd.Process.Kill()
		<-s.exited
		c.Fail("interrupt", "%s: a minute after the interrupt the server still runs", name)
		return
	}
	c.Count("interrupts", 1)
	if s.cmd.ProcessState.ExitCode() != 0 {
		c.Fail("interrupt", "%s, profile %v: interrupted, the server ends with %v: %s", name, prof, s.cmd.ProcessState, s.tail())
	}
	if l, err := net.Listen("tcp", "0.0.0.0:28888"); err != nil {
		c.Fail("interrupt", "%s: the port is not free after the server has ended: %v", name, err)
	} else {
		l.Close()
	}
	var files []string
	es, _ := os.ReadDir(s.dir)
	for _, e := range es {
		if e.Name() != "stderr" && e.Name() != "ctl" {
			files = append(files, e.Name())
		}
	}
	if !prof {
		if len(files) > 0 {
			c.Fail("files", "%s: the server left %v", name, files)
		}
		return
	}
	if strings.Join(files, " ") != "cpu.prof" {
		c.Fail("profile", "%s: the server left %v, not just cpu.prof", name, files)
		return
	}
	f, err := os.Open(filepath.Join(s.dir, "cpu.prof"))
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer f.Close()
	z, err := gzip.NewReader(f)
	var b []byte
	if err == nil {
		b, err = io.ReadAll(z)
	}
	if err != nil || len(b) == 0 {
		c.Fail("profile", "%s: cpu.prof is no complete profile: %d bytes, %v", name, len(b), err)
	}
	c.Count("profiles", 1)
}
