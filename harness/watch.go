package main

import (
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// cpuTime is the processor time a child of ours has used so far.
func cpuTime(pid int) time.Duration {
	b, err := os.ReadFile("/proc/" + strconv.Itoa(pid) + "/stat")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b[strings.LastIndexByte(string(b), ')')+1:]))
	if len(f) < 13 {
		return 0
	}
	u, _ := strconv.ParseInt(f[11], 10, 64)
	s, _ := strconv.ParseInt(f[12], 10, 64)
	return time.Duration(u+s) * 10 * time.Millisecond
}

const spinLimit = 40 * time.Second

// watchSpin kills the child once it has used spinLimit of processor time from now on; stop ends the watch and tells if it did.
func watchSpin(cmd *exec.Cmd) (stop func() bool) {
	var spun atomic.Bool
	quit := make(chan struct{})
	from := cpuTime(cmd.Process.Pid)
	go func() {
		t := time.NewTicker(500 * time.Millisecond)
		defer t.Stop()
		for {
			select {
			case <-quit:
				return
			case <-t.C:
				if cpuTime(cmd.Process.Pid)-from > spinLimit {
					spun.Store(true)
					cmd.Process.Kill()
					return
				}
			}
		}
	}()
	return func() bool {
		close(quit)
		return spun.Load()
	}
}
