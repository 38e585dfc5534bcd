// Worker program of the runtime monitors. It is built from /repo's working tree by ../run.py.
//
//	worker -prop C01 -variant amd64 -tier quick -seed 1 -out result.json -progress progress.bin
//
// It always exits 0 when it ran to the end (violations are in result.json); any other ending is judged by run.py.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"time"
)

type checkFn func(c *Ctx)

var checks = map[string]checkFn{}

// Violation is one observed violation with its witness.
type Violation struct {
	Key    string `json:"key"`    // identifies what fails, stable between runs
	Case   string `json:"case"`   // the case that was running (replay with -only)
	Detail string `json:"detail"` // expected / observed
}

// Ctx is the monitor's recorder.
type Ctx struct {
	ID, Tier, Variant string
	Seed              uint64
	Only              string
	R                 *Rand

	Evals    int64
	distinct map[uint64]struct{}
	Distinct int64
	Counters map[string]int64
	Samples  []string
	Viol     []Violation
	Notes    []string
	Rule     string
	Digests  []string

	firstViol time.Time
	perKey    map[string]int
	curCase   string
	prog      []byte
	progSeq   uint32
	observed  bool
}

type result struct {
	ID       string           `json:"id"`
	Variant  string           `json:"variant"`
	Evals    int64            `json:"evals"`
	Distinct int64            `json:"distinct"`
	Rule     string           `json:"rule"`
	Counters map[string]int64 `json:"counters"`
	Samples  []string         `json:"samples"`
	Viol     []Violation      `json:"violations"`
	Notes    []string         `json:"notes"`
	Digests  []string         `json:"digests,omitempty"`
	WallS    float64          `json:"wall_s"`
}

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" && !c.Emulated() }

// Emulated says that the code under test is interpreted, some hundred times slower than usual.
func (c *Ctx) Emulated() bool { return c.Variant == "arm" || c.Variant == "arm64" }

// N picks a count by tier.
func (c *Ctx) N(quick, thorough int) int {
	if c.Thorough() {
		return thorough
	}
	return quick
}

func (c *Ctx) mark(s string) {
	c.curCase = s
	if c.prog == nil {
		return
	}
	c.progSeq++
	n := copy(c.prog[8:], s)
	if 8+n < len(c.prog) {
		c.prog[8+n] = 0
	}
	c.prog[4], c.prog[5], c.prog[6], c.prog[7] = 1, 0, 0, 0
	c.prog[0], c.prog[1], c.prog[2], c.prog[3] = byte(c.progSeq), byte(c.progSeq>>8), byte(c.progSeq>>16), byte(c.progSeq>>24)
}

func (c *Ctx) unmark() {
	if c.prog != nil {
		c.progSeq++
		c.prog[4] = 0
		c.prog[0], c.prog[1], c.prog[2], c.prog[3] = byte(c.progSeq), byte(c.progSeq>>8), byte(c.progSeq>>16), byte(c.progSeq>>24)
	}
}

// Do runs one case of the workload. A panic (including a memory fault) that escapes the code under test is a violation.
func (c *Ctx) Do(name string, f func()) {
	if c.Only != "" && !strings.HasPrefix(name, c.Only) {
		return
	}
	if len(c.Viol) > 400 || len(c.Viol) > 0 && time.Since(c.firstViol) > 45*time.Second {
		return // enough is known; a broken tree must still get its answer in time
	}
	c.mark(name)
	*c.R = *NewRand(c.Seed ^ hashS(c.ID, name)) // each case is reproducible on its own
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(string); ok && strings.HasPrefix(s, "harness:") {
				fmt.Fprintln(os.Stderr, s)
				os.Exit(3)
			}
			if s, ok := r.(string); ok && strings.HasPrefix(s, "emulator:") { // nothing was decided about this case
				c.Count("cases_given_up_by_the_emulator", 1)
				c.Note("%s: %s", name, s)
				c.unmark()
				return
			}
			key := "panic:" + keyOf(name)
			st := string(debug.Stack())
			c.Fail(key, "panic: %v\n%s", r, trimStack(st))
		}
		c.unmark()
	}()
	f()
}

func keyOf(name string) string {
	if i := strings.IndexAny(name, " /"); i >= 0 {
		return name[:i]
	}
	return name
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for i := 0; i < len(lines); i++ {
		if strings.Contains(lines[i], "go-dsp") && !strings.Contains(lines[i], "verif/harness") {
			out = append(out, strings.TrimSpace(lines[i]))
		}
		if len(out) > 10 {
			break
		}
	}
	return strings.Join(out, " | ")
}

// Fail records a violation.
func (c *Ctx) Fail(key, format string, args ...interface{}) {
	c.perKey[key]++
	if c.perKey[key] > 5 {
		return
	}
	if len(c.Viol) == 0 {
		c.firstViol = time.Now()
	}
	c.Viol = append(c.Viol, Violation{Key: key, Case: c.curCase, Detail: fmt.Sprintf(format, args...)})
}

// Seen counts an evaluation and whether it is a distinct non-trivial case (hash of what identifies it).
func (c *Ctx) Seen(h uint64, nontrivial bool) {
	c.Evals++
	if nontrivial {
		if len(c.distinct) < 4000000 {
			if _, ok := c.distinct[h]; !ok {
				c.distinct[h] = struct{}{}
				c.Distinct++
			}
		}
	}
}

func (c *Ctx) Count(name string, n int64) { c.Counters[name] += n }

func (c *Ctx) Sample(format string, args ...interface{}) {
	if len(c.Samples) < 12 {
		c.Samples = append(c.Samples, fmt.Sprintf(format, args...))
	}
}

func (c *Ctx) Note(format string, args ...interface{}) {
	if len(c.Notes) < 50 {
		c.Notes = append(c.Notes, fmt.Sprintf(format, args...))
	}
}

func hashS(parts ...interface{}) uint64 {
	h := uint64(1469598103934665603)
	s := fmt.Sprint(parts...)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

func mix(h uint64, vs ...int) uint64 {
	for _, v := range vs {
		h ^= uint64(v) + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
		h *= 0xff51afd7ed558ccd
		h ^= h >> 33
	}
	return h
}

func hashB(b []byte) uint64 {
	h := uint64(1469598103934665603)
	for _, x := range b {
		h ^= uint64(x)
		h *= 1099511628211
	}
	return h
}

func main() {
	prop := flag.String("prop", "", "property id")
	variant := flag.String("variant", "", "build variant")
	tier := flag.String("tier", "quick", "")
	seed := flag.Uint64("seed", 1, "")
	out := flag.String("out", "", "")
	progress := flag.String("progress", "", "")
	only := flag.String("only", "", "run only cases whose name has this prefix")
	flag.Parse()
	log.SetOutput(io.Discard)
	debug.SetPanicOnFault(true)
	runtime.LockOSThread()
	f := checks[*prop]
	if f == nil {
		var ids []string
		for k := range checks {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Fprintln(os.Stderr, "unknown property", *prop, ids)
		os.Exit(3)
	}
	c := &Ctx{ID: *prop, Tier: *tier, Variant: *variant, Seed: *seed, Only: *only,
		R: NewRand(*seed ^ hashS(*prop)), distinct: map[uint64]struct{}{}, Counters: map[string]int64{}, Samples: []string{}, Viol: []Violation{}, Notes: []string{}, perKey: map[string]int{}}
	if *progress != "" {
		fd, err := os.OpenFile(*progress, os.O_RDWR|os.O_CREATE, 0644)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		fd.Truncate(4096)
		c.prog, err = syscall.Mmap(int(fd.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
	t0 := time.Now()
	f(c)
	if fl := flag.Lookup("emulator-stats"); fl != nil {
		m := map[string]int64{}
		json.Unmarshal([]byte(fl.Value.String()), &m)
		for k, v := range m {
			c.Count("emulated_"+k, v)
		}
	}
	r := result{ID: c.ID, Variant: c.Variant, Evals: c.Evals, Distinct: c.Distinct, Rule: c.Rule, Counters: c.Counters,
		Samples: c.Samples, Viol: c.Viol, Notes: c.Notes, Digests: c.Digests, WallS: time.Since(t0).Seconds()}
	b, _ := json.MarshalIndent(r, "", " ")
	if *out == "" {
		fmt.Println(string(b))
		return
	}
	if err := os.WriteFile(*out, b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}
