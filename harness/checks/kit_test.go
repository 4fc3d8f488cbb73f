package checks

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math"
	"math/bits"
	"os"
	"runtime"
	"runtime/metrics"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// ---- statistics -----------------------------------------------------------

type testStats struct {
	Evaluations int               `json:"evaluations"`
	Nontrivial  int               `json:"nontrivial"`
	Hashes      map[string]bool   `json:"-"`
	HashList    []string          `json:"hashes"`
	Classes     map[string]int    `json:"classes"`
	Samples     []string          `json:"samples"`
	Rule        string            `json:"rule"`
	Skipped     int               `json:"skipped_time"`
	Extra       map[string]string `json:"extra,omitempty"`
}

var (
	stats     = map[string]*testStats{}
	statsMu   sync.Mutex
	shards    = envInt("VERIF_SHARDS", 1)
	shard     = envInt("VERIF_SHARD", 0)
	thorough  = os.Getenv("VERIF_TIER") == "thorough"
	start     = time.Now()
	budget    = time.Duration(envInt("VERIF_BUDGET", 3600)) * time.Second
	scale     = envFloat("VERIF_SCALE", 1)
	slow      = envFloat("VERIF_SLOW", 0) // log cases that take more seconds
	caseStart atomic.Int64
	current   atomic.Pointer[Case]
)

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

func envFloat(k string, d float64) float64 {
	if v, err := strconv.ParseFloat(os.Getenv(k), 64); err == nil {
		return v
	}
	return d
}

func TestMain(m *testing.M) {
	flag.Parse()
	go watchdog()
	rc := m.Run()
	if f := os.Getenv("VERIF_STATS"); f != "" {
		statsMu.Lock()
		for _, s := range stats {
			for h := range s.Hashes {
				s.HashList = append(s.HashList, h)
			}
		}
		b, _ := json.Marshal(stats)
		os.WriteFile(f, b, 0o644)
		statsMu.Unlock()
	}
	os.Exit(rc)
}

// watchdog ends a process whose current case never finishes or eats memory
// without bound: the runner reports that as a violation with the seed to
// reproduce it (a healthy case takes milliseconds and a few megabytes). Time
// is processor time of this process, so that a busy machine does not make a
// case look endless; a case that waits forever is ended by the clock.
func watchdog() {
	hang := time.Duration(envInt("VERIF_HANG", 90)) * time.Second
	var last *Case
	var cpu0 time.Duration
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(100 * time.Millisecond)
		c := current.Load()
		if c == nil {
			continue
		}
		metrics.Read(sample)
		mem := sample[0].Value.Uint64()
		st := caseStart.Load()
		el := time.Since(time.Unix(0, st))
		if c != last {
			last, cpu0 = c, cpuTime()
		}
		why := ""
		if used := cpuTime() - cpu0; used > hang {
			why = fmt.Sprintf("case still running after %v of processor time", used)
		} else if st != 0 && el > 4*hang {
			why = fmt.Sprintf("case still running after %v", el)
		} else if mem > 2500<<20 {
			why = fmt.Sprintf("live heap grew to %d MB in one case", mem>>20)
		}
		if why != "" {
			fmt.Printf("RUNAWAY: %s\n", why)
			buf := make([]byte, 1<<18)
			n := runtime.Stack(buf, true)
			c.mu.Lock()
			fmt.Printf("case:\n  %s\n", strings.Join(c.lines, "\n  "))
			fmt.Printf("%s\n", buf[:n])
			os.Exit(97)
		}
	}
}

func cpuTime() time.Duration {
	var u syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &u) != nil {
		return 0
	}
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

// ---- cases ----------------------------------------------------------------

type Case struct {
	*rapid.T
	mu    sync.Mutex
	lines []string
	non   bool
	cls   []string

	rgb, cmyk [4]uint8 // the colours drawn last
	lastRGB   bool     // whether the last one was an RGB colour
	near      int      // 1 or 2: the next colour differs in one component only
}

type Opt struct {
	Quick, Thorough int // cases over all shards
	Steps           int
	Rule            string
}

func (c *Case) Log(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	c.mu.Lock()
	c.lines = append(c.lines, s)
	c.mu.Unlock()
}

// Nontrivial marks the case as exercising the property.
func (c *Case) Nontrivial()    { c.non = true }
func (c *Case) Class(s string) { c.cls = append(c.cls, s) }

// count draws a number from lo to lo+n-1, now and then one from big to 3*big.
func (c *Case) count(lo, n, big int, l string) int {
	if c.Chance(1, l+"many") {
		return big + c.U(2*big+1, l)
	}
	return lo + c.U(n, l)
}

func (c *Case) Bad(f string, a ...any) {
	c.Fatalf("PROPERTY: "+f, a...)
}
func (c *Case) Harness(f string, a ...any) {
	c.Fatalf("HARNESS: "+f, a...)
}

// Run evaluates body on generated cases and keeps the statistics.
func Run(t *testing.T, o Opt, body func(c *Case)) {
	t.Helper()
	st := &testStats{Hashes: map[string]bool{}, Classes: map[string]int{}, Rule: o.Rule}
	statsMu.Lock()
	stats[t.Name()] = st
	statsMu.Unlock()
	n := o.Quick
	if thorough {
		n = o.Thorough
	}
	n = int(float64(n) * scale)
	per := (n + shards - 1) / shards
	if per < 1 {
		per = 1
	}
	if os.Getenv("VERIF_CHECKS") != "" {
		per = envInt("VERIF_CHECKS", per)
	}
	flag.Set("rapid.checks", strconv.Itoa(per))
	if o.Steps > 0 {
		flag.Set("rapid.steps", strconv.Itoa(o.Steps))
	}
	failed := false
	rapid.Check(t, func(rt *rapid.T) {
		if !failed && time.Since(start) > budget {
			statsMu.Lock()
			st.Skipped++
			statsMu.Unlock()
			return
		}
		c := &Case{T: rt}
		caseStart.Store(time.Now().UnixNano())
		current.Store(c)
		ok := false
		defer func() {
			current.Store(nil)
			if d := time.Since(time.Unix(0, caseStart.Load())); slow > 0 && d.Seconds() > slow {
				slowLog("SLOW %s %v\n  %s\n", t.Name(), d, strings.Join(c.lines, "\n  "))
			}
			if ok && !rt.Failed() {
				if failed {
					return
				}
				statsMu.Lock()
				defer statsMu.Unlock()
				st.Evaluations++
				for _, k := range c.cls {
					st.Classes[k]++
				}
				if c.non {
					st.Nontrivial++
					h := fnv.New64a()
					for _, l := range c.lines {
						h.Write([]byte(l))
						h.Write([]byte{0})
					}
					st.Hashes[strconv.FormatUint(h.Sum64(), 36)] = true
					if len(st.Samples) < 2 && st.Evaluations > 10 {
						s := strings.Join(c.lines, " ; ")
						if len(s) > 1500 {
							s = s[:1500] + "..."
						}
						st.Samples = append(st.Samples, s)
					}
				}
				return
			}
			failed = true
			rt.Logf("CASE:\n  %s", strings.Join(c.lines, "\n  "))
		}()
		body(c)
		ok = true
	})
}

// ---- drawing helpers ------------------------------------------------------

func (c *Case) Int(lo, hi int, l string) int { return rapid.IntRange(lo, hi).Draw(c.T, l) }
func (c *Case) Bool(l string) bool           { return rapid.Bool().Draw(c.T, l) }

// F draws a multiple of 1/4 in [lo,hi].
func (c *Case) F(lo, hi float64, l string) float64 {
	return float64(rapid.IntRange(int(lo*4), int(hi*4)).Draw(c.T, l)) / 4
}

// U draws from [0,n) nearly uniformly (rapid's own integer and sampling
// generators favour small values); it shrinks to 0.
func (c *Case) U(n int, l string) int {
	v := rapid.Uint16().Draw(c.T, l)
	return int(uint64(bits.Reverse16(v)) * uint64(n) >> 16)
}

// Chance is true with probability about p percent; it shrinks to false.
func (c *Case) Chance(p int, l string) bool { return c.U(100, l) >= 100-p }

func (c *Case) Pick(l string, ss ...string) string { return ss[c.U(len(ss), l)] }

func pick[T any](c *Case, l string, xs []T) T { return xs[c.U(len(xs), l)] }

func near(a, b, tol float64) bool { return math.Abs(a-b) <= tol }

func slowLog(f string, a ...any) {
	o, err := os.OpenFile(os.Getenv("VERIF_SLOWLOG"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	if err == nil {
		fmt.Fprintf(o, f, a...)
		o.Close()
	}
}
