// vrun builds the checks against /repo's working tree, runs those of one
// property in parallel shards, writes the evidence file and reports.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

const (
	verif   = "/verif"
	harness = "/verif/harness"
	build   = "/verif/.build"
	replays = "/verif/replays"
)

type testStats struct {
	Evaluations int            `json:"evaluations"`
	Nontrivial  int            `json:"nontrivial"`
	Hashes      []string       `json:"hashes"`
	Classes     map[string]int `json:"classes"`
	Samples     []string       `json:"samples"`
	Rule        string         `json:"rule"`
	Skipped     int            `json:"skipped_time"`
}

func die(rc int, f string, a ...any) {
	fmt.Printf(f+"\n", a...)
	os.Exit(rc)
}

func goEnv(extra ...string) []string {
	e := os.Environ()
	e = append(e, "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOSUMDB=off", "GONOSUMDB=*", "GONOSUMCHECK=1")
	return append(e, extra...)
}

func buildBin(race bool) string {
	out := filepath.Join(build, "checks.test")
	args := []string{"test", "-c", "-o"}
	if race {
		out = filepath.Join(build, "checks-race.test")
		args = []string{"test", "-c", "-race", "-o"}
	}
	os.MkdirAll(build, 0o755)
	cmd := exec.Command("go", append(args, out, "./checks")...)
	cmd.Dir = harness
	cmd.Env = goEnv()
	b, err := cmd.CombinedOutput()
	if err != nil {
		die(2, "ERROR: the checks do not build: %v\n%s", err, b)
	}
	return out
}

type result struct {
	shard   int
	out     string
	err     error
	stats   map[string]*testStats
	timeout bool
	dir     string
	seed    uint64
	signal  syscall.Signal
}

type limited struct {
	mu  sync.Mutex
	b   bytes.Buffer
	max int
}

func (l *limited) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.b.Len() < l.max {
		q := p
		if len(q) > l.max-l.b.Len() {
			q = q[:l.max-l.b.Len()]
		}
		l.b.Write(q)
	}
	return len(p), nil
}

func (l *limited) String() string { l.mu.Lock(); defer l.mu.Unlock(); return l.b.String() }

func main() {
	if len(os.Args) < 2 {
		die(2, "usage: vrun <property> | vrun replay <file>")
	}
	if os.Args[1] == "setup" {
		buildBin(false)
		buildBin(true)
		return
	}
	if os.Args[1] == "replay" {
		replay(os.Args[2])
		return
	}
	prop := os.Args[1]
	begin := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := int64(1)
	if v, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = v
	}
	race := prop == "C24"
	bin := buildBin(race)
	nshard := 8
	if v, err := strconv.Atoi(os.Getenv("VERIF_SHARDS")); err == nil && v > 0 {
		nshard = v
	}
	limit := 800 * time.Second
	budget := 300
	if tier == "thorough" {
		limit = 4 * time.Hour
		budget = 3 * 3600
		if v, err := strconv.Atoi(os.Getenv("VERIF_BUDGET")); err == nil {
			budget = v
		}
	}
	scratch, err := os.MkdirTemp("", "vrun-"+prop+"-")
	if err != nil {
		die(2, "ERROR: %v", err)
	}
	defer os.RemoveAll(scratch)
	res := make([]*result, nshard)
	var wg sync.WaitGroup
	for i := range res {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			res[i] = runShard(bin, prop, tier, seed, i, nshard, scratch, budget, limit)
		}(i)
	}
	wg.Wait()
	rc := report(prop, tier, seed, res, begin)
	os.RemoveAll(scratch)
	os.Exit(rc)
}

func shardSeed(seed int64, prop string, shard int) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, prop, shard)
	v := h.Sum64()
	if v == 0 {
		v = 1
	}
	return v
}

func runShard(bin, prop, tier string, seed int64, i, n int, scratch string, budget int, limit time.Duration) *result {
	dir := filepath.Join(scratch, fmt.Sprint(i))
	os.MkdirAll(dir, 0o755)
	r := &result{shard: i, dir: dir, seed: shardSeed(seed, prop, i)}
	cmd := exec.Command(bin, "-test.run", "^Test"+prop+"_", "-test.timeout", "0",
		"-rapid.seed", fmt.Sprint(r.seed), "-rapid.shrinktime", "20s")
	runCmd(cmd, r, tier, i, n, budget, limit)
	return r
}

func runCmd(cmd *exec.Cmd, r *result, tier string, i, n, budget int, limit time.Duration) {
	cmd.Dir = r.dir
	sf := filepath.Join(r.dir, "stats.json")
	tmp := filepath.Join(r.dir, "tmp")
	os.MkdirAll(tmp, 0o755)
	cmd.Env = append(goEnv(), "VERIF_STATS="+sf, fmt.Sprintf("VERIF_SHARD=%d", i), fmt.Sprintf("VERIF_SHARDS=%d", n),
		"VERIF_TIER="+tier, fmt.Sprintf("VERIF_BUDGET=%d", budget), "GOMAXPROCS=2", "GORACE=halt_on_error=1 exitcode=66",
		"TMPDIR="+tmp)
	out := &limited{max: 4 << 20}
	cmd.Stdout = out
	cmd.Stderr = out
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := cmd.Start(); err != nil {
		r.err = err
		return
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case r.err = <-done:
	case <-time.After(limit):
		r.timeout = true
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		r.err = <-done
	}
	if ee, ok := r.err.(*exec.ExitError); ok {
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			r.signal = ws.Signal()
		}
	}
	r.out = out.String()
	if b, err := os.ReadFile(sf); err == nil {
		json.Unmarshal(b, &r.stats)
	}
}

var failRe = regexp.MustCompile(`-rapid\.failfile="([^"]+)"`)

// verdict: "" passed, "violation", "error".
func verdict(r *result) (string, string) {
	if r.err == nil && r.stats != nil {
		return "", ""
	}
	o := r.out
	switch {
	case r.timeout:
		return "error", "time limit reached"
	case strings.Contains(o, "HARNESS:"):
		return "error", "the harness itself failed"
	case strings.Contains(o, "WARNING: DATA RACE"):
		return "violation", "data race"
	case strings.Contains(o, "RUNAWAY:"):
		return "violation", "a case did not finish or used unbounded memory"
	case strings.Contains(o, "fatal error: stack overflow"), strings.Contains(o, "stack exceeds"):
		return "violation", "stack overflow"
	case strings.Contains(o, "fatal error: concurrent map"):
		return "violation", "concurrent map access"
	case strings.Contains(o, "runtime: out of memory"), strings.Contains(o, "fatal error: "), strings.Contains(o, "unexpected fault address"):
		return "violation", "the process died with a fatal error"
	case r.signal != 0:
		return "error", fmt.Sprintf("a worker was killed by signal %v", r.signal)
	case strings.Contains(o, "[rapid] only generated"):
		return "error", "too few valid cases"
	case strings.Contains(o, "[rapid] failed after"), strings.Contains(o, "[rapid] panic after"), strings.Contains(o, "[rapid] flaky test"):
		return "violation", ""
	case strings.Contains(o, "PROPERTY:"):
		return "violation", ""
	case strings.Contains(o, "panic: ") && strings.Contains(o, "goroutine "):
		return "violation", "panic outside the case's goroutine"
	case r.stats == nil && !strings.Contains(o, "--- FAIL"):
		return "violation", "the code under test ended the process"
	}
	return "error", "unexpected end of a worker"
}

func tail(s string, n int) string {
	var keep []string
	for _, l := range strings.Split(s, "\n") {
		if !strings.Contains(l, "[rapid] draw ") {
			keep = append(keep, l)
		}
	}
	s = strings.Join(keep, "\n")
	if len(s) > n {
		return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}

func report(prop, tier string, seed int64, res []*result, begin time.Time) int {
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	evals, nontriv, skipped := 0, 0, 0
	hashes := map[string]bool{}
	perTest := map[string]map[string]any{}
	classes := map[string]int{}
	var samples []any
	rules := map[string]string{}
	testHash := map[string]map[string]bool{}
	testEval := map[string]int{}
	for _, r := range res {
		for name, s := range r.stats {
			evals += s.Evaluations
			nontriv += s.Nontrivial
			skipped += s.Skipped
			testEval[name] += s.Evaluations
			rules[name] = s.Rule
			if testHash[name] == nil {
				testHash[name] = map[string]bool{}
			}
			for _, h := range s.Hashes {
				hashes[name+h] = true
				testHash[name][h] = true
			}
			for k, v := range s.Classes {
				classes[name+"/"+k] += v
			}
			if r.shard < 1 {
				for _, x := range s.Samples {
					samples = append(samples, map[string]any{"test": name, "case": x})
				}
			}
		}
	}
	var names []string
	for n := range testEval {
		names = append(names, n)
	}
	sort.Strings(names)
	rule := ""
	for _, n := range names {
		perTest[n] = map[string]any{"evaluations": testEval[n], "distinct_nontrivial": len(testHash[n]), "rule": rules[n]}
		rule += n + ": " + rules[n] + " | "
	}
	if samples == nil {
		samples = []any{"(no case completed)"}
	}
	level := "exploration"
	if prop == "C04" {
		level = "fault_enumeration"
	}
	viol := 0
	rc := 0
	var msgs []string
	errs := 0
	for _, r := range res {
		v, why := verdict(r)
		switch v {
		case "violation":
			viol++
			if rc != 1 {
				rc = 1
				rp := saveReplay(prop, tier, seed, r, len(res))
				msgs = append(msgs, tail(r.out, 12000), why, fmt.Sprintf("VIOLATION property=%s replay=%s", prop, rp))
			}
		case "error":
			errs++
			msgs = append(msgs, "ERROR: shard "+fmt.Sprint(r.shard)+": "+why+"\n"+tail(r.out, 6000))
		}
	}
	if rc == 0 && errs > 0 {
		rc = 2
	}
	if rc == 0 && evals == 0 {
		rc = 2
		msgs = append(msgs, "ERROR: nothing was evaluated")
	}
	known := knownFindings(prop)
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": level,
		"coverage": map[string]any{
			"evaluations": evals, "distinct_nontrivial": len(hashes), "nontrivial": nontriv,
			"rule": strings.TrimSuffix(rule, " | "), "samples": samples,
			"tests": perTest, "classes": classes, "not_run_for_time": skipped, "shards": len(res),
		},
		"wall_s": time.Since(begin).Seconds(), "violations": viol,
		"assumptions": []string{
			"the oracle library in /verif/harness (PDF parser and interpreter, TrueType reader, PNG writer) is right",
			"generated cases only: absence of a violation is evidence, not proof",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), b, 0o644); err != nil {
		fmt.Println("ERROR:", err)
		rc = 2
	}
	for _, k := range known {
		fmt.Println(k)
	}
	for _, m := range msgs {
		fmt.Println(m)
	}
	fmt.Printf("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1fs, exit %d\n", prop, tier, seed, evals, len(hashes), time.Since(begin).Seconds(), rc)
	return rc
}

func knownFindings(prop string) []string {
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "KNOWN-FINDING: property="+prop+" ") {
			out = append(out, l)
		}
	}
	return out
}

type seedReplay struct {
	Property string `json:"property"`
	Tier     string `json:"tier"`
	Seed     int64  `json:"seed"`
	Shard    int    `json:"shard"`
	Shards   int    `json:"shards"`
	Note     string `json:"note"`
}

func saveReplay(prop, tier string, seed int64, r *result, n int) string {
	os.MkdirAll(replays, 0o755)
	base := filepath.Join(replays, fmt.Sprintf("%s-%s-%d", prop, time.Now().Format("20060102T150405"), os.Getpid()))
	os.WriteFile(base+".log", []byte(r.out), 0o644)
	if m := failRe.FindStringSubmatch(r.out); m != nil {
		src := m[1]
		if !filepath.IsAbs(src) {
			src = filepath.Join(r.dir, src)
		}
		if in, err := os.Open(src); err == nil {
			defer in.Close()
			name := strings.Split(filepath.Base(src), "-")[0]
			dst := base + "-" + name + ".fail"
			if out, err := os.Create(dst); err == nil {
				io.Copy(out, in)
				out.Close()
				return dst
			}
		}
	}
	b, _ := json.Marshal(seedReplay{prop, tier, seed, r.shard, n, "re-runs this shard of the search; the failure ended the process, so there is no minimised case"})
	os.WriteFile(base+".json", b, 0o644)
	return base + ".json"
}

// replay re-runs one recorded failure; exit 1 when it still fails.
func replay(file string) {
	abs, err := filepath.Abs(file)
	if err != nil {
		die(2, "ERROR: %v", err)
	}
	scratch, _ := os.MkdirTemp("", "vrun-replay-")
	defer os.RemoveAll(scratch)
	r := &result{dir: scratch}
	prop := strings.Split(filepath.Base(abs), "-")[0]
	bin := buildBin(prop == "C24")
	if strings.HasSuffix(abs, ".json") {
		b, err := os.ReadFile(abs)
		var sr seedReplay
		if err != nil || json.Unmarshal(b, &sr) != nil {
			die(2, "ERROR: cannot read %s", abs)
		}
		r = runShard(bin, sr.Property, sr.Tier, sr.Seed, sr.Shard, sr.Shards, scratch, 3600, 2*time.Hour)
	} else {
		parts := strings.Split(strings.TrimSuffix(filepath.Base(abs), ".fail"), "-")
		test := parts[len(parts)-1]
		cmd := exec.Command(bin, "-test.v", "-test.run", "^"+test+"$", "-test.timeout", "0", "-rapid.failfile", abs, "-rapid.nofailfile")
		cmd.Env = os.Environ()
		os.Setenv("VERIF_CHECKS", "1")
		runCmd(cmd, r, "quick", 0, 1, 3600, time.Hour)
	}
	fmt.Println(r.out)
	v, why := verdict(r)
	fmt.Println(v, why)
	os.RemoveAll(scratch)
	switch v {
	case "violation":
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, abs)
		os.Exit(1)
	case "error":
		os.Exit(2)
	}
}
