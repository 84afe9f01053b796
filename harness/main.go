// Command vmon runs the runtime monitors for signintech/gopdf.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Check is the monitor of one property.
type Check struct {
	ID    string
	Quick int // number of cases
	Deep  int
	Run   func(c *Case)
	// Need lists counters that must be positive for the run to count as an observation.
	Need        []string
	Rule        string
	Assumptions []string
	Level       string
	CPU         float64 // CPU seconds a single case may use
	MemMB       int
	Workers     int
}

var checks = map[string]*Check{}

func register(c *Check) {
	if c.CPU == 0 {
		c.CPU = 60
	}
	if c.MemMB == 0 {
		c.MemMB = 2500
	}
	if c.Level == "" {
		c.Level = "exploration"
	}
	checks[c.ID] = c
}

// Viol is one refuting observation.
type Viol struct {
	Sig    string `json:"sig"`
	Detail string `json:"detail"`
	Index  int    `json:"index"`
	Trace  string `json:"trace,omitempty"`
}

// Case is one generated execution.
type Case struct {
	ID    string
	Tier  string
	Seed  int64
	Index int
	R     *rand.Rand
	res   Result
	trace func() string
	quiet map[string]int
}

// Result is what a child reports for a case.
type Result struct {
	Index    int            `json:"i"`
	Viol     []Viol         `json:"v,omitempty"`
	Counts   map[string]int `json:"c,omitempty"`
	Distinct []string       `json:"d,omitempty"`
	Sample   string         `json:"s,omitempty"`
}

// Fail records a violation; sig identifies the kind of failure in a stable way.
func (c *Case) Fail(sig, f string, a ...interface{}) {
	if c.quiet == nil {
		c.quiet = map[string]int{}
	}
	c.quiet[sig]++
	if c.quiet[sig] > 2 || len(c.res.Viol) >= 8 {
		return
	}
	v := Viol{Sig: sig, Detail: fmt.Sprintf(f, a...), Index: c.Index}
	if len(v.Detail) > 4000 {
		v.Detail = v.Detail[:4000] + "..."
	}
	if c.trace != nil {
		v.Trace = c.trace()
		if len(v.Trace) > 60000 {
			v.Trace = v.Trace[:60000]
		}
	}
	c.res.Viol = append(c.res.Viol, v)
}
func (c *Case) Failed() bool { return len(c.res.Viol) > 0 }

func (c *Case) Count(name string, n int) {
	if c.res.Counts == nil {
		c.res.Counts = map[string]int{}
	}
	c.res.Counts[name] += n
}
func (c *Case) Distinct(k string) {
	h := fnv64(k)
	c.res.Distinct = append(c.res.Distinct, strconv.FormatUint(h, 36))
}
func (c *Case) Sample(f string, a ...interface{}) {
	if c.res.Sample == "" {
		c.res.Sample = fmt.Sprintf(f, a...)
		if len(c.res.Sample) > 600 {
			c.res.Sample = c.res.Sample[:600] + "..."
		}
	}
}
func (c *Case) Thorough() bool { return c.Tier == "thorough" }

func fnv64(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

func newCase(id, tier string, seed int64, idx int) *Case {
	c := &Case{ID: id, Tier: tier, Seed: seed, Index: idx}
	h := fnv64(fmt.Sprintf("%s/%d/%d", id, seed, idx))
	c.R = rand.New(rand.NewSource(int64(h & 0x7fffffffffffffff)))
	c.res.Index = idx
	return c
}

func runCase(ck *Check, tier string, seed int64, idx int) Result {
	c := newCase(ck.ID, tier, seed, idx)
	func() {
		defer func() {
			if e := recover(); e != nil {
				st := string(debug.Stack())
				c.Fail("panic:"+panicSite(st), "panic: %v\n%s", e, trimStack(st))
			}
		}()
		ck.Run(c)
	}()
	return c.res
}

// panicSite names the first frame below the runtime, for a stable signature.
func panicSite(st string) string {
	lines := strings.Split(st, "\n")
	seen := false
	for _, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			seen = true
			continue
		}
		if !seen || strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "runtime.") || l == "" {
			continue
		}
		if i := strings.LastIndex(l, "("); i > 0 {
			l = l[:i]
		}
		return l
	}
	return "?"
}
func trimStack(st string) string {
	if i := strings.Index(st, "panic("); i >= 0 {
		st = st[i:]
	}
	if len(st) > 2500 {
		st = st[:2500]
	}
	return st
}

func child(ck *Check, tier string, seed int64, shard, shards, start, total int) {
	out := bufio.NewWriter(os.Stdout)
	for i := start; i < total; i++ {
		if i%shards != shard {
			continue
		}
		if tier == "quick" && time.Since(began) > quickSeconds*time.Second {
			fmt.Fprintln(out, "L")
			break
		}
		fmt.Fprintf(out, "B %d\n", i)
		out.Flush()
		r := runCase(ck, tier, seed, i)
		b, err := json.Marshal(r)
		if err != nil {
			b, _ = json.Marshal(Result{Index: i, Viol: []Viol{{Sig: "harness", Detail: err.Error(), Index: i}}})
		}
		out.WriteString("E ")
		out.Write(b)
		out.WriteString("\n")
		out.Flush()
	}
	fmt.Fprintln(out, "Z")
	out.Flush()
}

type agg struct {
	sync.Mutex
	counts   map[string]int
	distinct map[string]bool
	samples  []string
	viol     []Viol
	done     int
	// ended is set once a case had to be stopped: children that have no
	// violation to add are not started again, so that an endless loop is
	// reported in the time of one case, not of six.
	ended bool
	// late is set when cases were left out because the time was up.
	late int
}

func (a *agg) stopped() bool {
	a.Lock()
	defer a.Unlock()
	return a.ended
}

// quickSeconds is when a quick run stops starting new cases.
const quickSeconds = 600

// idleTicks is how many tenths of a second a case may wait without computing.
const idleTicks = 1500

var began = time.Now()

func procStat(pid int) (cpu float64, rssMB int) {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return
	}
	s := string(b)
	if i := strings.LastIndex(s, ")"); i >= 0 {
		f := strings.Fields(s[i+1:])
		if len(f) > 21 {
			for _, i := range []int{11, 12, 13, 14} { // own time and that of ended children
				t, _ := strconv.ParseFloat(f[i], 64)
				cpu += t / 100
			}
			r, _ := strconv.Atoi(f[21])
			rssMB = r * 4096 >> 20
		}
	}
	return
}

func supervise(ck *Check, tier string, seed int64, shard, shards, total int, a *agg) {
	start := shard
	restarts := 0
	for start < total && restarts < 6 && !a.stopped() {
		if tier == "quick" && time.Since(began) > quickSeconds*time.Second {
			a.Lock()
			a.late++
			a.Unlock()
			return
		}
		cmd := exec.Command(os.Args[0], "-child", ck.ID, tier, fmt.Sprint(seed), fmt.Sprint(shard), fmt.Sprint(shards), fmt.Sprint(start), fmt.Sprint(total))
		cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=all")
		if ck.ID == "C05" {
			cmd.Env = append(os.Environ(), "GOMAXPROCS=8")
		}
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		so, _ := cmd.StdoutPipe()
		var stderr tail
		cmd.Stderr = &stderr
		// Pdeathsig is tied to the thread that forked
		runtime.LockOSThread()
		if err := cmd.Start(); err != nil {
			fmt.Println("INCONCLUSIVE cannot start child:", err)
			os.Exit(3)
		}
		var mu sync.Mutex
		cur := -1
		cpuAt := 0.0
		killed := ""
		idle, cpuIdle := 0, 0.0
		fin := make(chan bool)
		go func() {
			t := time.NewTicker(100 * time.Millisecond)
			defer t.Stop()
			for {
				select {
				case <-fin:
					return
				case <-t.C:
					cpu, rss := procStat(cmd.Process.Pid)
					mu.Lock()
					if cur >= 0 && killed == "" {
						// Ticks that came are counted, not wall time, so that
						// a paused machine does not count. A process that
						// computes nothing for that many waits for ever.
						idle++
						if cpu-cpuIdle > 0.3 || cpu < cpuIdle {
							idle, cpuIdle = 0, cpu
						}
						if idle > idleTicks {
							killed = "blocked: nothing computed while waiting"
						} else if cpu-cpuAt > ck.CPU {
							killed = fmt.Sprintf("no result after %.0f CPU seconds", ck.CPU)
						} else if rss > ck.MemMB {
							killed = fmt.Sprintf("resident memory passed %d MB", ck.MemMB)
						}
						if killed != "" {
							// ask for the goroutine stacks, then end it
							cmd.Process.Signal(syscall.SIGQUIT)
							go func() { time.Sleep(3 * time.Second); cmd.Process.Kill() }()
						}
					}
					mu.Unlock()
				}
			}
		}()
		rd := bufio.NewReaderSize(so, 1<<20)
		clean := false
		for {
			line, err := rd.ReadString('\n')
			if err != nil {
				break
			}
			switch line[0] {
			case 'B':
				n, _ := strconv.Atoi(strings.TrimSpace(line[2:]))
				cpu, _ := procStat(cmd.Process.Pid)
				mu.Lock()
				cur, cpuAt = n, cpu
				idle, cpuIdle = 0, cpu
				mu.Unlock()
			case 'E':
				var r Result
				if err := json.Unmarshal([]byte(line[2:]), &r); err == nil {
					a.add(r)
				}
				mu.Lock()
				if r.Index == cur {
					cur = -1
				}
				start = r.Index + 1
				mu.Unlock()
			case 'L':
				a.Lock()
				a.late++
				a.Unlock()
			case 'Z':
				clean = true
			}
		}
		err := cmd.Wait()
		runtime.UnlockOSThread()
		close(fin)
		if clean {
			return
		}
		mu.Lock()
		c := cur
		why := killed
		mu.Unlock()
		sig := "stuck"
		if why == "" {
			why = fmt.Sprintf("process ended: %v", err)
			sig = "crash"
		} else if strings.HasPrefix(why, "resident") {
			sig = "memory"
		} else if strings.HasPrefix(why, "blocked") {
			sig = "blocked"
		}
		if c < 0 {
			c = start
		}
		if sig == "stuck" || sig == "blocked" {
			a.Lock()
			a.ended = true
			a.Unlock()
		}
		a.add(Result{Index: c, Viol: []Viol{{Sig: sig, Detail: why + "\n" + stderr.String(), Index: c}}})
		start = c + 1
		restarts++
	}
}

type tail struct {
	sync.Mutex
	b []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.Lock()
	defer t.Unlock()
	if len(t.b) < 6000 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}
func (t *tail) String() string {
	t.Lock()
	defer t.Unlock()
	if len(t.b) > 6000 {
		return string(t.b[:6000])
	}
	return string(t.b)
}

func (a *agg) add(r Result) {
	a.Lock()
	defer a.Unlock()
	a.done++
	for k, v := range r.Counts {
		a.counts[k] += v
	}
	for _, d := range r.Distinct {
		a.distinct[d] = true
	}
	if r.Sample != "" && len(a.samples) < 8 {
		a.samples = append(a.samples, fmt.Sprintf("case %d: %s", r.Index, r.Sample))
	}
	a.viol = append(a.viol, r.Viol...)
}

// Known is one line of known_findings.json.
type Known struct {
	Property string `json:"property"`
	Sig      string `json:"sig"`
	What     string `json:"what"`
}
type KnownFile struct {
	Findings []Known  `json:"findings"`
	Fixed    []string `json:"fixed"`
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func loadKnown() KnownFile {
	var k KnownFile
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.json"))
	if err == nil {
		if err := json.Unmarshal(b, &k); err != nil {
			fmt.Println("INCONCLUSIVE known_findings.json:", err)
			os.Exit(3)
		}
	}
	return k
}

func runCheck(id, tier string, seed int64) int {
	ck := checks[id]
	if ck == nil {
		fmt.Println("no such check", id)
		return 3
	}
	t0 := time.Now()
	total := ck.Quick
	if tier == "thorough" {
		total = ck.Deep
		if total == 0 {
			total = ck.Quick * 10
		}
	}
	shards := 8
	if ck.Workers > 0 {
		shards = ck.Workers
	}
	if shards > total {
		shards = total
	}
	a := &agg{counts: map[string]int{}, distinct: map[string]bool{}}
	var wg sync.WaitGroup
	for s := 0; s < shards; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			supervise(ck, tier, seed, s, shards, total, a)
		}(s)
	}
	wg.Wait()
	if id == "C05" {
		collectRaces(a)
	}
	sort.SliceStable(a.viol, func(i, j int) bool { return a.viol[i].Index < a.viol[j].Index })
	known := loadKnown()
	nv := 0
	seen := map[string]int{}
	kseen := map[string]bool{}
	rdir := filepath.Join(verifDir(), "replays")
	for _, v := range a.viol {
		isKnown := false
		for _, k := range known.Findings {
			if k.Property == id && k.Sig == v.Sig {
				isKnown = true
				if !kseen[k.Sig] {
					kseen[k.Sig] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.What)
				}
			}
		}
		if isKnown {
			continue
		}
		nv++
		seen[v.Sig]++
		if seen[v.Sig] > 2 || len(seen) > 8 {
			continue
		}
		os.MkdirAll(rdir, 0o755)
		p := filepath.Join(rdir, fmt.Sprintf("%s-%s-%d-%d.json", id, tier, v.Index, nv))
		b, _ := json.MarshalIndent(map[string]interface{}{"property": id, "tier": tier, "seed": seed, "index": v.Index, "sig": v.Sig, "detail": v.Detail, "trace": v.Trace}, "", " ")
		os.WriteFile(p, b, 0o644)
		d := v.Detail
		if i := strings.IndexByte(d, '\n'); i > 0 {
			d = d[:i]
		}
		if len(d) > 300 {
			d = d[:300]
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n  case %d [%s] %s\n", id, p, v.Index, v.Sig, d)
	}
	if os.Getenv("VMON_SUMMARY") != "" {
		cnt, first := map[string]int{}, map[string]Viol{}
		for _, v := range a.viol {
			if cnt[v.Sig] == 0 {
				first[v.Sig] = v
			}
			cnt[v.Sig]++
		}
		for _, k := range sortedKeys(cnt) {
			d := first[k].Detail
			if len(d) > 260 {
				d = d[:260]
			}
			fmt.Printf("%5d %s  (case %d) %s\n", cnt[k], k, first[k].Index, strings.ReplaceAll(d, "\n", " | "))
		}
	}
	missing := []string{}
	for _, n := range ck.Need {
		if a.counts[n] == 0 {
			missing = append(missing, n)
		}
	}
	cov := map[string]interface{}{
		"evaluations": a.done, "distinct_nontrivial": len(a.distinct), "rule": ck.Rule,
		"samples": a.samples, "observed": a.counts,
	}
	if len(missing) > 0 {
		cov["not_observed"] = missing
	}
	if a.late > 0 {
		cov["shards_cut_short"] = a.late
	}
	if a.samples == nil {
		cov["samples"] = []string{}
	}
	as := ck.Assumptions
	if as == nil {
		as = []string{}
	}
	ev := map[string]interface{}{"property": id, "tier": tier, "seed": seed, "level": ck.Level,
		"coverage": cov, "assumptions": as, "wall_s": time.Since(t0).Seconds(), "violations": nv}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	os.WriteFile(filepath.Join(verifDir(), "evidence", id+".json"), append(b, '\n'), 0o644)
	fmt.Printf("%s %s: %d executions, %d distinct, %d violations, %.1fs\n", id, tier, a.done, len(a.distinct), nv, time.Since(t0).Seconds())
	if nv > 0 {
		return 1
	}
	if len(missing) > 0 {
		fmt.Printf("INCONCLUSIVE %s: never observed %v\n", id, missing)
		return 3
	}
	return 0
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "-child" {
		at := func(i int) int { n, _ := strconv.Atoi(os.Args[i]); return n }
		seed, _ := strconv.ParseInt(os.Args[4], 10, 64)
		child(checks[os.Args[2]], os.Args[3], seed, at(5), at(6), at(7), at(8))
		return
	}
	if len(os.Args) > 4 && os.Args[1] == "-hash05" {
		seed, _ := strconv.ParseInt(os.Args[3], 10, 64)
		idx, _ := strconv.Atoi(os.Args[4])
		hash05(os.Args[2], seed, idx)
		return
	}
	if len(os.Args) < 2 {
		fmt.Println("usage: vmon ID quick|thorough | vmon -replay FILE | vmon -case ID INDEX [tier] | vmon -list")
		os.Exit(3)
	}
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = n
		}
	}
	switch os.Args[1] {
	case "-list":
		var ids []string
		for k := range checks {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
	case "-replay":
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
		var m struct {
			Property, Tier string
			Seed           int64
			Index          int
		}
		json.Unmarshal(b, &m)
		os.Exit(showCase(m.Property, m.Tier, m.Seed, m.Index))
	case "-case":
		idx, _ := strconv.Atoi(os.Args[3])
		tier := "quick"
		if len(os.Args) > 4 {
			tier = os.Args[4]
		}
		os.Exit(showCase(os.Args[2], tier, seed, idx))
	default:
		tier := "quick"
		if len(os.Args) > 2 {
			tier = os.Args[2]
		}
		os.Exit(runCheck(os.Args[1], tier, seed))
	}
}

func showCase(id, tier string, seed int64, idx int) int {
	r := runCase(checks[id], tier, seed, idx)
	for _, v := range r.Viol {
		fmt.Printf("VIOLATION property=%s replay=case%d\n[%s] %s\n", id, idx, v.Sig, v.Detail)
		if v.Trace != "" && os.Getenv("TRACE") != "" {
			fmt.Println(v.Trace)
		}
	}
	fmt.Println("counts", r.Counts, "distinct", len(r.Distinct))
	if len(r.Viol) > 0 {
		return 1
	}
	return 0
}

func collectRaces(a *agg) {
	dir := os.Getenv("VMON_RACE_DIR")
	if dir == "" {
		return
	}
	fs, _ := filepath.Glob(filepath.Join(dir, "race*"))
	seen := map[string]bool{}
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		blocks := strings.Split(string(b), "==================")
		for _, blk := range blocks {
			if !strings.Contains(blk, "WARNING: DATA RACE") {
				continue
			}
			// outermost location pair as identity
			var fr []string
			for _, l := range strings.Split(blk, "\n") {
				l = strings.TrimSpace(l)
				if strings.HasPrefix(l, "github.com/signintech/gopdf") || strings.HasPrefix(l, "github.com/phpdave11") {
					fr = append(fr, l)
				}
			}
			k := "race"
			if len(fr) > 0 {
				k = "race:" + fr[0]
			}
			if seen[k] {
				continue
			}
			seen[k] = true
			if len(blk) > 3500 {
				blk = blk[:3500]
			}
			a.viol = append(a.viol, Viol{Sig: k, Detail: "data race reported by the Go race detector\n" + blk})
		}
	}
}

var _ = io.EOF
