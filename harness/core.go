// Command harness is the runtime monitor of go-bbs: it drives the real code
// with generated, hostile and concurrent workloads and judges what it observes
// with oracles which are independent of that code.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Group is one family of cases of a property; case i is determined by
// (seed, property, group, i) alone.
type Group struct {
	Name            string
	Quick, Thorough int
	Par             int // cases run at the same time, 0: as many as cores
	Fn              func(t *T)
}

// Prop is one monitored property.
type Prop struct {
	ID     string
	Rule   string
	Level  string // default exploration
	Assume []string
	Groups []Group
}

var props = map[string]*Prop{}

func register(p *Prop) {
	if p.Level == "" {
		p.Level = "exploration"
	}
	props[p.ID] = p
}

// T is one running case.
type T struct {
	R     *rand.Rand
	Prop  string
	Group string
	Idx   int
	Tier  string
	dir   string
	run   *runner
	fails []string
	key   string
	notes []string
	clean []func()
}

type failNow struct{}
type harnessErr struct{ msg string }

// Fatalf reports a violation and ends the case.
func (t *T) Fatalf(format string, a ...interface{}) {
	t.Errorf(format, a...)
	panic(failNow{})
}

// Errorf reports a violation.
func (t *T) Errorf(format string, a ...interface{}) {
	t.fails = append(t.fails, clip(fmt.Sprintf(format, a...), 3000))
	if len(t.fails) > 30 {
		panic(failNow{})
	}
}

// Check reports a violation unless ok.
func (t *T) Check(ok bool, format string, a ...interface{}) {
	if !ok {
		t.Fatalf(format, a...)
	}
}

// Harness ends the run as an error of the harness itself.
func (t *T) Harness(err error) {
	if err != nil {
		panic(harnessErr{fmt.Sprintf("%v\n%s", err, debug.Stack())})
	}
}

// Nontrivial marks the case as one which exercised the property; key tells
// distinct cases apart.
func (t *T) Nontrivial(parts ...interface{}) {
	h := fnv.New64a()
	for _, p := range parts {
		switch v := p.(type) {
		case []byte:
			h.Write(v)
		case string:
			io.WriteString(h, v)
		default:
			fmt.Fprint(h, v)
		}
		h.Write([]byte{0xff})
	}
	t.run.nontrivial(t.Group, h.Sum64())
}

// Count adds n to an observation counter of the evidence.
func (t *T) Count(name string, n int) { t.run.count(name, n) }

// Max keeps the largest value of an observation.
func (t *T) Max(name string, n int) { t.run.max(name, n) }

// Sample writes out this case in the evidence.
func (t *T) Sample(format string, a ...interface{}) {
	t.run.sample(t.Group, t.Idx, format, a...)
}

// Note adds context which is written out with a violation.
func (t *T) Note(format string, a ...interface{}) {
	t.notes = append(t.notes, clip(fmt.Sprintf(format, a...), 4000))
}

// Defer runs f when the case ends.
func (t *T) Defer(f func()) { t.clean = append(t.clean, f) }

// Dir is a scratch directory of this case.
func (t *T) Dir() string {
	if t.dir == "" {
		d, err := os.MkdirTemp(t.run.scratch, "c")
		t.Harness(err)
		t.dir = d
	}
	return t.dir
}

func (t *T) Quick() bool { return t.Tier != "thorough" }

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("... (%d bytes)", len(s))
	}
	return s
}

type violation struct {
	Group string   `json:"group"`
	Idx   int      `json:"index"`
	Key   string   `json:"key,omitempty"`
	Msgs  []string `json:"messages"`
	Notes []string `json:"notes,omitempty"`
}

type result struct {
	Done       bool             `json:"done"`
	Evals      int              `json:"evaluations"`
	Nontrivial int              `json:"distinct_nontrivial"`
	PerGroup   map[string]int   `json:"per_group"`
	NtGroup    map[string]int   `json:"nontrivial_per_group"`
	Counters   map[string]int64 `json:"counters"`
	Maxima     map[string]int64 `json:"maxima"`
	Samples    []string         `json:"samples"`
	Violations []violation      `json:"violations"`
	Harness    []string         `json:"harness_errors"`
}

type runner struct {
	prop    *Prop
	seed    uint64
	tier    string
	scratch string
	board   []byte // shared with the supervisor: what each worker is running

	mu    sync.Mutex
	res   result
	nt    map[string]map[uint64]struct{}
	nsamp map[string]int
	stop  int32
}

func (r *runner) nontrivial(g string, k uint64) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.nt[g] == nil {
		r.nt[g] = map[uint64]struct{}{}
	}
	r.nt[g][k] = struct{}{}
}

func (r *runner) count(name string, n int) {
	r.mu.Lock()
	r.res.Counters[name] += int64(n)
	r.mu.Unlock()
}

func (r *runner) max(name string, n int) {
	r.mu.Lock()
	if int64(n) > r.res.Maxima[name] {
		r.res.Maxima[name] = int64(n)
	}
	r.mu.Unlock()
}

func (r *runner) sample(g string, idx int, format string, a ...interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.nsamp[g] >= 3 || len(r.res.Samples) >= 24 {
		return
	}
	r.nsamp[g]++
	r.res.Samples = append(r.res.Samples, clip(fmt.Sprintf("%s/%d: ", g, idx)+fmt.Sprintf(format, a...), 700))
}

func caseSeed(seed uint64, prop, group string, idx int) (uint64, uint64) {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d|%s|%s|%d", seed, prop, group, idx)
	a := h.Sum64()
	h.Write([]byte("x"))
	return a, h.Sum64()
}

// boardSlot: active byte, group index uint16, case index uint32, start unix nano
const boardSlot = 32

func (r *runner) runCase(worker, gi, idx int) {
	g := &r.prop.Groups[gi]
	a, b := caseSeed(r.seed, r.prop.ID, g.Name, idx)
	t := &T{R: rand.New(rand.NewPCG(a, b)), Prop: r.prop.ID, Group: g.Name, Idx: idx, Tier: r.tier, run: r}
	if r.board != nil {
		s := r.board[worker*boardSlot:]
		binary.LittleEndian.PutUint32(s[4:], uint32(idx))
		binary.LittleEndian.PutUint32(s[8:], uint32(gi))
		binary.LittleEndian.PutUint64(s[16:], uint64(time.Now().UnixNano()))
		s[0] = 1
	}
	done := make(chan struct{})
	// its own goroutine, so that a case which calls runtime.Goexit ends alone
	go func() {
		defer close(done)
		ok := false
		defer func() {
			e := recover()
			switch v := e.(type) {
			case nil:
				if !ok {
					t.fails = append(t.fails, "the goroutine was ended")
				}
			case failNow:
			case harnessErr:
				r.mu.Lock()
				r.res.Harness = append(r.res.Harness, fmt.Sprintf("%s/%d: %s", g.Name, idx, v.msg))
				r.mu.Unlock()
			default:
				t.fails = append(t.fails, clip(fmt.Sprintf("panic: %v\n%s", e, debug.Stack()), 4000))
			}
		}()
		g.Fn(t)
		ok = true
	}()
	<-done
	for i := len(t.clean) - 1; i >= 0; i-- {
		t.clean[i]()
	}
	if t.dir != "" {
		os.RemoveAll(t.dir)
	}
	if r.board != nil {
		r.board[worker*boardSlot] = 0
	}
	r.mu.Lock()
	r.res.Evals++
	r.res.PerGroup[g.Name]++
	if len(t.fails) > 0 {
		r.res.Violations = append(r.res.Violations, violation{Group: g.Name, Idx: idx, Key: t.key, Msgs: t.fails, Notes: t.notes})
		if len(r.res.Violations) >= 10 {
			atomic.StoreInt32(&r.stop, 1)
		}
	}
	if len(r.res.Harness) > 5 {
		atomic.StoreInt32(&r.stop, 1)
	}
	r.mu.Unlock()
}

func (r *runner) runAll(onlyGroup string, onlyIdx int) {
	for gi := range r.prop.Groups {
		g := &r.prop.Groups[gi]
		if onlyGroup != "" && g.Name != onlyGroup {
			continue
		}
		n := g.Quick
		if r.tier == "thorough" {
			n = g.Thorough
		}
		if onlyIdx >= 0 {
			r.runCase(0, gi, onlyIdx)
			continue
		}
		par := g.Par
		if par == 0 {
			par = runtime.NumCPU()
			if par > 8 {
				par = 8
			}
		}
		if par > n {
			par = n
		}
		var next int64 = -1
		var wg sync.WaitGroup
		for w := 0; w < par; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				for atomic.LoadInt32(&r.stop) == 0 {
					i := int(atomic.AddInt64(&next, 1))
					if i >= n {
						return
					}
					r.runCase(w, gi, i)
				}
			}(w)
		}
		wg.Wait()
		if atomic.LoadInt32(&r.stop) != 0 {
			return
		}
	}
}

func child(prop, tier string, seed uint64, scratch, out, boardFile, onlyGroup string, onlyIdx int) {
	log.SetOutput(io.Discard)
	p := props[prop]
	r := &runner{prop: p, seed: seed, tier: tier, scratch: scratch,
		nt: map[string]map[uint64]struct{}{}, nsamp: map[string]int{},
		res: result{PerGroup: map[string]int{}, NtGroup: map[string]int{}, Counters: map[string]int64{}, Maxima: map[string]int64{}}}
	f, err := os.OpenFile(boardFile, os.O_RDWR, 0)
	if err == nil {
		b, err := syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
		if err == nil {
			r.board = b
		}
		f.Close()
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if h, ok := e.(harnessErr); ok {
					r.res.Harness = append(r.res.Harness, h.msg)
					return
				}
				panic(e)
			}
		}()
		r.runAll(onlyGroup, onlyIdx)
	}()
	for g, m := range r.nt {
		r.res.NtGroup[g] = len(m)
		r.res.Nontrivial += len(m)
	}
	r.res.Done = true
	data, err := json.Marshal(&r.res)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(out, data, 0644); err != nil {
		panic(err)
	}
}

// rssOf returns the resident memory of a process in bytes.
func rssOf(pid int) int64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	if err != nil {
		return 0
	}
	var size, res int64
	fmt.Sscan(string(b), &size, &res)
	return res * int64(os.Getpagesize())
}

// cpuOf returns the CPU time a process has used, in seconds.
func cpuOf(pid int) float64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	i := bytes.LastIndexByte(b, ')')
	f := strings.Fields(string(b[i+1:]))
	if len(f) < 13 {
		return 0
	}
	var u, s float64
	fmt.Sscan(f[11], &u)
	fmt.Sscan(f[12], &s)
	return (u + s) / 100
}

const (
	memLimit  = 6 << 30
	hangLimit = 150 * time.Second
)

type replayFile struct {
	Property  string    `json:"property"`
	Seed      uint64    `json:"seed"`
	Tier      string    `json:"tier"`
	Violation violation `json:"violation"`
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "worker" {
		workerMain(os.Args[2:])
		return
	}
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Uint64("seed", 1, "seed")
	verif := flag.String("verif", "/verif", "where evidence and replays go")
	isChild := flag.Bool("child", false, "")
	scratch := flag.String("scratch", "", "")
	out := flag.String("out", "", "")
	boardF := flag.String("board", "", "")
	og := flag.String("group", "", "only this group")
	oi := flag.Int("index", -1, "only this case")
	replay := flag.String("replay", "", "replay file")
	flag.Parse()
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		var rf replayFile
		if err := json.Unmarshal(b, &rf); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		*prop, *tier, *seed, *og, *oi = rf.Property, rf.Tier, rf.Seed, rf.Violation.Group, rf.Violation.Idx
	}
	if props[*prop] == nil {
		fmt.Println("unknown property", *prop)
		os.Exit(2)
	}
	if *isChild {
		child(*prop, *tier, *seed, *scratch, *out, *boardF, *og, *oi)
		return
	}
	os.Exit(supervise(*prop, *tier, *seed, *verif, *og, *oi, *replay != ""))
}

var zones = []string{"Asia/Taipei", "America/St_Johns", "Pacific/Apia", "Asia/Kathmandu"}

func supervise(prop, tier string, seed uint64, verif, og string, oi int, isReplay bool) int {
	start := time.Now()
	p := props[prop]
	scratch, err := os.MkdirTemp("", "bbsverif")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(scratch)
	work := filepath.Join(scratch, "work")
	os.Mkdir(work, 0755)
	outF := filepath.Join(scratch, "result.json")
	boardF := filepath.Join(scratch, "board")
	os.WriteFile(boardF, make([]byte, 4096), 0644)
	stdout, _ := os.Create(filepath.Join(scratch, "stdout"))
	stderr, _ := os.Create(filepath.Join(scratch, "stderr"))
	self, _ := os.Executable()
	args := []string{"-child", "-prop", prop, "-tier", tier, "-seed", fmt.Sprint(seed), "-scratch", work, "-out", outF, "-board", boardF, "-group", og, "-index", fmt.Sprint(oi)}
	cmd := exec.Command(self, args...)
	cmd.Dir = work
	cmd.Stdout, cmd.Stderr = stdout, stderr
	cmd.Env = append(os.Environ(),
		"GORACE=halt_on_error=0 exitcode=0 log_path="+filepath.Join(scratch, "race"),
		"GOTRACEBACK=all", "TMPDIR="+work, "VERIF_SCRATCH="+scratch,
		// what is stored does not depend on where the clock hangs
		"TZ="+zones[(seed+uint64(prop[2]))%uint64(len(zones))])
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := cmd.Start(); err != nil {
		fmt.Println(err)
		return 2
	}
	killed := ""
	waitc := make(chan error, 1)
	go func() { waitc <- cmd.Wait() }()
	var werr error
	startCPU := map[uint64]float64{}
	tick := time.NewTicker(50 * time.Millisecond)
	ticks := 0
loop:
	for {
		select {
		case werr = <-waitc:
			break loop
		case <-tick.C:
			ticks++
			if rss := rssOf(cmd.Process.Pid); rss > memLimit && killed == "" {
				killed = fmt.Sprintf("memory use grew to %d MB", rss>>20)
				dumpAndKill(cmd.Process.Pid)
			}
			if ticks%20 != 0 || killed != "" {
				continue
			}
			b, _ := os.ReadFile(boardF)
			cpu := cpuOf(cmd.Process.Pid)
			live := map[uint64]float64{}
			for i := 0; i+boardSlot <= len(b); i += boardSlot {
				if b[i] == 0 {
					continue
				}
				st := binary.LittleEndian.Uint64(b[i+16:])
				if c, ok := startCPU[st]; ok {
					live[st] = c
				} else {
					live[st] = cpu
				}
				age := time.Since(time.Unix(0, int64(st)))
				used := cpu - live[st]
				if (age > hangLimit && (used > 60 || used < 5)) || age > 4*hangLimit {
					killed = fmt.Sprintf("no progress for %v (CPU %.0f s)", age.Round(time.Second), used)
					dumpAndKill(cmd.Process.Pid)
					break
				}
			}
			startCPU = live
		}
	}
	tick.Stop()
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) // whatever the child left running
	stdout.Close()
	stderr.Close()

	var res result
	data, rerr := os.ReadFile(outF)
	if rerr == nil {
		rerr = json.Unmarshal(data, &res)
	}
	errOut, _ := os.ReadFile(filepath.Join(scratch, "stderr"))
	if rerr != nil || !res.Done || killed != "" {
		v := violation{}
		b, _ := os.ReadFile(boardF)
		var running []string
		for i := 0; i+boardSlot <= len(b); i += boardSlot {
			if b[i] == 0 {
				continue
			}
			gi, ci := int(binary.LittleEndian.Uint32(b[i+8:])), int(binary.LittleEndian.Uint32(b[i+4:]))
			if gi >= len(p.Groups) {
				continue
			}
			running = append(running, fmt.Sprintf("%s/%d", p.Groups[gi].Name, ci))
			if v.Group == "" {
				v.Group, v.Idx = p.Groups[gi].Name, ci
			}
		}
		why := "the process under test ended: " + fmt.Sprint(werr)
		if killed != "" {
			why = killed
		}
		v.Msgs = append(v.Msgs, why, "cases running then: "+strings.Join(running, " "))
		v.Notes = append(v.Notes, clipEnds(string(errOut), 6000))
		if bytes.Contains(errOut, []byte("verifharness.(*T).Harness")) && killed == "" && len(running) == 0 {
			fmt.Println("harness error:", clipEnds(string(errOut), 3000))
			return 2
		}
		res.Violations = append(res.Violations, v)
	}
	// race reports, of this process or the ones it started
	races, _ := filepath.Glob(filepath.Join(scratch, "race*"))
	seen := map[string]bool{}
	sort.Strings(races)
	for _, rf := range races {
		b, _ := os.ReadFile(rf)
		for _, blk := range strings.Split(string(b), "==================") {
			if !strings.Contains(blk, "WARNING: DATA RACE") {
				continue
			}
			res.Counters = addCount(res.Counters, "race_reports", 1)
			k := raceKey(blk)
			if seen[k] {
				continue
			}
			seen[k] = true
			res.Violations = append(res.Violations, violation{Group: "race", Idx: len(seen), Key: k, Msgs: []string{"data race", clip(blk, 4000)}})
		}
	}

	rc := 0
	known := loadKnown(verif)
	var reported int
	for _, v := range res.Violations {
		if v.Key != "" && known[prop+"|"+v.Key] != "" {
			continue
		}
		reported++
	}
	for k, text := range known {
		if strings.HasPrefix(k, prop+"|") {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, text)
		}
	}
	if reported > 0 {
		rc = 1
		rdir := filepath.Join(verif, "replays")
		os.MkdirAll(rdir, 0755)
		n := 0
		for _, v := range res.Violations {
			if v.Key != "" && known[prop+"|"+v.Key] != "" {
				continue
			}
			rp := filepath.Join(rdir, fmt.Sprintf("%s-%s-%d.json", prop, strings.ReplaceAll(v.Group, "/", "_"), v.Idx))
			b, _ := json.MarshalIndent(replayFile{prop, seed, tier, v}, "", " ")
			os.WriteFile(rp, b, 0644)
			if n < 5 {
				fmt.Printf("%s/%d: %s\n", v.Group, v.Idx, clip(strings.Join(v.Msgs, "\n"), 2500))
				for _, s := range v.Notes {
					fmt.Println("   ", clip(s, 1500))
				}
			}
			n++
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
		}
	} else if len(res.Harness) > 0 {
		fmt.Println("harness errors:", clip(strings.Join(res.Harness, "\n"), 2500))
		rc = 2
	} else if res.Nontrivial == 0 {
		fmt.Println("nothing was observed: no verdict")
		rc = 2
	}
	if isReplay || og != "" {
		fmt.Printf("property=%s replay: evaluations=%d violations=%d\n", prop, res.Evals, reported)
		return rc
	}
	cov := map[string]interface{}{
		"evaluations":          res.Evals,
		"distinct_nontrivial":  res.Nontrivial,
		"rule":                 p.Rule,
		"samples":              res.Samples,
		"cases_per_group":      res.PerGroup,
		"nontrivial_per_group": res.NtGroup,
		"observed":             res.Counters,
		"observed_max":         res.Maxima,
	}
	if res.Samples == nil {
		cov["samples"] = []string{}
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": p.Level,
		"coverage": cov, "assumptions": append([]string{}, p.Assume...),
		"wall_s": time.Since(start).Seconds(), "violations": reported,
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), b, 0644); err != nil {
		fmt.Println(err)
		return 2
	}
	fmt.Printf("property=%s tier=%s seed=%d evaluations=%d nontrivial=%d violations=%d wall=%.1fs\n", prop, tier, seed, res.Evals, res.Nontrivial, reported, time.Since(start).Seconds())
	return rc
}

func addCount(m map[string]int64, k string, n int64) map[string]int64 {
	if m == nil {
		m = map[string]int64{}
	}
	m[k] += n
	return m
}

// raceKey is the pair of functions of a race report, without line numbers.
func raceKey(blk string) string {
	var fns []string
	lines := strings.Split(blk, "\n")
	for i, l := range lines {
		if (strings.Contains(l, "rite at 0x") || strings.Contains(l, "ead at 0x")) && i+1 < len(lines) {
			fns = append(fns, strings.TrimSpace(lines[i+1]))
		}
	}
	sort.Strings(fns)
	return "race:" + strings.Join(fns, "~")
}

func dumpAndKill(pid int) {
	syscall.Kill(pid, syscall.SIGQUIT)
	time.Sleep(2 * time.Second)
	syscall.Kill(-pid, syscall.SIGKILL)
}

func clipEnds(s string, n int) string {
	if len(s) <= n {
		return s
	}
	return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
}

// loadKnown reads KNOWN_FINDINGS: "finding: property=C01 key=<key> <text>".
func loadKnown(verif string) map[string]string {
	ret := map[string]string{}
	b, _ := os.ReadFile(filepath.Join(verif, "KNOWN_FINDINGS"))
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		f := strings.Fields(l)
		if len(f) < 4 || !strings.HasPrefix(f[1], "property=") || !strings.HasPrefix(f[2], "key=") {
			continue
		}
		ret[f[1][9:]+"|"+f[2][4:]] = strings.Join(f[3:], " ")
	}
	return ret
}
