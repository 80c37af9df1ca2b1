package main

import (
	"bytes"
	"cmp"
	"encoding/json"
	"fmt"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"math/rand/v2"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"unsafe"
)

// A worker makes the home of a seed and runs every operation of the home once,
// in an order of that seed, while the parent lets system calls fail.

type ioRes struct {
	Name string
	Out  string   // outcome of the operation
	Held []string // files of the home which are open after it
}

type ioRun struct {
	Ops  []ioRes
	Left []string // names in the home which no operation may leave
}

var createdArticle = regexp.MustCompile(`/M\.\d+\.A\.[0-9A-F]{3}$`)

// workerWorld: seeds, directory, reads or all, odd or "".
func workerWorld(args []string) {
	defer func() {
		switch e := recover().(type) {
		case nil:
		case harnessErr:
			fmt.Fprintln(os.Stderr, e.msg)
			os.Exit(99)
		default:
			panic(e)
		}
	}()
	a, _ := strconv.ParseUint(args[0], 10, 64)
	b, _ := strconv.ParseUint(args[1], 10, 64)
	t := &T{R: rand.New(rand.NewPCG(a, b)), dir: args[2], run: &runner{nt: map[string]map[uint64]struct{}{},
		res: result{Counters: map[string]int64{}, Maxima: map[string]int64{}}}}
	out := os.Stdout
	os.Stdout = os.Stderr // the library prints there
	giveLayouts(t, args[5])
	debug.SetGCPercent(-1) // nothing is closed because it is garbage
	w := genWorld(t, "h", args[4] == "odd")
	var ops []wwop
	for _, o := range w.reads(t.R) {
		ops = append(ops, wwop{o, func(interface{}) []string { return nil }})
	}
	if args[3] == "all" {
		ops = append(ops, w.writes(t.R)...)
		t.R.Shuffle(len(ops), func(i, j int) { ops[i], ops[j] = ops[j], ops[i] })
	}
	s, err := newSite(w.dir)
	t.Harness(err)
	before := usageOf(w.dir).names
	adds := map[string]bool{}
	var run ioRun
	for i, o := range ops {
		syscall.Access(faultMark+"/"+strconv.Itoa(i), 0)
		x, err := o.safe(s)
		syscall.Access(faultMark+"/-", 0)
		res := ioRes{Name: o.name, Out: outcome(x, err, w.dir)}
		for _, n := range o.adds(x) {
			adds[n] = true
		}
		for fd := 0; fd < 100; fd++ {
			if l, err := os.Readlink("/proc/self/fd/" + strconv.Itoa(fd)); err == nil && strings.HasPrefix(l, w.dir) {
				res.Held = append(res.Held, fmt.Sprintf("%d %s", fd, l[len(w.dir):]))
			}
		}
		run.Ops = append(run.Ops, res)
	}
	syscall.Access(faultMark+"/end", 0)
	for n := range usageOf(w.dir).names {
		if !before[n] && !adds[n] && !createdArticle.MatchString(n) {
			run.Left = append(run.Left, n)
		}
	}
	sort.Strings(run.Left)
	js, _ := json.Marshal(run)
	for len(js) > 0 { // by a call which does not fail
		v := syscall.Iovec{Base: &js[0], Len: uint64(len(js))}
		n, _, e := syscall.Syscall(syscall.SYS_WRITEV, out.Fd(), uintptr(unsafe.Pointer(&v)), 1)
		if e != 0 {
			os.Exit(99)
		}
		js = js[n:]
	}
}

// workerCold: seeds, directory, layouts. Goroutines use a home at once in a
// process where nothing of the library was used before.
func workerCold(args []string) {
	defer func() {
		switch e := recover().(type) {
		case nil:
		case harnessErr:
			fmt.Fprintln(os.Stderr, e.msg)
			os.Exit(99)
		default:
			panic(e)
		}
	}()
	a, _ := strconv.ParseUint(args[0], 10, 64)
	b, _ := strconv.ParseUint(args[1], 10, 64)
	t := &T{R: rand.New(rand.NewPCG(a, b)), dir: args[2], run: &runner{nt: map[string]map[uint64]struct{}{},
		res: result{Counters: map[string]int64{}, Maxima: map[string]int64{}}}}
	out := os.Stdout
	os.Stdout = os.Stderr
	giveLayouts(t, args[3])
	r := t.R
	w := genWorld(t, "h", r.IntN(2) == 0)
	type job struct {
		name string
		run  func(s *site) string
	}
	var jobs []job
	for _, o := range w.reads(r) {
		o := o
		jobs = append(jobs, job{o.name, func(s *site) string { return outcomeOf(&o, s) }})
	}
	for _, o := range memoryOps(t, r) {
		o := o
		jobs = append(jobs, job{o.name, func(*site) string { return safeRender(o.run) }})
	}
	r.Shuffle(len(jobs), func(i, j int) { jobs[i], jobs[j] = jobs[j], jobs[i] })
	if n := 1 + r.IntN(50); n < len(jobs) {
		jobs = jobs[:n]
	}
	writes := w.writes(r)
	if r.IntN(2) == 0 {
		writes = nil
	}
	const g = 8
	var sites [g]*site
	var errs [g]error
	outs := make([][g]string, len(jobs))
	var wg sync.WaitGroup
	arrived := make([]atomic.Int32, len(jobs)+len(writes)+1)
	for j := 0; j < g; j++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			step := 0
			meet := func() { // spinning, so that all go on at the same moment
				for arrived[step].Add(1); arrived[step].Load() < g; {
					runtime.Gosched()
				}
				step++
			}
			meet()
			sites[j], errs[j] = newSite(w.dir)
			if errs[j] != nil {
				sites[j] = &site{home: w.dir}
			}
			for i := range jobs {
				meet()
				outs[i][j] = jobs[i].run(sites[j])
			}
			for i := range writes {
				meet()
				writes[i].safe(sites[j])
			}
		}()
	}
	wg.Wait()
	for j, err := range errs {
		if err != nil {
			fmt.Fprintf(out, "goroutine %d: %v\n", j, err)
			return
		}
	}
	for i := range jobs {
		alone := outs[i][0]
		if writes == nil {
			alone = jobs[i].run(sites[0])
		}
		for j := range outs[i] {
			if outs[i][j] != alone {
				fmt.Fprintf(out, "%s gives goroutine %d, which uses it first with others, %s\n", jobs[i].name, j, clipDiff(outs[i][j], alone))
				return
			}
		}
	}
	fmt.Fprintf(out, "ok %d %d", len(jobs), len(writes))
}

var layoutsMade sync.Once

// haveLayouts makes the layouts which a worker needs.
func haveLayouts(t *T) {
	layoutsMade.Do(func() {
		genWorld(t, "dry", true)
		memoryOps(t, t.R)
	})
}

// c36cold: what is made at its first use is made once.
func c36cold(t *T) {
	haveLayouts(t)
	saveLayouts(t, tmpName(t, "layouts"))
	w := runWorker(t, workerOpt{}, "cold", fmt.Sprint(t.R.Uint64()), fmt.Sprint(t.R.Uint64()), mkdirs(t, tmpName(t, "w")), tmpName(t, "layouts"))
	t.Check(w.Exit == 0, "the process ended with %d: %s", w.Exit, w.Err)
	var j, n int
	_, err := fmt.Sscanf(string(w.Out), "ok %d %d", &j, &n)
	t.Check(err == nil, "%s", clip(string(w.Out), 1000))
	t.Count("first_uses", j)
	t.Count("first_changes", n)
	t.Nontrivial(t.Idx, j)
}

type ioCall struct {
	name, line string
	injected   bool
	nth        int // of its name in the whole process
}

// ioTrace cuts the trace into the calls of each operation, and tells how many
// calls of each name came before the first operation.
func ioTrace(t *T, trace string) (ops map[int][]ioCall, first map[string]int) {
	ops, first = map[int][]ioCall{}, map[string]int{}
	main, cur, began := "", -1, false
	count := map[string]int{}
	for _, l := range strings.Split(trace, "\n") {
		f := traceLine.FindStringSubmatch(l)
		if f == nil {
			continue
		}
		if main == "" {
			main = f[1]
		}
		if f[1] != main {
			continue
		}
		count[f[2]]++
		if i := strings.Index(f[3], faultMark+"/"); i >= 0 {
			rest := f[3][i+len(faultMark)+1:]
			rest = rest[:strings.IndexByte(rest, '"')]
			if n, err := strconv.Atoi(rest); err == nil {
				cur, began = n, true
			} else {
				cur = -1
			}
			if rest == "end" {
				return
			}
			continue
		}
		if !began {
			first[f[2]]++
		} else if cur >= 0 {
			ops[cur] = append(ops[cur], ioCall{f[2], clip(l[len(f[1]):], 200), strings.Contains(l, "(INJECTED)"), count[f[2]]})
		}
	}
	t.Harness(fmt.Errorf("no end of the operations in the trace"))
	return
}

// ioFaults are the errors of calls which are not tried elsewhere one by one.
var ioFaults = map[string][]string{
	"openat":     {"EMFILE", "EACCES", "EIO", "ENFILE", "ELOOP", "ENOMEM", "ESTALE"},
	"read":       {"EIO", "EISDIR", "EAGAIN", "ESTALE", "EINTR", "ENOMEM"},
	"pread64":    {"EIO", "ESTALE", "EINTR"},
	"lseek":      {"EINVAL", "EIO", "ESPIPE"},
	"fstat":      {"EIO", "ENOMEM", "ESTALE"},
	"newfstatat": {"EIO", "EACCES", "ESTALE", "ELOOP"},
	"flock":      {"ENOLCK", "EINTR", "EAGAIN", "EOPNOTSUPP"},
	"write":      {"ENOSPC", "EIO", "EFBIG", "EDQUOT", "EINTR"},
	"pwrite64":   {"ENOSPC", "EIO", "EFBIG", "EINTR"},
	"ftruncate":  {"EIO", "ENOSPC", "EFBIG"},
	"fchmod":     {"EPERM", "EIO", "EROFS"},
	"fchmodat":   {"EPERM", "EIO", "EROFS"},
	"renameat":   {"EACCES", "ENOSPC", "EXDEV"},
	"renameat2":  {"EACCES", "ENOSPC", "EXDEV"},
	"fsync":      {"EIO", "ENOSPC"},
	"mkdirat":    {"EACCES", "ENOSPC"},
	"linkat":     {"EACCES", "EXDEV", "EMLINK"},
	"statfs":     {"EIO"},
}

func ioWorker(t *T, name, mode, odd string, inject []string) (run ioRun, ops map[int][]ioCall, first map[string]int) {
	dir := mkdirs(t, tmpName(t, name))
	defer os.RemoveAll(dir)
	if t.Idx%3 == 1 { // errors are told by what they are, not by what their texts contain
		dir = mkdirs(t, filepath.Join(dir, []string{"no such file or directory", "file does not exist", "no such file or directory", "EOF"}[t.Idx/3%4]))
	}
	a, b := caseSeed(uint64(t.Idx), t.Prop, "world"+t.Group, int(t.seedOf()))
	calls := faultCalls
	opt := []string{"-e", "trace=" + calls}
	for _, in := range inject {
		opt = append(opt, "-e", "inject="+in)
	}
	w := runWorker(t, workerOpt{strace: opt}, "world", fmt.Sprint(a), fmt.Sprint(b), dir, mode, odd, tmpName(t, "layouts"))
	if w.Exit != 0 {
		t.Fatalf("%s: the process ended with %d: %s", inject, w.Exit, w.Err)
	}
	t.Harness(json.Unmarshal(w.Out, &run))
	ops, first = ioTrace(t, w.Trace)
	return
}

// c41: what a reading operation returns while calls fail is what it returns
// otherwise, or an error.
func c41(t *T) {
	ioRuns(t, "reads", []string{"openat", "read", "read", "lseek", "fstat", "newfstatat", "flock", "pread64"})
}

// c34faults: nothing stays open and no temporary file stays.
func c34faults(t *T) {
	ioRuns(t, "all", []string{"openat", "read", "lseek", "fstat", "newfstatat", "flock", "pread64", "write", "write", "pwrite64", "ftruncate", "fchmod", "fchmodat", "renameat", "renameat2", "fsync", "mkdirat", "linkat"})
}

func ioRuns(t *T, mode string, calls []string) {
	r := t.R
	odd := []string{"odd", ""}[t.Idx%2]
	haveLayouts(t)
	saveLayouts(t, tmpName(t, "layouts"))
	base, ops, first := ioWorker(t, "base", mode, odd, nil)
	total := map[string]int{}
	for _, l := range ops {
		for _, c := range l {
			total[c.name]++
		}
	}
	for i, o := range base.Ops {
		t.Check(len(o.Held) == 0, "without a fault %s leaves open: %v (operation %d)", o.Name, o.Held, i)
	}
	t.Check(len(base.Left) == 0, "without a fault files are left: %v", base.Left)
	// the calls by what makes them: a function and its n-th call of a kind
	sites := map[string][]int{}
	var keys []string
	for k := range base.Ops {
		fn, _, _ := strings.Cut(base.Ops[k].Name, "(")
		nth := map[string]int{}
		for _, c := range ops[k] {
			if !slices.Contains(calls, c.name) {
				continue
			}
			nth[c.name]++
			key := fmt.Sprintf("%s %s %d", c.name, fn, min(nth[c.name], 4))
			if sites[key] == nil {
				keys = append(keys, key)
			}
			sites[key] = append(sites[key], c.nth)
		}
	}
	t.Max("call_sites", len(keys))
	// the same order in every case, each begins elsewhere
	order := map[string]uint64{}
	for _, k := range keys {
		order[k], _ = caseSeed(0, k, "order", int(t.seedOf()))
	}
	slices.SortFunc(keys, func(a, b string) int { return cmp.Compare(order[a], order[b]) })
	next := t.Idx % 24 * len(keys) / 24
	n := 8
	if !t.Quick() {
		n = 24
	}
	hits := 0
	for i := 0; i < n; i++ {
		call := calls[r.IntN(len(calls))]
		if total[call] == 0 {
			continue
		}
		e := ioFaults[call][r.IntN(len(ioFaults[call]))]
		var inject []string
		step := 1 + r.IntN(12)
		if r.IntN(3) == 0 {
			step = 1 + r.IntN(total[call])
		}
		if e == "EINTR" { // it is tried again until it succeeds
			step++
		}
		from := first[call] + 1 + r.IntN(min(step, total[call]))
		inject = []string{fmt.Sprintf("%s:error=%s:when=%d+%d", call, e, from, step)}
		if i%3 > 0 {
			// a few chosen calls, each of another kind
			inject = nil
			used := map[string]bool{}
			for j := 0; j < 12 && len(inject) < 4; j++ {
				next = (next + 1) % len(keys)
				call, _, _ := strings.Cut(keys[next], " ")
				if used[call] {
					continue
				}
				used[call] = true
				l := sites[keys[next]]
				inject = append(inject, fmt.Sprintf("%s:error=%s:when=%d", call, ioFaults[call][r.IntN(len(ioFaults[call]))], l[r.IntN(len(l))]))
			}
		}
		run, ops, _ := ioWorker(t, fmt.Sprintf("f%d", i), mode, odd, inject)
		if len(run.Ops) != len(base.Ops) {
			t.Harness(fmt.Errorf("%d operations, without faults %d", len(run.Ops), len(base.Ops)))
		}
		for k, o := range run.Ops {
			b := base.Ops[k]
			if o.Name != b.Name {
				t.Harness(fmt.Errorf("operation %d is %s, without faults %s", k, o.Name, b.Name))
			}
			var hit []string
			for _, c := range ops[k] {
				if c.injected {
					hit = append(hit, c.line)
					t.Count("faults at "+c.name, 1)
					call, e = c.name, clip(c.line[strings.LastIndex(c.line, "= -1 ")+5:], 12)
				}
			}
			if len(hit) > 0 {
				hits++
				t.Nontrivial(b.Name, call, e, len(hit))
			}
			t.Count("operations", 1)
			what := fmt.Sprintf("%s with an error of %s", o.Name, clip(strings.Join(hit, " and at "), 300))
			t.Check(len(o.Held) == 0, "%s: it leaves open: %v", what, o.Held)
			t.Check(!strings.HasPrefix(o.Out, "error panic:") || strings.HasPrefix(b.Out, "error panic:"), "%s: %s", what, o.Out)
			if mode != "reads" {
				continue
			}
			switch {
			case o.Out == b.Out:
				if len(hit) > 0 {
					t.Count("the_same_despite_a_fault", 1)
				}
			case len(hit) == 0:
				t.Fatalf("%s, no call of it failed: it gives %s, without faults in other operations %s", o.Name, clip(o.Out, 300), clip(b.Out, 300))
			case strings.HasPrefix(o.Out, "error "):
				t.Count("reported", 1)
			default:
				t.Fatalf("%s: no error, and the result differs: %s\nwithout the fault: %s", what, clipDiff(b.Out, o.Out), clip(b.Out, 300))
			}
		}
		t.Check(len(run.Left) == 0, "with %s files are left: %v", inject, run.Left)
	}
	t.Count("operations_with_a_fault", hits)
	t.Sample("%d operations, %d of them with faults in %d runs", len(base.Ops), hits, n)
}

// c41search: a search goes through many files, and each call of it can fail.
func c41search(t *T) {
	r := t.R
	m := newHome(t, "h")
	haveLayouts(t)
	users := []string{"alice", "bob", "Alice"}
	var boards []string
	var arts [][2]string
	var brd []byte
	favs := []byte{0x9d, 0x0e}
	nb := 1 + r.IntN(4)
	var items []byte
	for i := 0; i < nb; i++ {
		id := fmt.Sprintf("Board%d", i)
		brd = append(brd, boardRec(t, id)...)
		boards = append(boards, id)
		item := make([]byte, 14)
		item[0], item[1], item[2] = 1, 1, byte(i+1)
		items = append(items, item...)
		if i > 0 && r.IntN(5) == 0 {
			continue // no directory
		}
		mkdirs(t, m.boardDir(id))
		for k := r.IntN(6); k >= 0; k-- {
			file := fmt.Sprintf("M.%d.A.%03X", 1600000000+i, k)
			a, err := (&pttbbs.Connector{}).NewArticleRecord(file, users[r.IntN(3)], "1/02", fmt.Sprint("title ", k))
			t.Harness(err)
			t.Harness(m.db.AddArticleRecordFileRecord(id, a))
			if r.IntN(8) == 0 {
				continue // deleted
			}
			text := "text\n"
			for n := r.IntN(4); n > 0; n-- {
				text += fmt.Sprintf("\xb1\xc0 %s: comment %d 0%d/1%d 03:04\n", users[r.IntN(3)], n, 1+n, n)
			}
			if r.IntN(6) == 0 {
				text += strings.Repeat("more\n", 3000)
			}
			writeFile(t, filepath.Join(m.boardDir(id), file), []byte(text))
			arts = append(arts, [2]string{id, file})
		}
	}
	writeFile(t, m.brd(), brd)
	favs = append(append(favs, byte(nb), 0, 0, 0), items...)
	for _, u := range users {
		mkdirs(t, m.userDir(u))
		writeFile(t, filepath.Join(m.userDir(u), ".fav"), favs)
	}
	op := cop{Op: []string{"usercomments", "boardcomments", "userarts", "boardcomments", "artcomments", "favs", "usercomments", "listart"}[t.Idx%8], Board: boards[r.IntN(nb)], File: users[r.IntN(3)]}
	if op.Op == "artcomments" {
		if len(arts) == 0 {
			return
		}
		a := arts[r.IntN(len(arts))]
		op.Board, op.File = a[0], a[1]
	}
	pts, base := faultPoints(t, m.dir, op)
	t.Check(base.Err == "", "%s without a fault: %s", op.Op, base.Err)
	hits, same := 0, 0
	nth := map[string]int{}
	for _, p := range pts {
		errs := ioFaults[p.call]
		if len(errs) == 0 || p.call == "write" { // what it writes goes to the log
			continue
		}
		nth[p.call]++
		e := errs[r.IntN(len(errs))]
		res, done, hit := injectAt(t, m.dir, op, p, "error="+e)
		if !hit {
			continue
		}
		hits++
		t.Count("faults at "+p.call, 1)
		t.Nontrivial(op.Op, p.call, e, nth[p.call])
		what := fmt.Sprintf("%s of %q %q with %s at %s", op.Op, op.Board, op.File, e, p.line)
		t.Check(done, "%s: it did not return", what)
		if res.Err != "" {
			t.Count("reported", 1)
			continue
		}
		same++
		t.Check(slices.Equal(res.Names, base.Names) && bytes.Equal(res.Data, base.Data), "%s: no error, and %d results %v, without the fault %d: %v", what, len(res.Names), clip(fmt.Sprint(res.Names), 300), len(base.Names), clip(fmt.Sprint(base.Names), 300))
	}
	t.Count("the_same_despite_a_fault", same)
	t.Count("operations_with_a_fault", hits)
	t.Max("calls_of_a_search", len(pts))
	t.Sample("%s of %q %q: %d results, %d faults", op.Op, op.Board, op.File, len(base.Names), hits)
}

func (t *T) seedOf() uint64 {
	if t.run == nil {
		return 0
	}
	return t.run.seed
}

func init() {
	workers["world"] = workerWorld
	workers["cold"] = workerCold
	register(&Prop{ID: "C41",
		Rule:   "a home and every reading operation on it, while strace lets every n-th call of one kind fail; nontrivial by operation, call and error",
		Assume: []string{"strace makes the calls fail as the kernel would"},
		Groups: []Group{
			{Name: "faults", Quick: 30, Thorough: 1200, Fn: c41},
			{Name: "search", Quick: 48, Thorough: 2400, Fn: c41search}}})
}
