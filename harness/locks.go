package main

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/Ptt-official-app/go-bbs/filelock"
)

// lstep is one time a client has the lock.
type lstep struct {
	Shared  bool
	Wait    int // microseconds before it is asked for
	Hold    int // microseconds
	Release string
	Mode    int // how the file is opened
}

type lev struct {
	client    int
	step      int
	shared    bool
	how       string
	call      int64
	acq, rel  int64
	done      bool
	err, mode string
}

var openModes = []int{os.O_RDWR, os.O_RDONLY, os.O_WRONLY | os.O_APPEND}

// runLocks takes and releases the lock, say is told of each event.
func runLocks(path, counter string, steps []lstep, say func(s string)) {
	var f *os.File
	for i, s := range steps {
		time.Sleep(time.Duration(s.Wait) * time.Microsecond)
		if f == nil {
			var err error
			if f, err = os.OpenFile(path, s.Mode, 0); err != nil {
				say(fmt.Sprintf("%d error %v", i, err))
				return
			}
		}
		call := mono()
		var err error
		if s.Shared {
			err = filelock.RLock(f)
		} else {
			err = filelock.Lock(f)
		}
		if err != nil {
			say(fmt.Sprintf("%d error %v", i, err))
			return
		}
		say(fmt.Sprintf("%d got %d %d", i, call, mono()))
		n := 0
		if !s.Shared { // a counter which is only right when nobody else has it
			b, _ := os.ReadFile(counter)
			n, _ = strconv.Atoi(string(b))
		}
		if s.Hold < 50 {
			for k := 0; k < s.Hold; k++ {
				runtime.Gosched()
			}
		} else {
			time.Sleep(time.Duration(s.Hold) * time.Microsecond)
		}
		if !s.Shared {
			os.WriteFile(counter, []byte(strconv.Itoa(n+1)), 0644)
		}
		say(fmt.Sprintf("%d gave %d", i, mono()))
		switch s.Release {
		case "unlock":
			if err := filelock.Unlock(f); err != nil {
				say(fmt.Sprintf("%d error %v", i, err))
				return
			}
		case "close":
			f.Close()
			f = nil
		case "die":
			syscall.Kill(os.Getpid(), syscall.SIGKILL)
			time.Sleep(time.Minute)
		}
	}
	if f != nil {
		f.Close()
	}
}

func workerLock(args []string) {
	var steps [][]lstep
	if err := json.Unmarshal([]byte(args[2]), &steps); err != nil {
		os.Exit(99)
	}
	fmt.Println("ready")
	bufio.NewReader(os.Stdin).ReadByte()
	var wg sync.WaitGroup
	for i, l := range steps {
		wg.Add(1)
		go func() {
			defer wg.Done()
			runLocks(args[0], args[1], l, func(s string) {
				os.Stdout.WriteString(fmt.Sprintf("%d %s\n", i, s))
			})
		}()
	}
	wg.Wait()
	fmt.Println("end")
}

func genSteps(r *rand.Rand, n int) (l []lstep) {
	sh := r.IntN(3)
	for i := 0; i < n; i++ {
		s := lstep{Shared: sh == 0 && r.IntN(2) == 0 || sh == 1 && r.IntN(6) == 0 || sh == 2 && r.IntN(5) > 0, Release: "unlock", Mode: openModes[r.IntN(3)]}
		if r.IntN(3) == 0 {
			s.Release = "close"
		}
		if r.IntN(3) == 0 {
			s.Wait = r.IntN(1500)
		}
		s.Hold = r.IntN(30)
		if r.IntN(3) == 0 {
			s.Hold = 100 + r.IntN(1500)
		}
		l = append(l, s)
	}
	return
}

func c40(t *T) {
	r := t.R
	path, counter := tmpName(t, "lock"), tmpName(t, "counter")
	writeFile(t, path, nil)
	writeFile(t, counter, []byte("0"))
	nproc := r.IntN(4)
	type proc struct {
		steps [][]lstep
		ids   []int
		dies  bool
		cmd   *exec.Cmd
		in    *os.File
		out   *bufio.Scanner
	}
	var mu sync.Mutex
	evs := map[string]*lev{}
	nclient := 0
	event := func(client int, mode string, steps []lstep, s string) {
		mu.Lock()
		defer mu.Unlock()
		f := strings.Fields(s)
		if len(f) < 2 {
			return
		}
		i, _ := strconv.Atoi(f[0])
		k := fmt.Sprintf("%d/%d", client, i)
		e := evs[k]
		if e == nil {
			e = &lev{client: client, step: i, shared: steps[i].Shared, how: steps[i].Release, mode: mode}
			evs[k] = e
		}
		switch f[1] {
		case "got":
			e.call, _ = strconv.ParseInt(f[2], 10, 64)
			e.acq, _ = strconv.ParseInt(f[3], 10, 64)
		case "gave":
			e.rel, _ = strconv.ParseInt(f[2], 10, 64)
			e.done = true
		case "error":
			e.err = s
		}
	}
	var local [][]lstep
	for i := 1 + r.IntN(4); i > 0; i-- {
		local = append(local, genSteps(r, 2+r.IntN(8)))
	}
	nclient = len(local)
	var procs []*proc
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	deaths := 0
	total := 0
	for _, l := range local {
		total += len(l)
	}
	for k := 0; k < nproc; k++ {
		p := &proc{}
		n := 1 + r.IntN(3)
		for i := 0; i < n; i++ {
			p.steps = append(p.steps, genSteps(r, 2+r.IntN(8)))
			p.ids = append(p.ids, nclient)
			nclient++
		}
		if r.IntN(3) == 0 { // it dies while it has the lock
			p.dies = true
			p.steps, p.ids = p.steps[:1], p.ids[:1]
			s := p.steps[0]
			s[len(s)-1].Release = "die"
			deaths++
		}
		js, _ := json.Marshal(p.steps)
		cmd, _ := workerCmd(t, ctx, workerOpt{}, "lock", path, counter, string(js))
		p.cmd = cmd
		in, err := cmd.StdinPipe()
		t.Harness(err)
		p.in = in.(interface{}).(*os.File)
		o, err := cmd.StdoutPipe()
		t.Harness(err)
		p.out = bufio.NewScanner(o)
		t.Harness(cmd.Start())
		if !p.out.Scan() || p.out.Text() != "ready" {
			t.Harness(fmt.Errorf("lock worker: %q", p.out.Text()))
		}
		for _, l := range p.steps {
			total += len(l)
		}
		procs = append(procs, p)
	}
	var wg sync.WaitGroup
	start := make(chan bool)
	for i, l := range local {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			runLocks(path, counter, l, func(s string) { event(i, "goroutine", l, s) })
		}()
	}
	for k, p := range procs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for p.out.Scan() {
				var c int
				s := p.out.Text()
				if n, _ := fmt.Sscanf(s, "%d ", &c); n == 1 && c < len(p.ids) {
					event(p.ids[c], fmt.Sprintf("process %d", k), p.steps[c], s[strings.IndexByte(s, ' ')+1:])
				}
			}
			p.cmd.Wait()
		}()
		p.in.Write([]byte("\n"))
	}
	close(start)
	ended := make(chan bool)
	go func() { wg.Wait(); close(ended) }()
	late := time.NewTimer(100 * time.Second)
	defer late.Stop()
	stuck := false
	select {
	case <-ended:
	case <-late.C:
		stuck = true
	}
	mu.Lock()
	defer mu.Unlock()
	var l []*lev
	ex := 0
	for _, e := range evs {
		l = append(l, e)
		if !e.shared && e.done {
			ex++
		}
	}
	sort.Slice(l, func(a, b int) bool { return l[a].acq < l[b].acq })
	var sb strings.Builder
	for _, e := range l {
		fmt.Fprintf(&sb, "client %d (%s) %s: asked %d got %d gave %d by %s %s\n", e.client, e.mode, map[bool]string{true: "shared", false: "exclusive"}[e.shared], e.call-l[0].acq, e.acq-l[0].acq, e.rel-l[0].acq, e.how, e.err)
	}
	t.Note("%s", sb.String())
	for _, e := range l {
		t.Check(e.err == "", "client %d (%s): %s", e.client, e.mode, e.err)
	}
	shared, waits := 0, 0
	for i, a := range l {
		for _, b := range l[i+1:] {
			if b.acq >= a.rel && a.done {
				if b.call < a.rel && b.client != a.client {
					waits++
				}
				continue
			}
			if a.client == b.client {
				continue
			}
			if a.shared && b.shared {
				shared++
				continue
			}
			t.Fatalf("client %d (%s) and client %d (%s) had the lock at the same time", a.client, a.mode, b.client, b.mode)
		}
	}
	t.Check(!stuck, "after 100 s not all clients got the lock: %d of %d", len(l), total)
	t.Check(len(l) == total, "%d of %d times the lock was got", len(l), total)
	n, _ := strconv.Atoi(string(readFile(t, counter)))
	t.Check(n == ex, "the counter which is increased under the exclusive lock is %d after %d increments", n, ex)
	t.Count("locks", len(l))
	t.Count("exclusive", ex)
	t.Count("shared_at_the_same_time", shared)
	t.Count("waited_for_a_release", waits)
	t.Count("holders_which_died", deaths)
	var key strings.Builder
	for _, e := range l {
		fmt.Fprintf(&key, "%d%v", e.client, e.shared)
	}
	t.Nontrivial(key.String())
	t.Sample("%d clients, %d processes, %d locks, %d shared pairs", nclient, nproc, len(l), shared)
}

// c40handover: a holder, a request which waits, and each way of release.
func c40handover(t *T) {
	i := t.Idx
	holderShared := i%3 == 0
	waiterShared := i%3 == 1
	how := []string{"unlock", "close", "die"}[i/3%3]
	waiterProc := i/9%2 == 1
	holderProc := i/18%2 == 1 || how == "die"
	path, counter := tmpName(t, "lock"), tmpName(t, "counter")
	writeFile(t, path, nil)
	ctx, cancel := context.WithTimeout(context.Background(), 140*time.Second)
	defer cancel()
	hold := 20000 + t.R.IntN(30000)
	type one struct {
		got, gave chan int64
		fail      chan string
	}
	launch := func(proc bool, s lstep) *one {
		o := &one{make(chan int64, 1), make(chan int64, 1), make(chan string, 1)}
		on := func(s string) {
			f := strings.Fields(s)
			switch {
			case len(f) > 3 && f[1] == "got":
				x, _ := strconv.ParseInt(f[3], 10, 64)
				o.got <- x
			case len(f) > 2 && f[1] == "gave":
				x, _ := strconv.ParseInt(f[2], 10, 64)
				o.gave <- x
			case len(f) > 1 && f[1] == "error":
				o.fail <- s
			}
		}
		if !proc {
			go runLocks(path, counter, []lstep{s}, on)
			return o
		}
		js, _ := json.Marshal([][]lstep{{s}})
		opt := workerOpt{}
		if t.R.IntN(2) == 0 { // a signal interrupts the request, which then goes on
			n := 1 + t.R.IntN(4)
			if t.R.IntN(3) == 0 {
				n = 1 + t.R.IntN(200)
			}
			opt.strace = []string{"-e", "trace=flock", "-e", fmt.Sprintf("inject=flock:error=EINTR:when=1..%d", n)}
			t.Count("interruptions", n)
		}
		cmd, _ := workerCmd(t, ctx, opt, "lock", path, counter, string(js))
		cmd.Stdin = strings.NewReader("\n")
		out, err := cmd.StdoutPipe()
		t.Harness(err)
		t.Harness(cmd.Start())
		go func() {
			sc := bufio.NewScanner(out)
			for sc.Scan() {
				if _, after, ok := strings.Cut(sc.Text(), " "); ok {
					on(after)
				}
			}
			cmd.Wait()
		}()
		return o
	}
	wait := func(c chan int64, o *one, what string) int64 {
		select {
		case x := <-c:
			return x
		case s := <-o.fail:
			t.Fatalf("%s: %s", what, s)
		case <-time.After(60 * time.Second):
			t.Fatalf("%s: nothing within 60 s", what)
		}
		return 0
	}
	t.Note("holder shared %v in a process %v, released by %s; waiter shared %v in a process %v", holderShared, holderProc, how, waiterShared, waiterProc)
	h := launch(holderProc, lstep{Shared: holderShared, Hold: hold, Release: how, Mode: os.O_RDWR})
	wait(h.got, h, "the first request")
	w := launch(waiterProc, lstep{Shared: waiterShared, Release: "unlock", Mode: openModes[t.R.IntN(2)]})
	got := wait(w.got, w, "the request of the waiter")
	gave := wait(h.gave, h, "the release")
	t.Check(got >= gave, "the waiter got the lock %d us before it was released", (gave-got)/1000)
	t.Count("handovers", 1)
	t.Nontrivial(i % 36)
}

// c40shared: any number of shared holders, and nobody else then.
func c40shared(t *T) {
	path := tmpName(t, "lock")
	writeFile(t, path, nil)
	n := 2 + t.R.IntN(20)
	var fs []*os.File
	defer func() {
		for _, f := range fs {
			f.Close()
		}
	}()
	got := make(chan error, 1)
	for i := 0; i < n; i++ {
		f, err := os.OpenFile(path, openModes[t.R.IntN(2)], 0)
		t.Harness(err)
		fs = append(fs, f)
		go func() { got <- filelock.RLock(f) }()
		select {
		case err := <-got:
			t.Check(err == nil, "shared request %d: %v", i, err)
		case <-time.After(60 * time.Second):
			t.Fatalf("with %d shared holders another shared request waits", i)
		}
	}
	x, err := os.OpenFile(path, os.O_RDWR, 0)
	t.Harness(err)
	exc := make(chan error, 1)
	go func() { exc <- filelock.Lock(x) }()
	for i, f := range fs {
		select {
		case err := <-exc:
			t.Fatalf("an exclusive request ended (%v) with %d shared holders", err, n-i)
		case <-time.After(time.Duration(t.R.IntN(3)) * time.Millisecond):
		}
		if i%2 == 0 {
			t.Check(filelock.Unlock(f) == nil, "unlock")
		} else {
			f.Close()
		}
	}
	select {
	case err := <-exc:
		t.Check(err == nil, "the exclusive request: %v", err)
	case <-time.After(60 * time.Second):
		t.Fatalf("all shared holders are gone and the exclusive request still waits")
	}
	x.Close()
	// a file which is not open any more
	t.Check(filelock.Lock(x) != nil, "a closed file was locked")
	t.Check(filelock.RLock(x) != nil, "a closed file was locked shared")
	// other files are not concerned
	a, _ := os.Create(filepath.Join(t.Dir(), "a"))
	b, _ := os.Create(filepath.Join(t.Dir(), "b"))
	defer a.Close()
	defer b.Close()
	t.Check(filelock.Lock(a) == nil && filelock.Lock(b) == nil, "two files can not be locked at the same time")
	t.Count("shared_holders", n)
	t.Nontrivial(n)
}

func init() {
	workers["lock"] = workerLock
	register(&Prop{ID: "C40", Rule: "a case is a set of goroutines and processes (some killed while holding) which take and release shared and exclusive locks of one file, a handover by each way of release, or a number of shared holders; distinct orders of holders are counted",
		Assume: []string{"CLOCK_MONOTONIC is the same for all processes"},
		Groups: []Group{
			{Name: "history", Quick: 200, Thorough: 10000, Fn: c40},
			{Name: "handover", Quick: 36, Thorough: 720, Fn: c40handover},
			{Name: "shared", Quick: 40, Thorough: 1000, Fn: c40shared},
		}})
}
