package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"
)

// workers are the parts of the harness which run in a process of their own.
var workers = map[string]func(args []string){
	"readfile": workerReadFile,
}

func workerMain(args []string) {
	log.SetOutput(io.Discard)
	f := workers[args[0]]
	if f == nil {
		fmt.Fprintln(os.Stderr, "unknown worker", args[0])
		os.Exit(99)
	}
	f(args[1:])
}

type workerOpt struct {
	strace []string // options of strace, nil: not traced
	dir    string
	env    []string
	limit  time.Duration
}

type workerResult struct {
	Exit     int // -1: ended by a signal
	Out      []byte
	Err      string
	Injected int // calls with an injected fault
	Trace    string
	Timeout  bool
}

// startWorker prepares the command of a worker, under strace if asked.
func workerCmd(t *T, ctx context.Context, o workerOpt, args ...string) (*exec.Cmd, string) {
	self, err := os.Executable()
	t.Harness(err)
	argv := append([]string{self, "worker"}, args...)
	trace := ""
	if o.strace != nil {
		f, err := os.CreateTemp(t.Dir(), "trace")
		t.Harness(err)
		f.Close()
		trace = f.Name()
		argv = append(append([]string{"strace", "-f", "-q", "-o", trace}, o.strace...), argv...)
	}
	cmd := exec.CommandContext(ctx, argv[0], argv[1:]...)
	cmd.Dir = o.dir
	if cmd.Dir == "" {
		cmd.Dir = t.Dir()
	}
	cmd.Env = append(os.Environ(), o.env...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	cmd.WaitDelay = 5 * time.Second
	return cmd, trace
}

func runWorker(t *T, o workerOpt, args ...string) *workerResult {
	if o.limit == 0 {
		o.limit = 100 * time.Second
	}
	ctx, cancel := context.WithTimeout(context.Background(), o.limit)
	defer cancel()
	cmd, trace := workerCmd(t, ctx, o, args...)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	err := cmd.Run()
	res := &workerResult{Out: out.Bytes(), Err: clipEnds(errb.String(), 3000)}
	if cmd.ProcessState == nil {
		t.Harness(fmt.Errorf("worker %v: %v", args, err))
	}
	res.Exit = cmd.ProcessState.ExitCode()
	res.Timeout = ctx.Err() != nil
	if res.Exit == 99 {
		t.Harness(fmt.Errorf("worker %v: %s", args, res.Err))
	}
	if trace != "" {
		b, _ := os.ReadFile(trace)
		res.Trace = string(b)
		res.Injected = strings.Count(res.Trace, "(INJECTED)") + strings.Count(res.Trace, "(DELAYED)")
		os.Remove(trace)
		if strings.Contains(res.Err, "strace:") && len(b) == 0 {
			t.Harness(fmt.Errorf("strace: %s", res.Err))
		}
	}
	return res
}

func tmpName(t *T, base string) string { return filepath.Join(t.Dir(), base) }
