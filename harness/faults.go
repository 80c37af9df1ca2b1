package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"syscall"

	bbs "github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
)

func init() {
	if len(os.Args) > 2 && os.Args[1] == "worker" && (os.Args[2] == "one" || os.Args[2] == "world") {
		// all system calls of the operation are made by the first thread
		runtime.LockOSThread()
	}
}

const faultMark = "/mark-of-the-harness"

// workerOne runs one operation between two marks: home, operation, file size
// limit or -1, "ignore" or "" for the signal which says that it was reached.
func workerOne(args []string) {
	var o cop
	if err := json.Unmarshal([]byte(args[1]), &o); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(99)
	}
	s, err := newSite(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(99)
	}
	if n, _ := strconv.Atoi(args[2]); n >= 0 {
		if args[3] == "ignore" {
			signal.Ignore(syscall.SIGXFSZ)
		}
		l := syscall.Rlimit{Cur: uint64(n), Max: uint64(n)}
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l); err != nil {
			os.Exit(99)
		}
	}
	syscall.Access(faultMark, 0)
	res := s.run(o)
	syscall.Access(faultMark, 0)
	b, _ := json.Marshal(res)
	os.Stdout.Write(b)
}

const faultCalls = "openat,open,creat,close,read,write,pread64,pwrite64,writev,lseek,fstat,newfstatat,ftruncate,truncate,flock,fcntl,fsync,fdatasync,rename,renameat,renameat2,unlink,unlinkat,fchmod,fchmodat,chmod,faccessat,faccessat2,mkdirat,copy_file_range,sendfile,splice,link,linkat,symlinkat,statfs"

// fpoint is one system call of an operation: the nth call of its name.
type fpoint struct {
	call string
	nth  int
	line string
}

var traceLine = regexp.MustCompile(`^(\d+) +([a-z0-9_]+)\((.*)`)

// faultPoints runs an operation and returns its system calls.
func faultPoints(t *T, home string, o cop) (pts []fpoint, res cres) {
	js, _ := json.Marshal(o)
	w := runWorker(t, workerOpt{strace: []string{"-y", "-e", "trace=" + faultCalls}}, "one", home, string(js), "-1", "")
	if w.Exit != 0 {
		t.Fatalf("%s without any fault ended the process: %s", o.Op, w.Err)
	}
	t.Harness(json.Unmarshal(w.Out, &res))
	count := map[string]int{}
	in := false
	main := ""
	for _, l := range strings.Split(w.Trace, "\n") {
		f := traceLine.FindStringSubmatch(l)
		if f == nil {
			continue
		}
		if main == "" {
			main = f[1]
		}
		if f[1] != main {
			if strings.Contains(l, faultMark) {
				t.Harness(fmt.Errorf("the operation was made by another thread"))
			}
			continue
		}
		count[f[2]]++
		if strings.Contains(f[3], faultMark) {
			if in {
				return
			}
			in = true
			continue
		}
		if in {
			pts = append(pts, fpoint{f[2], count[f[2]], clip(l[len(f[1]):], 160)})
		}
	}
	t.Harness(fmt.Errorf("no end of the operation in the trace: %s", clip(w.Trace, 2000)))
	return
}

// injectAt runs an operation with a fault at a point. done: it returned.
func injectAt(t *T, home string, o cop, p fpoint, fault string) (res cres, done, hit bool) {
	js, _ := json.Marshal(o)
	w := runWorker(t, workerOpt{strace: []string{"-y", "-e", "trace=" + faultCalls, "-e", fmt.Sprintf("inject=%s:%s:when=%d", p.call, fault, p.nth)}}, "one", home, string(js), "-1", "")
	marks := strings.Count(w.Trace, faultMark)
	kill := strings.HasPrefix(fault, "signal=KILL")
	switch {
	case kill:
		hit = strings.Contains(w.Trace, "killed by SIGKILL") && marks == 1
	default:
		k := strings.Index(w.Trace, "(INJECTED)")
		hit = k > strings.Index(w.Trace, faultMark) && marks >= 1 && k >= 0 && (marks < 2 || k < strings.LastIndex(w.Trace, faultMark))
	}
	if w.Exit == 0 {
		done = true
		t.Harness(json.Unmarshal(w.Out, &res))
	} else if !kill && hit {
		t.Fatalf("%s with %s at %s (%d.) ended the process with %d: %s", o.Op, fault, p.call, p.nth, w.Exit, w.Err)
	}
	return
}

// limited runs an operation with a limit of file sizes.
func limited(t *T, home string, o cop, limit int, ignore bool) (res cres, done bool) {
	js, _ := json.Marshal(o)
	ign := ""
	if ignore {
		ign = "ignore"
	}
	w := runWorker(t, workerOpt{}, "one", home, string(js), fmt.Sprint(limit), ign)
	if w.Exit == 0 {
		done = true
		t.Harness(json.Unmarshal(w.Out, &res))
	} else if ignore {
		t.Fatalf("%s with a file size limit ended the process: %s", o.Op, w.Err)
	}
	return
}

// faultsFor are the faults worth trying at a call.
func faultsFor(call string) []string {
	errs := []string{"EIO"}
	switch call {
	case "write", "pwrite64", "ftruncate", "copy_file_range", "writev":
		errs = []string{"ENOSPC", "EIO", "EINTR"}
	case "openat", "open":
		errs = []string{"EMFILE", "EACCES", "ENOSPC"}
	case "flock":
		errs = []string{"ENOLCK", "EINTR"}
	case "rename", "renameat", "renameat2":
		errs = []string{"EACCES", "ENOSPC"}
	case "read", "pread64":
		errs = []string{"EIO"}
	}
	ret := []string{"signal=KILL"}
	for _, e := range errs {
		ret = append(ret, "error="+e)
	}
	return ret
}

// fcase is a stored state, an operation on it and what may be there after it.
type fcase struct {
	op    cop
	setup func(dir string)
	check func(t *T, dir, what string, res cres, done bool)
}

// writtenFile marks the call which closes what was written.
const writtenFile = " of the file which was written"

var fdPath = regexp.MustCompile(`\(\d+<[^>]*>`)

// faultRun tries every fault at every system call of an operation.
func faultRun(t *T, name string, c fcase) {
	dry := tmpName(t, "dry")
	mkdirs(t, dry)
	c.setup(dry)
	pts, res := faultPoints(t, dry, c.op)
	c.check(t, dry, "without a fault", res, true)
	t.Check(res.Err == "", "%s without a fault: %s", name, res.Err)
	n, hits := 0, 0
	wrote := map[string]bool{}
	for _, p := range pts {
		if fd := fdPath.FindString(p.line); strings.Contains(p.call, "write") {
			wrote[fd] = true
		} else if p.call == "close" && wrote[fd] {
			p.line += writtenFile
		}
		if p.call == "faccessat" || p.call == "faccessat2" {
			continue
		}
		for _, f := range faultsFor(p.call) {
			n++
			dir := tmpName(t, fmt.Sprintf("f%d", n))
			mkdirs(t, dir)
			c.setup(dir)
			res, done, hit := injectAt(t, dir, c.op, p, f)
			what := fmt.Sprintf("%s, %s at %s", name, f, p.line)
			if !done {
				what += " (ended there)"
			} else {
				what += fmt.Sprintf(" (result %q)", res.Err)
			}
			if hit {
				hits++
				t.Count("faults at "+p.call, 1)
				t.Nontrivial(name, p.call, p.nth-firstNth(pts, p.call), f, t.Idx)
				if done && res.Err == "" {
					t.Count("operations_which_succeeded_despite_a_fault", 1)
				} else if done {
					t.Count("operations_which_reported_the_fault", 1)
				} else {
					t.Count("operations_ended", 1)
				}
			} else {
				t.Count("faults_missed", 1)
			}
			c.check(t, dir, what, res, done)
			os.RemoveAll(dir)
		}
	}
	t.Sample("%s: %d system calls, %d faults of %d hit", name, len(pts), hits, n)
}

func firstNth(pts []fpoint, call string) int {
	for _, p := range pts {
		if p.call == call {
			return p.nth
		}
	}
	return 0
}

// limitRun lets the file grow to every one of some sizes and no further.
func limitRun(t *T, name string, c fcase, limits []int) {
	for _, l := range limits {
		for _, ign := range []bool{true, false} {
			dir := tmpName(t, fmt.Sprintf("l%d%v", l, ign))
			mkdirs(t, dir)
			c.setup(dir)
			res, done := limited(t, dir, c.op, l, ign)
			what := fmt.Sprintf("%s, files are limited to %d bytes", name, l)
			if !done {
				what += " (ended there)"
			} else {
				what += fmt.Sprintf(" (result %q)", res.Err)
			}
			t.Count("partial_writes", 1)
			t.Nontrivial(name, l, ign, t.Idx)
			c.check(t, dir, what, res, done)
			os.RemoveAll(dir)
		}
	}
}

func split(b []byte, n int) (l [][]byte) {
	for ; len(b) >= n; b = b[n:] {
		l = append(l, b[:n])
	}
	return
}

// readRecs reads a list and returns its records as they are encoded.
func readRecs(t *T, dir, op, brd, what string) [][]byte {
	s, err := newSite(dir)
	t.Harness(err)
	n := 128
	if op == "listbrd" {
		n = 256
	}
	if brd == "" {
		brd = "x"
	}
	res := s.run(cop{Op: op, Board: brd})
	t.Check(res.Err == "", "%s: reading afterwards: %s", what, res.Err)
	return split(res.Data, n)
}

func sameList(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

func brief(l [][]byte, known map[string]string) string {
	var s []string
	for _, b := range l {
		if k, ok := known[string(b)]; ok {
			s = append(s, k)
		} else {
			s = append(s, "BROKEN")
		}
	}
	return strings.Join(s, " ")
}

func c33(t *T) {
	r := t.R
	kind := []string{"addart", "addbrd", "updart", "rmbrd"}[t.Idx%4]
	k := r.IntN(6)
	if kind == "rmbrd" || kind == "updart" {
		k = 1 + r.IntN(6)
		if r.IntN(3) == 0 {
			k = 9
		}
	}
	junk := 0
	size, list, add := 128, "listart", "addart"
	if kind == "addbrd" || kind == "rmbrd" {
		size, list, add = 256, "listbrd", "addbrd"
	}
	if t.Idx/4%3 == 1 {
		junk = 1 + r.IntN(size-1)
	}
	brd := "board"
	known := map[string]string{}
	rec := func(name string) []byte {
		var b []byte
		if size == 128 {
			_, b = genHeader(t)
			copy(b, make([]byte, 20))
			copy(b, name)
			v, _ := pttbbs.NewFileHeaderWithByte(b)
			b, _ = v.MarshalToByte()
		} else {
			b = boardRec(t, name)
		}
		known[string(b)] = name
		return b
	}
	var old [][]byte
	for i := 0; i < k; i++ {
		old = append(old, rec(fmt.Sprintf("old%d", i)))
	}
	op := cop{Op: kind, Board: brd}
	if kind != "rmbrd" {
		op.Data = rec("new")
	}
	if kind == "rmbrd" || kind == "updart" {
		op.Idx = r.IntN(k)
	}
	next := rec("next")
	missing := t.Idx/4%3 == 2 && (kind == "addart" || kind == "addbrd")
	if missing {
		k, old = 0, nil
	}
	path := func(dir string) string {
		if size == 256 {
			return filepath.Join(dir, ".BRD")
		}
		return filepath.Join(dir, "boards", brd[:1], brd, ".DIR")
	}
	name := fmt.Sprintf("%s %d with %d records and %d bytes there", kind, op.Idx, k, junk)
	c := fcase{op: op, setup: func(dir string) {
		mkdirs(t, filepath.Dir(path(dir)))
		if !missing {
			writeFile(t, path(dir), append(bytes.Join(old, nil), bytes.Repeat([]byte{0xee}, junk)...))
		}
	}}
	c.check = func(t *T, dir, what string, res cres, done bool) {
		ok := done && res.Err == ""
		if _, err := os.Stat(path(dir)); os.IsNotExist(err) && missing {
			t.Check(!ok, "%s: the operation was acknowledged and the file does not exist", what)
			writeFile(t, path(dir), nil)
		}
		got := readRecs(t, dir, list, brd, what)
		var rest [][]byte // what must be there before the next addition
		switch kind {
		case "addart", "addbrd":
			want := append(append([][]byte{}, old...), op.Data)
			t.Check(len(got) >= k && sameList(got[:k], old), "%s: the records are %s, before it they were %s", what, brief(got, known), brief(old, known))
			t.Check(len(got) == k && !ok || sameList(got, want), "%s: the records are %s, should be %s", what, brief(got, known), brief(want, known))
		case "updart":
			t.Check(len(got) == k, "%s: %d records, before it %d", what, len(got), k)
			for i := range got {
				if i != op.Idx {
					t.Check(bytes.Equal(got[i], old[i]), "%s: record %d is changed", what, i)
				} else if ok {
					t.Check(bytes.Equal(got[i], op.Data), "%s: acknowledged, and the record is not updated", what)
				}
			}
		case "rmbrd":
			want := append(append([][]byte{}, old[:op.Idx]...), old[op.Idx+1:]...)
			if ok {
				t.Check(sameList(got, want), "%s: acknowledged, and the records are %s, should be %s", what, brief(got, known), brief(want, known))
			} else {
				// the others are there in order, and nothing which was not there
				i := 0
				for _, g := range got {
					t.Check(known[string(g)] != "", "%s: a broken record: %s", what, brief(got, known))
					if i < len(want) && bytes.Equal(g, want[i]) {
						i++
					}
				}
				t.Check(i == len(want), "%s: the records are %s, of %s one is missing or out of order", what, brief(got, known), brief(want, known))
			}
		}
		rest = got
		s, err := newSite(dir)
		t.Harness(err)
		r2 := s.run(cop{Op: add, Board: brd, Data: next})
		t.Check(r2.Err == "", "%s: the next addition fails: %s", what, r2.Err)
		got = readRecs(t, dir, list, brd, what)
		t.Check(len(got) == len(rest)+1 && bytes.Equal(got[len(got)-1], next) && sameList(got[:len(rest)], rest), "%s: before the next addition there is %s, after it %s", what, brief(rest, known), brief(got, known))
	}
	faultRun(t, name, c)
	if kind == "addart" || kind == "addbrd" || kind == "updart" {
		base := k * size
		if kind == "updart" {
			base = op.Idx * size
		}
		var limits []int
		for i := 0; i < 4; i++ {
			limits = append(limits, base+r.IntN(size+1))
		}
		limits = append(limits, base, base+1, base+size-1)
		if kind == "updart" {
			limits = nil // the limit is beyond the end
			if op.Idx == k-1 {
				limits = []int{base, base + 1, base + r.IntN(size), base + size - 1}
			}
		}
		limitRun(t, name, c, limits)
	}
}

// c33content: changes of article files report what could not be done.
func c33content(t *T) {
	r := t.R
	op := cop{Op: []string{"write", "append", "create", "createmap"}[t.Idx%4], Board: "board", File: "M.1.A.001", Data: randBytes(r, 1+r.IntN(300))}
	if r.IntN(3) == 0 {
		op.Data = randBytes(r, 5000+r.IntN(5000))
	}
	old := randBytes(r, 1+r.IntN(400))
	other := randBytes(r, 100)
	c := fcase{op: op, setup: func(dir string) {
		d := filepath.Join(dir, "boards", "b", "board")
		writeFile(t, filepath.Join(d, "M.1.A.001"), old)
		writeFile(t, filepath.Join(d, "M.1.A.002"), other)
		writeFile(t, filepath.Join(d, ".DIR"), other)
	}}
	c.check = func(t *T, dir, what string, res cres, done bool) {
		d := filepath.Join(dir, "boards", "b", "board")
		t.Check(bytes.Equal(readFile(t, filepath.Join(d, "M.1.A.002")), other) && bytes.Equal(readFile(t, filepath.Join(d, ".DIR")), other), "%s: another file is changed", what)
		got := readFile(t, filepath.Join(d, "M.1.A.001"))
		ok := done && res.Err == ""
		switch op.Op {
		case "write":
			if ok {
				t.Check(bytes.Equal(got, op.Data), "%s: acknowledged, and the article has %d bytes, should have %d", what, len(got), len(op.Data))
			}
			t.Check(bytes.Equal(got, old) || bytes.HasPrefix(op.Data, got), "%s: the article is neither the old text nor a beginning of the new one, but %d bytes", what, len(got))
		case "append":
			if ok {
				t.Check(bytes.Equal(got, append(append([]byte{}, old...), op.Data...)), "%s: acknowledged, and the article has %d bytes, should have %d", what, len(got), len(old)+len(op.Data))
			}
			t.Check(bytes.HasPrefix(got, old), "%s: the article lost what was written before", what)
			t.Check(bytes.HasPrefix(op.Data, got[len(old):]), "%s: the article has bytes which were not written", what)
		default:
			t.Check(bytes.Equal(got, old), "%s: another article is changed", what)
			if ok {
				t.Check(len(res.Names) == 1 && res.Names[0] != "", "%s: no name", what)
				b, err := os.ReadFile(filepath.Join(d, res.Names[0]))
				t.Check(err == nil, "%s: the name %s was given and its file is not there", what, res.Names[0])
				if op.Op == "createmap" {
					t.Check(bytes.Contains(b, []byte("title")), "%s: the new article has %q", what, b)
				}
			}
		}
		s, err := newSite(dir)
		t.Harness(err)
		if _, err := os.Stat(filepath.Join(d, "M.1.A.001")); err == nil {
			r2 := s.run(cop{Op: "append", Board: "board", File: "M.1.A.001", Data: []byte("next")})
			t.Check(r2.Err == "", "%s: the next append fails: %s", what, r2.Err)
			b := readFile(t, filepath.Join(d, "M.1.A.001"))
			t.Check(bytes.Equal(b, append(append([]byte{}, got...), "next"...)), "%s: the next append is not read back", what)
		}
	}
	name := fmt.Sprintf("%s of %d bytes to %d", op.Op, len(op.Data), len(old))
	faultRun(t, name, c)
	switch op.Op {
	case "write":
		limitRun(t, name, c, []int{0, 1, len(op.Data) - 1, r.IntN(len(op.Data))})
	case "append":
		limitRun(t, name, c, []int{len(old), len(old) + 1, len(old) + len(op.Data) - 1, len(old) + r.IntN(len(op.Data))})
	}
}

// ---- C25

func c25fault(t *T) {
	r := t.R
	op := cop{Op: []string{"wdraft", "wdraft", "ddraft", "rdraft"}[t.Idx%4], Board: "user1", File: "1", Data: randBytes(r, r.IntN(300))}
	if r.IntN(3) == 0 {
		op.Data = randBytes(r, 5000+r.IntN(60000))
	}
	had := op.Op != "wdraft" || r.IntN(3) > 0
	old := randBytes(r, 1+r.IntN(400))
	if r.IntN(4) == 0 {
		old = randBytes(r, 20000)
	}
	other := randBytes(r, 100)
	mine := func(dir string) string { return filepath.Join(dir, "home", "u", "user1") }
	c := fcase{op: op, setup: func(dir string) {
		mkdirs(t, mine(dir))
		if had {
			writeFile(t, filepath.Join(mine(dir), "buf.1"), old)
		}
		writeFile(t, filepath.Join(mine(dir), "buf.2"), other)
		writeFile(t, filepath.Join(mine(dir), ".fav"), other)
	}}
	c.check = func(t *T, dir, what string, res cres, done bool) {
		s, err := newSite(dir)
		t.Harness(err)
		if done && res.Err == "" && strings.Contains(what, writtenFile) {
			t.Fatalf("%s: the file was not closed properly, so the draft may not be stored, and the write is acknowledged", what)
		}
		t.Check(bytes.Equal(readFile(t, filepath.Join(mine(dir), "buf.2")), other) && bytes.Equal(readFile(t, filepath.Join(mine(dir), ".fav")), other), "%s: another file is changed", what)
		got := s.run(cop{Op: "rdraft", Board: "user1", File: "1"})
		t.Check(got.Err == "", "%s: reading the draft: %s", what, got.Err)
		var was []byte
		if had {
			was = old
		}
		will := op.Data
		if op.Op == "ddraft" {
			will = nil
		}
		if op.Op == "rdraft" {
			will = was
			if done && res.Err == "" && !strings.Contains(what, "ENOENT") {
				t.Check(bytes.Equal(res.Data, was), "%s: it gives %d bytes, the draft has %d", what, len(res.Data), len(was))
			}
		}
		switch {
		case done && res.Err == "":
			t.Check(bytes.Equal(got.Data, will), "%s: acknowledged, and the draft has %d bytes, should have %d", what, len(got.Data), len(will))
		case done && !strings.Contains(what, " close("):
			t.Check(bytes.Equal(got.Data, was), "%s: it failed and the draft has %d bytes, before it %d", what, len(got.Data), len(was))
		default:
			t.Check(bytes.Equal(got.Data, was) || bytes.Equal(got.Data, will), "%s: the draft has %d bytes, neither the %d of before nor the %d which were written", what, len(got.Data), len(was), len(will))
		}
		if done && !strings.Contains(what, "unlinkat(") {
			l, err := os.ReadDir(mine(dir))
			t.Harness(err)
			for _, e := range l {
				if n := e.Name(); n != "buf.1" && n != "buf.2" && n != ".fav" {
					t.Fatalf("%s: the file %s is left", what, n)
				}
			}
		}
		// and then a write which succeeds
		r2 := s.run(cop{Op: "wdraft", Board: "user1", File: "1", Data: []byte("next")})
		t.Check(r2.Err == "", "%s: the next write fails: %s", what, r2.Err)
		got = s.run(cop{Op: "rdraft", Board: "user1", File: "1"})
		t.Check(got.Err == "" && string(got.Data) == "next", "%s: the next draft is read as %q %s", what, got.Data, got.Err)
	}
	name := fmt.Sprintf("%s of %d bytes over %d", op.Op, len(op.Data), len(old))
	faultRun(t, name, c)
	if op.Op == "wdraft" && len(op.Data) > 0 {
		limitRun(t, name, c, []int{0, 1, len(op.Data) - 1, r.IntN(len(op.Data))})
	}
}

func c25seq(t *T) {
	r := t.R
	m := newHome(t, "h")
	us := similarUsers(r)
	ids := []string{"0", "1", "2", "9", "10", "01"}
	model := map[string][]byte{}
	for _, u := range us {
		mkdirs(t, m.userDir(u))
	}
	var trace []string
	steps := 10 + r.IntN(40)
	dels := 0
	lastU, lastID := "", ""
	for i := 0; i < steps; i++ {
		u, id := us[r.IntN(4)], ids[r.IntN(len(ids))]
		if i > 0 && r.IntN(2) == 0 { // the one before
			u, id = lastU, lastID
		}
		lastU, lastID = u, id
		key := u + "/" + id
		switch r.IntN(5) {
		case 0, 1:
			var b []byte
			switch r.IntN(5) {
			case 0:
			case 1:
				b = randBytes(r, 50000+r.IntN(100000))
			case 2:
				b = nearly(r, model[us[r.IntN(4)]+"/"+ids[r.IntN(len(ids))]])
				if r.IntN(2) == 0 {
					b = nearly(r, model[key])
				}
			default:
				b = randBytes(r, r.IntN(200))
				if r.IntN(3) == 0 {
					b = append(b, " \n\r\n"[r.IntN(3):]...)
				}
			}
			trace = append(trace, fmt.Sprintf("write %s %d", key, len(b)))
			in := append([]byte{}, b...)
			err := m.db.WriteUserDraft(u, id, bbs.NewUserDraft(in))
			t.Check(err == nil, "%v: %v", trace, err)
			t.Check(bytes.Equal(in, b), "%v: the draft given was changed", trace)
			for k := range in {
				in[k] ^= 0xff
			}
			model[key] = b
		case 2:
			trace = append(trace, "delete "+key)
			err := m.db.DeleteUserDraft(u, id)
			if _, ok := model[key]; ok {
				t.Check(err == nil, "%v: %v", trace, err)
				dels++
			}
			delete(model, key)
		default:
			trace = append(trace, "read "+key)
			d, err := m.db.GetUserDrafts(u, id)
			t.Check(err == nil, "%v: %v", trace, err)
			t.Check(bytes.Equal(d.Raw(), model[key]), "%v: the draft has %d bytes, should have %d", trace, len(d.Raw()), len(model[key]))
			for k := range d.Raw() { // the caller changes what it got
				d.Raw()[k] ^= 0x55
			}
		}
		if i%5 == 4 || i == steps-1 {
			for _, u := range us {
				for _, id := range ids {
					d, err := m.db.GetUserDrafts(u, id)
					t.Check(err == nil && bytes.Equal(d.Raw(), model[u+"/"+id]), "%v: the draft %s/%s has not what was written last, %v", trace, u, id, err)
				}
			}
		}
	}
	for p, s := range snapshot(t, m.dir, false) {
		if !strings.HasPrefix(s, "-") {
			continue
		}
		seg := strings.Split(p, "/")
		_, ok := model[seg[2]+"/"+strings.TrimPrefix(seg[3], "buf.")]
		t.Check(ok && strings.HasPrefix(seg[3], "buf."), "%v: the file %s is left", trace, p)
	}
	// no user, no directory
	t.Check(m.db.WriteUserDraft("", "1", bbs.NewUserDraft([]byte("x"))) != nil, "a draft of no user is written")
	t.Check(m.db.WriteUserDraft("nosuchuser", "1", bbs.NewUserDraft([]byte("x"))) != nil, "a draft of a user without directory is written")
	d, err := m.db.GetUserDrafts("nosuchuser", "1")
	t.Check(err != nil || len(d.Raw()) == 0, "a user without directory has a draft")
	t.Count("steps", steps)
	t.Count("removals", dels)
	t.Nontrivial(strings.Join(trace, ";"))
	t.Sample("%s", clip(strings.Join(trace, "; "), 200))
}

func c25conc(t *T) {
	r := t.R
	m := newHome(t, "h")
	u := genUser(r)
	mkdirs(t, m.userDir(u))
	ids := []string{"1", "2"}[:1+r.IntN(2)]
	sizes := map[int]int{}
	next := 0
	tok := func() []byte {
		next++
		b := token(r, next)
		if r.IntN(4) == 0 {
			pad := bytes.Repeat([]byte("z"), 300000)
			b = []byte(fmt.Sprintf("<%d:%s:%d>", next, pad, next))
		}
		sizes[next] = len(b)
		return b
	}
	nc := 2 + r.IntN(5)
	clients := make([][]cop, nc)
	for i := range clients {
		for k := 2 + r.IntN(6); k > 0; k-- {
			o := cop{Board: u, File: ids[r.IntN(len(ids))]}
			switch x := r.IntN(7); {
			case x < 3:
				o.Op, o.Data = "wdraft", tok()
			case x == 3:
				o.Op = "ddraft"
			default:
				o.Op = "rdraft"
			}
			if r.IntN(3) == 0 {
				o.Sleep = r.IntN(1500)
			}
			clients[i] = append(clients[i], o)
		}
	}
	// the file written first is not known, all writes of a process are slow
	place := genPlaces(r, nc, "")
	for i := range place {
		if place[i].strace != nil {
			place[i].strace = []string{"-e", "trace=write,rename,renameat,renameat2,fchmod,unlinkat", "-e", fmt.Sprintf("inject=%s:delay_enter=%d", []string{"write", "rename,renameat,renameat2", "write,fchmod"}[r.IntN(3)], 300+r.IntN(4000))}
		}
	}
	byMode := map[string][]string{} // one way per process
	for i := range place {
		if s, ok := byMode[place[i].mode]; ok {
			place[i].strace = s
		}
		byMode[place[i].mode] = place[i].strace
	}
	h := runConc(t, m.dir, clients, place)
	for _, id := range ids {
		s, err := newSite(m.dir)
		t.Harness(err)
		o := cop{Op: "rdraft", Board: u, File: id}
		h = append(h, hev{nc, "goroutine", o, s.run(o)})
	}
	dumpHistory(t, h, func(e hev) string {
		d := e.Op.Data
		if e.Op.Op == "rdraft" {
			d = e.Res.Data
		}
		ids, ok := parseTokens(d, sizes)
		return fmt.Sprintf("%s %s %v %v %s", e.Op.Op, e.Op.File, ids, ok, e.Res.Err)
	})
	for _, id := range ids {
		var ops []linOp
		for _, e := range h {
			if e.Op.File != id {
				continue
			}
			d := e.Op.Data
			kind := "w"
			switch e.Op.Op {
			case "ddraft":
				kind = "d"
				if e.Res.Err != "" {
					t.Check(strings.Contains(e.Res.Err, "no such file"), "removing a draft: %s", e.Res.Err)
					kind = "none" // there was none
				}
			case "rdraft":
				// one which is removed meanwhile is there or not
				t.Check(e.Res.Err == "", "reading a draft: %s", e.Res.Err)
				kind, d = "r", e.Res.Data
			default:
				t.Check(e.Res.Err == "", "writing a draft: %s", e.Res.Err)
			}
			l, ok := parseTokens(d, sizes)
			t.Check(ok && len(l) <= 1, "client %d (%s) read %d bytes which are no version: %v then %q", e.Client, e.Mode, len(d), l, clip(string(d[min(len(d), sumSizes(l, sizes)):]), 40))
			v := ""
			if len(l) == 1 {
				v = fmt.Sprint(l[0])
			}
			ops = append(ops, linOp{e.Client, kind, v, e.Res.Call, e.Res.Ret})
		}
		linearRegister(t, ops, "draft "+id)
	}
	left, err := filepath.Glob(filepath.Join(m.userDir(u), ".*"))
	t.Harness(err)
	t.Check(len(left) == 0, "files are left: %v", left)
	t.Nontrivial(order(h))
	t.Sample("%d clients, %s", nc, modesOf(h))
}

func init() {
	workers["one"] = workerOne
	register(&Prop{ID: "C33", Level: "fault_enumeration", Rule: "a case is a stored state and an operation; for every system call the operation makes (as traced) the process is killed before it, or the call fails with each of several errors, or files cannot grow further; the state is read afterwards and the next addition is tried; distinct (operation, state, call, fault) which were hit are counted",
		Assume: []string{"faults are single, injected by strace at system calls of the operation; what is in the page cache survives (no power loss)"},
		Groups: []Group{
			{Name: "records", Quick: 48, Thorough: 1200, Fn: c33},
			{Name: "articles", Quick: 16, Thorough: 400, Fn: c33content},
		}})
	register(&Prop{ID: "C25", Level: "fault_enumeration", Rule: "a case is a history of draft operations of several users with a model, a concurrent history of goroutines and processes, or a stored state and a write or removal with a fault at each of its system calls; distinct histories and faults which were hit are counted",
		Assume: []string{"faults are single, injected by strace at system calls of the operation; no power loss"},
		Groups: []Group{
			{Name: "history", Quick: 400, Thorough: 20000, Fn: c25seq},
			{Name: "concurrent", Quick: 500, Thorough: 20000, Fn: c25conc},
			{Name: "fault", Quick: 24, Thorough: 600, Fn: c25fault},
		}})
}
