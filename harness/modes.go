package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"

	"github.com/Ptt-official-app/go-bbs/cache"
)

// ---- C45: access rights

type fmode struct {
	Mode os.FileMode
	To   string // of a symbolic link
	Uid  uint32
}

func (m fmode) String() string {
	if m.To != "" {
		return "link to " + m.To
	}
	return fmt.Sprintf("%v (owner %d)", m.Mode, m.Uid)
}

func rightsOf(t *T, dir string) map[string]fmode {
	ret := map[string]fmode{}
	t.Harness(filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		m := fmode{Mode: fi.Mode(), Uid: fi.Sys().(*syscall.Stat_t).Uid}
		if fi.Mode()&os.ModeSymlink != 0 {
			m.To, err = os.Readlink(p)
		}
		ret[rel] = m
		return err
	}))
	return ret
}

func genMode(r *rand.Rand) os.FileMode {
	return []os.FileMode{0600, 0600, 0640, 0660, 0644, 0664, 0666, 0604, 0400, 0444, 0200, 0755, 0}[r.IntN(13)]
}

func genMask(r *rand.Rand) int {
	return []int{0, 022, 022, 002, 027, 077, 007, 066, 0137}[r.IntN(9)]
}

// c45modes: what operations leave of the rights and kinds of files, and the
// rights of what they create.
func c45modes(t *T) {
	r := t.R
	w := genWorld(t, "h", false)
	var files []string
	for p, m := range rightsOf(t, w.dir) {
		if m.Mode.IsRegular() {
			files = append(files, p)
		}
	}
	sort.Strings(files)
	for i, f := range files {
		p := filepath.Join(w.dir, f)
		if r.IntN(8) == 0 || filepath.Base(f) == ".BRD" && r.IntN(3) == 0 { // not there yet
			t.Harness(os.Remove(p))
			t.Count("removed", 1)
			continue
		}
		if r.IntN(5) == 0 { // kept elsewhere
			to := filepath.Join(mkdirs(t, filepath.Join(w.dir, "elsewhere", strconv.Itoa(r.IntN(3)))), "f"+strconv.Itoa(i))
			t.Harness(os.Rename(p, to))
			link := to
			if r.IntN(2) == 0 {
				link, _ = filepath.Rel(filepath.Dir(p), to)
			}
			t.Harness(os.Symlink(link, p))
			t.Count("links", 1)
			p = to
		}
		t.Harness(os.Chmod(p, genMode(r)))
	}
	s, err := newSite(w.dir)
	t.Harness(err)
	mask := genMask(r)
	ops := w.writes(r)
	for _, o := range w.reads(r)[:20] {
		ops = append(ops, wwop{o, nil})
	}
	r.Shuffle(len(ops), func(i, j int) { ops[i], ops[j] = ops[j], ops[i] })
	before := rightsOf(t, w.dir)
	for _, o := range ops {
		old := syscall.Umask(mask)
		_, err := o.safe(s)
		syscall.Umask(old)
		after := rightsOf(t, w.dir)
		deletes := strings.HasPrefix(o.name, "DeleteUserDraft(")
		for _, p := range sortedNames(before) {
			x := before[p]
			y, ok := after[p]
			if !ok {
				t.Check(deletes, "%s removes %s", o.name, p)
				continue
			}
			t.Check(x == y, "%s: %s was %v and is %v", o.name, p, x, y)
		}
		for _, p := range sortedNames(after) {
			if _, ok := before[p]; ok {
				continue
			}
			y := after[p]
			want := os.FileMode(0644 &^ mask)
			t.Check(o.adds != nil && y.Mode == want, "%s with umask %03o creates %s as %v, expected %v (%v)", o.name, mask, p, y, want, err)
			t.Count("created", 1)
		}
		before = after
		t.Count("operations", 1)
	}
	t.Nontrivial(t.Idx, mask, len(ops))
	t.Sample("%d operations with umask %03o on files of random modes", len(ops), mask)
}

func sortedNames(m map[string]fmode) []string {
	l := make([]string, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

var traceCreat = regexp.MustCompile(`^openat\([^,]*, "([^"]*)", ([A-Z_|]+), (0[0-7]*)\) = \d+`)
var traceFchmod = regexp.MustCompile(`^fchmod\(\d+<([^>]*)>, (0[0-7]*)\) = 0`)
var traceChmod = regexp.MustCompile(`^(?:fchmodat|chmod)\((?:[^,"]*, )?"([^"]*)", (0[0-7]*)(?:, [^)]*)?\) = 0`)
var traceWrite = regexp.MustCompile(`^(?:write|pwrite64|writev|ftruncate)\(\d+<([^>]*)>`)
var traceRename = regexp.MustCompile(`^(?:rename|renameat|renameat2)\((?:[^,"]*, )?"([^"]*)", (?:[^,"]*, )?"([^"]*)"`)

// c45private: while a draft is written its text is at no time in a file which
// more users can read than the draft.
func c45private(t *T) {
	r := t.R
	w := genWorld(t, "h", false)
	u := w.ids[r.IntN(len(w.ids))]
	p := filepath.Join(w.userDir(u), "buf.3")
	mask := genMask(r)
	if mask&0400 != 0 {
		mask = 0
	}
	may := os.FileMode(0644 &^ mask)
	real := p
	if r.IntN(4) > 0 {
		may = []os.FileMode{0600, 0640, 0644, 0604, 0620}[r.IntN(5)]
		if r.IntN(3) == 0 {
			real = filepath.Join(w.dir, "draft elsewhere")
			t.Harness(os.Symlink(real, p))
		}
		writeFile(t, real, []byte("the old draft"))
		t.Harness(os.Chmod(real, may))
	}
	o := cop{Op: "wdraft", Board: u, File: "3", Data: randBytes(r, 1+r.IntN(9000))}
	js, _ := json.Marshal(o)
	old := syscall.Umask(mask)
	wr := runWorker(t, workerOpt{strace: []string{"-y", "-e", "trace=" + faultCalls}}, "one", w.dir, string(js), "-1", "")
	syscall.Umask(old)
	t.Check(wr.Exit == 0, "%s", wr.Err)
	var res cres
	t.Harness(json.Unmarshal(wr.Out, &res))
	t.Check(res.Err == "", "writing a draft (umask %03o): %s", mask, res.Err)
	eff := map[string]os.FileMode{}
	if fi, err := os.Lstat(real); err == nil {
		t.Check(fi.Mode() == may, "the draft has mode %v, expected %v (umask %03o)", fi.Mode(), may, mask)
		eff[real] = may
	}
	octal := func(s string) os.FileMode { n, _ := strconv.ParseUint(s, 8, 32); return os.FileMode(n) }
	writes := 0
	for _, l := range strings.Split(wr.Trace, "\n") {
		f := traceLine.FindStringSubmatch(l)
		if f == nil {
			continue
		}
		l = f[2] + "(" + f[3]
		if m := traceCreat.FindStringSubmatch(l); m != nil && strings.Contains(m[2], "O_CREAT") {
			if _, ok := eff[m[1]]; !ok {
				eff[m[1]] = octal(m[3]) &^ os.FileMode(mask)
			}
		} else if m := traceFchmod.FindStringSubmatch(l); m != nil {
			eff[m[1]] = octal(m[2])
		} else if m := traceChmod.FindStringSubmatch(l); m != nil {
			eff[m[1]] = octal(m[2])
		} else if m := traceRename.FindStringSubmatch(l); m != nil {
			eff[m[2]] = eff[m[1]]
		} else if m := traceWrite.FindStringSubmatch(l); m != nil && strings.HasPrefix(m[1], w.dir+"/") {
			writes++
			t.Check(eff[m[1]]&^may == 0, "the text of a draft of mode %v is written to %s of mode %v (umask %03o)", may, strings.TrimPrefix(m[1], w.dir), eff[m[1]], mask)
		}
	}
	t.Harness(notSeen(writes, wr.Trace))
	b, err := os.ReadFile(p)
	t.Check(err == nil && string(b) == string(o.Data), "the draft is not what was written: %v", err)
	t.Count("draft_writes", writes)
	t.Nontrivial(u, may, mask, len(o.Data))
}

func notSeen(n int, trace string) error {
	if n == 0 {
		return errors.New("no write was seen: " + clip(trace, 2000))
	}
	return nil
}

// ---- what is not allowed

const deniedUser = 65534

type deniedRes struct {
	Bad              []string
	Reads, Errs      int
	Denied, Allowed  int
	CannotSwitchUser string
}

// workerDenied: seeds, directory, layouts. It makes a home, takes rights away
// and uses it as a user without privileges.
func workerDenied(args []string) {
	defer func() {
		switch e := recover().(type) {
		case nil:
		case harnessErr:
			fmt.Fprintln(os.Stderr, e.msg)
			os.Exit(99)
		default:
			panic(e)
		}
	}()
	a, _ := strconv.ParseUint(args[0], 10, 64)
	b, _ := strconv.ParseUint(args[1], 10, 64)
	t := &T{R: rand.New(rand.NewPCG(a, b)), dir: args[2], run: &runner{nt: map[string]map[uint64]struct{}{},
		res: result{Counters: map[string]int64{}, Maxima: map[string]int64{}}}}
	out := os.Stdout
	os.Stdout = os.Stderr
	giveLayouts(t, args[3])
	r := t.R
	w := genWorld(t, "h", r.IntN(2) == 0)
	s, err := newSite(w.dir)
	t.Harness(err)
	var res deniedRes
	bad := func(f string, x ...interface{}) { res.Bad = append(res.Bad, clip(fmt.Sprintf(f, x...), 700)) }
	reads := w.reads(r)
	var base []string
	for _, o := range reads {
		o := o
		base = append(base, outcomeOf(&o, s))
	}
	writes := w.writes(r)
	modes := rightsOf(t, w.dir)
	names := sortedNames(modes)
	kind := r.IntN(6) // nothing may be changed, no directory may be changed, some files may not be read, mixed, one file or directory may not be read
	one := names[r.IntN(len(names))]
	for i := 0; i < 200 && kind == 5 && !strings.HasPrefix(filepath.Base(one), "M."); i++ {
		one = names[r.IntN(len(names))]
	}
	for _, p := range names {
		m := modes[p]
		if m.Mode&os.ModeSymlink != 0 {
			continue
		}
		full := filepath.Join(w.dir, p)
		to := os.FileMode(0644)
		if m.Mode.IsDir() {
			to = 0755
		}
		switch {
		case kind == 0:
			to &= 0555
		case kind == 1 && m.Mode.IsDir():
			to = 0555
		case kind >= 4:
			if p == one && p != "." {
				to = 0
			}
		case kind >= 2 && p != ".":
			switch r.IntN(6) {
			case 0:
				to = 0
			case 1:
				to &= 0333
			case 2:
				if kind == 3 {
					to &= 0555
				}
			}
		}
		t.Harness(os.Lchown(full, deniedUser, deniedUser))
		t.Harness(os.Chmod(full, to))
	}
	err = syscall.Setgroups(nil)
	if err == nil {
		err = syscall.Setgid(deniedUser)
	}
	if err == nil {
		err = syscall.Setuid(deniedUser)
	}
	if err != nil {
		res.CannotSwitchUser = err.Error()
		reads, writes = nil, nil
	}
	for i, o := range reads {
		o := o
		got := outcomeOf(&o, s)
		if strings.HasPrefix(got, "error ") {
			if !strings.HasPrefix(base[i], "error ") {
				res.Errs++
				if kind < 2 && !strings.HasPrefix(o.name, "OpenMmap") && o.name != "shared memory" { // these are opened for changes too
					bad("%s of files which may be read and not be changed gives %s, it was %s", o.name, clip(got, 250), clip(base[i], 250))
				}
			}
		} else if got != base[i] {
			bad("%s of files which may not be read gives %s and no error, it was %s", o.name, clip(got, 250), clip(base[i], 250))
		}
		res.Reads++
	}
	for _, o := range writes {
		var before map[string]string
		if kind < 2 {
			before = snapshot(t, w.dir, true)
		}
		_, err := o.safe(s)
		if err != nil && strings.Contains(err.Error(), "panic") {
			bad("%s: %v", o.name, err)
		}
		if strings.HasPrefix(o.name, "AppendBoardHeaderFileRecord(full") {
			continue
		}
		if kind == 0 && err == nil {
			bad("%s gives no error although nothing may be changed", o.name)
		}
		if kind < 2 {
			if d := diffSnap(before, snapshot(t, w.dir, true)); err != nil && d != "" {
				bad("%s fails (%v) and changes: %s", o.name, err, d)
			} else if err == nil && d == "" {
				bad("%s gives no error and changes nothing", o.name)
			}
		}
		if err != nil {
			res.Denied++
		} else {
			res.Allowed++
		}
	}
	js, _ := json.Marshal(res)
	out.Write(js)
}

func c45denied(t *T) {
	haveLayouts(t)
	saveLayouts(t, tmpName(t, "layouts"))
	t.Harness(os.Chmod(t.Dir(), 0755))
	for d := t.run.scratch; strings.Contains(d, "bbsverif"); d = filepath.Dir(d) {
		t.Harness(os.Chmod(d, 0711)) // the other user may pass
	}
	a, b := t.R.Uint64(), t.R.Uint64()
	dir := mkdirs(t, tmpName(t, "w"))
	wr := runWorker(t, workerOpt{}, "denied", fmt.Sprint(a), fmt.Sprint(b), dir, tmpName(t, "layouts"))
	t.Check(wr.Exit == 0, "the process ended with %d: %s", wr.Exit, wr.Err)
	var res deniedRes
	t.Harness(json.Unmarshal(wr.Out, &res))
	if res.CannotSwitchUser != "" {
		t.Count("cannot_switch_user", 1)
		return
	}
	t.Check(len(res.Bad) == 0, "%s", strings.Join(res.Bad, "\n"))
	t.Count("reads_as_other_user", res.Reads)
	t.Count("reads_denied", res.Errs)
	t.Count("changes_denied", res.Denied)
	t.Count("changes_allowed", res.Allowed)
	t.Nontrivial(a)
}

// c45memory: new segments and memory files.
func c45memory(t *T) {
	r := t.R
	mask := genMask(r)
	p := filepath.Join(t.Dir(), "mem")
	old := syscall.Umask(mask)
	m, err := cache.CreateMmap(p, 1+r.Int64N(9000))
	syscall.Umask(old)
	t.Check(err == nil, "CreateMmap: %v", err)
	m.Close()
	fi, err := os.Stat(p)
	t.Harness(err)
	t.Check(fi.Mode()&^(0666&^os.FileMode(mask)) == 0 && fi.Mode()&0600 == 0600&^os.FileMode(mask), "CreateMmap with umask %03o makes a file of mode %v", mask, fi.Mode())
	for i := 0; i < 50; i++ {
		key := int(r.Int32N(1<<30) + 1<<20)
		if _, err := cache.Shmget(key, 0, 0); err == nil {
			continue
		}
		s, err := cache.CreateKey(key, 100)
		t.Check(err == nil, "CreateKey: %v", err)
		defer cache.RemoveKey(key)
		defer s.Close()
		b, err := os.ReadFile("/proc/sysvipc/shm")
		t.Harness(err)
		for _, l := range strings.Split(string(b), "\n") {
			if f := strings.Fields(l); len(f) > 2 && f[0] == strconv.Itoa(key) {
				n, _ := strconv.ParseUint(f[2], 8, 32)
				t.Check(n&0777 == 0600, "a new segment may be used by others: mode %s", f[2])
				t.Count("segments", 1)
			}
		}
		break
	}
	t.Nontrivial(t.Idx, mask)
}

func init() {
	workers["denied"] = workerDenied
	register(&Prop{ID: "C45", Rule: "a case is a home of files with random rights, owners and symbolic links on which every operation is made with some umask or as a user without privileges; also traced draft writes and new memory segments",
		Assume: []string{"whether a draft which may not be written is replaced in a directory which may is unspecified"},
		Groups: []Group{
			{Name: "modes", Quick: 60, Thorough: 3000, Par: 1, Fn: c45modes},
			{Name: "private", Quick: 40, Thorough: 1500, Par: 1, Fn: c45private},
			{Name: "memory", Quick: 100, Thorough: 3000, Par: 1, Fn: c45memory},
			{Name: "denied", Quick: 120, Thorough: 3000, Par: 4, Fn: c45denied},
		}})
}
