package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// A home has other programs which change it, and there may be many homes with the
// same names in them. What a reading operation gives must depend on what the home
// has at that moment only: it is compared with what a new process gives which
// never saw anything else.

// homeState is what the regular files of a home have.
type homeState map[string][]byte

func stateOf(t *T, dir string) homeState {
	s := homeState{}
	t.Harness(filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() {
			rel, _ := filepath.Rel(dir, p)
			s[rel] = readFile(t, p)
		}
		return err
	}))
	return s
}

// alter makes other content of a file. same: of the same size.
func alter(r *rand.Rand, rel string, old []byte, same bool) []byte {
	b := append([]byte{}, old...)
	unit, from := 0, 0 // record size, and where names end in it
	base := filepath.Base(rel)
	switch {
	case base == ".BRD":
		unit, from = 256, 13
		if r.IntN(4) == 0 {
			from = 0
		}
	case base == ".PASSWDS":
		unit, from = 512, 17
	case base == ".DIR", base == "formosa.DIR":
		unit, from = 128, 34
	}
	if !same && r.IntN(3) == 0 {
		u := max(unit, 1)
		k := r.IntN(len(b)/u + 1)
		if r.IntN(2) == 0 && k > 0 { // shorter
			k = (k - 1) * u
			b = append(b[:k], b[k+u:]...)
		} else { // longer
			x := make([]byte, u)
			if len(b) >= (k+1)*u {
				copy(x, b[k*u:])
			}
			b = append(b, x...)
		}
	}
	if len(b) == 0 {
		return b
	}
	if base == ".fav" { // mostly other boards
		for n := 1 + r.IntN(8); n > 0; n-- {
			if p := r.IntN(len(b)); p > 6 && b[p] > 0 && b[p] < 40 {
				b[p] = byte(1 + r.IntN(6))
			}
		}
		return b
	}
	if unit == 0 {
		for n := 1 + r.IntN(4); n > 0; n-- {
			b[r.IntN(len(b))] = "abcxyz0189 :/\x00\xa4"[r.IntN(15)]
		}
		return b
	}
	for k := 0; k+unit <= len(b); k += unit {
		if r.IntN(3) > 0 {
			for n := 1 + r.IntN(6); n > 0; n-- {
				b[k+from+r.IntN(unit-from)] = "abcxyz0189\x00"[r.IntN(11)]
			}
		}
		if n := len(b) / unit; r.IntN(8) == 0 { // two change places
			i, j := r.IntN(n)*unit, r.IntN(n)*unit
			x := append([]byte{}, b[i:i+unit]...)
			copy(b[i:i+unit], b[j:j+unit])
			copy(b[j:j+unit], x)
		}
	}
	return b
}

// homeStates makes n states of the files: all but the first are altered ones.
func homeStates(r *rand.Rand, first homeState, n int, same bool) []homeState {
	l := []homeState{first}
	for len(l) < n {
		from := l[r.IntN(len(l))]
		var names []string
		for k := range from {
			names = append(names, k)
		}
		sort.Strings(names)
		s := homeState{}
		for _, k := range names {
			switch {
			case !same && r.IntN(15) == 0: // it is gone
				continue
			case r.IntN(3) > 0:
				s[k] = alter(r, k, from[k], same)
			default:
				s[k] = from[k]
			}
		}
		l = append(l, s)
	}
	return l
}

// put changes a home to a state, as another program may do it.
func (s homeState) put(t *T, dir string, now homeState, r *rand.Rand) {
	for k := range now {
		if _, ok := s[k]; !ok {
			t.Harness(os.Remove(filepath.Join(dir, k)))
		}
	}
	var names []string
	for k := range s {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		b, p := s[k], filepath.Join(dir, k)
		old, there := now[k]
		if there && bytes.Equal(old, b) {
			continue
		}
		var fi os.FileInfo
		if there {
			var err error
			fi, err = os.Stat(p)
			t.Harness(err)
		}
		if r.IntN(2) == 0 && there { // another file takes its name
			t.Harness(os.WriteFile(p+".new", b, 0644))
			t.Harness(os.Rename(p+".new", p))
		} else {
			f, err := os.OpenFile(p, os.O_WRONLY|os.O_CREATE, 0644)
			t.Harness(err)
			_, err = f.WriteAt(b, 0)
			t.Harness(err)
			t.Harness(f.Truncate(int64(len(b))))
			t.Harness(f.Close())
		}
		if there && r.IntN(2) == 0 { // within one tick of the clock
			t.Harness(os.Chtimes(p, fi.ModTime(), fi.ModTime()))
		}
	}
}

// at is the same world in another place.
func (w *world) at(dir string) *world {
	c, m, h := *w, *w.mHome, *w.mHome.home
	h.dir = dir
	m.home = &h
	c.mHome = &m
	c.shm = filepath.Join(dir, "shm")
	return &c
}

type twinSpec struct {
	A, B  uint64
	Odd   bool
	N     int
	Same  bool
	Which int
}

// twinWorld makes the home and its states from the numbers of a specification.
func twinWorld(t *T, sp twinSpec) (*world, []homeState) {
	keep := t.R
	defer func() { t.R = keep }()
	t.R = rand.New(rand.NewPCG(sp.A, sp.B))
	w := genWorld(t, "h", sp.Odd)
	return w, homeStates(rand.New(rand.NewPCG(sp.B, sp.A)), stateOf(t, w.dir), sp.N, sp.Same)
}

func (sp twinSpec) ops(w *world) []wop { return w.reads(rand.New(rand.NewPCG(sp.A, 7))) }

// workerFresh tells what the operations give in one state.
func workerFresh(args []string) {
	defer func() {
		switch e := recover().(type) {
		case nil:
		case harnessErr:
			fmt.Fprintln(os.Stderr, e.msg)
			os.Exit(99)
		default:
			panic(e)
		}
	}()
	var sp twinSpec
	if err := json.Unmarshal([]byte(args[0]), &sp); err != nil {
		os.Exit(99)
	}
	t := &T{dir: args[1], run: &runner{nt: map[string]map[uint64]struct{}{},
		res: result{Counters: map[string]int64{}, Maxima: map[string]int64{}}}}
	out := os.Stdout
	os.Stdout = os.Stderr
	giveLayouts(t, args[2])
	w, l := twinWorld(t, sp)
	l[sp.Which].put(t, w.dir, l[0], rand.New(rand.NewPCG(1, 1)))
	s, err := newSite(w.dir)
	t.Harness(err)
	var run ioRun
	for _, o := range sp.ops(w) {
		run.Ops = append(run.Ops, ioRes{Name: quoted(o.name), Out: quoted(outcomeOf(&o, s))})
	}
	js, _ := json.Marshal(run)
	out.Write(js)
}

// freshOutcomes asks new processes, one for each state.
func freshOutcomes(t *T, sp twinSpec) []map[string]string {
	haveLayouts(t)
	lay := tmpName(t, "layouts")
	saveLayouts(t, lay)
	l := make([]map[string]string, sp.N)
	for i := range l {
		sp.Which = i
		js, _ := json.Marshal(sp)
		dir := mkdirs(t, tmpName(t, "fresh"+strconv.Itoa(i)))
		wr := runWorker(t, workerOpt{}, "fresh", string(js), dir, lay)
		if wr.Exit != 0 {
			t.Fatalf("the process which reads ended with %d: %s", wr.Exit, wr.Err)
		}
		var run ioRun
		t.Harness(json.Unmarshal(wr.Out, &run))
		l[i] = map[string]string{}
		for _, o := range run.Ops {
			l[i][o.Name] = o.Out
		}
		os.RemoveAll(dir)
	}
	return l
}

func differing(a, b map[string]string) (n int) {
	for k := range a {
		if a[k] != b[k] {
			n++
		}
	}
	return
}

// c26twins: homes with the same names and other content, side by side.
func c26twins(t *T) {
	r := t.R
	sp := twinSpec{A: r.Uint64(), B: r.Uint64(), Odd: r.IntN(2) == 0, N: 2 + r.IntN(3), Same: r.IntN(3) > 0}
	want := freshOutcomes(t, sp)
	w, states := twinWorld(t, sp)
	var ws []*world
	var ops [][]wop
	var sites []*site
	for i, st := range states {
		x := w.at(filepath.Join(t.Dir(), fmt.Sprintf("twin%d", i)))
		t.Harness(copyTree(w.dir, x.dir))
		st.put(t, x.dir, states[0], r)
		ws, ops = append(ws, x), append(ops, sp.ops(x))
		s, err := newSite(x.dir)
		t.Check(err == nil, "opening %s: %v", x.dir, err)
		sites = append(sites, s)
	}
	var wg sync.WaitGroup
	bad := make([]string, 4)
	done := make([]int, 4)
	until := time.Now().Add(8 * time.Second)
	for g := range bad {
		rg := rand.New(rand.NewPCG(r.Uint64(), uint64(g)))
		wg.Add(1)
		go func() {
			defer wg.Done()
			own := append([]*site{}, sites...)
			if g%2 == 1 {
				for i := range own {
					own[i], _ = newSite(ws[i].dir)
				}
			}
			for _, k := range rg.Perm(len(ops[0])) {
				for _, i := range rg.Perm(sp.N) {
					if time.Now().After(until) {
						return
					}
					done[g]++
					o := &ops[i][k]
					if out := quoted(outcomeOf(o, own[i])); out != want[i][quoted(o.name)] {
						bad[g] = fmt.Sprintf("%s in home %d of %d with the same names differs from what a new process gives there: %s", o.name, i, sp.N, clipDiff(want[i][quoted(o.name)], out))
						return
					}
				}
			}
		}()
	}
	wg.Wait()
	for _, b := range bad {
		t.Check(b == "", "%s", b)
	}
	d := 0
	for i := 1; i < sp.N; i++ {
		d += differing(want[0], want[i])
	}
	for _, n := range done {
		t.Count("operations", n)
	}
	t.Count("outcomes_which_differ_between_homes", d)
	if d > 0 {
		t.Nontrivial(t.Idx, d)
	}
	t.Sample("%d homes with the same names, %d operations, %d outcomes differ", sp.N, len(ops[0]), d)
}

// c44: the files change between the reads.
func c44(t *T) {
	r := t.R
	sp := twinSpec{A: r.Uint64(), B: r.Uint64(), Odd: r.IntN(2) == 0, N: 3 + r.IntN(4), Same: r.IntN(2) == 0}
	want := freshOutcomes(t, sp)
	w, states := twinWorld(t, sp)
	ops := sp.ops(w)
	var own []wwop
	for _, o := range w.writes(r) {
		if !strings.Contains(o.name, "isdir") { // a draft which is a directory may be deleted
			own = append(own, o)
		}
	}
	site, err := newSite(w.dir)
	t.Check(err == nil, "opening the home: %v", err)
	now, seen := 0, map[[2]int]bool{}
	var trace []string
	steps := 3*sp.N + r.IntN(6)
	for i := 0; i < steps; i++ {
		next := r.IntN(sp.N)
		if i > 0 {
			held := states[now]
			if r.IntN(3) == 0 { // something of its own, with some reads
				for n := 1 + r.IntN(8); n > 0; n-- {
					o := &own[r.IntN(len(own))].wop
					outcomeOf(o, site)
					outcomeOf(&ops[r.IntN(len(ops))], site)
					t.Count("changes_of_its_own", 1)
				}
				held = stateOf(t, w.dir)
			}
			states[next].put(t, w.dir, held, r)
			seen[[2]int{now, next}] = true
			now = next
		}
		how := "the same database"
		if r.IntN(5) == 0 {
			how = "a database opened again"
			site, err = newSite(w.dir)
			t.Check(err == nil, "opening the home: %v", err)
		}
		if r.IntN(4) == 0 {
			runtime.GC()
		}
		trace = append(trace, fmt.Sprint(now))
		n := len(ops)
		if r.IntN(3) == 0 {
			n = 1 + r.IntN(len(ops))
		}
		for _, k := range r.Perm(len(ops))[:n] {
			o := &ops[k]
			out, name := quoted(outcomeOf(o, site)), quoted(o.name)
			t.Count("operations", 1)
			if out == want[now][name] {
				continue
			}
			old := ""
			for j := range want {
				if j != now && out == want[j][name] {
					old = fmt.Sprintf(" (as in state %d)", j)
				}
			}
			t.Fatalf("%s with %s after the files had the states %s differs from what a new process reads%s: %s", o.name, how, strings.Join(trace, " "), old, clipDiff(want[now][name], out))
		}
	}
	for k := range seen {
		d := differing(want[k[0]], want[k[1]])
		t.Count("outcomes_changed_by_files", d)
		if d > 0 {
			t.Nontrivial(t.Idx, k[0], k[1])
		}
	}
	t.Sample("%d operations, states %s", len(ops), strings.Join(trace, " "))
}

func init() {
	workers["fresh"] = workerFresh
	register(&Prop{ID: "C44",
		Rule:   "a home whose files are changed by something else between reading operations, each compared with a new process; nontrivial by changes of state which change an outcome",
		Assume: []string{"two processes which make a home from the same numbers make the same home"},
		Groups: []Group{{Name: "changes", Quick: 60, Thorough: 3000, Fn: c44}}})
}

// quoted is for outcomes which pass through JSON.
func quoted(s string) string { return strconv.QuoteToASCII(s) }

// copyTree copies a home with its links and times.
func copyTree(from, to string) error {
	return filepath.Walk(from, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(from, p)
		q := filepath.Join(to, rel)
		switch {
		case fi.IsDir():
			return os.MkdirAll(q, 0755)
		case fi.Mode()&os.ModeSymlink != 0:
			l, err := os.Readlink(p)
			if err != nil {
				return err
			}
			return os.Symlink(l, q)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		if err := os.WriteFile(q, b, 0644); err != nil {
			return err
		}
		return os.Chtimes(q, fi.ModTime(), fi.ModTime())
	})
}
