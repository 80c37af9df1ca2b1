package main

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/cache"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
)

// ---- C34

// usage is what the process holds: open files, mapped files and segments,
// goroutines, names in the home and in the directory for temporary files.
type usage struct {
	fds   map[string]int
	maps  map[string]int
	gos   int
	names map[string]bool
	tmp   map[string]bool
}

func usageOf(dir string) usage {
	u := usage{fds: map[string]int{}, maps: map[string]int{}, names: map[string]bool{}, tmp: map[string]bool{}}
	es, _ := os.ReadDir("/proc/self/fd")
	for _, e := range es {
		l, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err == nil && !strings.HasPrefix(l, "/proc/") {
			u.fds[l]++
		}
	}
	b, _ := os.ReadFile("/proc/self/maps")
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) >= 6 && f[5][0] == '/' {
			u.maps[strings.Join(f[5:], " ")]++
		}
	}
	u.gos = runtime.NumGoroutine()
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil {
			rel, _ := filepath.Rel(dir, p)
			u.names[rel] = true
		}
		return nil
	})
	for _, d := range []string{os.TempDir(), "."} {
		es, _ := os.ReadDir(d)
		for _, e := range es {
			u.tmp[d+"/"+e.Name()] = true
		}
	}
	return u
}

func moreOf(a, b map[string]int) (l []string) {
	for k, n := range b {
		if n > a[k] {
			l = append(l, fmt.Sprintf("%s (%d, before %d)", k, n, a[k]))
		}
	}
	sort.Strings(l)
	return l
}

// grown tells what b has more than a.
func grown(a, b usage, adds map[string]bool) string {
	if l := moreOf(a.fds, b.fds); len(l) > 0 {
		return fmt.Sprintf("open files: %v", l)
	}
	if l := moreOf(a.maps, b.maps); len(l) > 0 {
		return fmt.Sprintf("mapped: %v", l)
	}
	if b.gos > a.gos {
		return fmt.Sprintf("%d goroutines, before %d", b.gos, a.gos)
	}
	for n := range b.names {
		if !a.names[n] && !adds[n] {
			return fmt.Sprintf("the file %s", n)
		}
	}
	for n := range b.tmp {
		if !a.tmp[n] {
			return fmt.Sprintf("the file %s", n)
		}
	}
	return ""
}

func c34(t *T) {
	r := t.R
	w := genWorld(t, "h", true)
	s, err := newSite(w.dir)
	t.Harness(err)
	type uop struct {
		wop
		adds func(interface{}) []string
	}
	var ops []uop
	for _, o := range w.reads(r) {
		ops = append(ops, uop{o, nil})
	}
	for _, o := range w.writes(r) {
		ops = append(ops, uop{o.wop, o.adds})
	}
	r.Shuffle(len(ops), func(i, j int) { ops[i], ops[j] = ops[j], ops[i] })
	for i := range ops { // everything happened once
		if i%7 == 0 {
			ops[i].safe(s)
		}
	}
	runtime.GC()
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	before := usageOf(w.dir)
	adds := map[string]bool{}
	failed := 0
	var names []string
	flush := func() bool {
		d := ""
		for try := 0; try < 40; try++ { // a goroutine which ended may take a moment to go
			d = grown(before, usageOf(w.dir), adds)
			if !strings.Contains(d, "goroutines") {
				break
			}
			runtime.Gosched()
		}
		t.Count("usages_compared", 1)
		if d != "" {
			t.Fatalf("after %v there is more: %s", names, d)
		}
		names = nil
		return true
	}
	for i := range ops {
		o := &ops[i]
		for k := 0; k < 1+r.IntN(3); k++ {
			x, err := o.safe(s)
			if err != nil {
				failed++
			}
			if o.adds != nil {
				for _, n := range o.adds(x) {
					adds[n] = true
				}
			}
			t.Count("operations", 1)
		}
		e := ""
		names = append(names, o.name+e)
		if len(names) >= 4 {
			flush()
		}
	}
	flush()
	t.Count("failed_operations", failed)
	t.Nontrivial(t.Idx, len(ops))
	t.Sample("%d operations, %d of them failed", len(ops), failed)
}

// c34cache: segments which are opened and closed, or fail to open.
func c34cache(t *T) {
	r := t.R
	dir := mkdirs(t, filepath.Join(t.Dir(), "s"))
	im := genImage(t, shmSetting{users: 5, idlen: 12, align: 4, hash: 2}, 1, 0)
	key := freshKey(r)
	c, err := cache.CreateKey(key, len(im.raw))
	t.Harness(err)
	t.Defer(func() { c.Close(); cache.RemoveKey(key) })
	copy(c.Bytes(), im.raw)
	small := filepath.Join(dir, "small")
	writeFile(t, small, []byte("abc"))
	ok := filepath.Join(dir, "ok")
	writeFile(t, ok, im.raw)
	writeFile(t, filepath.Join(dir, "empty"), nil)
	smallKey := freshKey(r)
	sc, err := cache.CreateKey(smallKey, 20)
	t.Harness(err)
	t.Defer(func() { sc.Close(); cache.RemoveKey(smallKey) })
	runtime.GC()
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	before := usageOf(dir)
	wheres := []string{ok, "file:" + ok, fmt.Sprintf("shmkey:%d", key), fmt.Sprintf("shmkey:%d", smallKey), "shmkey:x", small, filepath.Join(dir, "empty"), filepath.Join(dir, "none"), dir, "x:y"}
	for k := 0; k < 60; k++ {
		where := wheres[r.IntN(len(wheres))]
		what := ""
		switch r.IntN(4) {
		case 0, 1:
			what = "NewCache " + where
			if p, err := pttbbs.NewCache(where, im.mapping()); err == nil {
				p.UserID(1)
				p.UserInfo(0)
				t.Check(p.Close() == nil, "%s: it cannot be closed", what)
			}
		case 2:
			what = "cache.NewCache " + where
			if p, err := cache.NewCache(where); err == nil {
				t.Check(p.Close() == nil, "%s: it cannot be closed", what)
			}
		case 3:
			p := filepath.Join(dir, "new")
			size := int64([]int{0, -1, 1, 5000, 1 << 62, -1 << 62}[r.IntN(6)])
			what = fmt.Sprintf("CreateMmap of %d bytes", size)
			if p, err := cache.CreateMmap(p, size); err == nil {
				t.Check(p.Close() == nil, "%s: it cannot be closed", what)
			}
		}
		if d := grown(before, usageOf(dir), map[string]bool{"new": true}); d != "" {
			t.Fatalf("after %s there is more: %s", what, d)
		}
		t.Count("segments_opened", 1)
	}
	t.Nontrivial(t.Idx)
}

// ---- C37

func c37(t *T) {
	r := t.R
	w := genWorld(t, "h", r.IntN(3) > 0)
	s, err := newSite(w.dir)
	t.Harness(err)
	ops := w.reads(r)
	before := snapshot(t, w.dir, true)
	cwd := snapshot(t, mkdirs(t, filepath.Join(t.Dir(), "beside")), true)
	shm := readFile(t, w.shm)
	first := map[string]string{}
	check := func(what string) {
		if d := diffSnap(before, snapshot(t, w.dir, true)); d != "" {
			t.Fatalf("after %s: %s", what, d)
		}
		t.Count("homes_compared", 1)
	}
	var done []string
	for round := 0; round < 3; round++ {
		r.Shuffle(len(ops), func(i, j int) { ops[i], ops[j] = ops[j], ops[i] })
		for i := range ops {
			o := &ops[i]
			out := outcomeOf(o, s)
			if was, ok := first[o.name]; ok && was != out {
				t.Fatalf("%s gives %s, before it gave %s, nothing was changed", o.name, clip(out, 300), clip(was, 300))
			}
			first[o.name] = out
			if !strings.HasPrefix(out, "error ") {
				t.Count("successful_reads", 1)
			} else {
				t.Count("failing_reads", 1)
			}
			done = append(done, o.name)
			if len(done) >= 30 {
				check(strings.Join(done, ", "))
				done = nil
			}
		}
	}
	check(strings.Join(done, ", "))
	_ = cwd
	if !bytes.Equal(shm, readFile(t, w.shm)) {
		t.Fatalf("the segment changed")
	}
	t.Nontrivial(fmt.Sprint(len(ops), first))
	t.Sample("%d reading operations, three times each", len(ops))
}

func outcomeOf(o *wop, s *site) string {
	x, err := o.safe(s)
	return outcome(x, err, s.home)
}

// c37memory: functions which work on memory give the same again.
func c37memory(t *T) {
	for _, o := range memoryOps(t, t.R) {
		a := safeRender(o.run)
		for i := 0; i < 3; i++ {
			if b := safeRender(o.run); a != b {
				t.Fatalf("%s gives %s, before it gave %s", o.name, clip(b, 300), clip(a, 300))
			}
		}
		t.Count("calls_repeated", 3)
	}
	t.Nontrivial(t.Idx)
}

func safeRender(f func() interface{}) (s string) {
	defer func() {
		if e := recover(); e != nil {
			s = fmt.Sprint("panic ", e)
		}
	}()
	return render(f())
}

// ---- C39

func c39(t *T) {
	r := t.R
	w := genWorld(t, "h", false)
	s, err := newSite(w.dir)
	t.Harness(err)
	before := snapshot(t, w.dir, false)
	for _, o := range w.reads(r) {
		a, err := o.safe(s)
		b, err2 := o.safe(s)
		if err != nil || err2 != nil {
			continue
		}
		first := render(b)
		if got := render(a); got != first {
			t.Fatalf("%s gives %s and then %s", o.name, clip(got, 300), clip(first, 300))
		}
		n := scribble(a)
		t.Count("values_overwritten", n)
		if now := render(b); now != first {
			t.Fatalf("%s: overwriting one result changed another one: %s, it was %s", o.name, clipDiff(now, first), clip(first, 300))
		}
		c, err := o.safe(s)
		if err != nil {
			t.Fatalf("%s: after a result was overwritten: %v", o.name, err)
		}
		if now := render(c); now != first {
			t.Fatalf("%s: after a result was overwritten it gives %s", o.name, clipDiff(now, first))
		}
		t.Count("reads", 1)
	}
	if d := diffSnap(before, snapshot(t, w.dir, false)); d != "" {
		t.Fatalf("overwriting results changed what is stored: %s", d)
	}
	t.Nontrivial(t.Idx)
}

func clipDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := max(0, i-60)
	return fmt.Sprintf("...%q instead of ...%q", clip(a[lo:], 160), clip(b[lo:], 160))
}

func c39memory(t *T) {
	for _, o := range memoryOps(t, t.R) {
		// arguments are not modified
		var copies []interface{}
		for _, a := range o.args {
			copies = append(copies, deepCopy(a))
		}
		var v interface{}
		rendered := safeRender(func() interface{} { v = o.run(); return v })
		for i := range copies {
			if !reflect.DeepEqual(copies[i], deepCopy(o.args[i])) {
				t.Fatalf("%s changed its argument %q to %q", o.name, copies[i], o.args[i])
			}
		}
		t.Count("calls", 1)
		if o.name == "CstrToBytes" || o.name == "NewUserDraft" {
			continue // they give a view of what they are given
		}
		// one result does not depend on another one
		w := func() (w interface{}) {
			defer func() { _ = recover() }()
			return o.run()
		}()
		scribble(w)
		if now := render(v); now != rendered && !strings.HasPrefix(rendered, "panic") {
			t.Fatalf("%s: overwriting one result changed another one: %s", o.name, clipDiff(now, rendered))
		}
		for i := range copies {
			if !reflect.DeepEqual(copies[i], deepCopy(o.args[i])) {
				t.Fatalf("%s: overwriting the result changed its argument %q to %q", o.name, copies[i], o.args[i])
			}
		}
		if again := safeRender(o.run); again != rendered {
			t.Fatalf("%s: after a result was overwritten it gives %s", o.name, clipDiff(again, rendered))
		}
		// and not on the argument either
		for _, a := range o.args {
			scribble(a)
		}
		if now := render(v); now != rendered && !strings.HasPrefix(rendered, "panic") {
			t.Fatalf("%s: overwriting the argument changed the result: %s", o.name, clipDiff(now, rendered))
		}
	}
	t.Nontrivial(t.Idx)
}

// c39settings: the description of a segment stays as it is, and each segment
// which is open keeps its own.
func c39settings(t *T) {
	r := t.R
	set := pttbbs.MemoryMappingSetting{AlignmentBytes: []int{0, 1, 2, 4, 8}[r.IntN(5)], MaxUsers: r.IntN(60), IDLen: r.IntN(20), UseCoolDown: r.IntN(2) == 0, HashBits: r.IntN(10)}
	keep := set
	p := filepath.Join(t.Dir(), "shm")
	writeFile(t, p, randBytes(r, r.IntN(2)*4096*r.IntN(10)+r.IntN(100000)))
	n := 0
	for i := 0; i < 3; i++ {
		c, err := pttbbs.NewCache("file:"+p, &set)
		if err == nil {
			n++
			c.Version()
			for u := -1; u < 4; u++ {
				c.UserID(u)
				c.Money(u)
				c.UserInfo(u)
			}
			t.Check(c.Close() == nil, "closing")
		}
		t.Check(set == keep, "NewCache changed the setting it was given from %+v to %+v", keep, set)
	}
	if n > 0 {
		t.Nontrivial(fmt.Sprintf("%+v", set))
	}
	t.Count("segments_opened", n)
}

// c39write: what is given to a changing operation stays as it is, and changing
// it afterwards does not change what is stored.
func c39write(t *T) {
	r := t.R
	h := newHome(t, "h")
	s, err := newSite(h.dir)
	t.Harness(err)
	mkdirs(t, h.boardDir("test"))
	mkdirs(t, h.userDir("user"))
	writeFile(t, h.brd(), nil)
	content := randBytes(r, r.IntN(500))
	behind := append(append([]byte{}, content...), randBytes(r, r.IntN(3)*200)...)
	content = append([]byte{}, behind...)[:len(content)]
	keep := append([]byte{}, content...)
	same := func(what string) {
		if !bytes.Equal(behind, content[:len(behind)]) {
			t.Fatalf("%s changed the bytes behind the content it was given: %s", what, firstDiff3(content[:len(behind)], behind))
		}
		if !bytes.Equal(keep, content) {
			t.Fatalf("%s changed the content it was given: %s", what, firstDiff3(content, keep))
		}
	}
	t.Harness(s.db.WriteBoardArticleFile("test", "M.1.A.000", content))
	same("WriteBoardArticleFile")
	t.Harness(s.db.AppendBoardArticleFile("test", "M.1.A.000", content))
	same("AppendBoardArticleFile")
	d := bbs.NewUserDraft(content)
	t.Harness(s.db.WriteUserDraft("user", "1", d))
	same("WriteUserDraft")
	if !bytes.Equal(d.Raw(), keep) {
		t.Fatalf("WriteUserDraft changed the draft")
	}
	args := map[string]interface{}{"board_id": "Board1", "title": "title", "other": []string{"x"}}
	b, err := s.db.NewBoardRecord(args)
	t.Harness(err)
	if fmt.Sprint(args) != "map[board_id:Board1 other:[x] title:title]" {
		t.Fatalf("NewBoardRecord changed its arguments: %v", args)
	}
	rb := render(b)
	args["board_id"], args["title"] = "x", "y"
	if render(b) != rb {
		t.Fatalf("changing the arguments changed the board: %s", render(b))
	}
	t.Harness(s.db.AddBoardRecord(b))
	if render(b) != rb {
		t.Fatalf("AddBoardRecord changed the board: %s", clipDiff(render(b), rb))
	}
	amap := map[string]interface{}{"owner": "o", "date": "1/02", "title": "t", "board_id": "test"}
	a2, err := s.conn.NewArticleRecordWithMap(amap)
	t.Harness(err)
	if fmt.Sprint(amap) != "map[board_id:test date:1/02 owner:o title:t]" {
		t.Fatalf("NewArticleRecordWithMap changed its arguments: %v", amap)
	}
	hdr, _ := genHeader(t)
	var a bbs.ArticleRecord = hdr
	if r.IntN(2) == 0 {
		a = a2
	}
	ra := render(a)
	t.Harness(s.db.AddArticleRecordFileRecord("test", a))
	if render(a) != ra {
		t.Fatalf("AddArticleRecordFileRecord changed the article: %s", clipDiff(render(a), ra))
	}
	t.Harness(s.db.AddArticleRecordFileRecord("test", a))
	t.Harness(s.conn.UpdateArticleRecordFileRecord(h.index("test"), 1, a))
	if render(a) != ra {
		t.Fatalf("UpdateArticleRecordFileRecord changed the article: %s", clipDiff(render(a), ra))
	}
	man := []string{"D1", "D2"}
	s.db.ReadBoardTreasureRecordsFile("test", man)
	s.db.ReadBoardTreasureFile("test", man, "x")
	man2 := append(make([]string, 0, 10), "D1", "D2")
	s.db.ReadBoardTreasureRecordsFile("test", man2)
	s.db.ReadBoardTreasureFile("test", man2, "x")
	if fmt.Sprint(man, man2, man2[:4]) != "[D1 D2] [D1 D2] [D1 D2  ]" {
		t.Fatalf("reading a treasure changed its path: %v %v", man, man2[:4])
	}
	before := snapshot(t, h.dir, false)
	scribble(a)
	scribble(b)
	scribble(content)
	scribble(a2)
	if d := diffSnap(before, snapshot(t, h.dir, false)); d != "" {
		t.Fatalf("changing what was given changed what is stored: %s", d)
	}
	t.Count("operations", 9)
	t.Nontrivial(keep)
}

// ---- C26

func sourceOf(r *rand.Rand, dir string) string {
	form := r.IntN(8)
	if strings.Contains(dir, "?") && form < 3 {
		form = 7
	}
	switch form {
	case 5: // through a link, so that .. is not what it looks like
		up, base := filepath.Split(dir)
		if os.MkdirAll(up+"deep/inner", 0755) == nil && (os.Symlink("deep/inner", up+"link") == nil || readlink(up+"link") == "deep/inner") {
			return up + "link/../../" + base
		}
	case 6:
		up, base := filepath.Split(dir)
		return up + "./" + "/" + base
	case 0:
		return "file://" + dir
	case 1:
		return "file://" + dir + "?UTMP=1993"
	case 2:
		return "file://" + dir + "?UTMP=1993&SHM=/x?y"
	case 3:
		return dir + "/"
	case 4:
		wd, _ := os.Getwd()
		if rel, err := filepath.Rel(wd, dir); err == nil {
			return rel
		}
	}
	return dir
}

func readlink(p string) string {
	s, _ := os.Readlink(p)
	return s
}

// homeName gives names of homes; some have characters which mean something
// elsewhere.
func homeName(r *rand.Rand, i int) string {
	if r.IntN(2) == 0 {
		return fmt.Sprintf("h%d", i)
	}
	return []string{"h?UTMP=1", "h?", "h 0", " h", "h%41", "h#1", "h\xff", "h&x=y", "~h", "h\n", "$HOME", "h*", "家", "h\\"}[r.IntN(14)] + fmt.Sprint(i) + []string{"", "", " ", "\n", ".", "%20", "#"}[r.IntN(7)]
}

// stamped is an operation which changes one home only, and how to see it there.
func c26(t *T) {
	r := t.R
	n := 2 + r.IntN(4)
	var ws []*world
	var srcs []string
	expect := make([]map[string]string, n)
	opsOf := make([][]wop, n)
	for i := 0; i < n; i++ {
		w := genWorld(t, homeName(r, i), false)
		ws = append(ws, w)
		srcs = append(srcs, sourceOf(r, w.dir))
		expect[i] = map[string]string{}
		s, err := newSiteAt(w.dir, srcs[i])
		t.Harness(err)
		opsOf[i] = w.reads(rand.New(rand.NewPCG(uint64(i), 1)))
		for k := range opsOf[i] {
			expect[i][opsOf[i][k].name] = outcomeOf(&opsOf[i][k], s)
		}
		// the home is read, not another place
		l, err := s.db.ReadUserRecords()
		if err != nil || len(l) != len(w.ids) {
			t.Fatalf("home opened as %q: %d accounts of %d, %v", srcs[i], len(l), len(w.ids), err)
		}
		for k, u := range l {
			if u.UserID() != w.ids[k] || u.HashedPassword() != w.hashes[k] {
				t.Fatalf("home opened as %q: account %d is %s", srcs[i], k, u.UserID())
			}
		}
	}
	// all of them at once, opened from many goroutines
	var wg sync.WaitGroup
	var mu sync.Mutex
	var bad []string
	fail := func(format string, a ...interface{}) {
		mu.Lock()
		bad = append(bad, fmt.Sprintf(format, a...))
		mu.Unlock()
	}
	var reads, opens atomic.Int64
	g := 4 + r.IntN(5)
	for j := 0; j < g; j++ {
		rg := rand.New(rand.NewPCG(r.Uint64(), 3))
		wg.Add(1)
		go func(j int) {
			defer wg.Done()
			sites := make([]*site, n)
			for round := 0; round < 2; round++ {
				for _, i := range rg.Perm(n) {
					s, err := newSiteAt(ws[i].dir, srcs[i])
					if err != nil {
						fail("opening %q: %v", srcs[i], err)
						return
					}
					opens.Add(1)
					sites[i] = s
				}
				if j%4 == 1 { // others register and open drivers meanwhile
					k := genDrv(rg)
					name := fmt.Sprintf("c26-%d", drvNumber.Add(1))
					bbs.Register(name, withCaps(k, rg.IntN(32)))
					if db, err := bbs.Open(name, "x"); err != nil || db == nil {
						fail("a registered driver does not open: %v", err)
					}
					k.failAt, k.fail, k.calls = 0, fmt.Errorf("no"), nil
					if db, err := bbs.Open(name, "x"); err == nil || db != nil {
						fail("a driver which cannot be opened gives a database")
					}
					if db, err := bbs.Open(name+"?", "x"); err == nil || db != nil {
						fail("an unknown driver gives a database")
					}
				}
				for k := 0; k < 40; k++ {
					i := rg.IntN(n)
					o := &opsOf[i][rg.IntN(len(opsOf[i]))]
					if out := outcomeOf(o, sites[i]); out != expect[i][o.name] {
						fail("home %d opened as %q: %s gives %s", i, srcs[i], o.name, clipDiff(out, expect[i][o.name]))
						return
					}
					reads.Add(1)
				}
			}
		}(j)
	}
	wg.Wait()
	if len(bad) > 0 {
		t.Fatalf("%s", strings.Join(bad[:min(3, len(bad))], "\n"))
	}
	t.Count("reads", int(reads.Load()))
	t.Count("opens", int(opens.Load()))
	// what is written to one stays out of the others
	before := make([]map[string]string, n)
	for i := range ws {
		before[i] = snapshot(t, ws[i].dir, true)
	}
	sites := make([]*site, n)
	for _, i := range r.Perm(n) {
		s, err := newSiteAt(ws[i].dir, srcs[i])
		t.Harness(err)
		sites[i] = s
	}
	i := r.IntN(n)
	changed := false
	for _, o := range ws[i].writes(r) {
		if _, err := o.safe(sites[i]); err == nil {
			changed = true
		}
	}
	for j := range ws {
		d := diffSnap(before[j], snapshot(t, ws[j].dir, true))
		if j == i {
			if changed && d == "" {
				t.Fatalf("home %d opened as %q: nothing of what was written is there", i, srcs[i])
			}
			continue
		}
		if d != "" {
			t.Fatalf("writing to home %d changed home %d: %s", i, j, d)
		}
	}
	t.Nontrivial(t.Idx, n)
	t.Sample("%d homes as %q", n, srcs)
}

// c26register: many goroutines register and open drivers.
func c26register(t *T) {
	r := t.R
	var wg sync.WaitGroup
	var bad atomic.Value
	base := fmt.Sprintf("reg%d-", drvNumber.Add(1))
	for j := 0; j < 8; j++ {
		rg := rand.New(rand.NewPCG(r.Uint64(), 3))
		wg.Add(1)
		go func(j int) {
			defer wg.Done()
			for i := 0; i < 60; i++ {
				mine := fmt.Sprintf("%s%d-%d", base, j, i)
				if db, err := bbs.Open(mine, "x"); err == nil || db != nil {
					bad.Store("an unknown driver gives a database")
				}
				k := genDrv(rg)
				bbs.Register(mine, withCaps(k, rg.IntN(32)))
				db, err := bbs.Open(mine, "x")
				if err != nil || db == nil {
					bad.Store(fmt.Sprintf("a registered driver does not open: %v", err))
					return
				}
				if len(k.calls) != 1 {
					bad.Store(fmt.Sprintf("opening calls Open of the driver %d times", len(k.calls)))
				}
				if u, err := db.ReadUserRecords(); err != nil || len(u) != len(k.users) || len(u) > 0 && u[0] != k.users[0] {
					bad.Store(fmt.Sprintf("the database uses another driver, %v", err))
				}
				// a driver registered again takes the place of the former
				if i%5 == 0 {
					k2 := genDrv(rg)
					bbs.Register(mine, withCaps(k2, rg.IntN(32)))
					db2, err := bbs.Open(mine, "x")
					if err != nil || len(k2.calls) != 1 {
						bad.Store(fmt.Sprintf("the driver registered again is not used: %v", err))
					} else if u, _ := db2.ReadUserRecords(); len(u) != len(k2.users) {
						bad.Store("the driver registered again is not used")
					}
					if u, err := db.ReadUserRecords(); err != nil || len(u) != len(k.users) {
						bad.Store(fmt.Sprintf("a database changes its driver, %v", err))
					}
				}
				pttbbs1, err := bbs.Open("pttbbs", fmt.Sprint("/nowhere/", j))
				if err != nil || pttbbs1 == nil {
					bad.Store(fmt.Sprint("pttbbs does not open: ", err))
				}
			}
		}(j)
	}
	wg.Wait()
	if b := bad.Load(); b != nil {
		t.Fatalf("%v", b)
	}
	t.Count("drivers", 8*60)
	t.Nontrivial(t.Idx)
}

// ---- C36

func c36(t *T) {
	r := t.R
	w := genWorld(t, "h", r.IntN(2) == 0)
	w2 := genWorld(t, "h2", false)
	s, err := newSite(w.dir)
	t.Harness(err)
	s2, err := newSite(w2.dir)
	t.Harness(err)
	type job struct {
		name string
		run  func() string
	}
	var jobs []job
	for _, o := range w.reads(r) {
		o := o
		jobs = append(jobs, job{o.name, func() string { return outcomeOf(&o, s) }})
	}
	for _, o := range w2.reads(r) {
		o := o
		jobs = append(jobs, job{o.name, func() string { return outcomeOf(&o, s2) }})
	}
	for _, o := range memoryOps(t, r) {
		o := o
		jobs = append(jobs, job{o.name, func() string { return safeRender(o.run) }})
	}
	// records which everybody reads
	users, _ := s2.db.ReadUserRecords()
	boards, _ := s2.db.ReadBoardRecords()
	var arts []bbs.ArticleRecord
	for _, b := range w2.boards {
		if l, err := s2.db.ReadBoardArticleRecordsFile(b.id); err == nil {
			arts = append(arts, l...)
		}
	}
	var favs [][]bbs.FavoriteRecord
	for _, u := range w2.ids {
		if l, err := s2.db.ReadUserFavoriteRecords(u); err == nil {
			favs = append(favs, l)
		}
	}
	jobs = append(jobs,
		job{"shared accounts", func() string { return render(users) }},
		job{"shared boards", func() string { return render(boards) }},
		job{"shared articles", func() string { return render(arts) }},
		job{"shared favorites", func() string { return render(favs) }})
	for i := range users {
		i := i
		jobs = append(jobs, job{"VerifyPassword of a shared account", func() string {
			return fmt.Sprint(users[i].VerifyPassword(w2.passwords[i]) == nil, users[i].VerifyPassword("wrong") == nil)
		}})
	}
	c, err := pttbbs.NewCache(w2.shm, w2.im.mapping())
	t.Harness(err)
	defer c.Close()
	jobs = append(jobs, job{"shared cache", func() string {
		return render([]interface{}{c.Version(), c.UserID(3), c.Money(4), c.UserInfo(0), c.UserInfo(1), c.UserInfo(9)})
	}})
	alone := make([]string, len(jobs))
	for i := range jobs {
		alone[i] = jobs[i].run()
	}
	// each goroutine has a board, an article and a draft of its own
	g := 6 + r.IntN(4)
	for j := 0; j < g; j++ {
		mkdirs(t, w.boardDir(fmt.Sprintf("own%d", j)))
		mkdirs(t, w.userDir(fmt.Sprintf("own%d", j)))
	}
	mkdirs(t, w.boardDir("shared"))
	brdPath := filepath.Join(t.Dir(), "other.BRD")
	writeFile(t, brdPath, nil)
	var wg sync.WaitGroup
	var mu sync.Mutex
	var bad []string
	var calls, writes atomic.Int64
	for j := 0; j < g; j++ {
		rg := rand.New(rand.NewPCG(r.Uint64(), 3))
		wg.Add(1)
		go func(j int) {
			defer wg.Done()
			fail := func(format string, a ...interface{}) {
				mu.Lock()
				bad = append(bad, fmt.Sprintf(format, a...))
				mu.Unlock()
			}
			defer func() {
				if e := recover(); e != nil {
					fail("panic: %v\n%s", e, debug.Stack())
				}
			}()
			own := fmt.Sprintf("own%d", j)
			var art []byte
			entries := 0
			for k := 0; k < 60; k++ {
				if rg.IntN(4) > 0 {
					i := rg.IntN(len(jobs))
					if out := jobs[i].run(); out != alone[i] {
						fail("%s gives among others %s", jobs[i].name, clipDiff(out, alone[i]))
						return
					}
					calls.Add(1)
					continue
				}
				writes.Add(1)
				var err error
				switch rg.IntN(8) {
				case 0:
					art = randBytes(rg, rg.IntN(500))
					err = s.db.WriteBoardArticleFile(own, "M.1.A.000", art)
				case 1:
					if art == nil {
						continue
					}
					b := randBytes(rg, rg.IntN(100))
					err = s.db.AppendBoardArticleFile(own, "M.1.A.000", b)
					art = append(art, b...)
				case 2:
					d := randBytes(rg, rg.IntN(200))
					err = s.db.WriteUserDraft(own, "1", bbs.NewUserDraft(d))
					if err == nil {
						var x bbs.UserDraft
						x, err = s.db.GetUserDrafts(own, "1")
						if err == nil && !bytes.Equal(x.Raw(), d) {
							fail("a draft of its own is read as %d bytes, %d were written", len(x.Raw()), len(d))
						}
					}
				case 3:
					var a bbs.ArticleRecord
					a, err = s.db.CreateArticleRecord("shared", own, "1/02", own)
					if err == nil {
						err = s.db.AddArticleRecordFileRecord(own, a)
						entries++
					}
				case 4:
					var l []bbs.ArticleRecord
					l, err = s.db.ReadBoardArticleRecordsFile(own)
					if err == nil && len(l) != entries {
						fail("an index of its own has %d entries of %d", len(l), entries)
					}
				case 5:
					hdr := pttbbs.NewBoardHeader()
					hdr.SetBoardID(own)
					err = pttbbs.AppendBoardHeaderFileRecord(brdPath, hdr)
				case 6:
					_, err = pttbbs.OpenBoardHeaderFile(brdPath)
				case 7:
					var b []byte
					if art == nil {
						continue
					}
					b, err = s.db.ReadBoardArticleFile(own, "M.1.A.000")
					if err == nil && !bytes.Equal(b, art) {
						fail("an article of its own has %d bytes, %d were written", len(b), len(art))
					}
				}
				if err != nil {
					fail("among others: %v", err)
					return
				}
			}
		}(j)
	}
	wg.Wait()
	if len(bad) > 0 {
		t.Fatalf("%s", strings.Join(bad[:min(3, len(bad))], "\n"))
	}
	t.Count("calls", int(calls.Load()))
	t.Count("changes", int(writes.Load()))
	t.Count("goroutines", g)
	t.Nontrivial(t.Idx, len(jobs))
	t.Sample("%d goroutines, %d kinds of calls", g, len(jobs))
}

// c36memory: the functions which work on memory, all at once.
func c36memory(t *T) {
	ops := memoryOps(t, t.R)
	alone := make([]string, len(ops))
	for i := range ops {
		alone[i] = safeRender(ops[i].run)
	}
	var wg sync.WaitGroup
	var bad atomic.Value
	start := make(chan bool)
	for j := 0; j < 8; j++ {
		rg := rand.New(rand.NewPCG(t.R.Uint64(), 3))
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for k := 0; k < 150; k++ {
				i := rg.IntN(len(ops))
				if out := safeRender(ops[i].run); out != alone[i] {
					bad.Store(fmt.Sprintf("%s gives among others %s", ops[i].name, clipDiff(out, alone[i])))
					return
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	if b := bad.Load(); b != nil {
		t.Fatalf("%v", b)
	}
	t.Count("memory_calls", 8*150)
	t.Nontrivial(t.Idx)
}

func init() {
	register(&Prop{ID: "C34",
		Rule:   "a home with broken and unusual files, every reading and changing operation on it; nontrivial by the number of operations",
		Assume: []string{"/proc/self tells what the process holds; the garbage collector is off"},
		Groups: []Group{
			{Name: "operations", Quick: 40, Thorough: 3000, Par: 1, Fn: c34},
			{Name: "segments", Quick: 40, Thorough: 3000, Par: 1, Fn: c34cache},
			{Name: "faults", Quick: 24, Thorough: 1200, Fn: c34faults},
		}})
	register(&Prop{ID: "C37",
		Rule:   "a home and every reading operation on it, three times in random order; nontrivial by what the operations gave",
		Assume: []string{"access times are not judged"},
		Groups: []Group{
			{Name: "home", Quick: 150, Thorough: 10000, Fn: c37},
			{Name: "memory", Quick: 300, Thorough: 20000, Fn: c37memory},
		}})
	register(&Prop{ID: "C39",
		Rule: "calls whose arguments are compared with copies, and whose results and arguments are overwritten; nontrivial by case",
		Groups: []Group{
			{Name: "reads", Quick: 150, Thorough: 10000, Fn: c39},
			{Name: "memory", Quick: 1500, Thorough: 100000, Fn: c39memory},
			{Name: "writes", Quick: 300, Thorough: 20000, Fn: c39write},
			{Name: "settings", Quick: 300, Thorough: 20000, Fn: c39settings},
		}})
	register(&Prop{ID: "C26",
		Rule:   "two to five homes opened in different forms and used side by side; nontrivial by case",
		Assume: []string{"the race detector sees the schedules which occurred"},
		Groups: []Group{
			{Name: "homes", Quick: 25, Thorough: 1500, Par: 3, Fn: c26},
			{Name: "register", Quick: 40, Thorough: 3000, Par: 2, Fn: c26register},
			{Name: "twins", Quick: 16, Thorough: 1000, Par: 4, Fn: c26twins},
		}})
	register(&Prop{ID: "C36",
		Rule:   "goroutines with reading, changing and converting calls in random order; nontrivial by case",
		Assume: []string{"the race detector sees the schedules which occurred"},
		Groups: []Group{
			{Name: "mixed", Quick: 25, Thorough: 1500, Par: 2, Fn: c36},
			{Name: "memory", Quick: 60, Thorough: 4000, Par: 2, Fn: c36memory},
			{Name: "cold", Quick: 30, Thorough: 3000, Par: 2, Fn: c36cold},
		}})
}
