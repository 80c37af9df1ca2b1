package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	bbs "github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"github.com/anishathalye/porcupine"
)

// mono is one clock for all processes.
func mono() int64 {
	var ts syscall.Timespec
	syscall.Syscall(syscall.SYS_CLOCK_GETTIME, 1, uintptr(unsafe.Pointer(&ts)), 0)
	return ts.Nano()
}

// cop is one operation of a client, cres what came of it.
type cop struct {
	Op          string
	Board, File string
	Data        []byte
	Idx         int
	Sleep       int // microseconds before the call
}

type cres struct {
	Call, Ret int64
	Err       string
	Data      []byte
	Names     []string
	Wall      [2]int64 // unix time before and after
}

type hev struct {
	Client int
	Mode   string
	Op     cop
	Res    cres
}

// site is a database and its connector.
type site struct {
	home string
	db   *bbs.DB
	conn *pttbbs.Connector
}

func newSite(home string) (*site, error) {
	db, err := bbs.Open("pttbbs", home)
	if err != nil {
		return nil, err
	}
	c := &pttbbs.Connector{}
	return &site{home, db, c}, c.Open(home)
}

func (s *site) run(o cop) (res cres) {
	var err error
	if o.Sleep > 0 {
		time.Sleep(time.Duration(o.Sleep) * time.Microsecond)
	}
	defer func() {
		if err != nil {
			res.Err = err.Error()
		}
	}()
	index := filepath.Join(s.home, "boards", o.Board[:1], o.Board, ".DIR")
	brd := filepath.Join(s.home, ".BRD")
	var hdr *pttbbs.FileHeader
	if o.Op == "addart" || o.Op == "updart" {
		if hdr, err = pttbbs.NewFileHeaderWithByte(o.Data); err != nil {
			return
		}
	}
	var bhdr bbs.BoardRecord
	if o.Op == "addbrd" {
		if bhdr, err = pttbbs.UnmarshalBoardHeader(o.Data); err != nil {
			return
		}
	}
	res.Wall[0] = time.Now().Unix()
	res.Call = mono()
	var names []string
	switch o.Op {
	case "write":
		err = s.db.WriteBoardArticleFile(o.Board, o.File, o.Data)
	case "append":
		err = s.db.AppendBoardArticleFile(o.Board, o.File, o.Data)
	case "read":
		res.Data, err = s.db.ReadBoardArticleFile(o.Board, o.File)
	case "addart":
		err = s.db.AddArticleRecordFileRecord(o.Board, hdr)
	case "updart":
		err = s.conn.UpdateArticleRecordFileRecord(index, uint(o.Idx), hdr)
	case "listart":
		var l []bbs.ArticleRecord
		l, err = s.db.ReadBoardArticleRecordsFile(o.Board)
		for _, x := range l {
			b, _ := x.(*pttbbs.FileHeader).MarshalToByte()
			res.Data = append(res.Data, b...)
		}
	case "addbrd":
		err = s.db.AddBoardRecord(bhdr)
	case "rmbrd":
		err = pttbbs.RemoveBoardHeaderFileRecord(brd, o.Idx)
	case "listbrd":
		var l []bbs.BoardRecord
		l, err = s.db.ReadBoardRecords()
		for _, x := range l {
			b, _ := x.(*pttbbs.BoardHeader).MarshalBinary()
			res.Data = append(res.Data, b...)
		}
	case "create":
		var a bbs.ArticleRecord
		a, err = s.db.CreateArticleRecord(o.Board, "owner", "1/01", "title")
		if err == nil {
			names = []string{a.Filename()}
		}
	case "createmap":
		var a bbs.ArticleRecord
		a, err = s.conn.NewArticleRecordWithMap(map[string]interface{}{"owner": "owner", "date": "1/01", "title": "title", "board_id": o.Board})
		if err == nil {
			names = []string{a.Filename()}
		}
	case "wdraft":
		err = s.db.WriteUserDraft(o.Board, o.File, bbs.NewUserDraft(o.Data))
	case "rdraft":
		var d bbs.UserDraft
		d, err = s.db.GetUserDrafts(o.Board, o.File)
		if err == nil {
			res.Data = append([]byte{}, d.Raw()...)
		}
	case "ddraft":
		err = s.db.DeleteUserDraft(o.Board, o.File)
	case "userarts":
		var l []bbs.UserArticleRecord
		l, err = s.db.GetUserArticleRecordFile(o.File)
		for _, x := range l {
			names = append(names, fmt.Sprintf("%q", []string{x.BoardID(), x.ArticleID(), x.Owner(), x.Title()}))
		}
	case "usercomments", "boardcomments", "artcomments":
		var l []bbs.UserCommentRecord
		switch o.Op {
		case "usercomments":
			l, err = s.db.GetUserCommentRecordFile(o.File)
		case "boardcomments":
			l, err = s.db.GetBoardUserCommentRecord(o.Board, o.File)
		default:
			l, err = s.db.GetBoardArticleCommentRecords(o.Board, &otherArt{file: o.File})
		}
		for _, x := range l {
			names = append(names, fmt.Sprintf("%q", []string{x.BoardID(), x.Filename(), x.Owner(), x.String()}))
		}
	case "favs":
		var l []bbs.FavoriteRecord
		l, err = s.db.ReadUserFavoriteRecords(o.File)
		var walk func(l []bbs.FavoriteRecord)
		walk = func(l []bbs.FavoriteRecord) {
			for _, x := range l {
				names = append(names, fmt.Sprintf("%v %q %q", x.Type(), x.BoardID(), x.Title()))
				walk(x.Records())
			}
		}
		walk(l)
	default:
		panic("unknown operation " + o.Op)
	}
	res.Ret = mono()
	res.Wall[1] = time.Now().Unix()
	res.Names = names
	return
}

type workerTask struct {
	Home    string
	Clients [][]cop
}

// workerConc runs clients in a process of its own: it prints a line when it
// is ready and starts when it gets one.
func workerConc(args []string) {
	in := bufio.NewReader(os.Stdin)
	var task workerTask
	line, err := in.ReadBytes('\n')
	if err == nil {
		err = json.Unmarshal(line, &task)
	}
	var s *site
	if err == nil {
		s, err = newSite(task.Home)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(99)
	}
	fmt.Println("ready")
	in.ReadByte()
	ret := make([][]cres, len(task.Clients))
	var wg sync.WaitGroup
	for i, ops := range task.Clients {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, o := range ops {
				ret[i] = append(ret[i], s.run(o))
			}
		}()
	}
	wg.Wait()
	b, _ := json.Marshal(ret)
	os.Stdout.Write(append(b, '\n'))
}

type placement struct {
	mode   string   // "goroutine" or a process's name
	strace []string // how that process is slowed down
	env    []string
}

// runConc runs clients at the same time, client i where place[i] says, and
// returns their history in the order of the calls.
func runConc(t *T, home string, clients [][]cop, place []placement) []hev {
	local, err := newSite(home)
	t.Harness(err)
	type proc struct {
		p     placement
		ids   []int
		cmd   *exec.Cmd
		in    io.WriteCloser
		out   *bufio.Reader
		errb  bytes.Buffer
		trace string
	}
	var procs []*proc
	byMode := map[string]*proc{}
	var inproc []int
	for i, p := range place {
		if p.mode == "goroutine" {
			inproc = append(inproc, i)
			continue
		}
		if byMode[p.mode] == nil {
			byMode[p.mode] = &proc{p: p}
			procs = append(procs, byMode[p.mode])
		}
		byMode[p.mode].ids = append(byMode[p.mode].ids, i)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	for _, p := range procs {
		task := workerTask{Home: home}
		for _, i := range p.ids {
			task.Clients = append(task.Clients, clients[i])
		}
		cmd, trace := workerCmd(t, ctx, workerOpt{strace: p.p.strace, env: p.p.env}, "conc")
		p.cmd, p.trace = cmd, trace
		p.in, err = cmd.StdinPipe()
		t.Harness(err)
		o, err := cmd.StdoutPipe()
		t.Harness(err)
		p.out = bufio.NewReader(o)
		cmd.Stderr = &p.errb
		t.Harness(cmd.Start())
		b, _ := json.Marshal(task)
		go p.in.Write(append(b, '\n'))
	}
	for _, p := range procs {
		if l, err := p.out.ReadString('\n'); err != nil || l != "ready\n" {
			t.Harness(fmt.Errorf("worker: %q %v %s", l, err, p.errb.String()))
		}
	}
	res := make([][]cres, len(clients))
	var wg sync.WaitGroup
	start := make(chan bool)
	for _, i := range inproc {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, o := range clients[i] {
				res[i] = append(res[i], local.run(o))
			}
		}()
	}
	for _, p := range procs {
		p.in.Write([]byte("\n"))
	}
	close(start)
	wg.Wait()
	for _, p := range procs {
		var l [][]cres
		b, rerr := p.out.ReadBytes('\n')
		err := p.cmd.Wait()
		if rerr != nil || json.Unmarshal(b, &l) != nil || len(l) != len(p.ids) {
			if ctx.Err() != nil {
				t.Fatalf("clients in a process of their own did not end within 120 s")
			}
			t.Fatalf("a process with clients ended: %v %v %s", rerr, err, clipEnds(p.errb.String(), 2000))
		}
		for k, i := range p.ids {
			res[i] = l[k]
		}
		if p.trace != "" {
			t.Count("system_calls_delayed", bytes.Count(readFile0(p.trace), []byte("(DELAYED)")))
			os.Remove(p.trace)
		}
	}
	var h []hev
	for i, ops := range clients {
		for k, o := range ops {
			h = append(h, hev{i, place[i].mode, o, res[i][k]})
		}
	}
	sort.SliceStable(h, func(a, b int) bool { return h[a].Res.Call < h[b].Res.Call })
	over := 0
	for i := range h {
		for j := i + 1; j < len(h) && h[j].Res.Call < h[i].Res.Ret; j++ {
			if h[i].Client != h[j].Client {
				over++
			}
		}
	}
	t.Count("operations", len(h))
	t.Count("overlapping_pairs", over)
	t.Count("processes", len(procs))
	return h
}

// genPlaces spreads clients over goroutines and processes; some processes
// wait inside the system calls which change the file.
func genPlaces(r *rand.Rand, n int, path string) []placement {
	style := r.IntN(4)
	nproc := 1 + r.IntN(3)
	ps := make([]placement, nproc)
	for k := range ps {
		ps[k] = placement{mode: fmt.Sprintf("process %d", k)}
		if style >= 2 && k == 0 || style == 3 {
			call := []string{"write", "ftruncate", "write,ftruncate", "pwrite64,write", "lseek,read", "flock"}[r.IntN(6)]
			ps[k].mode += " slow in " + call
			ps[k].strace = []string{"-P", path, "-e", "trace=write,ftruncate,pwrite64,lseek,read,flock", "-e", fmt.Sprintf("inject=%s:%s=%d", call, []string{"delay_enter", "delay_exit"}[r.IntN(2)], 300+r.IntN(4000))}
		}
	}
	ret := make([]placement, n)
	for i := range ret {
		if style == 0 || r.IntN(3) == 0 {
			ret[i] = placement{mode: "goroutine"}
		} else {
			ret[i] = ps[r.IntN(nproc)]
		}
	}
	return ret
}

func modesOf(h []hev) string {
	m := map[string]int{}
	for _, e := range h {
		m[e.Mode]++
	}
	var l []string
	for k, v := range m {
		l = append(l, fmt.Sprintf("%s: %d", k, v))
	}
	sort.Strings(l)
	return strings.Join(l, ", ")
}

// order is the interleaving seen: the order of calls and returns.
func order(h []hev) string {
	type ev struct {
		t int64
		s string
	}
	var l []ev
	for i, e := range h {
		l = append(l, ev{e.Res.Call, fmt.Sprintf("c%d%s", e.Client, e.Op.Op)}, ev{e.Res.Ret, fmt.Sprintf("r%d", e.Client)})
		_ = i
	}
	sort.Slice(l, func(a, b int) bool { return l[a].t < l[b].t })
	var sb strings.Builder
	for _, e := range l {
		sb.WriteString(e.s)
	}
	return sb.String()
}

func dumpHistory(t *T, h []hev, show func(e hev) string) {
	var sb strings.Builder
	var t0 int64
	if len(h) > 0 {
		t0 = h[0].Res.Call
	}
	for _, e := range h {
		fmt.Fprintf(&sb, "%8.3f..%8.3f ms client %d (%s) %s\n", float64(e.Res.Call-t0)/1e6, float64(e.Res.Ret-t0)/1e6, e.Client, e.Mode, show(e))
	}
	t.Note("history:\n%s", sb.String())
}

// linear checks a history with porcupine. A timeout is no verdict.
func linear(t *T, model porcupine.Model, ops []porcupine.Operation, what string) {
	res := porcupine.CheckOperationsTimeout(model, ops, 20*time.Second)
	switch res {
	case porcupine.Illegal:
		t.Fatalf("%s: the results of the history below are those of no sequential order", what)
	case porcupine.Unknown:
		t.Count("histories_undecided_in_20s", 1)
	default:
		t.Count("histories_linearizable", 1)
	}
}

// ---- C20

// token is a content which can be told from all others, cut or whole.
func token(r *rand.Rand, id int) []byte {
	n := []int{0, 10, 100, 4096, 5000, 9000, 70000}[r.IntN(7)]
	s := fmt.Sprintf("<%d:", id)
	pad := bytes.Repeat([]byte{byte('a' + id%26)}, n)
	return append(append([]byte(s), pad...), []byte(fmt.Sprintf(":%d>", id))...)
}

// parseTokens splits a content into the ids of its tokens.
func parseTokens(b []byte, sizes map[int]int) (ids []int, ok bool) {
	for len(b) > 0 {
		var id int
		if n, _ := fmt.Sscanf(string(b[:min(12, len(b))]), "<%d:", &id); n != 1 {
			return ids, false
		}
		s := sizes[id]
		end := fmt.Sprintf(":%d>", id)
		if s == 0 || s > len(b) || !bytes.HasSuffix(b[:s], []byte(end)) || bytes.Count(b[:s], []byte("<")) != 1 {
			return ids, false
		}
		ids = append(ids, id)
		b = b[s:]
	}
	return ids, true
}

func c20(t *T) {
	r := t.R
	m := newHome(t, "h")
	brd := genBoard(r)
	mkdirs(t, m.boardDir(brd))
	files := []string{"M.1.A.001"}
	if r.IntN(3) == 0 {
		files = append(files, "M.1.A.002")
	}
	sizes := map[int]int{}
	next := 0
	tok := func() []byte {
		next++
		b := token(r, next)
		sizes[next] = len(b)
		return b
	}
	for _, f := range files {
		writeFile(t, filepath.Join(m.boardDir(brd), f), tok())
	}
	init := next
	nc := 2 + r.IntN(5)
	clients := make([][]cop, nc)
	onlyAppend := r.IntN(4) == 0
	for i := range clients {
		for k := 2 + r.IntN(6); k > 0; k-- {
			o := cop{Board: brd, File: files[r.IntN(len(files))]}
			switch x := r.IntN(6); {
			case x < 2:
				o.Op, o.Data = "append", tok()
			case x < 4 && !onlyAppend:
				o.Op, o.Data = "write", tok()
			case x < 4:
				o.Op, o.Data = "append", tok()
			default:
				o.Op = "read"
			}
			if r.IntN(3) == 0 {
				o.Sleep = r.IntN(1500)
			}
			clients[i] = append(clients[i], o)
		}
	}
	h := runConc(t, m.dir, clients, genPlaces(r, nc, filepath.Join(m.boardDir(brd), files[0])))
	// what is there in the end is read once more
	for _, f := range files {
		s, err := newSite(m.dir)
		t.Harness(err)
		o := cop{Op: "read", Board: brd, File: f}
		h = append(h, hev{nc, "goroutine", o, s.run(o)})
	}
	dumpHistory(t, h, func(e hev) string {
		d := e.Op.Data
		if e.Op.Op == "read" {
			ids, ok := parseTokens(e.Res.Data, sizes)
			return fmt.Sprintf("read %s: %v %v %s", e.Op.File, ids, ok, e.Res.Err)
		}
		var id int
		fmt.Sscanf(string(d[:min(len(d), 12)]), "<%d:", &id)
		return fmt.Sprintf("%s %s %d (%d bytes) %s", e.Op.Op, e.Op.File, id, len(d), e.Res.Err)
	})
	model := porcupine.Model{
		Init: func() interface{} { return "" },
		Step: func(st, in, out interface{}) (bool, interface{}) {
			o := in.(cop)
			x := out.(string)
			switch o.Op {
			case "write":
				return true, x
			case "append":
				return true, st.(string) + x
			}
			return x == st.(string), st
		},
	}
	reads, updates := 0, 0
	for fi, f := range files {
		var ops []porcupine.Operation
		ops = append(ops, porcupine.Operation{ClientId: nc + 1, Input: cop{Op: "write"}, Output: fmt.Sprintf("%d,", init-len(files)+1+fi), Call: -2, Return: -1})
		for _, e := range h {
			if e.Op.File != f {
				continue
			}
			t.Check(e.Res.Err == "", "%s by client %d: %s", e.Op.Op, e.Client, e.Res.Err)
			out := ""
			d := e.Op.Data
			if e.Op.Op == "read" {
				d = e.Res.Data
				reads++
			} else {
				updates++
			}
			ids, ok := parseTokens(d, sizes)
			t.Check(ok, "client %d (%s) read %d bytes which are not whole contents: after the contents %v comes %q", e.Client, e.Mode, len(d), ids, clip(string(d[sumSizes(ids, sizes):]), 60))
			for _, i := range ids {
				out += fmt.Sprintf("%d,", i)
			}
			ops = append(ops, porcupine.Operation{ClientId: e.Client, Input: e.Op, Output: out, Call: e.Res.Call, Return: e.Res.Ret})
		}
		linear(t, model, ops, f)
	}
	t.Count("reads", reads)
	t.Count("updates", updates)
	t.Nontrivial(order(h))
	t.Sample("%d clients, %s", nc, modesOf(h))
}

func sumSizes(ids []int, sizes map[int]int) (n int) {
	for _, i := range ids {
		n += sizes[i]
	}
	return
}

// ---- C22

func c22(t *T) {
	r := t.R
	m := newHome(t, "h")
	brd := genBoard(r)
	path := m.index(brd)
	serial := 0
	owner := map[string]string{} // record -> who wrote it
	rec := func(who string) []byte {
		serial++
		_, b := genHeader(t)
		off, n := loadLayout(t).of(t, "fileheader_t.filename")
		copy(b[off:off+n], make([]byte, n))
		copy(b[off:], fmt.Sprintf("R.%d", serial))
		v, _ := pttbbs.NewFileHeaderWithByte(b)
		b, _ = v.MarshalToByte()
		owner[string(b)] = who
		return b
	}
	k := r.IntN(4)
	if r.IntN(3) == 0 {
		k = 4 + r.IntN(12)
	}
	if r.IntN(40) == 0 {
		k = 300 + r.IntN(2000)
	}
	over := r.IntN(4) == 0 // also records which are just being added are updated
	var initial []byte
	for i := 0; i < k; i++ {
		initial = append(initial, rec("initial")...)
	}
	junk := 0
	if r.IntN(3) == 0 {
		junk = 1 + r.IntN(127)
	}
	mkdirs(t, m.boardDir(brd))
	if k > 0 || junk > 0 || r.IntN(2) == 0 {
		writeFile(t, path, append(append([]byte{}, initial...), bytes.Repeat([]byte{0xee}, junk)...))
	}
	nc := 2 + r.IntN(6)
	if over {
		nc = 2 + r.IntN(4)
	}
	clients := make([][]cop, nc)
	for i := range clients {
		n := 2 + r.IntN(7)
		if over || k > 100 {
			n = 2 + r.IntN(3)
		}
		role := r.IntN(6) // 4: mostly updates, 5: mostly lists
		for ; n > 0; n-- {
			o := cop{Board: brd}
			x := r.IntN(6)
			if role >= 4 && r.IntN(4) > 0 {
				x = role - 1
			}
			switch {
			case x < 3:
				o.Op, o.Data = "addart", rec(fmt.Sprint(i))
			case x == 3 && over:
				o.Op, o.Data, o.Idx = "updart", rec(fmt.Sprint(i)), k+r.IntN(6)-1
				if k > 0 && r.IntN(2) == 0 {
					o.Idx = r.IntN(k)
				}
				if o.Idx < 0 {
					o.Idx = 0
				}
			case x == 3 && k > 0:
				o.Op, o.Data, o.Idx = "updart", rec(fmt.Sprint(i)), r.IntN(k)
				if r.IntN(3) == 0 {
					o.Idx = []int{0, k - 1}[r.IntN(2)]
				}
			default:
				o.Op = "listart"
			}
			if r.IntN(3) == 0 {
				o.Sleep = r.IntN(1500)
			}
			clients[i] = append(clients[i], o)
		}
	}
	h := runConc(t, m.dir, clients, genPlaces(r, nc, path))
	s, err := newSite(m.dir)
	t.Harness(err)
	o := cop{Op: "listart", Board: brd}
	last := hev{nc, "goroutine", o, s.run(o)}
	h = append(h, last)
	name := func(b []byte) string {
		if len(b) != 128 {
			return fmt.Sprintf("%d bytes", len(b))
		}
		if w, ok := owner[string(b)]; ok {
			return string(b[:bytes.IndexByte(b, 0)]) + "/" + w
		}
		return "unknown " + fmt.Sprintf("%x", b[:20])
	}
	names := func(d []byte) (l []string) {
		for ; len(d) >= 128; d = d[128:] {
			l = append(l, name(d[:128]))
		}
		return
	}
	dumpHistory(t, h, func(e hev) string {
		if e.Op.Op == "listart" {
			return fmt.Sprintf("list: %v %s", names(e.Res.Data), e.Res.Err)
		}
		return fmt.Sprintf("%s %d %s %s", e.Op.Op, e.Op.Idx, name(e.Op.Data), e.Res.Err)
	})
	t.Nontrivial(order(h))
	t.Sample("%d clients, %d there before, %s", nc, k, modesOf(h))
	ids := map[string]string{} // a short name of every record
	for b := range owner {
		ids[b] = b[2:strings.IndexByte(b, 0)] + ","
	}
	state := func(d []byte) string {
		var sb strings.Builder
		for ; len(d) >= 128; d = d[128:] {
			x, ok := ids[string(d[:128])]
			t.Check(ok, "a record was written by nobody: %s", hexdump(d[:128]))
			sb.WriteString(x)
		}
		return sb.String()
	}
	pos := map[string]int{} // where the added records are in the end
	type outcome struct {
		x   string
		err bool
	}
	whole := porcupine.Model{
		Init: func() interface{} { return state(initial) },
		Step: func(st, in, out interface{}) (bool, interface{}) {
			s, o, x := st.(string), in.(cop), out.(outcome)
			switch o.Op {
			case "addart":
				if p, ok := pos[x.x]; ok && !over && p != strings.Count(s, ",") {
					return false, s
				}
				return !x.err, s + x.x
			case "listart":
				return !x.err && s == x.x, s
			}
			l := strings.SplitAfter(s, ",")
			if o.Idx >= len(l)-1 {
				return x.err, s
			}
			l[o.Idx] = x.x
			return !x.err, strings.Join(l, "")
		},
	}
	checkWhole := func() {
		var ops []porcupine.Operation
		for _, e := range h {
			x := outcome{err: e.Res.Err != ""}
			if e.Op.Op == "listart" {
				x.x = state(e.Res.Data)
			} else {
				x.x = ids[string(e.Op.Data)]
			}
			ops = append(ops, porcupine.Operation{ClientId: e.Client, Input: e.Op, Output: x, Call: e.Res.Call, Return: e.Res.Ret})
		}
		linear(t, whole, ops, "article index")
	}
	if over {
		refused := 0
		for _, e := range h {
			t.Check(e.Res.Err == "" || e.Op.Op == "updart", "%s by client %d: %s", e.Op.Op, e.Client, e.Res.Err)
			if e.Res.Err != "" {
				refused++
			}
		}
		checkWhole()
		t.Count("histories_with_updates_of_new_records", 1)
		t.Count("updates_refused", refused)
		return
	}
	for _, e := range h {
		t.Check(e.Res.Err == "", "%s by client %d: %s", e.Op.Op, e.Client, e.Res.Err)
	}
	t.Check(last.Res.Err == "", "reading at the end: %s", last.Res.Err)
	fin := last.Res.Data
	raw := readFile0(path)
	adds := 0
	at := map[string]int{}
	for i := 0; i+128 <= len(fin); i += 128 {
		rc := string(fin[i : i+128])
		_, known := owner[rc]
		t.Check(known, "record %d of the final index was written by nobody: %s", i/128, hexdump(fin[i:i+128]))
		if p, dup := at[rc]; dup {
			t.Fatalf("the final index has record %s at %d and %d", name([]byte(rc)), p, i/128)
		}
		at[rc] = i / 128
	}
	lastOf := map[int]int{}
	for _, e := range h { // in the order of calls, so also of each client
		if e.Op.Op != "addart" {
			continue
		}
		adds++
		p, ok := at[string(e.Op.Data)]
		t.Check(ok, "the record %s, whose addition was acknowledged, is not in the final index", name(e.Op.Data))
		t.Check(p >= k, "an added record is at position %d of %d which were there before", p, k)
		if q, ok := lastOf[e.Client]; ok {
			t.Check(p > q, "client %d added %s later than the record before it, in the index it stands before it", e.Client, name(e.Op.Data))
		}
		lastOf[e.Client] = p
	}
	t.Check(len(fin) == 128*(k+adds), "the final index has %d records, %d were there and %d added", len(fin)/128, k, adds)
	t.Check(len(raw) == len(fin) || adds == 0 && len(raw) == len(fin)+junk, "the final index has %d bytes for %d records", len(raw), len(fin)/128)
	// real time order of additions of different clients
	for _, a := range h {
		for _, b := range h {
			if a.Op.Op == "addart" && b.Op.Op == "addart" && a.Res.Ret < b.Res.Call {
				t.Check(at[string(a.Op.Data)] < at[string(b.Op.Data)], "%s was added before %s was begun, in the index it stands after it", name(a.Op.Data), name(b.Op.Data))
			}
		}
	}
	lists, mid := 0, 0
	for _, e := range h {
		if e.Op.Op != "listart" {
			continue
		}
		lists++
		d := e.Res.Data
		t.Check(len(d)%128 == 0 && len(d)/128 >= k && len(d) <= len(fin), "client %d read %d bytes, %d records were there before", e.Client, len(d), k)
		t.Check(bytes.Equal(d[k*128:], fin[k*128:len(d)]), "client %d read added records %v which are no beginning of the final %v", e.Client, names(d[k*128:]), names(fin[k*128:]))
		for _, a := range h {
			if a.Op.Op != "addart" {
				continue
			}
			p := at[string(a.Op.Data)]
			if a.Res.Ret < e.Res.Call {
				t.Check(p < len(d)/128, "client %d did not read %s, which was acknowledged before", e.Client, name(a.Op.Data))
			}
			if a.Res.Call > e.Res.Ret {
				t.Check(p >= len(d)/128, "client %d read %s, which was added later", e.Client, name(a.Op.Data))
			}
		}
		if len(d) < len(fin) && len(d) > k*128 {
			mid++
		}
	}
	ups := 0
	for _, e := range h {
		if e.Op.Op == "updart" {
			ups++
		}
	}
	// and all results together
	for rc, p := range at {
		if p >= k {
			pos[ids[rc]] = p
		}
	}
	checkWhole()
	t.Count("additions", adds)
	t.Count("updates", ups)
	t.Count("lists", lists)
	t.Count("lists_in_between", mid)
	if junk > 0 && adds > 0 {
		t.Count("histories_after_an_incomplete_record", 1)
	}
}

func readFile0(p string) []byte {
	b, _ := os.ReadFile(p)
	return b
}

// ---- C23

// boardRec is a board with random values as the code writes it.
func boardRec(t *T, id string) []byte {
	raw := boardType.genRec(t, t.R).raw
	putText(t, boardType, raw, "brdname", []byte(id))
	v, err := pttbbs.UnmarshalBoardHeader(raw)
	t.Check(err == nil, "decode: %v", err)
	b, err := v.MarshalBinary()
	t.Check(err == nil, "encode: %v", err)
	return b
}

// c23large removes boards of a long list.
func c23large(t *T) {
	r := t.R
	m := newHome(t, "h")
	n := []int{257, 1025, 4097, 8193, 16385, 33000}[t.Idx%6] + r.IntN(20)
	want := randBytes(r, 256*n)
	writeFile(t, m.brd(), want)
	for k := 0; k < 12; k++ {
		i := r.IntN(n)
		if r.IntN(2) == 0 { // next to a power of two
			i = 1<<r.IntN(16) - 1 + r.IntN(3)
		}
		if r.IntN(8) == 0 {
			i = n - 1
		}
		err := pttbbs.RemoveBoardHeaderFileRecord(m.brd(), i)
		if i < n {
			t.Check(err == nil, "removing board %d of %d: %v", i, n, err)
			want = append(want[:256*i], want[256*(i+1):]...)
			n--
		} else {
			t.Check(err != nil, "removing board %d of %d gives no error", i, n)
		}
		got := readFile(t, m.brd())
		t.Check(bytes.Equal(got, want), "after the removal of %d: the list has %d bytes, should have %d, first difference in board %d", i, len(got), len(want), firstDiff(got, want)/256)
	}
	l, err := m.db.ReadBoardRecords()
	t.Check(err == nil && len(l) == n, "%d of %d boards are read, %v", len(l), n, err)
	t.Max("boards", n)
	t.Nontrivial(n, sha(want))
}

// c23sparse is a board list whose positions in bytes need more than 31 bits.
func c23sparse(t *T) {
	r := t.R
	m := newHome(t, "h")
	n := []int64{1 << 23, 1 << 24, 1<<23 + 1<<22}[t.Idx%3] + 8 + int64(r.IntN(40))
	s := newSparse(t, m.brd(), 256, n)
	defer os.Remove(s.path)
	for _, i := range []int64{0, 1, 7, 1<<23 - 1, 1 << 23} {
		s.set(t, i, randBytes(r, 256))
	}
	for i := n - 300; i < n; i++ {
		if r.IntN(3) > 0 {
			s.set(t, i, randBytes(r, 256))
		}
	}
	for k := 0; k < 8; k++ {
		if r.IntN(3) == 0 {
			b := boardRec(t, genBoard(r))
			v, err := pttbbs.UnmarshalBoardHeader(append([]byte{}, b...))
			t.Harness(err)
			err = m.db.AddBoardRecord(v)
			t.Check(err == nil, "adding a board to %d: %v", n, err)
			s.recs[n] = b
			n++
			s.n = n
		} else {
			i := n - 1 - int64(r.IntN(250))
			switch r.IntN(6) {
			case 0:
				i = n + int64(r.IntN(3))
			case 1:
				i = n - 1
			}
			err := pttbbs.RemoveBoardHeaderFileRecord(s.path, int(i))
			if i >= n {
				t.Check(err != nil, "removing board %d of %d gives no error", i, n)
			} else {
				t.Check(err == nil, "removing board %d of %d: %v", i, n, err)
				for j := i; j < n-1; j++ {
					if b := s.recs[j+1]; b != nil {
						s.recs[j] = b
					} else {
						delete(s.recs, j)
					}
				}
				delete(s.recs, n-1)
				n--
				s.n = n
			}
		}
		if d := s.diff(t); d != "" {
			t.Fatalf("step %d, a list of %d boards: %s", k, n, d)
		}
	}
	t.Max("boards", int(n))
	t.Nontrivial(n)
}

func c23seq(t *T) {
	r := t.R
	m := newHome(t, "h")
	var model [][]byte
	junk := []byte(nil)
	exists := false
	if r.IntN(2) == 0 {
		exists = true
		for i := r.IntN(9); i > 0; i-- {
			model = append(model, randBytes(r, 256))
		}
		if r.IntN(3) == 0 {
			junk = randBytes(r, 1+r.IntN(255))
		}
		writeFile(t, m.brd(), append(bytes.Join(model, nil), junk...))
	}
	if r.IntN(20) == 0 { // many
		exists = true
		for i := 0; i < 300; i++ {
			model = append(model, randBytes(r, 256))
		}
		writeFile(t, m.brd(), append(bytes.Join(model, nil), junk...))
	}
	var trace []string
	steps := 4 + r.IntN(25)
	rm, bad := 0, 0
	for i := 0; i < steps; i++ {
		before := readFile0(m.brd())
		switch r.IntN(6) {
		case 0, 1:
			b := boardRec(t, genBoard(r))
			v, err := pttbbs.UnmarshalBoardHeader(append([]byte{}, b...))
			t.Check(err == nil, "decode: %v", err)
			trace = append(trace, "add")
			if r.IntN(2) == 0 {
				err = m.db.AddBoardRecord(v)
			} else {
				err = pttbbs.AppendBoardHeaderFileRecord(m.brd(), v)
			}
			t.Check(err == nil, "%v: %v", trace, err)
			b2, _ := v.MarshalBinary()
			t.Check(bytes.Equal(b, b2), "%v: the record given was changed", trace)
			model, exists, junk = append(model, b), true, nil
		case 2: // as new
			id := genBoard(r)
			_, title := genText(r, 48, false, false)
			v, err := m.db.NewBoardRecord(map[string]interface{}{"board_id": id, "title": title})
			t.Check(err == nil && v.BoardID() == id && v.Title() == title, "new board %q %q: %v", id, title, err)
			trace = append(trace, "new")
			t.Check(m.db.AddBoardRecord(v) == nil, "%v: error", trace)
			b, _ := v.(*pttbbs.BoardHeader).MarshalBinary()
			model, exists, junk = append(model, b), true, nil
			l, err := m.db.ReadBoardRecords()
			t.Check(err == nil && len(l) == len(model), "%v: %d boards, should be %d, %v", trace, len(l), len(model), err)
			g := l[len(l)-1]
			t.Check(g.BoardID() == id && g.Title() == title, "%v: the board added is %q %q, should be %q %q", trace, g.BoardID(), g.Title(), id, title)
			t.Check(!g.IsClass() && g.ClassID() == "0" && !g.(bbs.BoardRecordSettings).IsHide(), "a new board has attributes")
		case 3, 4:
			n := len(model)
			idx := r.IntN(n + 1)
			if r.IntN(8) == 0 {
				idx = []int{-1, n, n + 1, n + 1000, 1 << 40, -1 << 40, 1<<55 - 1, 1 << 56, 1<<63 - 1, -1 << 63}[r.IntN(10)]
			}
			trace = append(trace, fmt.Sprintf("remove %d of %d", idx, n))
			err := pttbbs.RemoveBoardHeaderFileRecord(m.brd(), idx)
			if idx >= 0 && idx < n {
				t.Check(err == nil, "%v: %v", trace, err)
				model = append(model[:idx:idx], model[idx+1:]...)
				rm++
				junk = nil // may also be dropped
			} else {
				t.Check(err != nil, "%v: removing a board which is not there gives no error", trace)
				t.Check(bytes.Equal(before, readFile0(m.brd())), "%v: a refused removal changed the file", trace)
				if !exists {
					_, err := os.Stat(m.brd())
					t.Check(os.IsNotExist(err), "%v: the board list was created", trace)
				}
				bad++
			}
		case 5:
			trace = append(trace, "list")
			if exists {
				l, err := m.db.ReadBoardRecords()
				t.Check(err == nil && len(l) == len(model), "%v: %d boards, should be %d, %v", trace, len(l), len(model), err)
			}
		}
		want := bytes.Join(model, nil)
		got := readFile0(m.brd())
		t.Check(len(got)/256 == len(model) && bytes.Equal(got[:len(model)*256], want), "%v: the list has %d bytes for %d boards, the first difference is in record %d", trace, len(got), len(model), firstDiff(got, want)/256)
	}
	for _, f := range []string{".BRD.new", ".BRD.tmp"} {
		_, err := os.Stat(filepath.Join(m.dir, f))
		t.Check(os.IsNotExist(err), "%s is left", f)
	}
	// the operations of the database which are not there yet change nothing
	before := readFile0(m.brd())
	if m.db.RemoveBoardRecord(0) == nil {
		t.Check(len(model) > 0 && bytes.Equal(readFile0(m.brd()), before[256:]), "RemoveBoardRecord gives no error and the first board was not removed")
	} else {
		t.Check(bytes.Equal(before, readFile0(m.brd())), "RemoveBoardRecord gives an error and changes the list")
	}
	t.Count("steps", steps)
	t.Count("removals", rm)
	t.Count("removals_refused", bad)
	if rm > 0 {
		t.Nontrivial(strings.Join(trace, ";"))
	}
	t.Sample("%s", clip(strings.Join(trace, "; "), 200))
}

func c23conc(t *T) {
	r := t.R
	m := newHome(t, "h")
	tag := map[string]string{}
	n := 0
	rec := func() []byte {
		n++
		b := boardRec(t, fmt.Sprintf("b%d", n))
		tag[string(b)] = fmt.Sprintf("b%d ", n)
		return b
	}
	var initial []byte
	init := ""
	k := r.IntN(6)
	if r.IntN(6) == 0 {
		k = 30
	}
	far := 4
	if r.IntN(20) == 0 {
		k = []int{260, 520, 1030, 1300, 2100}[r.IntN(5)]
		far = k + 3
	}
	for i := 0; i < k; i++ {
		b := rec()
		initial = append(initial, b...)
		init += tag[string(b)]
	}
	if r.IntN(4) == 0 {
		writeFile(t, m.brd(), append(initial, bytes.Repeat([]byte{0xee}, 1+r.IntN(255))...))
	} else {
		writeFile(t, m.brd(), initial)
	}
	nc := 2 + r.IntN(4)
	clients := make([][]cop, nc)
	for i := range clients {
		for j := 2 + r.IntN(4); j > 0; j-- {
			o := cop{Board: "x"}
			switch x := r.IntN(6); {
			case x < 2:
				o.Op, o.Data = "addbrd", rec()
			case x < 4:
				o.Op, o.Idx = "rmbrd", r.IntN(far)
				if far > 4 && r.IntN(2) == 0 {
					o.Idx = []int{0, k - 1, k - 2, k / 2}[r.IntN(4)]
				}
			default:
				o.Op = "listbrd"
			}
			if r.IntN(3) == 0 {
				o.Sleep = r.IntN(1500)
			}
			clients[i] = append(clients[i], o)
		}
	}
	h := runConc(t, m.dir, clients, genPlaces(r, nc, m.brd()))
	s, err := newSite(m.dir)
	t.Harness(err)
	o := cop{Op: "listbrd", Board: "x"}
	h = append(h, hev{nc, "goroutine", o, s.run(o)})
	tags := func(d []byte) (string, bool) {
		l, ok := "", len(d)%256 == 0
		for ; len(d) >= 256; d = d[256:] {
			x, known := tag[string(d[:256])]
			if !known {
				x, ok = "BROKEN ", false
			}
			l += x
		}
		return l, ok
	}
	dumpHistory(t, h, func(e hev) string {
		switch e.Op.Op {
		case "listbrd":
			l, _ := tags(e.Res.Data)
			return fmt.Sprintf("list: %s %s", l, e.Res.Err)
		case "rmbrd":
			return fmt.Sprintf("remove %d %s", e.Op.Idx, e.Res.Err)
		}
		return "add " + tag[string(e.Op.Data)] + e.Res.Err
	})
	t.Note("initial: %s", init)
	var ops []porcupine.Operation
	rm := 0
	for _, e := range h {
		out := ""
		switch e.Op.Op {
		case "listbrd":
			t.Check(e.Res.Err == "", "list by client %d: %s", e.Client, e.Res.Err)
			l, ok := tags(e.Res.Data)
			t.Check(ok, "client %d (%s) read a list with a broken record: %s", e.Client, e.Mode, l)
			out = l
		case "addbrd":
			t.Check(e.Res.Err == "", "add by client %d: %s", e.Client, e.Res.Err)
			out = tag[string(e.Op.Data)]
		case "rmbrd":
			if e.Res.Err != "" {
				out = "error"
			} else {
				rm++
			}
		}
		ops = append(ops, porcupine.Operation{ClientId: e.Client, Input: e.Op, Output: out, Call: e.Res.Call, Return: e.Res.Ret})
	}
	model := porcupine.Model{
		Init: func() interface{} { return init },
		Step: func(st, in, out interface{}) (bool, interface{}) {
			s, o, x := st.(string), in.(cop), out.(string)
			switch o.Op {
			case "listbrd":
				return s == x, s
			case "addbrd":
				return true, s + x
			}
			l := strings.Fields(s)
			if x == "error" {
				return o.Idx >= len(l), s
			}
			if o.Idx >= len(l) {
				return false, s
			}
			l = append(l[:o.Idx:o.Idx], l[o.Idx+1:]...)
			if len(l) == 0 {
				return true, ""
			}
			return true, strings.Join(l, " ") + " "
		},
	}
	linear(t, model, ops, "board list")
	t.Count("removals", rm)
	t.Nontrivial(order(h))
	t.Sample("%d clients, %d boards at first, %s", nc, k, modesOf(h))
}

// ---- C24

func c24(t *T) {
	r := t.R
	m := newHome(t, "h")
	brds := []string{genBoard(r), genBoard(r)}
	before, taken := map[string]string{}, map[string]bool{}
	now := time.Now().Unix()
	style := t.Idx % 3
	for i, b := range brds {
		mkdirs(t, m.boardDir(b))
		writeFile(t, filepath.Join(m.boardDir(b), "M.1.A.000"), []byte("old"))
		if i > 0 {
			continue
		}
		n := []int{0, 3000, 4096}[style]
		for s := int64(0); s < 3 && n > 0; s++ {
			perm := r.Perm(4096)[:n]
			if n == 4096 && s == 2 {
				break
			}
			for _, x := range perm {
				p := filepath.Join(m.boardDir(b), fmt.Sprintf("M.%d.A.%03X", now+s, x))
				taken[b+"/"+filepath.Base(p)] = true
				switch k := r.IntN(32); {
				case k < 16:
					writeFile(t, p, []byte("article"))
				case k < 29: // taken, and nothing written so far
					writeFile(t, p, nil)
					if k%2 == 0 {
						t.Harness(os.Chtimes(p, time.Unix(now-100000, 0), time.Unix(now-100000, 0)))
					}
				case k < 30:
					mkdirs(t, p)
				case k < 31:
					t.Harness(os.Symlink("M.1.A.000", p))
				default:
					t.Harness(os.Symlink("nothing", p))
				}
			}
		}
	}
	before = snapshot(t, m.dir, false)
	nc := 4 + r.IntN(5)
	per := 120
	if style == 2 {
		per = 10
	}
	clients := make([][]cop, nc)
	for i := range clients {
		for k := 0; k < per; k++ {
			o := cop{Op: "create", Board: brds[0]}
			if r.IntN(4) == 0 {
				o.Op = "createmap"
			}
			if r.IntN(10) == 0 {
				o.Board = brds[1]
			}
			clients[i] = append(clients[i], o)
		}
	}
	place := make([]placement, nc)
	for i := range place {
		place[i] = placement{mode: []string{"goroutine", "process 1", "process 2", "process 3"}[i%4]}
		if i%4 > 1 { // these draw the same numbers
			place[i].env = []string{"GODEBUG=randautoseed=0"}
		}
	}
	h := runConc(t, m.dir, clients, place)
	seen := map[string]int{}
	after := snapshot(t, m.dir, false)
	ok := 0
	for i, e := range h {
		t.Check(e.Res.Err == "" && len(e.Res.Names) == 1, "%s by client %d (%s): %s", e.Op.Op, e.Client, e.Mode, e.Res.Err)
		name := e.Res.Names[0]
		var tm int64
		var x int
		n, _ := fmt.Sscanf(name, "M.%d.A.%X", &tm, &x)
		t.Check(n == 2 && name == fmt.Sprintf("M.%d.A.%03X", tm, x) && x < 4096, "the name %q is not of the form M.<time>.A.<3 hex digits>", name)
		t.Check(tm >= e.Res.Wall[0] && tm <= e.Res.Wall[1], "the time of the name %q is not between %d and %d, when it was made", name, e.Res.Wall[0], e.Res.Wall[1])
		key := e.Op.Board + "/" + name
		if k, dup := seen[key]; dup {
			t.Fatalf("client %d (%s) and client %d (%s) both got %s", h[k].Client, h[k].Mode, e.Client, e.Mode, key)
		}
		seen[key] = i
		rel, _ := filepath.Rel(m.dir, filepath.Join(m.boardDir(e.Op.Board), name))
		_, was := before[rel]
		t.Check(!was && !taken[key], "client %d (%s) got the name of the existing article %s", e.Client, e.Mode, key)
		s, is := after[rel]
		t.Check(is, "the name %s was given and there is no such file", key)
		if e.Op.Op == "create" {
			t.Check(strings.HasSuffix(s, " 0 "), "the file of the new article %s is not empty: %q", key, clip(s, 80))
		}
		ok++
	}
	for k, v := range before {
		t.Check(after[k] == v, "the existing file %s was changed: %q", k, clip(after[k], 80))
	}
	t.Check(len(after) == len(before)+len(seen), "%d files were there, %d names were given, %d files are there", len(before), len(seen), len(after))
	secs := map[string]bool{}
	for k := range seen {
		secs[strings.Split(k, ".")[1]] = true
	}
	t.Count("names", ok)
	t.Max("names_taken_before", len(before))
	t.Count("seconds_with_names", len(secs))
	t.Nontrivial(len(before), nc, len(secs), t.Idx)
	t.Sample("%d clients, %d names in %d seconds, %d files before", nc, ok, len(secs), len(before))
}

func c24errors(t *T) {
	r := t.R
	m := newHome(t, "h")
	b := genBoard(r)
	want := "no directory"
	switch t.Idx % 5 {
	case 1:
		writeFile(t, m.boardDir(b), []byte("a file"))
		want = "a file in place of the directory"
	case 2:
		b = ""
		want = "no board id"
	case 3:
		b = strings.Repeat("x", 300)
		want = "a board id too long for a file name"
	case 4:
		b = "a\x00b"
		want = "NUL in the board id"
	}
	before := snapshot(t, m.dir, true)
	type ans struct {
		a   bbs.ArticleRecord
		err error
	}
	s, err := newSite(m.dir)
	t.Harness(err)
	for k := 0; k < 2; k++ {
		c := make(chan ans, 1)
		go func() {
			if k == 0 {
				a, err := m.db.CreateArticleRecord(b, "o", "1/1", "t")
				c <- ans{a, err}
			} else {
				a, err := s.conn.NewArticleRecordWithMap(map[string]interface{}{"owner": "o", "date": "1/1", "title": "t", "board_id": b})
				c <- ans{a, err}
			}
		}()
		select {
		case x := <-c:
			t.Check(x.err != nil, "%s: no error and the name %v", want, x.a)
		case <-time.After(60 * time.Second):
			t.Fatalf("%s: the request for a new article does not end", want)
		}
	}
	t.Check(diffSnap(before, snapshot(t, m.dir, true)) == "", "%s: files changed: %s", want, diffSnap(before, snapshot(t, m.dir, true)))
	t.Nontrivial(t.Idx % 5)
	t.Count("refused", 2)
}

// c24fault: a name which is given has a new file, whatever system call fails.
func c24fault(t *T) {
	r := t.R
	o := cop{Op: []string{"create", "createmap"}[t.Idx%2], Board: "Board1"}
	setup := func(sub string) (*home, map[string]string) {
		m := newHome(t, sub)
		mkdirs(t, m.boardDir("Board1"))
		writeFile(t, filepath.Join(m.boardDir("Board1"), "M.1.A.000"), []byte("old"))
		writeFile(t, m.index("Board1"), nil)
		return m, snapshot(t, m.dir, true)
	}
	look := func(m *home, before map[string]string, what string, res cres) {
		after := snapshot(t, m.dir, true)
		for n, v := range before {
			if !strings.HasSuffix(n, "/") && n != "." {
				if w, ok := after[n]; strings.Contains(n, "M.1.A.000") && (!ok || w != v) {
					t.Fatalf("%s: the article %s is changed from %q to %q", what, n, v, w)
				}
			}
		}
		if res.Err != "" {
			t.Count("requests_refused", 1)
			return
		}
		t.Count("requests_granted", 1)
		t.Check(len(res.Names) == 1, "%s: %d names", what, len(res.Names))
		rel, _ := filepath.Rel(m.dir, filepath.Join(m.boardDir("Board1"), res.Names[0]))
		_, was := before[rel]
		s, is := after[rel]
		t.Check(!was && is, "%s: the name %q is given; the file existed before: %v, it exists now: %v", what, res.Names[0], was, is)
		if o.Op == "createmap" {
			t.Check(!strings.HasSuffix(s, " 0 "), "%s: the name %q is given and the file has no header: %q", what, res.Names[0], clip(s, 80))
		}
	}
	m, before := setup("dry")
	pts, res := faultPoints(t, m.dir, o)
	look(m, before, "without a fault", res)
	t.Check(res.Err == "", "without a fault: %s", res.Err)
	n := 0
	for _, p := range pts {
		errs := faultsFor(p.call)
		if p.call == "openat" || p.call == "open" {
			errs = nil
			for _, e := range []string{"EACCES", "EPERM", "EROFS", "ENOSPC", "EMFILE", "ENFILE", "EDQUOT", "ENOMEM", "ENOTDIR", "ENOENT", "ELOOP", "EISDIR", "EIO", "EEXIST", "EINTR", "EBUSY", "ENODEV"} {
				errs = append(errs, "error="+e)
			}
		}
		for _, f := range errs {
			if strings.HasPrefix(f, "signal") || r.IntN(3) == 0 {
				continue
			}
			n++
			m, before := setup(fmt.Sprintf("f%d", n))
			res, done, hit := injectAt(t, m.dir, o, p, f)
			what := fmt.Sprintf("%s, %s at %s", o.Op, f, p.line)
			if hit {
				t.Count("faults at "+p.call, 1)
				t.Nontrivial(o.Op, p.call, f, t.Idx)
			}
			if done {
				look(m, before, what, res)
			}
			os.RemoveAll(m.dir)
		}
	}
}

func init() {
	workers["conc"] = workerConc
	register(&Prop{ID: "C20", Rule: "a case is a history of 2 to 6 clients (goroutines and processes, some delayed inside write, truncate, lock or read) writing, appending and reading one or two article files; distinct interleavings of calls and returns are counted",
		Assume: []string{"CLOCK_MONOTONIC is the same for all processes", "delays are injected by strace"},
		Groups: []Group{{Name: "history", Quick: 1200, Thorough: 60000, Fn: c20}}})
	register(&Prop{ID: "C22", Rule: "a case is a history of 2 to 7 clients (goroutines and processes, some delayed inside system calls) adding, updating and listing one article index, some indexes starting with an incomplete record; distinct interleavings of calls and returns are counted",
		Assume: []string{"CLOCK_MONOTONIC is the same for all processes", "delays are injected by strace"},
		Groups: []Group{{Name: "history", Quick: 1200, Thorough: 60000, Fn: c22}}})
	register(&Prop{ID: "C23", Rule: "a case is a sequential history of additions and removals (also out of range) with the file compared with a model after every step, or a concurrent history of 2 to 5 clients; distinct histories with a removal and distinct interleavings are counted",
		Assume: []string{"CLOCK_MONOTONIC is the same for all processes", "delays are injected by strace"},
		Groups: []Group{
			{Name: "sequential", Quick: 1200, Thorough: 60000, Fn: c23seq},
			{Name: "large", Quick: 12, Thorough: 240, Par: 4, Fn: c23large},
			{Name: "sparse", Quick: 12, Thorough: 400, Fn: c23sparse},
			{Name: "concurrent", Quick: 1200, Thorough: 60000, Fn: c23conc},
		}})
	register(&Prop{ID: "C24", Rule: "a case is a set of goroutines and processes requesting new articles of two boards, in boards where no, most or all names of the current seconds are taken, or a request which cannot succeed; the names are collected",
		Groups: []Group{
			{Name: "names", Quick: 24, Thorough: 900, Par: 4, Fn: c24},
			{Name: "errors", Quick: 10, Thorough: 10, Fn: c24errors},
			{Name: "fault", Quick: 8, Thorough: 100, Fn: c24fault},
		}})
}

type linOp struct {
	client    int
	kind      string // w, r, d; none: found nothing
	val       string
	call, ret int64
}

// linearRegister checks the history of one value which can be removed.
func linearRegister(t *T, l []linOp, what string) {
	model := porcupine.Model{
		Init: func() interface{} { return "" },
		Step: func(st, in, out interface{}) (bool, interface{}) {
			switch in.(string) {
			case "w":
				return true, out
			case "d":
				return st.(string) != "", ""
			case "none":
				return st.(string) == "", st
			}
			return st == out, st
		},
	}
	var ops []porcupine.Operation
	for _, o := range l {
		ops = append(ops, porcupine.Operation{ClientId: o.client, Input: o.kind, Output: o.val, Call: o.call, Return: o.ret})
	}
	linear(t, model, ops, what)
}
