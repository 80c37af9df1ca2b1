//go:build !race

package main

import (
	"bytes"
	"context"
	"fmt"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"slices"
	"strings"
	"sync"
	"syscall"
	"time"

	bbs "github.com/Ptt-official-app/go-bbs"
)

// ---- C32: the command line tool

type cliOut struct {
	stdout, stderr string
	body           string // stdout without the three lines of its head
	exit           int
}

func (o *cliOut) String() string {
	return fmt.Sprintf("exit %d, output %q, errors %q", o.exit, clip(o.stdout, 1200), clipEnds(o.stderr, 1200))
}

type cli struct {
	t    *T
	bin  string
	home string // as it is given to the tool
}

func (c *cli) run(flags []string, args ...string) (*cliOut, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, c.bin, append(append([]string{}, flags...), args...)...)
	cmd.Dir = c.t.Dir()
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	err := cmd.Run()
	if cmd.ProcessState == nil {
		c.t.Harness(err)
	}
	o := &cliOut{stdout: out.String(), stderr: errb.String(), exit: cmd.ProcessState.ExitCode()}
	if ctx.Err() != nil {
		return o, fmt.Errorf("%q %q does not end: %v", flags, args, o)
	}
	if o.exit < 0 || strings.Contains(o.stderr, "goroutine ") && strings.Contains(o.stderr, "panic") || strings.Contains(o.stderr, "fatal error:") {
		return o, fmt.Errorf("%q %q crashes: %v", flags, args, o)
	}
	o.body = o.stdout
	head := fmt.Sprintf("driver name: pttbbs\nbbshome: %s\nargs: %v\n", c.home, args)
	o.body = strings.TrimPrefix(o.body, head)
	return o, nil
}

// do runs a command which must work.
func (c *cli) do(args ...string) *cliOut {
	o, err := c.run([]string{"--bbshome=" + c.home}, args...)
	c.t.Check(err == nil, "%v", err)
	c.t.Check(o.exit == 0, "%q ends with an error: %v", args, o)
	c.t.Count("commands", 1)
	return o
}

// shows checks the whole output of a command.
func (c *cli) shows(want string, args ...string) {
	o := c.do(args...)
	if o.body != want && !(o.body == o.stdout && strings.HasSuffix(o.stdout, want) && want != "") {
		c.t.Fatalf("%q shows\n%s\nit should be\n%s", args, clipDiffLines(o.body, want), clip(want, 800))
	}
	c.t.Count("lines_compared", strings.Count(want, "\n"))
}

func clipDiffLines(got, want string) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	lo := max(0, i-80)
	return fmt.Sprintf("(%d bytes, different from byte %d) ...%q, not ...%q", len(got), i, clip(got[lo:], 250), clip(want[lo:], 250))
}

func cText(b []byte) []byte {
	if i := bytes.IndexByte(b, 0); i >= 0 {
		return b[:i]
	}
	return b
}

func cliHome(t *T) (*mHome, *cli, []string) {
	r := t.R
	name := []string{"h", "h h", "h%20x", "h:x", "\u5bb6", "a/b/c"}[r.IntN(6)]
	opt, most, accounts := homeOpt{boards: 6, arts: 7}, 10000, 0
	switch t.Idx % 40 {
	case 11:
		opt, most = homeOpt{boards: 1200, arts: 1, full: true}, 20
	case 21:
		opt, most = homeOpt{boards: 2, arts: 1500, full: true}, 20
	case 31:
		accounts = 20000
	}
	opt.noOdd = true
	opt.content = func(m *mHome, b *mBoard, a *mArt) []byte {
		return genContent(t, r, m.users, a, most)
	}
	m := genHome(t, name, opt)
	c := &cli{t: t, bin: program(t, "./cmd/bbstool", false), home: m.dir}
	if r.IntN(3) == 0 {
		c.home = name
	}
	var ids []string
	var pw []byte
	for _, u := range m.users {
		if len(u) > 12 {
			continue
		}
		if r.IntN(4) == 0 {
			pw = append(pw, userWith(t, "", []byte("x"))...)
		}
		ids = append(ids, u)
		pw = append(pw, userWith(t, u, []byte("xx"))...)
	}
	for i := 0; i < accounts; i++ {
		u := fmt.Sprintf("many%d", i)
		ids = append(ids, u)
		pw = append(pw, userWith(t, u, []byte("xx"))...)
	}
	writeFile(t, m.passwds(), pw)
	return m, c, ids
}

// expected outputs
func (m *mHome) wantBoards() string {
	var sb strings.Builder
	for _, b := range m.boards {
		sb.WriteString("title: " + b.title + "\n")
	}
	return sb.String()
}

func (b *mBoard) wantArticles() string {
	var sb strings.Builder
	for _, a := range b.arts {
		if a.file != "" {
			fmt.Fprintf(&sb, "%s %12s %s %s\n", a.file, a.owner, a.date, a.title)
		}
	}
	return sb.String()
}

func (m *mHome) wantByUser(u string) string {
	var sb strings.Builder
	for _, b := range m.boards {
		for _, a := range b.arts {
			if a.owner == u && b.id != "ALLPOST" {
				sb.WriteString("titlex: " + a.title + "\n")
			}
		}
	}
	return sb.String()
}

func (m *mHome) wantComments(u string) string {
	var sb strings.Builder
	for _, b := range m.boards {
		for _, a := range b.arts {
			for _, c := range a.comments {
				if c.owner == u && b.id != "ALLPOST" {
					fmt.Fprintf(&sb, "user comment record: order: %d, owner: %s, time: %s\n", c.order, c.owner, c.t.Format("01/02 15:04"))
				}
			}
		}
	}
	return sb.String()
}

// dashed gives a text of at most n bytes that often looks like a command line
// flag: the value of a flag is whatever follows it.
func dashed(r *rand.Rand, n int) ([]byte, string) {
	b, s := genText(r, n-8, false, false)
	p := ""
	if r.IntN(4) == 0 {
		p = []string{"--", "-", "--title", "--board", "---", "--owner"}[r.IntN(6)]
	}
	return append([]byte(p), b...), p + s
}

func c32(t *T) {
	r := t.R
	m, c, ids := cliHome(t)
	utf := map[*mArt]string{} // text of the articles which were added
	show := func() {
		switch r.IntN(6) {
		case 0:
			c.shows(m.wantBoards(), "show_board_list")
		case 1:
			var sb strings.Builder
			for _, u := range ids {
				sb.WriteString("user id: " + u + "\n")
			}
			c.shows(sb.String(), "show_user_list")
		case 2:
			u := append(m.users, "nobody")[r.IntN(len(m.users)+1)]
			c.shows(m.wantByUser(u), "show_user_article_list", "--user_id", u)
		case 3:
			u := append(m.users, "nobody")[r.IntN(len(m.users)+1)]
			c.shows(m.wantComments(u), "show_user_comment_list", "--user_id", u)
		default:
			if len(m.boards) == 0 {
				return
			}
			b := m.boards[r.IntN(len(m.boards))]
			c.shows(b.wantArticles(), "show_board_article_list", "--board", b.id)
			for _, a := range b.arts {
				if s, ok := utf[a]; ok {
					c.shows("filecontent: \n"+s+"\n", "show_board_article", "--board", b.id, "--filename", a.file)
				}
			}
		}
	}
	n := 5 + r.IntN(8)
	for i := 0; i < n; i++ {
		before := snapshot(t, m.dir, false)
		switch k := r.IntN(8); {
		case k < 3:
			show()
			if d := diffSnap(before, snapshot(t, m.dir, false)); d != "" {
				t.Fatalf("a listing command changed what is stored: %s", d)
			}
		case k < 5: // a board
			tb, ts := dashed(r, 48)
			b := &mBoard{id: genBoard(r), title: ts, noIndex: true}
			dup := false
			for _, x := range m.boards {
				dup = dup || strings.EqualFold(x.id, b.id)
			}
			if dup {
				continue
			}
			old := readFile(t, m.brd())
			args := []string{"--board_id", b.id, "--title", ts}
			if r.IntN(2) == 0 {
				args = []string{"--title", ts, "--other", "x", "--board_id", b.id}
			}
			c.do(append([]string{"add_board"}, args...)...)
			raw := readFile(t, m.brd())
			t.Check(len(raw) == len(old)+256 && bytes.HasPrefix(raw, old), "add_board %q: the board file has %d bytes, it had %d; earlier boards unchanged: %v", args, len(raw), len(old), bytes.HasPrefix(raw, old))
			rec := raw[len(old):]
			for f, w := range map[string][]byte{"brdname": []byte(b.id), "title": tb} {
				off, size := loadLayout(t).of(t, "boardheader_t."+f)
				t.Check(bytes.Equal(cText(rec[off:off+size]), w), "add_board %q: %s of the new board is stored as %q", args, f, rec[off:off+size])
			}
			m.boards = append(m.boards, b)
			c.shows(m.wantBoards(), "show_board_list")
			t.Count("boards_added", 1)
			if r.IntN(2) == 0 {
				mkdirs(t, m.boardDir(b.id))
				b.noIndex = r.IntN(2) == 0
				if !b.noIndex {
					writeFile(t, m.index(b.id), nil)
				}
			}
		default: // an article
			if len(m.boards) == 0 {
				continue
			}
			b := m.boards[r.IntN(len(m.boards))]
			tb, ts := dashed(r, 64)
			var cb []byte
			cs := ""
			if r.IntN(6) == 0 {
				cb, cs = []byte("-- \nsigned\n"), "-- \nsigned\n"
				t.Count("values_like_flags", 1)
			}
			for j := r.IntN(12); j > 0; j-- {
				x, s := genText(r, 78, false, true)
				cb, cs = append(append(cb, x...), '\n'), cs+s+"\n"
			}
			a := &mArt{owner: ids[r.IntN(len(ids))], date: fmt.Sprintf("%2d/%02d", 1+r.IntN(12), 1+r.IntN(28)), title: ts, content: cb}
			args := []string{"add_board_article", "--board", b.id, "--owner", a.owner, "--date", a.date, "--title", ts}
			if r.IntN(3) == 0 {
				f := filepath.Join(t.Dir(), "content")
				writeFile(t, f, []byte(cs))
				args = append(args, "--content_file", f)
			} else {
				args = append(args, "--content", cs)
			}
			old, err := os.ReadFile(m.index(b.id))
			_, noDir := os.Stat(m.boardDir(b.id))
			o := c.do(args...)
			if noDir != nil { // a board without a directory takes no articles
				t.Check(o.body != "" && !strings.Contains(o.body, "new filename"), "an article of a board without a directory: %v", o)
				if d := diffSnap(before, snapshot(t, m.dir, false)); d != "" {
					t.Fatalf("an article of a board without a directory changes what is stored: %s", d)
				}
				break
			}
			_ = err
			fields := strings.Fields(strings.TrimPrefix(o.body, "new filename:"))
			t.Check(strings.HasPrefix(o.body, "new filename:") && len(fields) == 1, "%q: %v", args, o)
			a.file = fields[0]
			for _, x := range b.arts {
				t.Check(x.file != a.file, "the new article has the name %q of an older one", a.file)
			}
			raw := readFile(t, m.index(b.id))
			t.Check(len(raw) == len(old)+128 && bytes.HasPrefix(raw, old), "%q: the index has %d bytes, it had %d; earlier articles unchanged: %v", args, len(raw), len(old), bytes.HasPrefix(raw, old))
			rec := raw[len(old):]
			for f, w := range map[string][]byte{"filename": []byte(a.file), "owner": []byte(a.owner), "date": []byte(a.date), "title": tb} {
				off, size := loadLayout(t).of(t, "fileheader_t."+f)
				t.Check(bytes.Equal(cText(rec[off:off+size]), w), "%q: %s of the new article is stored as %q", args, f, rec[off:off+size])
			}
			got := readFile(t, filepath.Join(m.boardDir(b.id), a.file))
			t.Check(bytes.Equal(got, cb), "%q: the text is stored as %q", args, clip(string(got), 500))
			d := snapshot(t, m.dir, false)
			for p := range before {
				if d[p] != before[p] && !strings.HasSuffix(p, ".DIR") && !strings.HasSuffix(p, b.id) {
					t.Fatalf("%q changed %s", args, p)
				}
			}
			b.arts = append(b.arts, a)
			b.noIndex = false
			// what was added may look like comments: they are not searched for then
			for _, line := range bytes.Split(cb, []byte("\n")) {
				if refComment(bbsPlain(string(line))).ok || strings.Contains(string(line), ":") && bytes.Contains(line, []byte("/")) {
					cb = nil
				}
			}
			if cb == nil && len(a.content) > 0 {
				writeFile(t, filepath.Join(m.boardDir(b.id), a.file), nil)
				a.content = nil
				cs = ""
			}
			utf[a] = cs
			c.shows("filecontent: \n"+cs+"\n", "show_board_article", "--board", b.id, "--filename", a.file)
			c.shows(b.wantArticles(), "show_board_article_list", "--board", b.id)
			t.Count("articles_added", 1)
		}
	}
	t.Nontrivial(t.Idx)
	t.Sample("home %q, %d boards, %d accounts", c.home, len(m.boards), len(ids))
}

// c32wrong: wrong arguments give a message, and change nothing.
func c32wrong(t *T) {
	r := t.R
	m, c, _ := cliHome(t)
	board := "nosuch"
	for _, b := range m.boards {
		if !b.noIndex {
			board = b.id
		}
	}
	file := filepath.Join(t.Dir(), "file")
	writeFile(t, file, []byte("x"))
	home := "--bbshome=" + c.home
	before := snapshot(t, m.dir, true)
	cmds := []string{"show_board_list", "add_board", "show_user_list", "show_user_article_list", "show_user_comment_list", "show_board_article_list", "add_board_article", "show_board_article"}
	full := map[string][]string{
		"add_board":               {"--board_id", "New1", "--title", "t"},
		"show_user_article_list":  {"--user_id", "x"},
		"show_user_comment_list":  {"--user_id", "x"},
		"show_board_article_list": {"--board", board},
		"add_board_article":       {"--board", board, "--owner", "o", "--date", "1/02", "--title", "t", "--content", "c"},
		"show_board_article":      {"--board", board, "--filename", "M.1.A.000"},
	}
	type call struct {
		flags, args []string
	}
	var calls []call
	add := func(flags []string, args ...string) { calls = append(calls, call{flags, args}) }
	for _, cmd := range cmds {
		add([]string{"--bbshome=" + filepath.Join(t.Dir(), "missing")}, append([]string{cmd}, full[cmd]...)...)
		add([]string{"--bbshome=" + file}, append([]string{cmd}, full[cmd]...)...)
		add([]string{"--bbshome="}, append([]string{cmd}, full[cmd]...)...)
		add([]string{home, "--driver=" + []string{"nosuch", "maple", "", "formosabbs"}[r.IntN(4)]}, append([]string{cmd}, full[cmd]...)...)
		f := full[cmd]
		for i := 0; i+1 < len(f); i += 2 { // without an argument, or without its value
			l := append(append([]string{cmd}, f[:i]...), f[i+2:]...)
			add([]string{home}, l...)
			add([]string{home}, append(l, f[i])...)
			add([]string{home}, append(append([]string{cmd}, strings.TrimPrefix(f[i], "-"), f[i+1]), append(append([]string{}, f[:i]...), f[i+2:]...)...)...)
		}
		if len(f) > 0 {
			add([]string{home}, cmd)
			add([]string{home}, cmd, "--")
			add([]string{home}, cmd, "x", "y", "z")
			add([]string{home}, cmd, "--x")
		}
	}
	for _, b := range []string{"nosuch", "", strings.Repeat("b", 3000), "\xff", "\u677f", "no such"} {
		add([]string{home}, "show_board_article", "--board", b, "--filename", "M.1.A.000")
		add([]string{home}, "add_board_article", "--board", b, "--owner", "o", "--date", "1/02", "--title", "t", "--content", "c")
	}
	for _, f := range []string{"", "M.1.A.000", strings.Repeat("f", 3000), "\xff"} {
		add([]string{home}, "show_board_article", "--board", board, "--filename", f)
	}
	add([]string{home}, "add_board_article", "--board", board, "--owner", "o", "--date", "1/02", "--title", "t", "--content_file", file+".missing")
	add([]string{home}, "add_board_article", "--board", board, "--owner", "o", "--date", "1/02", "--title", "t", "--content_file", t.Dir())
	add([]string{home}, "nosuch")
	add([]string{home}, "")
	add([]string{home})
	add([]string{home}, "SHOW_BOARD_LIST")
	add([]string{home}, "show_board_list ")
	add([]string{"--nosuch"}, "show_board_list")
	add([]string{"--bbshome"})
	add([]string{"-h"})
	r.Shuffle(len(calls), func(i, j int) { calls[i], calls[j] = calls[j], calls[i] })
	n := 45
	if !t.Quick() {
		n = len(calls)
	}
	for _, k := range calls[:min(n, len(calls))] {
		o, err := c.run(k.flags, k.args...)
		t.Check(err == nil, "%v", err)
		for _, l := range resultLines {
			t.Check(!strings.HasPrefix(o.stdout, l) && !strings.Contains(o.stdout, "\n"+l), "%q %q gives a result, %q: %v", k.flags, k.args, l, o)
		}
		msg := o.message("")
		t.Check(msg, "%q %q gives no message: %v", k.flags, k.args, o)
		t.Check(!strings.Contains(o.stdout, "new filename"), "%q %q adds an article: %v", k.flags, k.args, o)
		if d := diffSnap(before, snapshot(t, m.dir, true)); d != "" {
			t.Fatalf("%q %q changed what is stored: %s; %v", k.flags, k.args, d, o)
		}
	}
	t.Count("wrong_commands", n)
	t.Nontrivial(t.Idx)
}

// resultLines begin what a command which was understood prints.
var resultLines = []string{"titlex:", "user comment record:", "title:", "user id:", "new filename", "board_id:"}

// logLine is what the library writes whether or not the tool says anything.
var logLine = regexp.MustCompile(`^\d{4}/\d\d/\d\d \d\d:\d\d:\d\d `)

// c32broken: a command which fails because of what is stored says so.
func c32broken(t *T) {
	r := t.R
	m := newHome(t, "h")
	mkdirs(t, m.boardDir("Alpha"))
	b := userWith(t, "alice", []byte("x"))
	files := map[string][]byte{m.brd(): append([]byte("Alpha"), make([]byte, 251)...), m.passwds(): b, m.index("Alpha"): nil, filepath.Join(m.boardDir("Alpha"), "M.1.A.001"): []byte("text\n")}
	for p, c := range files {
		writeFile(t, p, c)
	}
	c := &cli{t: t, bin: program(t, "./cmd/bbstool", false), home: m.dir}
	add := []string{"add_board_article", "--board", "Alpha", "--owner", "alice", "--date", "1/02", "--title", "t", "--content", "c"}
	cmds := []struct {
		file string
		args []string
	}{
		{m.brd(), []string{"show_board_list"}},
		{m.brd(), []string{"add_board", "--board_id", "New", "--title", "new"}},
		{m.brd(), []string{"show_user_article_list", "--user_id", "alice"}},
		{m.brd(), []string{"show_user_comment_list", "--user_id", "alice"}},
		{m.passwds(), []string{"show_user_list"}},
		{m.index("Alpha"), []string{"show_board_article_list", "--board", "Alpha"}},
		{m.index("Alpha"), []string{"show_user_article_list", "--user_id", "alice"}},
		{m.index("Alpha"), []string{"show_user_comment_list", "--user_id", "alice"}},
		{m.index("Alpha"), add},
		{filepath.Join(m.boardDir("Alpha"), "M.1.A.001"), []string{"show_board_article", "--board", "Alpha", "--filename", "M.1.A.001"}},
	}
	for _, x := range cmds {
		t.Harness(os.Remove(x.file))
		adds := strings.HasPrefix(x.args[0], "add_")
		what := "is a directory"
		k := r.IntN(3)
		if k == 2 && !adds {
			k = r.IntN(2)
		}
		switch k {
		case 0:
			mkdirs(t, x.file)
		case 1:
			t.Harness(os.Symlink(filepath.Base(x.file), x.file))
			what = "is a link to itself"
		default:
			t.Harness(os.Symlink("/dev/full", x.file))
			what = "is on a full disk"
		}
		o, err := c.run([]string{"--bbshome=" + m.dir}, x.args...)
		t.Check(err == nil, "%v", err)
		msg := o.message("")
		rel := strings.TrimPrefix(x.file, m.dir)
		t.Check(msg, "%q, while %s %s, gives no message: %v", x.args, rel, what, o)
		t.Check(!strings.Contains(o.stdout, "new filename"), "%q, while %s %s, tells of a new article: %v", x.args, rel, what, o)
		t.Check(!strings.Contains(o.stdout, "filecontent"), "%q, while %s %s, shows a text: %v", x.args, rel, what, o)
		t.Harness(os.Remove(x.file))
		writeFile(t, x.file, files[x.file])
		t.Count("failing_commands", 1)
		t.Nontrivial(x.args[0], rel, what)
	}
}

// message tells whether an output has a line which is neither one the tool
// always writes nor one of a log nor one of another output.
func (o *cliOut) message(other string) bool {
	known := map[string]bool{}
	for _, l := range strings.Split(articleName.ReplaceAllString(other, "M"), "\n") {
		known[l] = true
	}
	for _, l := range strings.Split(o.stdout+"\n"+o.stderr, "\n") {
		if l != "" && !known[articleName.ReplaceAllString(l, "M")] && !strings.HasPrefix(l, "driver name:") && !strings.HasPrefix(l, "bbshome:") && !strings.HasPrefix(l, "args:") && !strings.HasPrefix(l, "addboard args:") && !logLine.MatchString(l) {
			return true
		}
	}
	return false
}

// c32faults: a command whose system calls on the home fail gives its whole
// output or a message, and tells of no article which is not there.
func c32faults(t *T) {
	r := t.R
	m := newHome(t, "h")
	haveLayouts(t)
	db := m.db
	c := &cli{t: t, bin: program(t, "./cmd/bbstool", false), home: m.dir}
	setup := func() {
		t.Harness(os.RemoveAll(m.dir))
		for _, b := range []string{"Alpha", "Beta"} {
			mkdirs(t, m.boardDir(b))
			writeFile(t, m.index(b), nil)
		}
		var brd []byte
		for _, b := range []string{"Alpha", "Beta"} {
			rec, err := db.NewBoardRecord(map[string]interface{}{"board_id": b, "title": "title of " + b})
			t.Harness(err)
			bin, err := rec.(interface{ MarshalBinary() ([]byte, error) }).MarshalBinary()
			t.Harness(err)
			brd = append(brd, bin...)
		}
		writeFile(t, m.brd(), brd)
		writeFile(t, m.passwds(), append(userWith(t, "alice", []byte("x")), userWith(t, "bob", []byte("y"))...))
		for i, b := range []string{"Alpha", "Beta", "Alpha"} {
			rec, err := db.CreateArticleRecord(b, "alice", "1/02", fmt.Sprintf("title %d", i))
			t.Harness(err)
			t.Harness(db.AddArticleRecordFileRecord(b, rec))
			text := fmt.Sprintf("text %d\n\x1b[1;31m\xa1\xf7 \x1b[33malice\x1b[m\x1b[33m:comment %d\x1b[m   11/02 03:0%d\n", i, i, i)
			writeFile(t, filepath.Join(m.boardDir(b), rec.Filename()), []byte(text))
		}
		writeFile(t, filepath.Join(m.boardDir("Alpha"), "M.1.A.001"), []byte("stored text\n"))
		writeFile(t, filepath.Join(m.dir, "given"), []byte("given text\n"))
	}
	const content = "new text\n"
	cmds := [][]string{
		{"show_board_list"}, {"show_user_list"},
		{"show_user_article_list", "--user_id", "alice"}, {"show_user_comment_list", "--user_id", "alice"},
		{"show_board_article_list", "--board", "Alpha"}, {"show_board_article", "--board", "Alpha", "--filename", "M.1.A.001"},
		{"add_board", "--board_id", "New", "--title", "new"},
		{"add_board_article", "--board", "Alpha", "--owner", "alice", "--date", "1/02", "--title", "new title", "--content", content},
		{"add_board_article", "--board", "Beta", "--owner", "alice", "--date", "1/02", "--title", "new title", "--content_file", filepath.Join(m.dir, "given")},
	}
	args := cmds[t.Idx%len(cmds)]
	run := func(strace ...string) (*cliOut, string) {
		trace := tmpName(t, "trace")
		os.Remove(trace)
		ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
		defer cancel()
		argv := append([]string{"-f", "-q", "-y", "-o", trace}, strace...)
		argv = append(append(argv, c.bin, "--bbshome="+m.dir), args...)
		cmd := exec.CommandContext(ctx, "strace", argv...)
		cmd.Dir = t.Dir()
		cmd.Env = append(os.Environ(), "GOMAXPROCS=1")
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
		cmd.WaitDelay = 5 * time.Second
		var out, errb bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &errb
		err := cmd.Run()
		if cmd.ProcessState == nil {
			t.Harness(err)
		}
		o := &cliOut{stdout: out.String(), stderr: errb.String(), exit: cmd.ProcessState.ExitCode()}
		b, err := os.ReadFile(trace)
		t.Harness(err)
		if len(b) == 0 {
			t.Harness(fmt.Errorf("strace: %v", o))
		}
		o.body = o.stdout
		return o, string(b)
	}
	setup()
	base, trace := run("-e", "trace="+faultCalls)
	count := map[string]int{}
	type point struct {
		call string
		nth  int
	}
	var pts []point
	for _, l := range strings.Split(trace, "\n") {
		f := traceLine.FindStringSubmatch(l)
		if f == nil {
			continue
		}
		k := f[1] + f[2]
		count[k]++
		if ioFaults[f[2]] != nil && strings.Contains(f[3], m.dir) {
			pts = append(pts, point{f[2], count[k]})
		}
	}
	t.Check(len(pts) > 0, "%q makes no system calls on %s: %s", args, m.dir, clip(trace, 1000))
	r.Shuffle(len(pts), func(i, j int) { pts[i], pts[j] = pts[j], pts[i] })
	if t.Quick() {
		pts = pts[:min(len(pts), 25)]
	}
	for _, p := range pts {
		if p.call == "flock" && r.IntN(2) == 0 {
			continue
		}
		e := ioFaults[p.call][r.IntN(len(ioFaults[p.call]))]
		var o *cliOut
		hit, other, line := false, false, ""
		for _, d := range []int{0, 1, -1, 2} {
			// another thread may have made some of the calls
			setup()
			hit, other, line = false, false, ""
			o, trace = run("-e", "trace="+faultCalls, "-e", fmt.Sprintf("inject=%s:error=%s:when=%d", p.call, e, max(p.nth+d, 1)))
			for _, l := range strings.Split(trace, "\n") {
				switch {
				case !strings.Contains(l, "(INJECTED)"):
				case strings.Contains(l, m.dir):
					hit, line = true, clip(l, 200)
				default:
					other = true
				}
			}
			if hit && !other {
				break
			}
		}
		if !hit || other {
			t.Count("faults_elsewhere", 1)
			continue
		}
		t.Count("faults at "+p.call, 1)
		t.Nontrivial(args[0], p.call, e, p.nth)
		what := fmt.Sprintf("%q with an error at %s", args, line)
		t.Check(o.exit >= 0 && !strings.Contains(o.stderr, "goroutine "), "%s crashes: %v", what, o)
		said := o.message(base.stdout)
		switch args[0] {
		case "add_board":
			l, err := db.ReadBoardRecords()
			t.Check(err == nil, "%s: the boards: %v", what, err)
			there := slices.ContainsFunc(l, func(b bbs.BoardRecord) bool { return b.BoardID() == "New" && b.Title() == "new" })
			t.Check(there || said, "%s adds nothing and gives no message: %v", what, o)
		case "add_board_article":
			_, name, ok := strings.Cut(o.stdout, "new filename: ")
			t.Check(ok || o.message(""), "%s gives no message: %v", what, o)
			if !ok {
				t.Count("reported", 1)
				break
			}
			t.Count("the_same_despite_a_fault", 1)
			name = strings.TrimSpace(name)
			l, err := db.ReadBoardArticleRecordsFile(args[2])
			t.Check(err == nil, "%s: the articles: %v", what, err)
			there := slices.ContainsFunc(l, func(a bbs.ArticleRecord) bool { return a.Filename() == name && a.Title() == "new title" })
			t.Check(there, "%s tells of a new article which the index has not: %v", what, o)
			want := content
			if args[2] == "Beta" {
				want = "given text\n"
			}
			b, err := os.ReadFile(filepath.Join(m.boardDir(args[2]), name))
			t.Check(err == nil && string(b) == want, "%s tells of a new article whose text is %q (%v): %v", what, b, err, o)
		default:
			// what is listed has the names of this run's articles
			same := articleName.ReplaceAllString(o.stdout, "M") == articleName.ReplaceAllString(base.stdout, "M")
			t.Check(same || said, "%s gives another output and no message: %v\nwithout the error: %q", what, o, clip(base.stdout, 600))
			if same {
				t.Count("the_same_despite_a_fault", 1)
			} else {
				t.Count("reported", 1)
			}
		}
	}
	t.Sample("%q: faults at %d of its system calls", args[0], len(pts))
}

var articleName = regexp.MustCompile(`M\.\d+\.A\.[0-9A-F]+`)

// c32parallel: several tools at once on the same home.
func c32parallel(t *T) {
	r := t.R
	h := newHome(t, "h")
	for _, b := range []string{"Alpha", "Beta"} {
		mkdirs(t, h.boardDir(b))
		if r.IntN(2) == 0 {
			writeFile(t, h.index(b), nil)
		}
	}
	writeFile(t, h.brd(), nil)
	c := &cli{t: t, bin: program(t, "./cmd/bbstool", false), home: h.dir}
	type res struct {
		board, file, title string
		added              bool
		err                error
		o                  *cliOut
	}
	n := 12 + r.IntN(10)
	all := make([]res, n)
	var wg sync.WaitGroup
	for i := range all {
		kind := r.IntN(4)
		all[i].board = []string{"Alpha", "Beta", "", "Alpha"}[kind]
		all[i].title = fmt.Sprintf("title%d", i)
		wg.Add(1)
		go func(x *res, i int) {
			defer wg.Done()
			flags := []string{"--bbshome=" + h.dir}
			if x.board == "" {
				x.o, x.err = c.run(flags, "add_board", "--board_id", fmt.Sprintf("New%d", i), "--title", x.title)
				x.added = x.err == nil && !strings.Contains(x.o.body, "AddBoardRecord")
				return
			}
			x.o, x.err = c.run(flags, "add_board_article", "--board", x.board, "--owner", "o", "--date", "1/02", "--title", x.title, "--content", strings.Repeat(x.title+"\n", 50))
			if x.err == nil && strings.HasPrefix(x.o.body, "new filename: ") {
				x.added = true
				x.file = strings.TrimSpace(x.o.body[len("new filename: "):])
			}
		}(&all[i], i)
	}
	wg.Wait()
	byTitle := map[string]int{}
	brd, err := h.db.ReadBoardRecords()
	t.Check(err == nil, "%v", err)
	for _, b := range brd {
		byTitle[b.BoardID()+"/"+b.Title()]++
	}
	t.Check(len(readFile(t, h.brd()))%256 == 0, "the board file has a broken record")
	file := map[string]string{}
	for _, b := range []string{"Alpha", "Beta"} {
		l, err := h.db.ReadBoardArticleRecordsFile(b)
		t.Check(err == nil, "%v", err)
		for _, a := range l {
			byTitle[b+"/"+a.Title()]++
			t.Check(file[b+a.Filename()] == "", "two articles have the name %s", a.Filename())
			file[b+a.Filename()] = a.Title()
		}
	}
	added := 0
	for i, x := range all {
		t.Check(x.err == nil, "%v", x.err)
		k := x.board + "/" + x.title
		if x.board == "" {
			k = fmt.Sprintf("New%d/%s", i, x.title)
		}
		if !x.added {
			t.Check(x.o.body != "", "a command which adds nothing says nothing: %v", x.o)
			delete(byTitle, k)
			continue
		}
		added++
		t.Check(byTitle[k] == 1, "%s was added (%v), it is there %d times", k, x.o, byTitle[k])
		delete(byTitle, k)
		if x.board != "" {
			t.Check(file[x.board+x.file] == x.title, "the article %s has the name %s, its record %q", k, x.file, file[x.board+x.file])
			b := readFile(t, filepath.Join(h.boardDir(x.board), x.file))
			t.Check(string(b) == strings.Repeat(x.title+"\n", 50), "the article %s has another text: %q", k, clip(string(b), 100))
		}
	}
	t.Check(len(byTitle) == 0, "there are records nobody added: %v", byTitle)
	t.Count("parallel_commands", n)
	t.Count("parallel_added", added)
	t.Nontrivial(t.Idx)
}

func init() {
	register(&Prop{ID: "C32",
		Rule:   "each case runs the built command line tool: sequences of commands on generated homes, every output compared with a model and every addition with the C layout of the files; wrong arguments must give a message and leave every file (with its times) as it is; tools at once are checked for lost and doubled additions",
		Assume: []string{"the exit code of a failing command is not judged; only crashes are"},
		Groups: []Group{{Name: "commands", Quick: 400, Thorough: 6000, Fn: c32},
			{Name: "wrong", Quick: 100, Thorough: 300, Fn: c32wrong},
			{Name: "broken", Quick: 12, Thorough: 200, Fn: c32broken},
			{Name: "faults", Quick: 36, Thorough: 450, Fn: c32faults},
			{Name: "parallel", Quick: 100, Thorough: 3000, Par: 4, Fn: c32parallel}}})
}
