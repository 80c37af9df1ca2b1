package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand/v2"
	"os"
	"path/filepath"
	"reflect"
	"slices"
	"strings"
	"time"

	bbs "github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
)

// ---- a generated home and what is known of it

type mArt struct {
	file, owner, title, date string
	raw                      []byte
	gone                     bool // no article file
	content                  []byte
	comments                 []mComment
}

type mComment struct {
	order uint32
	owner string
	text  string
	t     time.Time
	line  string
}

type mBoard struct {
	id, title string
	raw       []byte
	noIndex   bool // the board has no .DIR
	arts      []*mArt
}

type mHome struct {
	*home
	boards []*mBoard
	users  []string
}

// putTextG writes a text with whatever garbage there was behind its NUL.
func putTextG(t *T, rt *rtype, raw []byte, field string, text []byte) {
	off, n := loadLayout(t).of(t, rt.cname+"."+field)
	copy(raw[off:off+n], text)
	if len(text) < n {
		raw[off+len(text)] = 0
	}
}

func textOf(rec *rrec, field string) string {
	s, _ := rec.vals[field].want.(string)
	return s
}

// similarUsers are ids which differ little.
func similarUsers(r *rand.Rand) []string {
	u := genUser(r)
	for len(u) > 11 {
		u = u[:11]
	}
	if r.IntN(4) == 0 { // names as long as can be differ in the last letter
		u += pick(r, alnum, 11-len(u))
	}
	l := []string{u, u + "x", u[:len(u)-1], u + "y", strings.ToUpper(u), strings.ToLower(u), "x" + u, genUser(r), genUser(r), "SYSOP"}
	var ret []string
	seen := map[string]bool{}
	for _, x := range l {
		for len(x) < 2 {
			x += "z"
		}
		if !seen[x] {
			seen[x] = true
			ret = append(ret, x)
		}
	}
	return ret
}

func genArticleName(r *rand.Rand) string {
	return fmt.Sprintf("M.%d.A.%03X", 1000000000+r.IntN(1000000000), r.IntN(4096))
}

// oddArticleName is not what this library makes.
func oddArticleName(r *rand.Rand) string {
	return []string{".", "G.", "m.", "M.", "_", "A.", "D"}[r.IntN(7)] + pick(r, alnum, 3+r.IntN(20))
}

type homeOpt struct {
	boards, arts int // at most
	content      func(m *mHome, b *mBoard, a *mArt) []byte
	noOdd        bool // every slot is a normal board, every entry a normal article
	full         bool // as many as may be
}

func genHome(t *T, sub string, o homeOpt) *mHome {
	r := t.R
	m := &mHome{home: newHome(t, sub), users: similarUsers(r)}
	seen := map[string]bool{}
	var brd []byte
	n := r.IntN(o.boards + 1)
	if o.full {
		n = o.boards
	}
	for i := 0; i < n; i++ {
		b := &mBoard{}
		rec := boardType.genRec(t, r)
		b.raw = rec.raw
		b.title = textOf(rec, "title")
		for {
			b.id = genBoard(r)
			switch {
			case o.noOdd:
			case r.IntN(12) == 0:
				b.id = ""
			case r.IntN(10) == 0:
				b.id = []string{"ALLPOST", "allpost", "ALLPOST1", "AllPost", "ALLPOS"}[r.IntN(5)]
			}
			if b.id == "" || !seen[b.id] {
				break
			}
		}
		seen[b.id] = true
		putTextG(t, boardType, b.raw, "brdname", []byte(b.id))
		brd = append(brd, b.raw...)
		m.boards = append(m.boards, b)
		if b.id == "" {
			continue
		}
		if r.IntN(5) == 0 {
			b.noIndex = true
			if r.IntN(2) == 0 {
				mkdirs(t, m.boardDir(b.id))
			}
			continue
		}
		var dir []byte
		k := r.IntN(o.arts + 1)
		if o.full {
			k = o.arts
		}
		names := map[string]bool{}
		for j := 0; j < k; j++ {
			a := &mArt{}
			rec := fileType.genRec(t, r)
			a.raw = rec.raw
			a.title = textOf(rec, "title")
			for a.file = genArticleName(r); names[a.file]; {
				a.file = genArticleName(r)
			}
			names[a.file] = true
			a.owner = m.users[r.IntN(len(m.users))]
			if !o.noOdd {
				switch r.IntN(12) {
				case 0:
					a.owner = "-"
					a.file = []string{".deleted", ""}[r.IntN(2)]
				case 1:
					a.owner = ""
				case 2:
					a.owner = []string{a.owner + ".", a.owner + " ", " " + a.owner, a.owner + ",", a.owner + "\t"}[r.IntN(5)]
				case 3:
					a.gone = true
				case 4:
					if r.IntN(3) == 0 { // other names of files
						for a.file = oddArticleName(r); names[a.file]; {
							a.file = oddArticleName(r)
						}
						names[a.file] = true
					}
				}
			}
			if a.file == "" || a.file == ".deleted" {
				a.gone = true
			}
			putTextG(t, fileType, a.raw, "filename", []byte(a.file))
			putTextG(t, fileType, a.raw, "owner", []byte(a.owner))
			a.date = fmt.Sprintf("%2d/%02d", 1+r.IntN(12), 1+r.IntN(28))
			putTextG(t, fileType, a.raw, "date", []byte(a.date))
			dir = append(dir, a.raw...)
			b.arts = append(b.arts, a)
			if !a.gone && o.content != nil {
				a.content = o.content(m, b, a)
				writeFile(t, filepath.Join(m.boardDir(b.id), a.file), a.content)
			}
		}
		if !o.noOdd && r.IntN(4) == 0 {
			dir = append(dir, randBytes(r, 1+r.IntN(127))...)
		}
		writeFile(t, m.index(b.id), dir)
	}
	if !o.noOdd && r.IntN(4) == 0 {
		brd = append(brd, randBytes(r, 1+r.IntN(255))...)
	}
	writeFile(t, m.brd(), brd)
	return m
}

// ---- C14

func c14(t *T) { c14home(t, homeOpt{boards: 14, arts: 12}) }

// c14large has many boards or many articles.
func c14large(t *T) {
	c14home(t, []homeOpt{{boards: 1300, arts: 2, full: true}, {boards: 3, arts: 21000, full: true}, {boards: 40, arts: 300, full: true}, {boards: 2, arts: 66000, full: true}}[t.Idx%4])
}

func c14home(t *T, o homeOpt) {
	r := t.R
	m := genHome(t, "h", o)
	asked := append(append([]string{}, m.users...), "nobody", "-", genUser(r), "", ".", m.users[0]+".")
	r.Shuffle(len(asked), func(i, j int) { asked[i], asked[j] = asked[j], asked[i] })
	hits, boards := 0, map[string]bool{}
	for _, u := range asked {
		l, err := m.db.GetUserArticleRecordFile(u)
		if u == "" && err != nil {
			continue // an error for no user
		}
		t.Check(err == nil, "articles of %q: %v", u, err)
		i := 0
		for _, b := range m.boards {
			if b.id == "" || b.id == "ALLPOST" {
				continue
			}
			for _, a := range b.arts {
				if a.owner != u {
					continue
				}
				t.Check(i < len(l), "articles of %q: only %d, %q of board %q is missing", u, len(l), a.file, b.id)
				g := l[i]
				t.Check(g.BoardID() == b.id && g.ArticleID() == a.file && g.Owner() == u && g.Title() == a.title,
					"article %d of %q is %q in %q by %q titled %q, should be %q in %q titled %q", i, u, g.ArticleID(), g.BoardID(), g.Owner(), g.Title(), a.file, b.id, a.title)
				i++
				boards[b.id] = true
			}
		}
		t.Check(i == len(l), "articles of %q: %d, should be %d", u, len(l), i)
		hits += i
	}
	t.Count("searches", len(asked))
	t.Count("articles_found", hits)
	t.Max("boards_with_hits", len(boards))
	if hits > 0 {
		t.Nontrivial(sha(readFile(t, m.brd())), hits, t.Idx)
	}
	t.Sample("%d boards, %d articles found for %d users", len(m.boards), hits, len(asked))
}

// errorName names a home, at times as an error reads: what went wrong is not
// to be told from a text which a path can contain.
func errorName(r *rand.Rand) string {
	if r.IntN(2) == 0 {
		return "h"
	}
	return []string{"no such file or directory", "file does not exist", "not exist", "EOF", "no such file or directory"}[r.IntN(5)]
}

// c14fault: an index which cannot be read must not shorten the list.
func c14fault(t *T) {
	r := t.R
	m := genHome(t, errorName(r), homeOpt{boards: 8, arts: 4, noOdd: true})
	var l []*mBoard
	for _, b := range m.boards {
		if !b.noIndex {
			l = append(l, b)
		}
	}
	if len(l) == 0 {
		return
	}
	b := l[r.IntN(len(l))]
	t.Harness(os.Remove(m.index(b.id)))
	mkdirs(t, m.index(b.id))
	for _, u := range m.users {
		got, err := m.db.GetUserArticleRecordFile(u)
		t.Check(err != nil, "the index of board %q cannot be read and the search gives %d articles without an error", b.id, len(got))
		_, err = m.db.GetUserCommentRecordFile(u)
		t.Check(err != nil, "the index of board %q cannot be read and the comment search gives no error", b.id)
	}
	t.Harness(os.Remove(m.index(b.id)))
	t.Harness(os.Remove(m.brd()))
	_, err := m.db.GetUserArticleRecordFile(m.users[0])
	t.Check(err != nil, "without a board list the search gives no error")
	t.Count("unreadable_indexes", 1)
	t.Nontrivial(t.Idx, b.id)
}

// ---- C15

// commentLine makes a line which is a comment by construction, and its parts.
func commentLine(r *rand.Rand, owner string) (string, mComment) {
	text := ""
	for {
		text = commentText(r)
		if r.IntN(6) == 0 { // what some readers take for the end of a line
			text += []string{"\r", "\v", "\f", "\x00", "\u2028", "\u0085", "\x85", "\x1c", "\x1a", "\x04", "\t", "\r\r"}[r.IntN(12)] + commentText(r)
		}
		text = strings.TrimSpace(strings.NewReplacer("\n", "", "\x1b", "", "\a", "").Replace(text))
		if text != "" && text[0] > ' ' && text[0] < 0x7f && text[len(text)-1] > ' ' && text[len(text)-1] < 0x7f {
			break
		}
	}
	switch r.IntN(3000) {
	case 0: // a very long one
		for len(text) < 70000 {
			text += text + "."
		}
	}
	if r.IntN(16) == 0 { // nothing was said
		text = ""
	}
	stamp := genStamp(r, false)
	tm, _ := time.Parse("01/02 15:04", stamp)
	c := mComment{owner: owner, text: text, t: tm}
	marks := []string{"\xb1\xc0 ", "\xbcN ", "\xa1\xf7 ", "\u63a8 ", ""}
	esc := func(s string) string {
		if r.IntN(3) == 0 {
			return s
		}
		return "\x1b[" + []string{"m", "1;31m", "33m", "0;1;37m", "K"}[r.IntN(5)] + s
	}
	c.line = esc(marks[r.IntN(len(marks))]) + esc(owner) + esc(":"+[]string{"", " "}[r.IntN(2)]+text)
	c.line += esc([]string{" ", "  ", strings.Repeat(" ", 40)}[r.IntN(3)]) + stamp + esc("")
	return c.line, c
}

// otherLine is no comment by construction.
func otherLine(r *rand.Rand) string {
	k := r.IntN(12)
	if (k == 5 || k == 6) && r.IntN(6) != 0 {
		k = 0
	}
	switch k {
	case 0:
		return ""
	case 1:
		return "-- "
	case 2:
		return "\xa7\xe0\xaa\xcc: " + genUser(r) + " (nick) \xac\xdd\xaaO: Test"
	case 3:
		return "\xae\xc9\xb6\xa1: Sun Jan 3 12:34:56 2021"
	case 4: // looks like a comment without a real date
		return "\xb1\xc0 " + genUser(r) + ": text " + genStamp(r, true)
	case 5:
		return strings.Repeat("x", 60000+r.IntN(10000)) // at the limit of a line reader
	case 6:
		return strings.Repeat("\x1b[1;31mabc \x1b[m", r.IntN(9000))
	case 7:
		b, _ := genText(r, 70, false, false)
		return string(bytes.ReplaceAll(b, []byte(":"), []byte(";")))
	case 8:
		return "http://example.com/" + pick(r, alnum, 6)
	case 9:
		return ": " + genStamp(r, false)
	case 10:
		return genUser(r) + " " + genStamp(r, false)
	}
	return pick(r, letters+"     .,", r.IntN(78))
}

func genContent(t *T, r *rand.Rand, users []string, a *mArt, most int) []byte {
	var sb bytes.Buffer
	n := r.IntN(14)
	if r.IntN(4) == 0 {
		n = 0
	}
	switch r.IntN(60) {
	case 0, 1, 2, 3, 4:
		n = 100
	case 5:
		n = 300 + r.IntN(1500)
	case 6:
		if r.IntN(10) == 0 {
			n = 6000
		}
	}
	n = min(n, most)
	eol := "\n"
	if r.IntN(5) == 0 {
		eol = "\r\n"
	}
	again := ""
	for i := 0; i < n; i++ {
		if r.IntN(3) == 0 {
			l := otherLine(r)
			if !refComment(bbsPlain(l)).ok {
				sb.WriteString(l + eol)
			}
			continue
		}
		l, c := commentLine(r, users[r.IntN(len(users))])
		if again != "" && r.IntN(6) == 0 { // said again
			l, c = again, a.comments[len(a.comments)-1]
		}
		if w := refComment(bbsPlain(l)); !w.ok || w.owner != c.owner || !w.t.Equal(c.t) {
			// another name or time stamp stands before or after its own
			continue
		}
		c.order = uint32(len(a.comments) + 1)
		a.comments = append(a.comments, c)
		again = l
		sb.WriteString(l)
		if i < n-1 || r.IntN(2) == 0 {
			sb.WriteString(eol)
		}
	}
	return sb.Bytes()
}

// bbsPlain removes the colour codes which these generators make.
func bbsPlain(s string) string {
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] != 0x1b {
			sb.WriteByte(s[i])
			continue
		}
		for i++; i < len(s) && !isLetter(s[i]); i++ {
		}
	}
	return sb.String()
}

func checkComments(t *T, what string, got []bbs.UserCommentRecord, want []mComment, board, file string) {
	for i, w := range want {
		t.Check(i < len(got), "%s: %d comments instead of %d, the first missing is %q", what, len(got), len(want), clip(w.line, 300))
		g := got[i]
		t.Check(g.CommentOrder() == w.order, "%s: comment %d has number %d, should be %d (%q)", what, i, g.CommentOrder(), w.order, clip(w.line, 300))
		t.Check(g.Owner() == w.owner && g.CommentTime().Equal(w.t) && g.Comment() == w.text, "%s: comment %d is %q %v %q, the line is %q", what, i, g.Owner(), g.CommentTime(), g.Comment(), clip(w.line, 300))
		if board != "" {
			t.Check(g.BoardID() == board && g.Filename() == file, "%s: comment %d is of %q %q", what, i, g.BoardID(), g.Filename())
		}
	}
	t.Check(len(got) == len(want), "%s: %d comments instead of %d, the first surplus is %+v", what, len(got), len(want), func() interface{} {
		if len(got) > len(want) {
			return got[len(want)]
		}
		return nil
	}())
}

func c15(t *T) { c15home(t, homeOpt{boards: 6, arts: 7}) }

// c15large has many boards or many articles.
func c15large(t *T) {
	c15home(t, []homeOpt{{boards: 300, arts: 1, full: true}, {boards: 2, arts: 400, full: true}, {boards: 20, arts: 20, full: true}}[t.Idx%3])
}

func c15home(t *T, opt homeOpt) {
	r := t.R
	opt.content = func(m *mHome, b *mBoard, a *mArt) []byte {
		if opt.full && r.IntN(3) > 0 { // short ones
			return genContent(t, r, m.users, a, 300)
		}
		return genContent(t, r, m.users, a, 10000)
	}
	m := genHome(t, "h", opt)
	askers := m.users
	if opt.full {
		askers = askers[:min(2, len(askers))]
	}
	total := 0
	all := map[string][]mComment{}
	where := map[string][][2]string{}
	for _, b := range m.boards {
		if b.id == "" {
			continue
		}
		idx, err := m.db.ReadBoardArticleRecordsFile(b.id)
		t.Check(err == nil && len(idx) == len(b.arts), "index of %q: %d of %d, %v", b.id, len(idx), len(b.arts), err)
		mine := map[string][]mComment{}
		place := map[string][][2]string{}
		for i, a := range b.arts {
			if a.gone {
				if a.file != "" {
					l, err := m.db.GetBoardArticleCommentRecords(b.id, idx[i])
					t.Check(err != nil && len(l) == 0, "comments of a removed article: %d, %v", len(l), err)
				}
				continue
			}
			l, err := m.db.GetBoardArticleCommentRecords(b.id, idx[i])
			t.Check(err == nil, "comments of %s/%s: %v", b.id, a.file, err)
			checkComments(t, fmt.Sprintf("article %s/%s", b.id, a.file), l, a.comments, b.id, a.file)
			total += len(l)
			for _, c := range a.comments {
				mine[c.owner] = append(mine[c.owner], c)
				place[c.owner] = append(place[c.owner], [2]string{b.id, a.file})
			}
		}
		for _, u := range append([]string{"nobody"}, askers...) {
			l, err := m.db.GetBoardUserCommentRecord(b.id, u)
			t.Check(err == nil, "comments of %q in %q: %v", u, b.id, err)
			checkComments(t, fmt.Sprintf("comments of %q in %q", u, b.id), l, mine[u], "", "")
			for i, c := range l {
				t.Check(c.BoardID() == place[u][i][0] && c.Filename() == place[u][i][1], "comment %d of %q in %q is said to be in %q %q, it is in %v", i, u, b.id, c.BoardID(), c.Filename(), place[u][i])
			}
			if b.id != "ALLPOST" {
				all[u] = append(all[u], mine[u]...)
				where[u] = append(where[u], place[u]...)
			}
		}
	}
	for _, u := range append([]string{"nobody"}, askers...) {
		l, err := m.db.GetUserCommentRecordFile(u)
		t.Check(err == nil, "comments of %q: %v", u, err)
		checkComments(t, fmt.Sprintf("comments of %q in all boards", u), l, all[u], "", "")
		for i, c := range l {
			t.Check(c.BoardID() == where[u][i][0] && c.Filename() == where[u][i][1], "comment %d of %q is said to be in %q %q, it is in %v", i, u, c.BoardID(), c.Filename(), where[u][i])
		}
		t.Count("comments_by_user", len(l))
	}
	t.Count("comments", total)
	if total > 0 {
		t.Nontrivial(total, t.Idx, sha(readFile(t, m.brd())))
	}
	t.Sample("%d boards, %d comments", len(m.boards), total)
}

// c15many: articles with more comments than small numbers count.
func c15many(t *T) {
	r := t.R
	n := []int{65536 + r.IntN(2000), 32768 + r.IntN(1000), 10000 + r.IntN(3000)}[t.Idx%3]
	owners := []string{"alice", "alicE", "bob"}
	m := genHome(t, "h", homeOpt{boards: 3, arts: 3, noOdd: true, content: func(m *mHome, b *mBoard, a *mArt) []byte {
		if n == 0 {
			return []byte("text\n")
		}
		var sb bytes.Buffer
		for i := 1; i <= n; i++ {
			o := owners[i%7%3]
			tm := time.Date(0, time.Month(1+i%12), 1+i%28, i%24, i%60, 0, 0, time.UTC)
			c := mComment{owner: o, text: fmt.Sprint("comment ", i), t: tm, order: uint32(i)}
			c.line = fmt.Sprintf("%s:%s %s", o, c.text, tm.Format("01/02 15:04"))
			a.comments = append(a.comments, c)
			sb.WriteString(c.line + "\n")
		}
		n = 0
		return sb.Bytes()
	}})
	for _, b := range m.boards {
		idx, err := m.db.ReadBoardArticleRecordsFile(b.id)
		t.Check(err == nil && len(idx) == len(b.arts), "index of %q: %d of %d, %v", b.id, len(idx), len(b.arts), err)
		for i, a := range b.arts {
			if len(a.comments) == 0 {
				continue
			}
			l, err := m.db.GetBoardArticleCommentRecords(b.id, idx[i])
			t.Check(err == nil, "%v", err)
			checkComments(t, fmt.Sprintf("article %s/%s", b.id, a.file), l, a.comments, b.id, a.file)
			var mine []mComment
			for _, c := range a.comments {
				if c.owner == "alice" {
					mine = append(mine, c)
				}
			}
			l, err = m.db.GetUserCommentRecordFile("alice")
			t.Check(err == nil, "%v", err)
			if b.id != "ALLPOST" {
				checkComments(t, "comments of alice", l, mine, b.id, a.file)
			}
			t.Count("many_comments", len(a.comments))
			t.Nontrivial(len(a.comments))
		}
	}
}

// c15fault: an article which is there and cannot be read is an error, not an
// article without comments.
func c15fault(t *T) {
	r := t.R
	m := genHome(t, errorName(r), homeOpt{boards: 4, arts: 5, noOdd: true, content: func(m *mHome, b *mBoard, a *mArt) []byte {
		return genContent(t, r, m.users, a, 10000)
	}})
	type place struct {
		b *mBoard
		i int
	}
	var l []place
	for _, b := range m.boards {
		if b.id == "" || b.noIndex {
			continue
		}
		for i, a := range b.arts {
			if !a.gone && a.file != "" {
				l = append(l, place{b, i})
			}
		}
	}
	if len(l) == 0 {
		return
	}
	x := l[r.IntN(len(l))]
	a := x.b.arts[x.i]
	p := filepath.Join(m.boardDir(x.b.id), a.file)
	want := len(a.comments)
	what := ""
	switch r.IntN(4) {
	case 0:
		t.Harness(os.Remove(p))
		mkdirs(t, p)
		what = "is a directory"
	case 1:
		t.Harness(os.Remove(p))
		t.Harness(os.Symlink(filepath.Base(p), p))
		what = "is a link to itself"
	case 2:
		t.Harness(os.Remove(p))
		t.Harness(os.Symlink("/proc/self/mem", p))
		what = "gives an error when it is read"
	default:
		what = "gives an error at some read"
		call, e := "read", "EIO"
		if r.IntN(2) == 0 {
			call, e = "openat", []string{"EACCES", "EMFILE", "ENFILE", "ENOMEM", "EIO", "ELOOP"}[r.IntN(6)]
		}
		when := 1
		if call == "read" {
			when = 1 + r.IntN(2)
		}
		res := runWorker(t, workerOpt{strace: []string{"-P", p, "-e", "trace=" + call, "-e", fmt.Sprintf("inject=%s:error=%s:when=%d", call, e, when)}}, "readcomments", m.dir, x.b.id, fmt.Sprint(x.i))
		t.Check(res.Exit == 0, "a failing %s of an article ended the process: %s", call, res.Err)
		var got int
		var st string
		fmt.Sscan(string(res.Out), &got, &st)
		if res.Injected > 0 {
			t.Check(st == "err", "%s of the article %s/%s fails (%s), %d of %d comments are returned without an error", call, x.b.id, a.file, e, got, want)
			t.Count("reads_with_a_fault", res.Injected)
		} else {
			t.Check(st == "ok" && got == want, "%d of %d comments, %s", got, want, st)
		}
		t.Nontrivial(call, e, t.Idx)
		return
	}
	idx, err := m.db.ReadBoardArticleRecordsFile(x.b.id)
	t.Check(err == nil && len(idx) == len(x.b.arts), "index of %q: %d of %d, %v", x.b.id, len(idx), len(x.b.arts), err)
	got, err := m.db.GetBoardArticleCommentRecords(x.b.id, idx[x.i])
	t.Check(err != nil && len(got) == 0, "the file of the article %s/%s %s and its comments are read: %d, no error", x.b.id, a.file, what, len(got))
	_, err = m.db.GetBoardUserCommentRecord(x.b.id, m.users[0])
	t.Check(err != nil, "the file of the article %s/%s %s and the comments of %q in the board are listed without an error", x.b.id, a.file, what, m.users[0])
	t.Count("unreadable_articles", 1)
	t.Nontrivial(what, t.Idx)
}

func workerReadComments(args []string) {
	m, err := bbs.Open("pttbbs", args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(99)
	}
	k := 0
	fmt.Sscan(args[2], &k)
	idx, err := m.ReadBoardArticleRecordsFile(args[1])
	if err != nil {
		os.Exit(99)
	}
	l, err := m.GetBoardArticleCommentRecords(args[1], idx[k])
	if err != nil {
		fmt.Println(len(l), "err")
	} else {
		fmt.Println(len(l), "ok")
	}
}

// ---- C18

// c18 compares the paths of many objects of one case.
func c18(t *T) {
	r := t.R
	users, boards := []string{}, []string{}
	for i := 0; i < 6; i++ {
		users, boards = append(users, genUser(r)), append(boards, genBoard(r))
	}
	base := pick(r, letters, 3)
	users = append(users, base, base+"a", base[:2], strings.ToUpper(base), strings.ToLower(base), base[:1], boards[0])
	boards = append(boards, base, base+"a", base[:2], strings.ToUpper(base), strings.ToLower(base), base[:1], users[0], "ALLPOST", "SYSOP")
	homes := []string{"/home/bbs", "/home/bbs2", "/home/b", "./x", "a b", "/h%sd/%d", "/home/bbs/man", ""}
	homes = append(homes, "/"+pick(r, alnum, 8)+"/"+pick(r, alnum+"%: ?", 4))
	files := []string{genArticleName(r), genArticleName(r), "M.1.A.001", "M.1.A.002", ".Names", "x", "%s%d",
		pick(r, alnum+"-_ +%~", 20+r.IntN(100)), "a b", "\u6f22\u5b57", "\xba\x7e", "..x", "x..", "M.1234567890.A.ABC.bak"}
	names := []string{"D" + pick(r, alnum, 3), "D690", "D6C2", "M.971228479.A", "a", "aa", "a b", " x", "x ", "\u6f22", pick(r, alnum+" %-_", 20+r.IntN(60)), "..."}
	seen := map[string]string{}
	count := 0
	see := func(path, want, object string, err error) {
		t.Check(err == nil, "path of %s: %v", object, err)
		t.Check(path == want, "path of %s is %q, should be %q", object, path, want)
		if o, ok := seen[path]; ok && o != object {
			t.Fatalf("%s and %s share the path %q", o, object, path)
		}
		seen[path] = object
		count++
	}
	isErr := func(what string, err error, path string) {
		t.Check(err != nil, "%s gives the path %q", what, path)
	}
	h := homes[r.IntN(len(homes))]
	h2 := homes[r.IntN(len(homes))]
	p, err := pttbbs.GetPasswdsPath(h)
	see(p, h+"/.PASSWDS", "accounts", err)
	p, err = pttbbs.GetBoardPath(h)
	see(p, h+"/.BRD", "board list", err)
	c := &pttbbs.Connector{}
	t.Check(c.Open(h2) == nil, "open")
	dup := map[string]bool{}
	for _, u := range users {
		if dup[u] {
			continue
		}
		dup[u] = true
		d := h + "/home/" + u[:1] + "/" + u + "/"
		p, err = pttbbs.GetUserFavoritePath(h, u)
		see(p, d+".fav", "favorites of "+u, err)
		p, err = pttbbs.GetLoginRecentPath(h, u)
		see(p, d+"logins.recent", "logins of "+u, err)
		for _, n := range []string{"0", "1", "9", "10", "123456789", pick(r, alnum, 2) + pick(r, alnum+" -_%", 1+r.IntN(60)), "a b"} {
			p, err = pttbbs.GetUserDraftPath(h, u, n)
			see(p, d+"buf."+n, "draft "+n+" of "+u, err)
			p, err = c.GetUserDraftPath(u, n)
			t.Check(err == nil && p == h2+"/home/"+u[:1]+"/"+u+"/buf."+n, "draft %s of %s is %q, %v", n, u, p, err)
		}
		for _, f := range append([]string{".DIR"}, files...) {
			p, err = pttbbs.GetUserMailPath(h, u, f)
			see(p, d+f, "mail "+f+" of "+u, err)
		}
		p, err = c.GetUserFavoriteRecordsPath(u)
		t.Check(err == nil && p == h2+"/home/"+u[:1]+"/"+u+"/.fav", "favorites of %s are %q, %v", u, p, err)
	}
	dup = map[string]bool{}
	for _, b := range boards {
		if dup[b] {
			continue
		}
		dup[b] = true
		bd := "/boards/" + b[:1] + "/" + b + "/"
		d := h + bd
		p, err = pttbbs.GetBoardArticlesDirectoryPath(h, b)
		see(p, d+".DIR", "index of "+b, err)
		p, err = pttbbs.GetBoardNameFilePath(h, b)
		see(p, d+".Name", "name of "+b, err)
		for _, f := range files {
			p, err = pttbbs.GetBoardArticleFilePath(h, b, f)
			see(p, d+f, "article "+f+" of "+b, err)
			p, err = c.GetBoardArticleFilePath(b, f)
			t.Check(err == nil && p == h2+bd+f, "article %s of %s is %q, %v", f, b, p, err)
		}
		p, err = c.GetBoardArticleRecordsPath(b)
		t.Check(err == nil && p == h2+bd+".DIR", "index of %s is %q, %v", b, p, err)
		for k := 0; k < 4; k++ {
			// the path shares its array with other names
			arr := make([]string, 0, 8)
			for j := r.IntN(5); j > 0; j-- {
				arr = append(arr, names[r.IntN(len(names))])
			}
			full := append(arr[:len(arr):8], "keep1", "keep2", "keep3")[:len(arr)+2]
			arr = full[:len(arr)]
			before := append([]string{}, full[:cap(full)]...)
			sub := ""
			for _, x := range arr {
				sub += x + "/"
			}
			o := "treasure " + sub + " of " + b
			p, err = pttbbs.GetBoardTreasuresDirectoryPath(h, b, arr)
			see(p, h+"/man"+bd+sub+".DIR", "index of "+o, err)
			f := files[r.IntN(len(files))]
			p, err = pttbbs.GetBoardTreasureFilePath(h, b, arr, f)
			see(p, h+"/man"+bd+sub+f, f+" of "+o, err)
			p, err = c.GetBoardTreasureRecordsPath(b, arr)
			t.Check(err == nil && p == h2+"/man"+bd+sub+".DIR", "index of %s is %q, %v", o, p, err)
			p, err = c.GetBoardTreasureFilePath(b, arr, f)
			t.Check(err == nil && p == h2+"/man"+bd+sub+f, "%s of %s is %q, %v", f, o, p, err)
			t.Check(reflect.DeepEqual(full[:cap(full)], before), "the treasure path was changed from %v to %v", before, full[:cap(full)])
		}
		p, err = pttbbs.GetBoardTreasuresDirectoryPath(h, b, nil)
		see(p, h+"/man"+bd+".DIR", "index of treasure  of "+b, err)
	}
	// no id
	p, err = pttbbs.GetUserFavoritePath(h, "")
	isErr("favorites of no user", err, p)
	p, err = pttbbs.GetUserDraftPath(h, "", "1")
	isErr("draft of no user", err, p)
	p, err = pttbbs.GetUserMailPath(h, "", "x")
	isErr("mail of no user", err, p)
	p, err = pttbbs.GetLoginRecentPath(h, "")
	isErr("logins of no user", err, p)
	p, err = pttbbs.GetBoardArticlesDirectoryPath(h, "")
	isErr("index of no board", err, p)
	p, err = pttbbs.GetBoardArticleFilePath(h, "", "x")
	isErr("article of no board", err, p)
	p, err = pttbbs.GetBoardTreasuresDirectoryPath(h, "", names)
	isErr("treasure index of no board", err, p)
	p, err = pttbbs.GetBoardTreasureFilePath(h, "", names, "x")
	isErr("treasure of no board", err, p)
	p, err = pttbbs.GetBoardNameFilePath(h, "")
	isErr("name of no board", err, p)
	t.Count("paths", count)
	t.Nontrivial(h, strings.Join(users, "/"), strings.Join(boards, "/"))
	t.Sample("home %q: %d paths", h, count)
}

// c18db: the same in effect: each object is read from where it belongs.
func c18db(t *T) {
	r := t.R
	m := newHome(t, "h m")
	users := similarUsers(r)
	type obj struct {
		what string
		path string
		get  func() (string, error)
	}
	var l []obj
	for _, u := range users {
		for _, n := range []string{"0", "1", "10"} {
			l = append(l, obj{"draft " + n + " of " + u, m.userDir(u) + "/buf." + n, func() (string, error) {
				d, err := m.db.GetUserDrafts(u, n)
				if err != nil {
					return "", err
				}
				return string(d.Raw()), nil
			}})
		}
	}
	for _, b := range append([]string{genBoard(r), "a.b", "A-_"}, users...) {
		for _, f := range []string{"M.1.A.001", "M.1.A.0011", genArticleName(r)} {
			l = append(l, obj{"article " + f + " of " + b, m.boardDir(b) + "/" + f, func() (string, error) {
				d, err := m.db.ReadBoardArticleFile(b, f)
				return string(d), err
			}})
			for _, tp := range [][]string{nil, {"D1"}, {"D1", "D1"}, {"D2"}} {
				l = append(l, obj{fmt.Sprintf("treasure %v %s of %s", tp, f, b), m.manDir(b) + "/" + strings.Join(append(append([]string{}, tp...), f), "/"), func() (string, error) {
					d, err := m.db.ReadBoardTreasureFile(b, tp, f)
					return string(d), err
				}})
			}
		}
	}
	for i, o := range l {
		writeFile(t, o.path, []byte(fmt.Sprintf("%d %s", i, o.what)))
	}
	for i, o := range l {
		s, err := o.get()
		t.Check(err == nil && s == fmt.Sprintf("%d %s", i, o.what), "%s is %q, %v", o.what, s, err)
	}
	t.Count("objects_read", len(l))
	t.Nontrivial(strings.Join(users, "/"))
}

// ---- C19

// nearly gives what is easily taken for the same as before: of the same length,
// with the same end, the same bytes in another order.
func nearly(r *rand.Rand, old []byte) []byte {
	c := append([]byte{}, old...)
	if len(c) == 0 {
		return c
	}
	i, j := r.IntN(len(c)), r.IntN(len(c))
	switch r.IntN(12) {
	case 0: // the same
	case 7, 9: // white space at the end
		c = append(c, " \n\r\t\x00"[r.IntN(5)])
	case 8, 10, 11:
		if n := len(bytes.TrimRight(c, " \n\r\t\x00")); n < len(c) {
			c = c[:n]
		} else {
			c = append(bytes.TrimLeft(c, " \n"), "\r\n"...)
		}
	case 1, 2:
		c[i] ^= byte(1 + r.IntN(255))
	case 3:
		c[i], c[j] = c[j], c[i]
	case 4:
		c = c[:len(c)-1]
	case 5:
		c = append(c, byte(r.IntN(256)))
	case 6:
		slices.Reverse(c)
	}
	return c
}

func c19(t *T) {
	r := t.R
	m := newHome(t, "h")
	boards := []string{genBoard(r), genBoard(r)}
	if r.IntN(2) == 0 {
		boards[1] = boards[0] + "x"
	}
	names := []string{"M.1.A.001", "M.1.A.002", genArticleName(r)}
	model := map[string][]byte{} // path -> content
	for _, b := range boards {
		mkdirs(t, m.boardDir(b))
		if r.IntN(2) == 0 {
			writeFile(t, m.index(b), randBytes(r, 300))
		}
	}
	other := filepath.Join(m.boardDir(boards[0]), "other")
	writeFile(t, other, []byte("other"))
	content := func() []byte {
		switch r.IntN(8) {
		case 0:
			return nil
		case 1:
			return []byte{byte(r.IntN(256))}
		case 2:
			return randBytes(r, 4000+r.IntN(200)) // around a page
		case 3:
			b, _ := genText(r, 200, false, true)
			return b
		case 4:
			switch r.IntN(8) {
			case 0:
				return randBytes(r, 1<<20+r.IntN(1<<20))
			case 1: // around a power of two
				return randBytes(r, 1<<(12+r.IntN(9))+r.IntN(3)-1)
			}
			return randBytes(r, 32700+r.IntN(200))
		case 5:
			return bytes.Repeat([]byte{0}, r.IntN(500))
		}
		return randBytes(r, r.IntN(300))
	}
	if r.IntN(2) == 0 { // files which are there before
		p := filepath.Join(m.boardDir(boards[0]), names[0])
		model[p] = content()
		writeFile(t, p, model[p])
	}
	steps := 5 + r.IntN(30)
	var trace []string
	shrunk, appended := 0, 0
	for i := 0; i < steps; i++ {
		b, f := boards[r.IntN(2)], names[r.IntN(len(names))]
		p := filepath.Join(m.boardDir(b), f)
		old, there := model[p]
		c := content()
		if len(old) > 0 && r.IntN(3) == 0 {
			c = nearly(r, old)
		}
		given := append([]byte{}, c...)
		before := snapshot(t, m.dir, false)
		op := r.IntN(5)
		db := m.db
		if r.IntN(8) == 0 {
			db = openDB(t, m.dir)
		}
		switch {
		case op < 2:
			trace = append(trace, fmt.Sprintf("write %s %d", f, len(c)))
			err := db.WriteBoardArticleFile(b, f, c)
			t.Check(err == nil, "%v: %v", trace, err)
			model[p] = given
			if len(given) < len(old) {
				shrunk++
			}
		case op < 4:
			trace = append(trace, fmt.Sprintf("append %s %d", f, len(c)))
			err := db.AppendBoardArticleFile(b, f, c)
			if !there {
				t.Check(err != nil, "%v: appending to a file which is not there gives no error", trace)
			} else {
				t.Check(err == nil, "%v: %v", trace, err)
				model[p] = append(append([]byte{}, old...), given...)
				appended++
			}
		default:
			trace = append(trace, "read "+f)
			got, err := db.ReadBoardArticleFile(b, f)
			t.Check((err == nil) == there, "%v: error is %v, the file exists: %v", trace, err, there)
			t.Check(bytes.Equal(got, old), "%v: %d bytes are read, written were %d (first difference at %d)", trace, len(got), len(old), firstDiff(got, old))
		}
		t.Check(bytes.Equal(c, given), "%v: the content given was changed", trace)
		after := snapshot(t, m.dir, false)
		rel, _ := filepath.Rel(m.dir, p)
		for k, v := range before {
			if k != rel {
				t.Check(after[k] == v, "%v: %s changed", trace, k)
			}
		}
		for k := range after {
			if _, ok := before[k]; !ok {
				t.Check(k == rel && op < 2, "%v: %s was created", trace, k)
			}
		}
		if w, ok := model[p]; ok {
			got := readFile(t, p)
			t.Check(bytes.Equal(got, w), "%v: the file has %d bytes, should have %d (first difference at %d)", trace, len(got), len(w), firstDiff(got, w))
		}
		for k := range c { // the caller goes on using its buffer
			c[k] ^= 0x55
		}
	}
	for p, w := range model {
		rel, _ := filepath.Rel(m.dir, p)
		seg := strings.Split(rel, "/")
		got, err := m.db.ReadBoardArticleFile(seg[2], seg[3])
		t.Check(err == nil && bytes.Equal(got, w), "%v: at the end %s has %d bytes, should have %d, %v", trace, rel, len(got), len(w), err)
	}
	// a board which is not there
	t.Check(m.db.WriteBoardArticleFile("nosuchboard", "M.1.A.001", []byte("x")) != nil, "writing into a board without directory gives no error")
	_, err := m.db.ReadBoardArticleFile("nosuchboard", "M.1.A.001")
	t.Check(err != nil, "reading from a board without directory gives no error")
	t.Count("steps", steps)
	t.Count("shorter_writes", shrunk)
	t.Count("appends", appended)
	if shrunk+appended > 0 {
		t.Nontrivial(strings.Join(trace, ";"))
	}
	t.Sample("%s", clip(strings.Join(trace, "; "), 300))
}

// ---- C21

// entry is one article index record in a model: how it is to be read back.
type entry struct {
	raw []byte // with the defined bits only, as the code writes it
}

func genHeader(t *T) (*pttbbs.FileHeader, []byte) {
	r := t.R
	rec := fileType.genRec(t, r)
	v, err := pttbbs.NewFileHeaderWithByte(rec.raw)
	t.Check(err == nil, "decode: %v", err)
	b, err := v.MarshalToByte()
	t.Check(err == nil, "encode: %v", err)
	return v, b
}

func c21(t *T) {
	r := t.R
	m := newHome(t, "h")
	conn := &pttbbs.Connector{}
	t.Check(conn.Open(m.dir) == nil, "open")
	brd := genBoard(r)
	mkdirs(t, m.boardDir(brd))
	path := m.index(brd)
	var model [][]byte
	var junk []byte
	exists := false
	if r.IntN(2) == 0 { // an index which is there before
		exists = true
		for i := r.IntN(8); i > 0; i-- {
			model = append(model, randBytes(r, 128))
		}
		if r.IntN(2) == 0 {
			junk = randBytes(r, 1+r.IntN(127))
		}
		writeFile(t, path, append(bytes.Join(model, nil), junk...))
	}
	old := make([]bool, len(model)) // stored by us, not by the code
	for i := range old {
		old[i] = true
	}
	var trace []string
	check := func() {
		if !exists {
			_, err := os.Stat(path)
			t.Check(os.IsNotExist(err), "%v: the index was created", trace)
			return
		}
		want := append(bytes.Join(model, nil), junk...)
		got := readFile(t, path)
		t.Check(bytes.Equal(got, want), "%v: the index has %d bytes, should have %d, first difference in record %d", trace, len(got), len(want), firstDiff(got, want)/128)
	}
	steps := 4 + r.IntN(30)
	ups, errs := 0, 0
	for i := 0; i < steps; i++ {
		switch r.IntN(8) {
		case 0, 1, 2: // append
			h, b := genHeader(t)
			if n := len(model); n > 0 && r.IntN(4) == 0 { // one which is there already
				if k := []int{n - 1, r.IntN(n)}[r.IntN(2)]; !old[k] {
					var err error
					h, err = pttbbs.NewFileHeaderWithByte(append([]byte{}, model[k]...))
					t.Check(err == nil, "%v: %v", trace, err)
					b = model[k]
				}
			}
			copyB := append([]byte{}, b...)
			var err error
			if r.IntN(2) == 0 {
				err = m.db.AddArticleRecordFileRecord(brd, h)
			} else {
				err = pttbbs.AppendFileHeaderFileRecord(path, h)
			}
			trace = append(trace, "append")
			t.Check(err == nil, "%v: %v", trace, err)
			exists, junk = true, nil
			model, old = append(model, copyB), append(old, false)
			b2, _ := h.MarshalToByte()
			t.Check(bytes.Equal(b2, copyB), "%v: the record given was changed", trace)
		case 3, 4, 5: // update
			n := len(model)
			idx := r.IntN(n + 2)
			if r.IntN(12) == 0 {
				idx = []int{n, n + 1, n + 1000, 1 << 31, 1 << 40, 1<<62 + 1, -1}[r.IntN(7)]
			}
			var h *pttbbs.FileHeader
			var b []byte
			if idx >= 0 && idx < n && r.IntN(2) == 0 && !old[idx] { // change the stored one
				l, err := m.db.ReadBoardArticleRecordsFile(brd)
				t.Check(err == nil && len(l) == n, "%v: reading gives %d of %d records, %v", trace, len(l), n, err)
				h = l[idx].(*pttbbs.FileHeader)
				before, _ := h.MarshalToByte()
				t.Check(bytes.Equal(before, model[idx]), "%v: record %d is %x, should be %x", trace, idx, before, model[idx])
				b = append([]byte{}, model[idx]...)
				off, _ := loadLayout(t).of(t, "fileheader_t.recommend")
				d := int8(r.IntN(256))
				h.AddRecommend(d)
				b[off] += byte(d)
			} else {
				h, b = genHeader(t)
			}
			trace = append(trace, fmt.Sprintf("update %d of %d", idx, n))
			var err error
			if r.IntN(2) == 0 {
				err = conn.UpdateArticleRecordFileRecord(path, uint(idx), h)
			} else {
				err = pttbbs.UpdateFileHeaderFileRecord(path, uint(idx), h)
			}
			if idx >= 0 && idx < n {
				t.Check(err == nil, "%v: %v", trace, err)
				model[idx], old[idx] = b, false
				ups++
			} else {
				t.Check(err != nil, "%v: updating a record which is not there gives no error", trace)
				errs++
			}
		case 6: // read
			trace = append(trace, "read")
			l, err := m.db.ReadBoardArticleRecordsFile(brd)
			t.Check(err == nil && len(l) == len(model), "%v: %d records, should be %d, %v", trace, len(l), len(model), err)
			for i, x := range l {
				b, _ := x.(*pttbbs.FileHeader).MarshalToByte()
				if !old[i] {
					t.Check(bytes.Equal(b, model[i]), "%v: record %d is %x, should be %x", trace, i, b, model[i])
				}
			}
		case 7: // an append by another program which was interrupted
			if exists && r.IntN(2) == 0 {
				k := randBytes(r, 1+r.IntN(127))
				junk = k
				writeFile(t, path, append(bytes.Join(model, nil), junk...))
				trace = append(trace, "junk")
			}
		}
		check()
	}
	t.Count("steps", steps)
	t.Count("updates", ups)
	t.Count("updates_refused", errs)
	if ups > 0 {
		t.Nontrivial(strings.Join(trace, ";"), sha(bytes.Join(model, nil)))
	}
	t.Sample("%s", clip(strings.Join(trace, "; "), 300))
}

// c21large is an index of many records, whose positions need more bits.
func c21large(t *T) {
	r := t.R
	m := newHome(t, "h")
	brd := genBoard(r)
	mkdirs(t, m.boardDir(brd))
	path := m.index(brd)
	n := []int{257, 300, 513, 1025, 4097, 8193, 32769, 65537, 70000}[t.Idx%9] + r.IntN(20)
	want := make([]byte, 128*n)
	x := r.Uint64()
	for i := 0; i+8 <= len(want); i += 8 {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		binary.LittleEndian.PutUint64(want[i:], x)
	}
	writeFile(t, path, want)
	ups := 0
	for k := 0; k < 24; k++ {
		i := r.IntN(n)
		if r.IntN(2) == 0 { // next to a power of two
			i = 1<<r.IntN(17) - 1 + r.IntN(3)
		}
		if r.IntN(8) == 0 {
			i = n - 1
		}
		h, b := genHeader(t)
		err := pttbbs.UpdateFileHeaderFileRecord(path, uint(i), h)
		if i < n {
			t.Check(err == nil, "update of %d of %d records: %v", i, n, err)
			copy(want[128*i:], b)
			ups++
		} else {
			t.Check(err != nil, "update of %d of %d records gives no error", i, n)
		}
		if r.IntN(6) == 0 {
			h, b := genHeader(t)
			err := m.db.AddArticleRecordFileRecord(brd, h)
			t.Check(err == nil, "append to %d records: %v", n, err)
			want = append(want, b...)
			n++
		}
		got := readFile(t, path)
		t.Check(bytes.Equal(got, want), "after the update of %d: the index has %d bytes, should have %d, first difference in record %d", i, len(got), len(want), firstDiff(got, want)/128)
	}
	l, err := m.db.ReadBoardArticleRecordsFile(brd)
	t.Check(err == nil && len(l) == n, "%d of %d records are read, %v", len(l), n, err)
	t.Max("records", n)
	t.Count("updates", ups)
	t.Nontrivial(n, ups, x)
}

// sparse is a file of n records of the given size of which only some are not
// zero. It takes hardly any place, however large it is.
type sparse struct {
	path string
	size int
	n    int64
	recs map[int64][]byte
}

func newSparse(t *T, path string, size int, n int64) *sparse {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0600)
	t.Harness(err)
	defer f.Close()
	t.Harness(f.Truncate(n * int64(size)))
	return &sparse{path: path, size: size, n: n, recs: map[int64][]byte{}}
}

func (s *sparse) set(t *T, i int64, b []byte) {
	f, err := os.OpenFile(s.path, os.O_RDWR, 0)
	t.Harness(err)
	defer f.Close()
	_, err = f.WriteAt(b, i*int64(s.size))
	t.Harness(err)
	s.recs[i] = b
}

// diff compares all of the file with what it should hold. Only the parts which
// take place on the disk can hold anything.
func (s *sparse) diff(t *T) string {
	f, err := os.Open(s.path)
	t.Harness(err)
	defer f.Close()
	st, err := f.Stat()
	t.Harness(err)
	if st.Size() != s.n*int64(s.size) {
		return fmt.Sprintf("it has %d bytes, should have %d", st.Size(), s.n*int64(s.size))
	}
	size := int64(s.size)
	seen := map[int64]bool{}
	zero := make([]byte, size)
	for at := int64(0); at < st.Size(); {
		a, err := f.Seek(at, 3) // SEEK_DATA
		if err != nil {
			break
		}
		b, err := f.Seek(a, 4) // SEEK_HOLE
		t.Harness(err)
		if b-a > 64<<20 {
			return fmt.Sprintf("%d bytes are written from byte %d on", b-a, a)
		}
		first, last := a/size, (b+size-1)/size
		buf := make([]byte, (last-first)*size)
		k, err := f.ReadAt(buf, first*size)
		if err != nil && err != io.EOF {
			t.Harness(err)
		}
		buf = buf[:k]
		for i := first; i < last && (i-first+1)*size <= int64(len(buf)); i++ {
			got, want := buf[(i-first)*size:(i-first+1)*size], s.recs[i]
			if want == nil {
				want = zero
			}
			if !bytes.Equal(got, want) {
				return fmt.Sprintf("record %d is %x, should be %x", i, got, want)
			}
			seen[i] = true
		}
		at = b
	}
	for i, b := range s.recs {
		if !seen[i] && !bytes.Equal(b, zero) {
			return fmt.Sprintf("record %d is zero, should be %x", i, b)
		}
	}
	return ""
}

// c21sparse is an index whose positions in bytes need more than 31 bits.
func c21sparse(t *T) {
	r := t.R
	m := newHome(t, "h")
	brd := genBoard(r)
	mkdirs(t, m.boardDir(brd))
	n := []int64{1 << 24, 1 << 25, 1 << 26, 1<<25 + 1<<24}[t.Idx%4] + int64(r.IntN(40))
	s := newSparse(t, m.index(brd), 128, n)
	defer os.Remove(s.path)
	ups := 0
	for k := 0; k < 12; k++ {
		i := r.Int64N(n)
		switch r.IntN(4) {
		case 0:
			i = int64(1)<<(20+r.IntN(7)) - 2 + int64(r.IntN(4))
		case 1:
			i = n - 1 - int64(r.IntN(20))
		case 2:
			i = n + int64(r.IntN(3))
		}
		h, b := genHeader(t)
		err := pttbbs.UpdateFileHeaderFileRecord(s.path, uint(i), h)
		if i < n {
			t.Check(err == nil, "update of %d of %d records: %v", i, n, err)
			s.recs[i] = append([]byte{}, b...)
			ups++
		} else {
			t.Check(err != nil, "update of %d of %d records gives no error", i, n)
		}
		if r.IntN(4) == 0 {
			h, b := genHeader(t)
			err := m.db.AddArticleRecordFileRecord(brd, h)
			t.Check(err == nil, "append to %d records: %v", n, err)
			s.recs[n] = append([]byte{}, b...)
			n++
			s.n = n
		}
		if d := s.diff(t); d != "" {
			t.Fatalf("after the update of %d of %d records of an index: %s", i, n, d)
		}
	}
	t.Max("records", int(n))
	t.Count("updates", ups)
	t.Nontrivial(n, ups)
}

// c21values: what a record was given is what is read back, for values set by
// the caller.
func c21values(t *T) {
	r := t.R
	m := newHome(t, "h")
	brd := genBoard(r)
	mkdirs(t, m.boardDir(brd))
	type val struct {
		file, owner, date, title string
		money, rec               int
		mod                      uint32
	}
	var model []val
	n := 1 + r.IntN(6)
	for i := 0; i < n; i++ {
		v := val{file: genArticleName(r), owner: genUser(r), date: fmt.Sprintf("%d/%02d", 1+r.IntN(12), 1+r.IntN(28))}
		_, v.title = genText(r, 65, false, false)
		h := pttbbs.NewFileHeader()
		h.SetFilename(v.file)
		h.SetOwner(v.owner)
		h.SetDate(v.date)
		h.SetTitle(v.title)
		k := int8(r.IntN(256))
		h.AddRecommend(k)
		v.rec = int(k)
		v.mod = genTime(r)
		h.SetModified(time.Unix(int64(v.mod), int64(r.IntN(1e9))))
		err := m.db.AddArticleRecordFileRecord(brd, h)
		t.Check(err == nil, "append: %v", err)
		model = append(model, v)
		// the caller goes on with its record
		h.SetTitle("changed")
		h.SetFilename("changed")
	}
	l, err := m.db.ReadBoardArticleRecordsFile(brd)
	t.Check(err == nil && len(l) == n, "%d records, should be %d, %v", len(l), n, err)
	for i, v := range model {
		g := l[i]
		t.Check(g.Filename() == v.file && g.Owner() == v.owner && g.Date() == v.date && g.Title() == v.title && g.Recommend() == v.rec && uint32(g.Modified().Unix()) == v.mod && g.Money() == 0,
			"record %d is %q %q %q %q %d %d, written was %+v", i, g.Filename(), g.Owner(), g.Date(), g.Title(), g.Recommend(), g.Modified().Unix(), v)
	}
	raw := readFile(t, m.index(brd))
	lay := loadLayout(t)
	for i, v := range model {
		off, _ := lay.of(t, "fileheader_t.modified")
		t.Check(binary.LittleEndian.Uint32(raw[i*128+off:]) == v.mod, "record %d: the time in the file is not %d", i, v.mod)
		off, k := lay.of(t, "fileheader_t.filename")
		w := make([]byte, k)
		copy(w, v.file)
		t.Check(bytes.Equal(raw[i*128+off:i*128+off+k], w), "record %d: file name in the file is %q", i, raw[i*128+off:i*128+off+k])
	}
	// another type of record
	err = m.db.AddArticleRecordFileRecord(brd, otherArticle{})
	t.Check(err != nil, "adding a record of another driver gives no error")
	t.Check(bytes.Equal(raw, readFile(t, m.index(brd))), "a refused record changed the index")
	t.Nontrivial(raw)
	t.Count("records", n)
}

type otherArticle struct{ bbs.ArticleRecord }

func init() {
	workers["readcomments"] = workerReadComments
	register(&Prop{ID: "C14", Rule: "a case is a generated home (boards with and without index, unused slots, ALLPOST, similar user ids, deleted entries, incomplete records) which is searched for every user and for ids which are no user; homes with articles found are counted",
		Groups: []Group{
			{Name: "search", Quick: 3000, Thorough: 20000, Fn: c14},
			{Name: "large", Quick: 8, Thorough: 120, Fn: c14large},
			{Name: "fault", Quick: 60, Thorough: 2000, Fn: c14fault},
		}})
	register(&Prop{ID: "C15", Rule: "a case is a generated home whose articles have comment lines, lines which nearly are, colour codes and long lines; listings of articles, boards and users are compared with the model; homes with comments are counted",
		Groups: []Group{{Name: "listing", Quick: 300, Thorough: 12000, Fn: c15},
			{Name: "large", Quick: 6, Thorough: 90, Fn: c15large},
			{Name: "many", Quick: 9, Thorough: 60, Par: 3, Fn: c15many},
			{Name: "fault", Quick: 200, Thorough: 6000, Fn: c15fault}}})
	register(&Prop{ID: "C18", Rule: "a case is a home with similar user, board and file names; all paths are compared with the layout and with each other, and objects written at these paths are read through the database; distinct sets of names are counted",
		Groups: []Group{
			{Name: "paths", Quick: 6000, Thorough: 60000, Fn: c18},
			{Name: "objects", Quick: 40, Thorough: 2000, Fn: c18db},
		}})
	register(&Prop{ID: "C19", Rule: "a case is a history of 5 to 34 write, append and read operations on files of two boards, with a digest of the whole home after every step; histories with a shortening write or an append are counted",
		Groups: []Group{{Name: "history", Quick: 500, Thorough: 20000, Fn: c19}}})
	register(&Prop{ID: "C21", Rule: "a case is a history of 4 to 33 appends, updates (also out of range) and reads of an article index, some starting with an incomplete record, the file compared with the model after every step; histories with an update are counted",
		Groups: []Group{
			{Name: "history", Quick: 1500, Thorough: 60000, Fn: c21},
			{Name: "large", Quick: 18, Thorough: 360, Fn: c21large},
			{Name: "sparse", Quick: 12, Thorough: 400, Fn: c21sparse},
			{Name: "values", Quick: 600, Thorough: 30000, Fn: c21values},
		}})
}
