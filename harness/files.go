package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	bbs "github.com/Ptt-official-app/go-bbs"
	formosabbs "github.com/Ptt-official-app/go-bbs/formosabbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
)

// recFile is a kind of record file.
type recFile struct {
	name string
	rt   *rtype
	open func(path string) ([]interface{}, error)
}

func toList(x interface{}, err error) ([]interface{}, error) {
	rv := reflect.ValueOf(x)
	ret := make([]interface{}, rv.Len())
	for i := range ret {
		ret[i] = rv.Index(i).Interface()
	}
	return ret, err
}

var recFiles = []*recFile{
	{"boards", boardType, func(p string) ([]interface{}, error) { return toList(pttbbs.OpenBoardHeaderFile(p)) }},
	{"accounts", userType, func(p string) ([]interface{}, error) { return toList(pttbbs.OpenUserecFile(p)) }},
	{"articles", fileType, func(p string) ([]interface{}, error) { return toList(pttbbs.OpenFileHeaderFile(p)) }},
	{"users", infoType, func(p string) ([]interface{}, error) { return toList(pttbbs.OpenUserInfoCache(p)) }},
	{"formosa", formosaType, func(p string) ([]interface{}, error) { return toList(formosabbs.OpenFormosaBBSFileHeaderFile(p)) }},
	{"boards by driver", boardType, func(p string) ([]interface{}, error) { return toList((&pttbbs.Connector{}).ReadBoardRecordsFile(p)) }},
	{"accounts by driver", userType, func(p string) ([]interface{}, error) { return toList((&pttbbs.Connector{}).ReadUserRecordsFile(p)) }},
	{"articles by driver", fileType, func(p string) ([]interface{}, error) { return toList((&pttbbs.Connector{}).ReadArticleRecordsFile(p)) }},
}

// home is a scratch BBS home with an opened database.
type home struct {
	dir string
	db  *bbs.DB
}

func newHome(t *T, sub string) *home {
	dir := filepath.Join(t.Dir(), sub)
	t.Harness(os.MkdirAll(dir, 0755))
	return &home{dir: dir, db: openDB(t, dir)}
}

func openDB(t *T, dir string) *bbs.DB {
	db, err := bbs.Open("pttbbs", dir)
	t.Check(err == nil && db != nil, "opening a database: %v", err)
	return db
}

func (h *home) boardDir(b string) string { return filepath.Join(h.dir, "boards", b[:1], b) }
func (h *home) userDir(u string) string  { return filepath.Join(h.dir, "home", u[:1], u) }
func (h *home) brd() string              { return filepath.Join(h.dir, ".BRD") }
func (h *home) passwds() string          { return filepath.Join(h.dir, ".PASSWDS") }
func (h *home) index(b string) string    { return filepath.Join(h.boardDir(b), ".DIR") }
func (h *home) manDir(b string) string   { return filepath.Join(h.dir, "man", "boards", b[:1], b) }

// fileCount draws how many records a file has.
func fileCount(t *T, size int) int {
	switch t.R.IntN(10) {
	case 0:
		return 0
	case 1:
		return 1
	case 2: // around the sizes of buffers
		return (4096<<t.R.IntN(5))/size + t.R.IntN(3) - 1
	case 3:
		return 100 + t.R.IntN(200)
	}
	return 1 + t.R.IntN(30)
}

func genFile(t *T, rt *rtype, n int) (data []byte, recs []*rrec) {
	for i := 0; i < n; i++ {
		var rec *rrec
		if i > 3 && t.R.IntN(3) > 0 { // repeated records are records of their own
			rec = recs[t.R.IntN(len(recs))]
		} else {
			rec = rt.genRec(t, t.R)
			if t.R.IntN(20) == 0 {
				rec = nil
			}
		}
		recs = append(recs, rec)
		if rec == nil { // an empty slot
			data = append(data, make([]byte, rt.size)...)
		} else {
			data = append(data, rec.raw...)
		}
	}
	return
}

func checkList(t *T, rt *rtype, data []byte, recs []*rrec, got []interface{}, what string) {
	t.Check(len(got) == len(recs), "%s: %d records were read from a file with %d complete records", what, len(got), len(recs))
	for i := range recs {
		alone, err := rt.decode(append([]byte{}, data[i*rt.size:(i+1)*rt.size]...))
		t.Check(err == nil, "decoding record %d alone: %v", i, err)
		if !reflect.DeepEqual(got[i], alone) {
			t.Fatalf("%s: record %d of %d differs from its slice decoded alone:\n%+v\n%+v", what, i, len(recs), got[i], alone)
		}
		if recs[i] != nil {
			rt.checkDecoded(t, got[i], recs[i], fmt.Sprintf("%s: record %d", what, i))
		}
	}
}

func c07content(t *T) {
	rf := recFiles[t.Idx%len(recFiles)]
	rt := rf.rt
	n := fileCount(t, rt.size)
	data, recs := genFile(t, rt, n)
	extra := 0
	if t.R.IntN(2) == 0 {
		extra = 1 + t.R.IntN(rt.size-1)
		switch t.R.IntN(4) {
		case 0:
			extra = rt.size - 1
		case 1:
			extra = 1
		}
	}
	data = append(data, randBytes(t.R, extra)...)
	p := filepath.Join(t.Dir(), "f")
	writeFile(t, p, data)
	got, err := rf.open(p)
	t.Check(err == nil, "%s: reading a file of %d records and %d bytes: %v", rf.name, n, extra, err)
	checkList(t, rt, data, recs, got, rf.name)
	t.Check(bytes.Equal(readFile(t, p), data), "reading changed the file")
	if n > 0 || extra > 0 {
		t.Nontrivial(rf.name, n, extra, sha(data))
	}
	t.Count("records", n)
	t.Max("records_in_a_file", n)
	t.Count("incomplete_records", b2i(extra > 0))
	t.Sample("%s: %d records and %d bytes", rf.name, n, extra)
}

// c07large is a file of many records, whose positions need more bits.
func c07large(t *T) {
	rf := recFiles[t.Idx%len(recFiles)]
	rt := rf.rt
	n := []int{1025, 4097, 8193}[t.R.IntN(3)]
	if t.Idx/len(recFiles)%2 == 1 {
		n = 65537
	}
	if rt.size > 1000 {
		n /= 8
	}
	n += t.R.IntN(40)
	base, _ := genFile(t, rt, 61)
	data := make([]byte, 0, n*rt.size)
	var recs []int
	for i := 0; i < n; i++ {
		k := t.R.IntN(61)
		recs = append(recs, k)
		data = append(data, base[k*rt.size:(k+1)*rt.size]...)
	}
	data = append(data, randBytes(t.R, t.R.IntN(rt.size))...)
	p := filepath.Join(t.Dir(), "f")
	writeFile(t, p, data)
	got, err := rf.open(p)
	t.Check(err == nil && len(got) == n, "%s: reading a file of %d records: %d records, %v", rf.name, n, len(got), err)
	// equal records are decoded to equal values
	first := map[int]interface{}{}
	for i, k := range recs {
		if v, ok := first[k]; ok {
			t.Check(reflect.DeepEqual(v, got[i]), "%s: record %d of %d is not what it is elsewhere in the file", rf.name, i, n)
			continue
		}
		one := filepath.Join(t.Dir(), "one")
		writeFile(t, one, data[i*rt.size:(i+1)*rt.size])
		l, err := rf.open(one)
		t.Check(err == nil && len(l) == 1 && reflect.DeepEqual(l[0], got[i]), "%s: record %d of %d is not what it is on its own, %v", rf.name, i, n, err)
		first[k] = got[i]
	}
	t.Nontrivial(rf.name, n, sha(data))
	t.Count("records", n)
	t.Max("records_in_a_file", n)
}

func sha(b []byte) string { s := sha256.Sum256(b); return fmt.Sprintf("%x", s[:8]) }

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// c07db reads the lists of a whole home through the database.
func c07db(t *T) {
	h := newHome(t, "h")
	bd, bds := genFile(t, boardType, fileCount(t, 256))
	ud, uds := genFile(t, userType, fileCount(t, 512))
	fd, fds := genFile(t, fileType, fileCount(t, 128))
	td, tds := genFile(t, fileType, fileCount(t, 128))
	tail := func(b []byte, n int) []byte {
		if t.R.IntN(2) == 0 {
			return append(append([]byte{}, b...), randBytes(t.R, 1+t.R.IntN(n-1))...)
		}
		return b
	}
	b := genBoard(t.R)
	tre := []string{"D" + pick(t.R, alnum, 4), "E1"}[:t.R.IntN(3)]
	writeFile(t, h.brd(), tail(bd, 256))
	writeFile(t, h.passwds(), tail(ud, 512))
	writeFile(t, h.index(b), tail(fd, 128))
	writeFile(t, filepath.Join(append(append([]string{h.manDir(b)}, tre...), ".DIR")...), tail(td, 128))
	for round := 0; round < 2; round++ {
		l1, err := toList(h.db.ReadBoardRecords())
		t.Check(err == nil, "ReadBoardRecords: %v", err)
		checkList(t, boardType, bd, bds, l1, "ReadBoardRecords")
		l2, err := toList(h.db.ReadUserRecords())
		t.Check(err == nil, "ReadUserRecords: %v", err)
		checkList(t, userType, ud, uds, l2, "ReadUserRecords")
		l3, err := toList(h.db.ReadBoardArticleRecordsFile(b))
		t.Check(err == nil, "ReadBoardArticleRecordsFile: %v", err)
		checkList(t, fileType, fd, fds, l3, "ReadBoardArticleRecordsFile")
		l4, err := toList(h.db.ReadBoardTreasureRecordsFile(b, tre))
		t.Check(err == nil, "ReadBoardTreasureRecordsFile: %v", err)
		checkList(t, fileType, td, tds, l4, "ReadBoardTreasureRecordsFile")
	}
	// missing files
	miss := newHome(t, "none")
	_, err := miss.db.ReadBoardRecords()
	t.Check(err != nil, "ReadBoardRecords of a home without a board list gives no error")
	_, err = miss.db.ReadUserRecords()
	t.Check(err != nil, "ReadUserRecords of a home without accounts gives no error")
	t.Nontrivial(sha(bd), sha(ud), sha(fd), sha(td))
	t.Count("records", len(bds)+len(uds)+len(fds)+len(tds))
}

// c07special reads what can be opened but not read.
func c07special(t *T) {
	rf := recFiles[t.Idx%len(recFiles)]
	switch k := t.Idx / len(recFiles); k {
	case 0: // a directory
		_, err := rf.open(t.Dir())
		t.Check(err != nil, "%s: reading a directory gives a list and no error", rf.name)
	case 1: // every read is an error
		_, err := rf.open("/proc/self/mem")
		t.Check(err != nil, "%s: a file whose reads fail gives a list and no error", rf.name)
	case 2:
		_, err := rf.open(filepath.Join(t.Dir(), "missing"))
		t.Check(err != nil && os.IsNotExist(err) || errors.Is(err, os.ErrNotExist), "%s: a missing file gives %v", rf.name, err)
	case 3:
		l, err := rf.open("/dev/null")
		t.Check(err == nil && len(l) == 0, "%s: an empty file gives %d records, %v", rf.name, len(l), err)
	case 4: // the same file twice
		p := filepath.Join(t.Dir(), "f")
		data, recs := genFile(t, rf.rt, 20)
		writeFile(t, p, data)
		for i := 0; i < 3; i++ {
			l, err := rf.open(p)
			t.Check(err == nil, "%s: %v", rf.name, err)
			checkList(t, rf.rt, data, recs, l, rf.name)
		}
		// and after it has grown
		more, recs2 := genFile(t, rf.rt, 7)
		f, err := os.OpenFile(p, os.O_APPEND|os.O_WRONLY, 0)
		t.Harness(err)
		f.Write(more)
		f.Close()
		l, err := rf.open(p)
		t.Check(err == nil, "%s: %v", rf.name, err)
		checkList(t, rf.rt, append(data, more...), append(recs, recs2...), l, rf.name)
	}
	t.Nontrivial(t.Idx)
}

// c07fault reads a file in a process of its own in which one read fails.
func c07fault(t *T) {
	kind := t.Idx % len(recFiles)
	rf := recFiles[kind]
	n := 1 + t.R.IntN(12)
	if t.R.IntN(4) == 0 {
		n = 40
	}
	data, _ := genFile(t, rf.rt, n)
	if t.R.IntN(3) == 0 {
		data = append(data, randBytes(t.R, 1+t.R.IntN(rf.rt.size-1))...)
	}
	p := filepath.Join(t.Dir(), "f")
	writeFile(t, p, data)
	e := []string{"EIO", "EIO", "ENOMEM", "EACCES", "ESTALE"}[t.R.IntN(5)]
	when := 1 + t.R.IntN(n+2)
	if t.R.IntN(3) == 0 {
		when = 1 + t.R.IntN(2)
	}
	spec := fmt.Sprintf("inject=read,pread64:error=%s:when=%d", e, when)
	if t.R.IntN(3) == 0 {
		spec += "+"
	}
	res := runWorker(t, workerOpt{strace: []string{"-P", p, "-e", "trace=read,pread64", "-e", spec}}, "readfile", fmt.Sprint(kind), p)
	t.Count("reads_with_a_fault", res.Injected)
	t.Note("%s of %d records, %s", rf.name, n, spec)
	if res.Exit != 0 {
		t.Fatalf("reading a file with a failing read ended the process: %s", res.Err)
	}
	var out struct {
		Err  string
		N    int
		Hash string
	}
	t.Harness(json.Unmarshal(res.Out, &out))
	if out.Err == "" {
		t.Check(out.N == n, "a read failed and no error is reported: %d of %d records were returned", out.N, n)
		t.Count("reads_complete", 1)
		if res.Injected > 0 && e != "EINTR" {
			l, err := rf.open(p)
			t.Check(err == nil && hashList(l) == out.Hash, "the list read despite a failing read differs from the file")
		}
	} else {
		t.Count("reads_reported", 1)
	}
	if res.Injected > 0 {
		t.Nontrivial(rf.name, n, when, e)
	}
	t.Sample("%s of %d records, %s: error %q, %d records", rf.name, n, spec, out.Err, out.N)
}

func hashList(l []interface{}) string {
	var sb strings.Builder
	for _, x := range l {
		fmt.Fprintf(&sb, "%+v\n", x)
	}
	return sha([]byte(sb.String()))
}

func workerReadFile(args []string) {
	var kind int
	fmt.Sscan(args[0], &kind)
	l, err := recFiles[kind].open(args[1])
	out := struct {
		Err  string
		N    int
		Hash string
	}{N: len(l), Hash: hashList(l)}
	if err != nil {
		out.Err = err.Error()
	}
	json.NewEncoder(os.Stdout).Encode(out)
}

// ---- C10

type textField struct {
	rt *rtype
	f  *rfield
}

func textFields() (ret []textField) {
	for _, rt := range []*rtype{boardType, fileType, userType, infoType, formosaType} {
		for i := range rt.fields {
			if k := rt.fields[i].kind; k == kBig5 || k == kASCII {
				ret = append(ret, textField{rt, &rt.fields[i]})
			}
		}
	}
	return
}

var allTextFields = textFields()

// c10field: a field with every text length and hostile bytes after its end.
func c10field(t *T) {
	r := t.R
	tf := allTextFields[t.Idx%len(allTextFields)]
	rt, f := tf.rt, tf.f
	rec := rt.genRec(t, r)
	off, n := loadLayout(t).of(t, rt.cname+"."+f.name)
	ln := r.IntN(n + 1)
	if r.IntN(3) == 0 {
		ln = []int{0, 1, n - 1, n}[r.IntN(4)]
	}
	var text []byte
	var want string
	for len(text) < ln {
		if f.kind == kBig5 && len(text)+2 <= ln && r.IntN(2) == 0 {
			k := bigTok(r)
			text, want = append(text, k.b...), want+k.s
			continue
		}
		c := byte(0x21 + r.IntN(0x5e))
		text, want = append(text, c), want+string(rune(c))
	}
	field := rec.raw[off : off+n]
	old := append([]byte{}, field...)
	// what comes after the end of the text
	tail := make([]byte, n)
	style := r.IntN(5)
	for i := range tail {
		switch style {
		case 0:
			tail[i] = byte(r.IntN(256))
		case 1:
			tail[i] = 'x'
		case 2:
			tail[i] = byte(0xa1 + r.IntN(0x5d))
		case 3:
			tail[i] = 0xff
		}
	}
	copy(field, tail)
	copy(field, text)
	if ln < n {
		field[ln] = 0
	}
	v, err := rt.decode(append([]byte{}, rec.raw...))
	t.Check(err == nil, "decode: %v", err)
	t.Note("%s.%s: text %q of %d bytes in a field of %d, then %x; before: %x", rt.cname, f.name, text, ln, n, tail[min(ln+1, n):], old)
	if x, ok := f.value(v); ok {
		s, _ := x.(string)
		t.Check(s == want, "field %s.%s is %q, its text is %q", rt.cname, f.name, s, want)
	}
	if rt.encode != nil {
		e, err := rt.encode(v)
		t.Check(err == nil, "encode: %v", err)
		w := make([]byte, n)
		copy(w, text)
		m := ln + 1
		if m > n {
			m = n
		}
		if f.max > 0 && m > f.max {
			m = f.max
		}
		t.Check(bytes.Equal(e[off:off+m], w[:m]), "field %s.%s is written back as %x, its text is %x", rt.cname, f.name, e[off:off+m], w[:m])
	}
	t.Nontrivial(rt.cname, f.name, text, style)
	t.Count("fields", 1)
	if ln < n && style != 4 {
		t.Count("fields_with_garbage_after_the_text", 1)
	}
	if ln == n {
		t.Count("fields_without_NUL", 1)
	}
	t.Sample("%s.%s: %q then garbage", rt.cname, f.name, text)
}

// c10cstr: the conversion functions themselves.
func c10cstr(t *T) {
	b := randBytes(t.R, t.R.IntN(40))
	if t.R.IntN(2) == 0 {
		for i := range b {
			if b[i] < 200 {
				b[i] = 'a' + b[i]%26
			}
		}
	}
	if len(b) > 0 && t.R.IntN(2) == 0 {
		b[t.R.IntN(len(b))] = 0
	}
	want := b
	if i := bytes.IndexByte(b, 0); i >= 0 {
		want = b[:i]
	}
	in := append([]byte{}, b...)
	t.Check(bytes.Equal(bbs.CstrToBytes(in), want), "CstrToBytes(%x) is %x", b, bbs.CstrToBytes(in))
	t.Check(bbs.CstrToString(in) == string(want), "CstrToString(%x) is %q", b, bbs.CstrToString(in))
	t.Check(bytes.Equal(in, b), "the conversion changed its argument")
	// a favorite folder's title
	title, s := genText(t.R, 49, false, false)
	item := append([]byte{2, 1, 7}, randBytes(t.R, 49)...)
	copy(item[3:], title)
	if len(title) < 49 {
		item[3+len(title)] = 0
	}
	data := append([]byte{0, 0, 0, 0, 0, 1}, item...)
	data = append(data, 0, 0, 0, 0)
	fav, err := pttbbs.UnmarshalFavFile(data)
	t.Check(err == nil && len(fav.Folder.FavItems) == 1, "favorites with one folder: %v", err)
	t.Check(fav.Folder.FavItems[0].Title() == s, "folder title is %q, stored is %q", fav.Folder.FavItems[0].Title(), s)
	t.Nontrivial(b, title)
}

func c06file(t *T) {
	rf := recFiles[4]
	n := fileCount(t, 248)
	if t.Idx%200 == 7 {
		n = 66000
	}
	data, recs := genFile(t, formosaType, n)
	extra := 0
	if t.R.IntN(3) == 0 {
		extra = 1 + t.R.IntN(247)
	}
	p := filepath.Join(t.Dir(), ".DIR")
	writeFile(t, p, append(append([]byte{}, data...), randBytes(t.R, extra)...))
	got, err := rf.open(p)
	t.Check(err == nil, "reading %d records and %d bytes: %v", n, extra, err)
	checkList(t, formosaType, data, recs, got, "index")
	// the fields, without any decoder of the code under test
	for i, x := range got {
		if recs[i] == nil {
			continue
		}
		h := x.(*formosabbs.FileHeader)
		b := recs[i].raw
		l := loadLayout(t)
		str := func(f string) string {
			o, n := l.of(t, "formosa_t."+f)
			s := b[o : o+n]
			if k := bytes.IndexByte(s, 0); k >= 0 {
				s = s[:k]
			}
			return string(s)
		}
		po, _ := l.of(t, "formosa_t.postno")
		mo, _ := l.of(t, "formosa_t.mtime")
		t.Check(h.Filename == str("filename"), "record %d: file name is %q", i, h.Filename)
		t.Check(h.Owner == str("owner"), "record %d: owner is %q", i, h.Owner)
		t.Check(h.Postno == int32(binary.LittleEndian.Uint32(b[po:])), "record %d: post number is %d", i, h.Postno)
		t.Check(uint32(h.Modified.Unix()) == binary.LittleEndian.Uint32(b[mo:]), "record %d: time is %v", i, h.Modified)
	}
	if n > 0 {
		t.Nontrivial(sha(data), extra)
	}
	t.Count("records", n)
	t.Sample("%d records and %d bytes", n, extra)
}

func init() {
	lay := "the C structures in harness/c/layout.c are those of pttbbs and FormosaBBS on x86-64"
	register(&Prop{ID: "C06", Rule: "a case is a FormosaBBS index record or file with random fields, text of all lengths, garbage in padding and an incomplete record; distinct files are counted",
		Assume: []string{lay}, Groups: []Group{
			{Name: "records", Quick: 100000, Thorough: 2000000, Fn: formosaType.roundTrip},
			{Name: "files", Quick: 800, Thorough: 40000, Fn: c06file},
			{Name: "walk", Quick: 248 * 8, Thorough: 248 * 400, Fn: walkByte(formosaType)},
		}})
	register(&Prop{ID: "C07", Rule: "a case is a record file of one kind with a number of records and an incomplete record, or a file one of whose reads fails (error injected at the system call); distinct files and fault points are counted",
		Assume: []string{lay, "read faults are injected by strace at read and pread64"}, Groups: []Group{
			{Name: "content", Quick: 4800, Thorough: 120000, Fn: c07content},
			{Name: "large", Quick: 2 * len(recFiles), Thorough: 40 * len(recFiles), Par: 2, Fn: c07large},
			{Name: "database", Quick: 150, Thorough: 8000, Fn: c07db},
			{Name: "special", Quick: 5 * len(recFiles), Thorough: 5 * len(recFiles), Fn: c07special},
			{Name: "fault", Quick: 160, Thorough: 6000, Fn: c07fault},
		}})
	register(&Prop{ID: "C10", Rule: "a case is a text field of a record type with a text of some length, garbage after its NUL and in the neighbouring fields, decoded and written back; distinct (field, text, garbage style) are counted",
		Assume: []string{lay}, Groups: []Group{
			{Name: "fields", Quick: 300000, Thorough: 6000000, Fn: c10field},
			{Name: "cstr", Quick: 100000, Thorough: 2000000, Fn: c10cstr},
		}})
}
