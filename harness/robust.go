package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"strings"
	"unicode/utf8"

	bbs "github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/cache"
	"github.com/Ptt-official-app/go-bbs/crypt"
	formosabbs "github.com/Ptt-official-app/go-bbs/formosabbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
)

// mutate makes hostile bytes out of well formed ones.
func mutate(r *rand.Rand, b []byte) []byte {
	b = append([]byte{}, b...)
	for k := r.IntN(6); k >= 0; k-- {
		if len(b) == 0 {
			return randBytes(r, r.IntN(20))
		}
		i := r.IntN(len(b))
		switch r.IntN(10) {
		case 0:
			b[i] ^= 1 << r.IntN(8)
		case 1:
			b[i] = byte(r.IntN(256))
		case 2:
			b[i] = []byte{0, 0xff, 0x7f, 0x80, '\n', '\r', 0x1b, '[', ':', '/'}[r.IntN(10)]
		case 3:
			b = b[:i]
		case 4: // a run of one byte
			c := byte(r.IntN(256))
			for j := i; j < len(b) && j < i+16; j++ {
				b[j] = c
			}
		case 5: // duplicate a part
			j := i + r.IntN(len(b)-i)
			p := append([]byte{}, b[i:j]...)
			b = append(b[:j:j], append(p, b[j:]...)...)
		case 6: // remove a part
			j := i + r.IntN(min(len(b)-i, 8)+1)
			b = append(b[:i:i], b[j:]...)
		case 7: // insert
			p := randBytes(r, 1+r.IntN(8))
			b = append(b[:i:i], append(p, b[i:]...)...)
		case 8: // a large number
			n := 1 << r.IntN(3)
			for j := i; j < len(b) && j < i+n; j++ {
				b[j] = 0xff
			}
		case 9: // only random bytes
			if r.IntN(3) == 0 {
				return randBytes(r, r.IntN(len(b)*2+8))
			}
		}
	}
	return b
}

// fuzzTarget reads hostile bytes at one public entry point.
type fuzzTarget struct {
	name string
	seed func(t *T) []byte // something well formed
	run  func(t *T, b []byte)
}

func anyRec(rt *rtype) func(t *T) []byte {
	return func(t *T) []byte { return rt.genRec(t, t.R).raw }
}

func anyFile(rt *rtype) func(t *T) []byte {
	return func(t *T) []byte {
		var b []byte
		for i := t.R.IntN(4); i >= 0; i-- {
			b = append(b, rt.genRec(t, t.R).raw...)
		}
		return b
	}
}

// anyUse calls the methods of a decoded value.
func anyUse(x interface{}) {
	rv := reflect.ValueOf(x)
	if !rv.IsValid() || rv.Kind() == reflect.Ptr && rv.IsNil() {
		return
	}
	for i := 0; i < rv.NumMethod(); i++ {
		m := rv.Type().Method(i)
		if m.Type.NumIn() != 1 {
			continue
		}
		rv.Method(i).Call(nil)
	}
}

func runDecode(rt *rtype) func(t *T, b []byte) {
	return func(t *T, b []byte) {
		if rt == infoType && len(b) < rt.size {
			return // has no way to report an error
		}
		v, err := rt.decode(b)
		if len(b) < rt.size {
			t.Check(err != nil, "a %s record of %d bytes is accepted", rt.cname, len(b))
			return
		}
		t.Check(err == nil, "a %s record of %d bytes is refused: %v", rt.cname, len(b), err)
		anyUse(v)
		if rt.encode != nil {
			e, err := rt.encode(v)
			t.Check(err != nil || len(e) == rt.size, "an encoded %s has %d bytes", rt.cname, len(e))
		}
	}
}

func runFile(rf *recFile) func(t *T, b []byte) {
	return func(t *T, b []byte) {
		p := filepath.Join(t.Dir(), "f")
		writeFile(t, p, b)
		l, err := rf.open(p)
		t.Check(err != nil || len(l) == len(b)/rf.rt.size, "%s: %d records out of %d bytes", rf.name, len(l), len(b))
		for _, x := range l {
			anyUse(x)
		}
	}
}

func walkFav(t *T, recs []bbs.FavoriteRecord, depth int) int {
	n := 0
	for _, x := range recs {
		n++
		x.Title()
		x.BoardID()
		x.Type()
		if depth < 50 {
			n += walkFav(t, x.Records(), depth+1)
		}
	}
	return n
}

var fuzzTargets []*fuzzTarget

func init() {
	add := func(name string, seed func(t *T) []byte, run func(t *T, b []byte)) {
		fuzzTargets = append(fuzzTargets, &fuzzTarget{name, seed, run})
	}
	for _, rt := range []*rtype{boardType, fileType, userType, infoType, formosaType} {
		add("decode "+rt.cname, anyRec(rt), runDecode(rt))
	}
	for _, rf := range recFiles[:5] {
		add("file of "+rf.name, anyFile(rf.rt), runFile(rf))
	}
	add("favorites", func(t *T) []byte { return encFav(genFav(t.R, 4, 30)) }, func(t *T, b []byte) {
		in := append([]byte{}, b...)
		f, err := pttbbs.UnmarshalFavFile(in)
		t.Check(bytes.Equal(in, b), "reading favorites changed the buffer")
		if err == nil {
			for _, x := range f.Folder.FavItems {
				anyUse(x)
			}
			f.MarshalBinary()
		}
		for k := 0; k < 4; k++ {
			i := t.R.IntN(len(b) + 3)
			pttbbs.UnmarshalFavFolder(b, i)
			pttbbs.UnmarshalFavItem(b, i)
			pttbbs.UnmarshalFavBoardItem(b, i)
			pttbbs.UnmarshalFavFolderItem(b, i)
			pttbbs.UnmarshalFavLineItem(b, i)
		}
	})
	add("favorites file", func(t *T) []byte { return encFav(genFav(t.R, 4, 30)) }, func(t *T, b []byte) {
		h := newHome(t, "h")
		writeFile(t, h.brd(), mutate(t.R, anyFile(boardType)(t)))
		writeFile(t, filepath.Join(h.userDir("userA"), ".fav"), b)
		l, err := h.db.ReadUserFavoriteRecords("userA")
		if err == nil {
			walkFav(t, l, 0)
		}
	})
	add("login attempts", func(t *T) []byte {
		s := ""
		for i := t.R.IntN(5); i >= 0; i-- {
			l, _ := genAttempt(t.R)
			s += l + "\n"
		}
		return []byte(s)
	}, func(t *T, b []byte) {
		var a pttbbs.LoginAttempt
		first := b
		if i := bytes.IndexByte(b, '\n'); i >= 0 {
			first = b[:i]
		}
		if a.UnmarshalText(first) == nil {
			a.MarshalText()
			a.IsUnderBbsHome()
		}
		p := filepath.Join(t.Dir(), "logins.bad")
		writeFile(t, p, b)
		l, err := pttbbs.OpenBadLoginFile(p)
		for _, x := range l {
			anyUse(x)
		}
		t.Check(err != nil || len(l) == lineCount(b), "%d entries from %d lines", len(l), lineCount(b))
	})
	add("recent logins", func(t *T) []byte {
		s := ""
		for i := t.R.IntN(5); i >= 0; i-- {
			s += fmt.Sprintf("%02d/%02d/20%02d %02d:%02d:%02d %s\n", 1+t.R.IntN(12), 1+t.R.IntN(28), t.R.IntN(40), t.R.IntN(24), t.R.IntN(60), t.R.IntN(60), genHost(t.R))
		}
		return []byte(s)
	}, func(t *T, b []byte) {
		pttbbs.NewLoginRecentRecord(string(b))
		p := filepath.Join(t.Dir(), "logins.recent")
		writeFile(t, p, b)
		l, err := pttbbs.OpenLoginRecentFile(p)
		t.Check(err != nil || len(l) == lineCount(b), "%d entries from %d lines", len(l), lineCount(b))
	})
	add("text", func(t *T) []byte { b, _ := genText(t.R, 200, false, true); return b }, func(t *T, b []byte) {
		in := append([]byte{}, b...)
		s := bbs.Big5ToUtf8(in)
		t.Check(utf8.ValidString(s), "Big5ToUtf8(%x) is not valid UTF-8: %q", b, s)
		bbs.Utf8ToBig5(string(in))
		bbs.FilterStringANSI(string(in))
		bbs.CstrToBytes(in)
		bbs.CstrToString(in)
		t.Check(bytes.Equal(in, b), "a conversion changed its argument")
	})
	add("comment line", func(t *T) []byte { c, _ := genCommentLine(t.R); return []byte(c) }, func(t *T, b []byte) {
		c, err := bbs.NewUserCommentRecord(1, string(b), "board", pttbbs.NewFileHeader())
		t.Check((err == nil) == (c != nil), "comment %v with error %v", c, err)
		if err == nil {
			anyUse(c)
			_ = c.String()
		}
	})
	add("password hash", func(t *T) []byte { return []byte(refCrypt([]byte(pick(t.R, alnum, 8)), pick(t.R, saltChars, 2))) }, func(t *T, b []byte) {
		rec := userType.genRec(t, t.R).raw
		off, n := loadLayout(t).of(t, "userec_t.passwd")
		f := rec[off : off+n]
		for i := range f {
			f[i] = 0
		}
		copy(f, b)
		u, err := pttbbs.UnmarshalUserec(rec)
		t.Check(err == nil, "%v", err)
		u.VerifyPassword(string(mutate(t.R, []byte("password"))))
		u.VerifyPassword("")
		crypt.Fcrypt(mutate(t.R, []byte("password")), b)
		crypt.Fcrypt(nil, b)
		crypt.Fcrypt(b, nil)
	})
	add("articles", func(t *T) []byte {
		s := ""
		for i := t.R.IntN(8); i >= 0; i-- {
			c, _ := genCommentLine(t.R)
			s += c + "\n"
		}
		return []byte(s)
	}, func(t *T, b []byte) {
		h := newHome(t, "h")
		writeFile(t, h.brd(), mutate(t.R, nameRecord(t, boardType, "brdname", "boardA")))
		writeFile(t, h.index("boardA"), mutate(t.R, nameRecord(t, fileType, "filename", "M.1.A.000")))
		writeFile(t, filepath.Join(h.boardDir("boardA"), "M.1.A.000"), b)
		h.db.ReadBoardArticleFile("boardA", "M.1.A.000")
		h.db.GetUserArticleRecordFile("userA")
		h.db.GetUserCommentRecordFile("userA")
		h.db.GetBoardUserCommentRecord("boardA", "userA")
		l, err := h.db.ReadBoardArticleRecordsFile("boardA")
		if err == nil {
			for _, a := range l {
				h.db.GetBoardArticleCommentRecords("boardA", a)
			}
		}
	})
	add("names", func(t *T) []byte { return []byte(genBoard(t.R)) }, func(t *T, b []byte) {
		h := newHome(t, "h")
		n := string(b)
		if strings.Contains(n, "..") {
			return
		}
		h.db.ReadUserFavoriteRecords(n)
		h.db.ReadBoardArticleRecordsFile(n)
		h.db.ReadBoardTreasureRecordsFile(n, []string{n, n})
		h.db.ReadBoardTreasureRecordsFile("board", []string{n})
		h.db.ReadBoardArticleFile(n, n)
		h.db.ReadBoardTreasureFile(n, []string{n}, n)
		h.db.GetUserArticleRecordFile(n)
		h.db.GetUserCommentRecordFile(n)
		h.db.GetBoardUserCommentRecord(n, n)
		h.db.GetUserDrafts(n, n)
	})
	add("shared memory", func(t *T) []byte { return nil }, func(t *T, b []byte) {
		set := &pttbbs.MemoryMappingSetting{AlignmentBytes: []int{0, 1, 2, 4, 8}[t.R.IntN(5)], MaxUsers: t.R.IntN(60), IDLen: 1 + t.R.IntN(20), UseCoolDown: t.R.IntN(2) == 0, HashBits: t.R.IntN(10)}
		size := t.R.IntN(40000)
		if t.R.IntN(2) == 0 {
			size = 4096 * t.R.IntN(10)
		}
		p := filepath.Join(t.Dir(), "shm")
		writeFile(t, p, randBytes(t.R, size))
		c, err := pttbbs.NewCache("file:"+p, set)
		t.Check((err == nil) == (c != nil), "NewCache gives %v and error %v", c, err)
		if err != nil {
			t.Count("segments_refused", 1)
			return
		}
		t.Count("segments_read", 1)
		c.Version()
		for _, u := range []int{0, 1, -1, set.MaxUsers - 1, set.MaxUsers, set.MaxUsers + 1, 1 << 31, 1 << 62, -1 << 63, 1<<63 - 1, t.R.IntN(1000), int(t.R.Uint64())} {
			c.UserID(u)
			c.Money(u)
			if x := c.UserInfo(u); x != nil {
				anyUse(x)
			}
		}
		t.Check(c.Close() == nil, "closing the segment")
	})
	add("mapped file", func(t *T) []byte { return randBytes(t.R, 10) }, func(t *T, b []byte) {
		p := filepath.Join(t.Dir(), "map")
		writeFile(t, p, b)
		m, err := cache.OpenMmap(p)
		if err == nil {
			t.Check(bytes.Equal(m.Bytes(), b), "the mapping differs from the file")
			m.Close()
		}
		c, err := cache.NewCache(string(mutate(t.R, []byte("file:nothing"))))
		if err == nil {
			c.Close()
		}
	})

	var groups []Group
	for i := range fuzzTargets {
		ft := fuzzTargets[i]
		q := 4000
		switch {
		case strings.HasPrefix(ft.name, "file of"), ft.name == "login attempts", ft.name == "recent logins", ft.name == "mapped file":
			q = 1500
		case ft.name == "articles", ft.name == "favorites file", ft.name == "names", ft.name == "shared memory":
			q = 600
		}
		groups = append(groups, Group{Name: ft.name, Quick: q, Thorough: q * 80, Fn: func(t *T) {
			s := ft.seed(t)
			b := s
			if t.R.IntN(12) > 0 {
				b = mutate(t.R, s)
			}
			if ft.name != "shared memory" {
				t.Note("input %s", hexdump(b))
			}
			ft.run(t, b)
			t.Nontrivial(ft.name, b, t.Idx*b2i(s == nil))
			t.Count("hostile_inputs", 1)
			t.Sample("%s: %s", ft.name, clip(hexdump(b), 120))
		}})
	}
	groups = append(groups,
		Group{Name: "memory", Quick: len(memCases) * 6, Thorough: len(memCases) * 60, Par: 1, Fn: c08memory},
		Group{Name: "truncated", Quick: 300, Thorough: 300, Fn: c08truncated})
	register(&Prop{ID: "C08", Rule: "a case is one hostile input (a mutated well formed one or random bytes) given to one public entry point, whose panic, exit, hang or memory use is watched from outside; distinct inputs are counted",
		Assume: []string{"memory is out of proportion when reading n bytes allocates more than 1 MiB + 6000 n in total, or keeps more than 6 GB resident", "a reader hangs when it makes no progress for 150 s"}, Groups: groups})
}

func lineCount(b []byte) int {
	if len(b) == 0 {
		return 0
	}
	n := bytes.Count(b, []byte("\n"))
	if b[len(b)-1] != '\n' {
		n++
	}
	return n
}

// nameRecord is a record with one field set to a text.
func nameRecord(t *T, rt *rtype, field, text string) []byte {
	raw := rt.genRec(t, t.R).raw
	putText(t, rt, raw, field, []byte(text))
	return raw
}

func putText(t *T, rt *rtype, raw []byte, field string, text []byte) {
	off, n := loadLayout(t).of(t, rt.cname+"."+field)
	for i := 0; i < n; i++ {
		raw[off+i] = 0
	}
	copy(raw[off:off+n], text)
}

func putU32(t *T, rt *rtype, raw []byte, field string, x uint32) {
	off, n := loadLayout(t).of(t, rt.cname+"."+field)
	switch n {
	case 1:
		raw[off] = byte(x)
	case 2:
		binary.LittleEndian.PutUint16(raw[off:], uint16(x))
	default:
		binary.LittleEndian.PutUint32(raw[off:], x)
	}
}

// memCases are inputs which claim to be much larger than they are.
var memCases = []struct {
	name string
	mk   func(t *T) []byte
	run  func(t *T, p string, b []byte)
}{
	{"favorites with large counts", func(t *T) []byte {
		b := []byte{0xe2, 0x0e, 0xff, 0x7f, 0xff, 0xff}
		for i := t.R.IntN(2000); i > 0; i-- {
			b = append(b, 3, 1, byte(i))
		}
		return b
	}, memFav},
	{"favorites with a negative count", func(t *T) []byte {
		return append([]byte{0, 0, byte(t.R.IntN(256)), 0xff, byte(t.R.IntN(256)), byte(t.R.IntN(256))}, randBytes(t.R, t.R.IntN(3000))...)
	}, memFav},
	{"favorites nested deeply", func(t *T) []byte {
		return deepFav(200 + t.R.IntN(20000))
	}, memFav},
	{"favorites with many folders", func(t *T) []byte {
		n := 255
		b := []byte{0, 0, 0, 0, 0, byte(n)}
		for i := 0; i < n; i++ {
			b = append(append(b, 2, 1, byte(i)), make([]byte, 49)...)
		}
		for i := 0; i < n; i++ {
			b = append(b, 0xff, 0x7f, 0xff, 0xff)
		}
		return b
	}, memFav},
	{"a long line in an article", func(t *T) []byte {
		return bytes.Repeat([]byte("pichu: "), 1+t.R.IntN(400000))
	}, func(t *T, p string, b []byte) {
		c, err := bbs.NewUserCommentRecord(1, string(b), "b", pttbbs.NewFileHeader())
		t.Check(err != nil, "%v is a comment", c)
		bbs.FilterStringANSI(string(b))
		bbs.Big5ToUtf8(b)
		bbs.Utf8ToBig5(string(b))
	}},
	{"many escapes", func(t *T) []byte {
		return bytes.Repeat([]byte("\x1b["), 1+t.R.IntN(400000))
	}, func(t *T, p string, b []byte) {
		bbs.FilterStringANSI(string(b))
		bbs.NewUserCommentRecord(1, string(b), "b", pttbbs.NewFileHeader())
	}},
	{"a long line in a log", func(t *T) []byte {
		return append([]byte(" user"), bytes.Repeat([]byte("["), 1+t.R.IntN(3000000))...)
	}, func(t *T, p string, b []byte) {
		pttbbs.OpenBadLoginFile(p)
		pttbbs.OpenLoginRecentFile(p)
	}},
	{"records", func(t *T) []byte { return randBytes(t.R, 1+t.R.IntN(3000000)) }, func(t *T, p string, b []byte) {
		pttbbs.OpenBoardHeaderFile(p)
		pttbbs.OpenUserecFile(p)
		pttbbs.OpenFileHeaderFile(p)
		formosabbs.OpenFormosaBBSFileHeaderFile(p)
		pttbbs.OpenUserInfoCache(p)
	}},
	{"text", func(t *T) []byte { return randBytes(t.R, 1+t.R.IntN(1000000)) }, func(t *T, p string, b []byte) {
		bbs.Big5ToUtf8(b)
		bbs.Utf8ToBig5(string(b))
	}},
}

func memFav(t *T, p string, b []byte) {
	f, err := pttbbs.OpenFavFile(p)
	if err == nil {
		t.Check(len(f.Folder.FavItems) <= len(b), "%d items in %d bytes", len(f.Folder.FavItems), len(b))
	}
	(&pttbbs.Connector{}).ReadUserFavoriteRecordsFile(p)
}

func deepFav(depth int) []byte {
	b := []byte{0, 0}
	for i := 0; i < depth; i++ {
		b = append(b, 0, 0, 0, 1, 2, 1, 1)
		b = append(b, bytes.Repeat([]byte{'x'}, 49)...)
	}
	return append(b, 0, 0, 0, 0)
}

func c08memory(t *T) {
	mc := memCases[t.Idx%len(memCases)]
	b := mc.mk(t)
	p := filepath.Join(t.Dir(), "f")
	writeFile(t, p, b)
	t.Note("%s: %d bytes", mc.name, len(b))
	runtime.GC()
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	mc.run(t, p, b)
	runtime.ReadMemStats(&m1)
	used := int64(m1.TotalAlloc - m0.TotalAlloc)
	limit := int64(1<<20) + 6000*int64(len(b))
	t.Check(used <= limit, "%s: reading %d bytes allocated %d bytes", mc.name, len(b), used)
	t.Max("allocated_per_input_byte", int(used/int64(len(b)+1)))
	t.Nontrivial(mc.name, len(b))
	t.Sample("%s: %d bytes allocated for %d", mc.name, used, len(b))
}

// c08truncated: every length of a buffer for every decoder.
func c08truncated(t *T) {
	for _, rt := range []*rtype{boardType, fileType, userType, infoType, formosaType} {
		raw := rt.genRec(t, t.R).raw
		for n := t.Idx; n < len(raw)+20; n += 300 {
			b := append([]byte{}, raw...)
			b = append(b, make([]byte, 20)...)[:n]
			runDecode(rt)(t, b[:n:n])
			t.Count("lengths", 1)
		}
	}
	f := encFav(genFav(t.R, 3, 20))
	for n := 0; n <= len(f); n++ {
		pttbbs.UnmarshalFavFile(f[:n:n])
	}
	t.Nontrivial(t.Idx)
	_ = os.Stdout
}
