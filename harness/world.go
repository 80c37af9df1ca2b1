package main

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/cache"
	"github.com/Ptt-official-app/go-bbs/crypt"
	formosabbs "github.com/Ptt-official-app/go-bbs/formosabbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
)

// ---- what a value looks like to its user

// render shows a value with everything in it and everything its methods return.
func render(x interface{}) string {
	var sb strings.Builder
	renderTo(&sb, reflect.ValueOf(x), 0, true)
	return sb.String()
}

var timeType = reflect.TypeOf(time.Time{})

func renderTo(sb *strings.Builder, v reflect.Value, depth int, methods bool) {
	if !v.IsValid() {
		sb.WriteString("nil")
		return
	}
	if depth > 700 {
		sb.WriteString("...")
		return
	}
	if e, ok := asError(v); ok {
		fmt.Fprintf(sb, "error %q", e)
		return
	}
	if v.Type() == timeType {
		if v.CanInterface() {
			sb.WriteString(v.Interface().(time.Time).UTC().Format(time.RFC3339Nano))
		} else {
			fmt.Fprintf(sb, "time %d %d", v.Field(0).Uint(), v.Field(1).Int())
		}
		return
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		if v.Kind() == reflect.Ptr {
			sb.WriteString("*")
			if methods && v.CanInterface() {
				renderMethods(sb, v, depth)
			}
		}
		renderTo(sb, v.Elem(), depth+1, methods && v.Kind() == reflect.Interface)
	case reflect.Struct:
		if methods && v.CanInterface() {
			renderMethods(sb, v, depth)
		}
		sb.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			sb.WriteString(v.Type().Field(i).Name + ":")
			renderTo(sb, v.Field(i), depth+1, true)
			sb.WriteString(" ")
		}
		sb.WriteString("}")
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			fmt.Fprintf(sb, "%d:", v.Len())
			for i := 0; i < v.Len(); i++ {
				sb.WriteByte(byte(v.Index(i).Uint()))
			}
			return
		}
		fmt.Fprintf(sb, "[%d:", v.Len())
		for i := 0; i < v.Len(); i++ {
			renderTo(sb, v.Index(i), depth+1, true)
			sb.WriteString(",")
		}
		sb.WriteString("]")
	case reflect.Map:
		if methods && v.CanInterface() {
			renderMethods(sb, v, depth)
		}
		var l []string
		for _, k := range v.MapKeys() {
			var e strings.Builder
			renderTo(&e, k, depth+1, true)
			e.WriteString("=")
			renderTo(&e, v.MapIndex(k), depth+1, true)
			l = append(l, e.String())
		}
		sort.Strings(l)
		fmt.Fprintf(sb, "map%q", l)
	case reflect.String:
		fmt.Fprintf(sb, "%q", v.String())
	case reflect.Bool:
		fmt.Fprint(sb, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(sb, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(sb, v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprint(sb, v.Float())
	default:
		fmt.Fprint(sb, v.Kind())
	}
}

var errorType = reflect.TypeOf((*error)(nil)).Elem()

func asError(v reflect.Value) (error, bool) {
	if v.Kind() == reflect.Interface && v.Type() != errorType || !v.CanInterface() || !v.Type().Implements(errorType) {
		return nil, false
	}
	if v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
		if v.IsNil() {
			return nil, false
		}
	}
	return v.Interface().(error), true
}

// getters are the methods without arguments which only tell something.
func getters(t reflect.Type) (ret []int) {
	for i := 0; i < t.NumMethod(); i++ {
		m := t.Method(i)
		if m.Type.NumIn() != 1 || m.Type.NumOut() == 0 || m.Name == "Close" || m.Name == "NewConnector" {
			continue
		}
		ret = append(ret, i)
	}
	return ret
}

func renderMethods(sb *strings.Builder, v reflect.Value, depth int) {
	if !strings.Contains(v.Type().String(), "bbs") {
		return
	}
	for _, i := range getters(v.Type()) {
		name := v.Type().Method(i).Name
		if name == "Records" || name == "GetFolder" || name == "GetBoard" || name == "GetLine" || name == "MarshalBinary" && depth > 3 {
			continue // seen by the fields already
		}
		func() {
			defer func() {
				if e := recover(); e != nil {
					fmt.Fprintf(sb, "panic %v", e)
				}
			}()
			fmt.Fprintf(sb, "%s=", name)
			for _, o := range v.Method(i).Call(nil) {
				renderTo(sb, o, depth+1, false)
				sb.WriteString(" ")
			}
		}()
	}
}

// scribble overwrites whatever of a returned value its user can overwrite.
func scribble(x interface{}) int {
	n := 0
	scribbleValue(reflect.ValueOf(x), 0, &n, map[uintptr]bool{})
	return n
}

func scribbleValue(v reflect.Value, depth int, n *int, seen map[uintptr]bool) {
	if !v.IsValid() || depth > 700 {
		return
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if v.IsNil() {
			return
		}
		if v.Kind() == reflect.Ptr {
			if seen[v.Pointer()] {
				return
			}
			seen[v.Pointer()] = true
			scribbleMethods(v, depth, n, seen)
		}
		scribbleValue(v.Elem(), depth+1, n, seen)
	case reflect.Struct:
		if v.Type() == timeType {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				scribbleValue(v.Field(i), depth+1, n, seen)
			}
		}
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.Type().Elem().Kind() == reflect.Uint8 {
			b := v.Bytes()
			for i := range b {
				b[i] ^= 0xA5
			}
			*n += len(b)
			return
		}
		for i := 0; i < v.Len(); i++ {
			scribbleValue(v.Index(i), depth+1, n, seen)
		}
		for i := 0; i < v.Len(); i++ {
			e := v.Index(i)
			if e.CanSet() && (e.Kind() == reflect.Ptr || e.Kind() == reflect.Interface) && i%3 == 0 {
				e.Set(reflect.Zero(e.Type()))
				*n++
			}
		}
	case reflect.Map:
		if v.CanInterface() && v.Type().Key().Kind() == reflect.String {
			for _, k := range v.MapKeys() {
				v.SetMapIndex(k, reflect.Value{})
				*n++
			}
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("#" + v.String())
			*n++
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
			*n++
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.CanSet() {
			v.SetInt(v.Int() ^ 0x55)
			*n++
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.CanSet() {
			v.SetUint(v.Uint() ^ 0x55)
			*n++
		}
	}
}

// scribbleMethods calls the setters, and overwrites what the getters return.
func scribbleMethods(v reflect.Value, depth int, n *int, seen map[uintptr]bool) {
	if !v.CanInterface() {
		return
	}
	for _, i := range getters(v.Type()) {
		if name := v.Type().Method(i).Name; name == "Records" || name == "GetFolder" || name == "GetBoard" || name == "GetLine" {
			continue
		}
		func() {
			defer func() { _ = recover() }()
			for _, o := range v.Method(i).Call(nil) {
				if o.Kind() == reflect.Slice || o.Kind() == reflect.Map {
					scribbleValue(o, depth+1, n, seen)
				}
			}
		}()
	}
	switch r := v.Interface().(type) {
	case *pttbbs.FileHeader:
		r.SetTitle("scribbled")
		r.SetOwner("scribbler")
		r.SetDate("9/99")
		r.SetFilename("scribble")
		r.SetModified(time.Unix(1, 0))
		r.AddRecommend(3)
		*n += 6
	case *pttbbs.BoardHeader:
		r.SetTitle("scribbled")
		r.SetBoardID("scribbled")
		*n += 2
	}
}

// ---- a whole home

type world struct {
	*mHome
	t         *T
	recs      []*rrec
	ids       []string
	passwords []string
	hashes    []string
	drafts    [][2]string
	favUsers  []string
	men       [][]string
	manFiles  map[string][]string
	logUsers  []string
	im        *shmImage
	shm       string
	odd       bool
}

// genWorld writes a home with every kind of file. odd: also with broken ones.
func genWorld(t *T, sub string, odd bool) *world {
	r := t.R
	var ids []string
	for _, u := range similarUsers(r) {
		if u != "" && len(u) <= 12 {
			ids = append(ids, u)
		}
	}
	w := &world{t: t, ids: ids, odd: odd, manFiles: map[string][]string{}}
	w.mHome = genHome(t, sub, homeOpt{boards: 4, arts: 5, noOdd: !odd, content: func(m *mHome, b *mBoard, a *mArt) []byte {
		return genContent(t, r, m.users, a, 30)
	}})
	var pw []byte
	for _, id := range ids {
		pass := pick(r, alnum, 8)
		hash := refCrypt([]byte(pass), pick(r, alnum, 2))
		w.passwords = append(w.passwords, pass)
		w.hashes = append(w.hashes, hash)
		pw = append(pw, userWith(t, id, []byte(hash))...)
		mkdirs(t, w.userDir(id))
		if r.IntN(2) == 0 {
			f := genFav(r, 3, 8)
			var some func(l []*favNode)
			some = func(l []*favNode) { // boards which there are
				for _, x := range l {
					if x.typ == 1 && r.IntN(4) > 0 {
						x.bid = uint32(r.IntN(6))
					}
					some(x.kids)
				}
			}
			some(f.root)
			b := encFav(f)
			if odd && r.IntN(4) == 0 {
				b = mutate(r, b)
			}
			writeFile(t, filepath.Join(w.userDir(id), ".fav"), b)
			w.favUsers = append(w.favUsers, id)
		}
		for _, d := range []string{"0", "1", "9", ""} {
			if r.IntN(2) == 0 {
				writeFile(t, filepath.Join(w.userDir(id), "buf."+d), randBytes(r, r.IntN(300)))
				w.drafts = append(w.drafts, [2]string{id, d})
			}
		}
		if r.IntN(2) == 0 {
			var sb strings.Builder
			for i := r.IntN(6); i >= 0; i-- {
				sb.WriteString(genDate(r).Format("01/02/2006 15:04:05") + " " + genHost(r) + "\n")
			}
			if odd && r.IntN(4) == 0 {
				sb.WriteString("broken\n")
			}
			writeFile(t, filepath.Join(w.userDir(id), "logins.recent"), []byte(sb.String()))
			w.logUsers = append(w.logUsers, id)
		}
	}
	if odd && r.IntN(3) == 0 {
		pw = append(pw, randBytes(r, 1+r.IntN(500))...)
	}
	writeFile(t, w.passwds(), pw)
	var sb strings.Builder
	for i := r.IntN(10); i > 0; i-- {
		l, _ := genAttempt(r)
		sb.WriteString(l + "\n")
	}
	writeFile(t, filepath.Join(w.dir, "logins.bad"), []byte(sb.String()))
	for _, b := range w.boards {
		if b.id == "" || r.IntN(2) == 0 {
			continue
		}
		for _, path := range [][]string{nil, {"D123"}, {"D123", "DABC"}} {
			d := filepath.Join(append([]string{w.manDir(b.id)}, path...)...)
			mkdirs(t, d)
			data, _ := genFile(t, fileType, r.IntN(4))
			writeFile(t, filepath.Join(d, ".DIR"), data)
			f := genArticleName(r)
			writeFile(t, filepath.Join(d, f), randBytes(r, r.IntN(200)))
			id := append([]string{b.id}, path...)
			w.men = append(w.men, id)
			w.manFiles[fmt.Sprint(id)] = append(w.manFiles[fmt.Sprint(id)], f)
			if r.IntN(2) == 0 {
				break
			}
		}
	}
	data, _ := genFile(t, infoType, r.IntN(3))
	writeFile(t, filepath.Join(w.dir, "userinfo"), data)
	data, _ = genFile(t, formosaType, r.IntN(4))
	writeFile(t, filepath.Join(w.dir, "formosa.DIR"), data)
	w.im = genImage(t, shmSetting{users: 50, idlen: 12, align: 4, hash: 4, cool: true}, 2, 0)
	w.shm = filepath.Join(w.dir, "shm")
	writeFile(t, w.shm, w.im.raw)
	if odd { // places where operations fail after they began
		writeFile(t, filepath.Join(w.dir, "empty"), nil)
		mkdirs(t, filepath.Join(w.dir, "directory"))
		mkdirs(t, filepath.Join(w.boardDir("isdir"), ".DIR"))
		mkdirs(t, filepath.Join(w.boardDir("isdir"), "M.1.A.000"))
		mkdirs(t, w.boardDir("full"))
		t.Harness(os.Symlink("/dev/full", filepath.Join(w.boardDir("full"), ".DIR")))
		t.Harness(os.Symlink("/dev/full", filepath.Join(w.boardDir("full"), "M.1.A.000")))
		mkdirs(t, w.boardDir("loop"))
		t.Harness(os.Symlink(".DIR", filepath.Join(w.boardDir("loop"), ".DIR")))
		mkdirs(t, filepath.Join(w.userDir("isdir"), ".fav"))
		mkdirs(t, filepath.Join(w.userDir("isdir"), "buf.1"))
		mkdirs(t, filepath.Join(w.userDir("isdir"), "logins.recent"))
		mkdirs(t, filepath.Join(w.userDir("isdir"), "logins.bad"))
	}
	return w
}

// wop is an operation on a home.
type wop struct {
	name string
	run  func(s *site) (interface{}, error)
}

func (w *world) path(s ...string) string { return filepath.Join(append([]string{w.dir}, s...)...) }

// reads are the reading operations, of what there is and of what there is not.
func (w *world) reads(r *rand.Rand) (ops []wop) {
	add := func(name string, f func(s *site) (interface{}, error)) {
		ops = append(ops, wop{name, f})
	}
	users := append(append([]string{}, w.ids...), "nobody", "isdir", "")
	boards := []string{"nosuch", "isdir", "loop", ""}
	add("ReadUserRecords", func(s *site) (interface{}, error) { return s.db.ReadUserRecords() })
	add("ReadBoardRecords", func(s *site) (interface{}, error) { return s.db.ReadBoardRecords() })
	for _, u := range users {
		u := u
		add("ReadUserFavoriteRecords("+u+")", func(s *site) (interface{}, error) { return s.db.ReadUserFavoriteRecords(u) })
		add("GetUserArticleRecordFile("+u+")", func(s *site) (interface{}, error) { return s.db.GetUserArticleRecordFile(u) })
		add("GetUserCommentRecordFile("+u+")", func(s *site) (interface{}, error) { return s.db.GetUserCommentRecordFile(u) })
		d := []string{"0", "1", "9", ""}[r.IntN(4)]
		add("GetUserDrafts("+u+","+d+")", func(s *site) (interface{}, error) { return s.db.GetUserDrafts(u, d) })
		add("OpenLoginRecentFile("+u+")", func(s *site) (interface{}, error) {
			p, err := pttbbs.GetLoginRecentPath(s.home, u)
			if err != nil {
				return nil, err
			}
			return pttbbs.OpenLoginRecentFile(p)
		})
	}
	for _, b := range w.boards {
		boards = append(boards, b.id)
		for _, a := range b.arts {
			b, a := b.id, a.file
			add("ReadBoardArticleFile("+b+","+a+")", func(s *site) (interface{}, error) { return s.db.ReadBoardArticleFile(b, a) })
			add("GetBoardArticleCommentRecords("+b+","+a+")", func(s *site) (interface{}, error) {
				return s.db.GetBoardArticleCommentRecords(b, &otherArt{file: a})
			})
		}
	}
	for _, b := range boards {
		b, u := b, users[r.IntN(len(users))]
		add("ReadBoardArticleRecordsFile("+b+")", func(s *site) (interface{}, error) { return s.db.ReadBoardArticleRecordsFile(b) })
		add("GetBoardUserCommentRecord("+b+","+u+")", func(s *site) (interface{}, error) { return s.db.GetBoardUserCommentRecord(b, u) })
		add("ReadBoardTreasureRecordsFile("+b+")", func(s *site) (interface{}, error) { return s.db.ReadBoardTreasureRecordsFile(b, nil) })
		add("ReadBoardArticleFile("+b+",M.1.A.000)", func(s *site) (interface{}, error) { return s.db.ReadBoardArticleFile(b, "M.1.A.000") })
	}
	for _, m := range w.men {
		m := m
		add(fmt.Sprintf("ReadBoardTreasureRecordsFile(%v)", m), func(s *site) (interface{}, error) { return s.db.ReadBoardTreasureRecordsFile(m[0], m[1:]) })
		for _, f := range w.manFiles[fmt.Sprint(m)] {
			f := f
			add(fmt.Sprintf("ReadBoardTreasureFile(%v,%s)", m, f), func(s *site) (interface{}, error) { return s.db.ReadBoardTreasureFile(m[0], m[1:], f) })
		}
	}
	for _, f := range []string{"logins.bad", "none", "directory", "empty"} {
		f := f
		add("OpenBadLoginFile("+f+")", func(s *site) (interface{}, error) { return pttbbs.OpenBadLoginFile(filepath.Join(s.home, f)) })
		add("OpenLoginRecentFile("+f+")", func(s *site) (interface{}, error) { return pttbbs.OpenLoginRecentFile(filepath.Join(s.home, f)) })
		add("NewCache("+f+")", func(s *site) (interface{}, error) {
			c, err := pttbbs.NewCache(filepath.Join(s.home, f), w.im.mapping())
			if err == nil {
				c.Close()
			}
			return nil, err
		})
		add("OpenMmap("+f+")", func(s *site) (interface{}, error) {
			c, err := cache.OpenMmap(filepath.Join(s.home, f))
			if err == nil {
				c.Close()
			}
			return nil, err
		})
	}
	for _, f := range []string{"userinfo", "none", "directory", "empty", "formosa.DIR", ".BRD", ".PASSWDS"} {
		f := f
		for _, rf := range recFiles {
			rf := rf
			add("open "+f+" as "+rf.name, func(s *site) (interface{}, error) { return rf.open(filepath.Join(s.home, f)) })
		}
		add("OpenFavFile("+f+")", func(s *site) (interface{}, error) { return pttbbs.OpenFavFile(filepath.Join(s.home, f)) })
		add("formosa "+f, func(s *site) (interface{}, error) {
			return formosabbs.OpenFormosaBBSFileHeaderFile(filepath.Join(s.home, f))
		})
	}
	add("shared memory", func(s *site) (interface{}, error) {
		c, err := pttbbs.NewCache("file:"+filepath.Join(s.home, "shm"), w.im.mapping())
		if err != nil {
			return nil, err
		}
		defer c.Close()
		var l []interface{}
		l = append(l, c.Version(), c.UserInfo(0), c.UserInfo(1), c.UserInfo(2))
		for i := -1; i < 52; i++ {
			l = append(l, c.UserID(i), c.Money(i))
		}
		return l, nil
	})
	add("shared memory of other settings", func(s *site) (interface{}, error) {
		m := w.im.mapping()
		m.MaxUsers = 1 << 20
		c, err := pttbbs.NewCache(filepath.Join(s.home, "shm"), m)
		if err == nil {
			c.Close()
		}
		return nil, err
	})
	add("NewCache of no key", func(s *site) (interface{}, error) {
		c, err := pttbbs.NewCache("shmkey:x", w.im.mapping())
		if err == nil {
			c.Close()
		}
		return nil, err
	})
	for i, id := range w.ids {
		i, id := i, id
		add("VerifyPassword("+id+")", func(s *site) (interface{}, error) {
			l, err := s.db.ReadUserRecords()
			if err != nil {
				return nil, err
			}
			var out []bool
			for _, u := range l {
				if u.UserID() == id {
					out = append(out, u.VerifyPassword(w.passwords[i]) == nil, u.VerifyPassword("x"+w.passwords[i]) == nil)
				}
			}
			return out, nil
		})
	}
	r.Shuffle(len(ops), func(i, j int) { ops[i], ops[j] = ops[j], ops[i] })
	return ops
}

// writes are the changing operations; mine makes names and texts nobody else uses.
// Each tells which names it may add to the home.
type wwop struct {
	wop
	adds func(x interface{}) []string // relative names, x is what run returned
}

func (w *world) writes(r *rand.Rand) (ops []wwop) {
	none := func(interface{}) []string { return nil }
	add := func(name string, adds func(interface{}) []string, f func(s *site) (interface{}, error)) {
		ops = append(ops, wwop{wop{name, f}, adds})
	}
	rel := func(p string) string { x, _ := filepath.Rel(w.dir, p); return x }
	boards := []string{"nosuch", ""}
	if w.odd {
		boards = append(boards, "isdir", "full", "loop")
	}
	for _, b := range w.boards {
		boards = append(boards, b.id)
	}
	for _, b := range boards {
		b := b
		content := randBytes(r, r.IntN(300))
		f := "M.1.A.000"
		if m := w.board(b); m != nil && len(m.arts) > 0 && r.IntN(2) == 0 {
			f = m.arts[r.IntN(len(m.arts))].file
		}
		file := func(interface{}) []string {
			if b == "" {
				return nil
			}
			return []string{rel(filepath.Join(w.boardDir(b), f))}
		}
		index := func(interface{}) []string {
			if b == "" {
				return nil
			}
			return []string{rel(w.index(b))}
		}
		add(fmt.Sprintf("WriteBoardArticleFile(%s,%s)", b, f), file, func(s *site) (interface{}, error) { return nil, s.db.WriteBoardArticleFile(b, f, content) })
		add(fmt.Sprintf("AppendBoardArticleFile(%s,%s)", b, f), none, func(s *site) (interface{}, error) { return nil, s.db.AppendBoardArticleFile(b, f, content) })
		add(fmt.Sprintf("CreateArticleRecord(%s)", b), func(x interface{}) []string {
			a, ok := x.(bbs.ArticleRecord)
			if !ok || a == nil {
				return nil
			}
			return []string{rel(filepath.Join(w.boardDir(b), a.Filename()))}
		}, func(s *site) (interface{}, error) {
			a, err := s.db.CreateArticleRecord(b, "owner", "1/02", "title")
			if err != nil {
				return nil, err
			}
			return a, nil
		})
		add(fmt.Sprintf("NewArticleRecordWithMap(%s)", b), func(x interface{}) []string {
			a, ok := x.(bbs.ArticleRecord)
			if !ok || a == nil {
				return nil
			}
			return []string{rel(filepath.Join(w.boardDir(b), a.Filename()))}
		}, func(s *site) (interface{}, error) {
			a, err := s.conn.NewArticleRecordWithMap(map[string]interface{}{"owner": "o", "date": "1/02", "title": "t", "board_id": b})
			if err != nil {
				return nil, err
			}
			return a, nil
		})
		add(fmt.Sprintf("AddArticleRecordFileRecord(%s)", b), index, func(s *site) (interface{}, error) {
			a, err := s.conn.NewArticleRecord("M.7.A.000", "o", "1/02", "t")
			if err != nil {
				return nil, err
			}
			return nil, s.db.AddArticleRecordFileRecord(b, a)
		})
		for _, i := range []uint{0, 1, 100000} {
			i := i
			add(fmt.Sprintf("UpdateArticleRecordFileRecord(%s,%d)", b, i), none, func(s *site) (interface{}, error) {
				p, err := s.conn.GetBoardArticleRecordsPath(b)
				if err != nil {
					return nil, err
				}
				a, err := s.conn.NewArticleRecord("M.7.A.000", "o", "1/02", "t")
				if err != nil {
					return nil, err
				}
				return nil, s.conn.UpdateArticleRecordFileRecord(p, i, a)
			})
		}
	}
	users := append(append([]string{}, w.ids...), "nobody", "")
	if w.odd {
		users = append(users, "isdir")
	}
	for _, u := range users {
		u, d := u, []string{"0", "1", "7"}[r.IntN(3)]
		draft := randBytes(r, r.IntN(300))
		add(fmt.Sprintf("WriteUserDraft(%s,%s)", u, d), func(interface{}) []string {
			if u == "" {
				return nil
			}
			return []string{rel(filepath.Join(w.userDir(u), "buf."+d))}
		}, func(s *site) (interface{}, error) { return nil, s.db.WriteUserDraft(u, d, bbs.NewUserDraft(draft)) })
		add(fmt.Sprintf("DeleteUserDraft(%s,%s)", u, d), none, func(s *site) (interface{}, error) { return nil, s.db.DeleteUserDraft(u, d) })
	}
	title := pick(r, alnum, 8)
	add("AddBoardRecord", none, func(s *site) (interface{}, error) {
		b, err := s.db.NewBoardRecord(map[string]interface{}{"board_id": "new" + title, "title": title})
		if err != nil {
			return nil, err
		}
		return nil, s.db.AddBoardRecord(b)
	})
	for _, f := range []string{".BRD", "none", "directory", "boards"} {
		f := f
		for _, i := range []int{-1, 0, 1, 100000} {
			i := i
			add(fmt.Sprintf("RemoveBoardHeaderFileRecord(%s,%d)", f, i), none, func(s *site) (interface{}, error) {
				return nil, pttbbs.RemoveBoardHeaderFileRecord(filepath.Join(s.home, f), i)
			})
		}
	}
	if w.odd {
		add("AppendBoardHeaderFileRecord(directory)", none, func(s *site) (interface{}, error) {
			return nil, pttbbs.AppendBoardHeaderFileRecord(filepath.Join(s.home, "directory"), pttbbs.NewBoardHeader())
		})
		add("AppendBoardHeaderFileRecord(full)", none, func(s *site) (interface{}, error) {
			return nil, pttbbs.AppendBoardHeaderFileRecord("/dev/full", pttbbs.NewBoardHeader())
		})
	}
	r.Shuffle(len(ops), func(i, j int) { ops[i], ops[j] = ops[j], ops[i] })
	return ops
}

func (w *world) board(id string) *mBoard {
	for _, b := range w.boards {
		if b.id == id {
			return b
		}
	}
	return nil
}

// safe runs the operation, a panic is an error with that text.
func (o *wop) safe(s *site) (x interface{}, err error) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(failNow); ok {
				panic(e)
			}
			x, err = nil, fmt.Errorf("panic: %v", e)
		}
	}()
	return o.run(s)
}

// outcome is what an operation gives: its rendered result or its error.
func outcome(x interface{}, err error, home string) string {
	if err != nil {
		s := strings.ReplaceAll(err.Error(), home, "HOME")
		return "error " + s
	}
	return render(x)
}

// ---- functions which work on memory only

type fop struct {
	name string
	args []interface{} // slices and maps it is given
	run  func() interface{}
}

// memoryOps are calls of the functions which decode, encode and convert.
func memoryOps(t *T, r *rand.Rand) (ops []fop) {
	// behind the end of most arguments there are bytes of somebody else
	roomy := func(b []byte) []byte {
		c := append(append([]byte{}, b...), bytes.Repeat([]byte{0xEE}, r.IntN(4)*r.IntN(300))...)
		return c[:len(b)]
	}
	add := func(name string, run func() interface{}, args ...interface{}) {
		ops = append(ops, fop{name, args, run})
	}
	big, _ := genText(r, 60, false, true)
	junk := roomy(randBytes(r, r.IntN(80)))
	big = roomy(big)
	for _, b := range [][]byte{big, junk} {
		b := b
		add("Big5ToUtf8", func() interface{} { return bbs.Big5ToUtf8(b) }, b)
		add("CstrToString", func() interface{} { return bbs.CstrToString(b) }, b)
		add("CstrToBytes", func() interface{} { return bbs.CstrToBytes(b) }, b)
		add("FilterStringANSI", func() interface{} { return bbs.FilterStringANSI(string(b)) })
	}
	_, s := genText(r, 60, false, true)
	add("Utf8ToBig5", func() interface{} { return bbs.Utf8ToBig5(s) })
	key, salt := roomy(genPassword(r)), roomy([]byte(pick(r, alnum, 13)))
	add("Fcrypt", func() interface{} { b, err := crypt.Fcrypt(key, salt); return []interface{}{b, err} }, key, salt)
	line, _ := genCommentLine(r)
	add("NewUserCommentRecord", func() interface{} {
		c, err := bbs.NewUserCommentRecord(1, line, "b", &otherArt{file: "f"})
		return []interface{}{c, err}
	})
	brd, fh, us, in, fo := boardType.genRec(t, r).raw, fileType.genRec(t, r).raw, userType.genRec(t, r).raw, infoType.genRec(t, r).raw, formosaType.genRec(t, r).raw
	if r.IntN(6) == 0 {
		brd, fh, us, fo = mutate(r, brd), mutate(r, fh), mutate(r, us), mutate(r, fo)
	}
	brd, fh, us, in, fo = roomy(brd), roomy(fh), roomy(us), roomy(in), roomy(fo)
	add("UnmarshalBoardHeader", func() interface{} { x, err := pttbbs.UnmarshalBoardHeader(brd); return []interface{}{x, err} }, brd)
	add("NewFileHeaderWithByte", func() interface{} { x, err := pttbbs.NewFileHeaderWithByte(fh); return []interface{}{x, err} }, fh)
	add("UnmarshalUserec", func() interface{} { x, err := pttbbs.UnmarshalUserec(us); return []interface{}{x, err} }, us)
	add("UnmarshalUserInfo", func() interface{} { return pttbbs.UnmarshalUserInfo(in) }, in)
	add("NewFomosaBBSFileHeaderWithByte", func() interface{} {
		x, err := formosabbs.NewFomosaBBSFileHeaderWithByte(fo)
		return []interface{}{x, err}
	}, fo)
	fav := encFav(genFav(r, 4, 12))
	if r.IntN(4) == 0 {
		fav = mutate(r, fav)
	}
	fav = roomy(fav)
	add("UnmarshalFavFile", func() interface{} { x, err := pttbbs.UnmarshalFavFile(fav); return []interface{}{x, err} }, fav)
	if len(fav) > 2 {
		add("UnmarshalFavFolder", func() interface{} {
			x, n, err := pttbbs.UnmarshalFavFolder(fav, 2)
			return []interface{}{x, n, err}
		}, fav)
	}
	l, _ := genAttempt(r)
	lb := roomy([]byte(l))
	add("LoginAttempt.UnmarshalText", func() interface{} {
		var a pttbbs.LoginAttempt
		err := a.UnmarshalText(lb)
		return []interface{}{&a, err}
	}, lb)
	rec := genDate(r).Format("01/02/2006 15:04:05") + " " + genHost(r)
	add("NewLoginRecentRecord", func() interface{} { x, err := pttbbs.NewLoginRecentRecord(rec); return []interface{}{x, err} })
	draft := roomy(randBytes(r, r.IntN(50)))
	add("NewUserDraft", func() interface{} { return bbs.NewUserDraft(draft) }, draft)
	args := map[string]interface{}{"board_id": pick(r, alnum, 5), "title": s, "other": 1}
	add("NewBoardRecord", func() interface{} {
		x, err := (&pttbbs.Connector{}).NewBoardRecord(args)
		return []interface{}{x, err}
	}, args)
	man := append(make([]string, 0, 3+r.IntN(4)), "a", "b", pick(r, alnum, 3))
	add("GetBoardTreasuresDirectoryPath", func() interface{} {
		x, err := pttbbs.GetBoardTreasuresDirectoryPath("/h", "b", man)
		return []interface{}{x, err}
	}, man)
	add("GetBoardTreasureFilePath", func() interface{} {
		x, err := pttbbs.GetBoardTreasureFilePath("/h", "b", man, "f")
		return []interface{}{x, err}
	}, man)
	// the records are made when they are first used
	rh, rb, ru, ri := fileType.genRec(t, r).raw, boardType.genRec(t, r).raw, userType.genRec(t, r).raw, infoType.genRec(t, r).raw
	hdr := sync.OnceValues(func() (*pttbbs.FileHeader, error) { return pttbbs.NewFileHeaderWithByte(rh) })
	add("FileHeader.MarshalToByte", func() interface{} {
		h, err := hdr()
		if err != nil {
			return err
		}
		x, err := h.MarshalToByte()
		return []interface{}{x, err}
	})
	bh := sync.OnceValues(func() (*pttbbs.BoardHeader, error) { return pttbbs.UnmarshalBoardHeader(rb) })
	add("BoardHeader.MarshalBinary", func() interface{} {
		h, err := bh()
		if err != nil {
			return err
		}
		x, err := h.MarshalBinary()
		return []interface{}{x, err}
	})
	ur := sync.OnceValues(func() (*pttbbs.Userec, error) { return pttbbs.UnmarshalUserec(ru) })
	add("Userec.MarshalBinary", func() interface{} {
		u, err := ur()
		if err != nil {
			return err
		}
		x, err := u.MarshalBinary()
		return []interface{}{x, err}
	})
	ui := sync.OnceValue(func() *pttbbs.UserInfoCache { return pttbbs.UnmarshalUserInfo(ri) })
	add("UserInfoCache.MarshalBinary", func() interface{} { return ui().MarshalBinary() })
	return ops
}

// deepCopy copies slices of bytes, strings and maps of them.
func deepCopy(x interface{}) interface{} {
	switch v := x.(type) {
	case []byte: // with what is behind its end
		return append([]byte{}, v[:cap(v)]...)
	case []string:
		return append([]string{}, v[:cap(v)]...)
	case map[string]interface{}:
		m := map[string]interface{}{}
		for k, e := range v {
			m[k] = e
		}
		return m
	}
	return x
}

func newSiteAt(home, source string) (*site, error) {
	db, err := bbs.Open("pttbbs", source)
	if err != nil {
		return nil, err
	}
	c := &pttbbs.Connector{}
	if err := c.Open(source); err != nil {
		return nil, err
	}
	return &site{home: home, db: db, conn: c}, nil
}
