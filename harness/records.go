package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand/v2"
	"reflect"
	"strings"
	"time"

	formosabbs "github.com/Ptt-official-app/go-bbs/formosabbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
)

type fkind int

const (
	kBig5  fkind = iota // text in Big5
	kASCII              // text which is not converted
	kTrim               // Big5 text with NULs inside
	kRaw1               // a byte as a string, "" if it is 0
	kInt                // little endian number, 1, 2 or 4 bytes
	kBool
	kTime
	kArr // int32 array
	kMsgs
)

// rfield is a field of a C structure: how it is seen (and set) in the decoded
// value, and what it holds.
type rfield struct {
	name string // in the C structure
	kind fkind
	path string                                  // exported Go field, "" when there is none
	get  func(v interface{}) interface{}         // instead of path
	set  func(v interface{}, x interface{}) bool // instead of path
	max  int                                     // text bytes which are written back
}

type rtype struct {
	cname  string
	size   int
	fields []rfield
	decode func(b []byte) (interface{}, error)
	encode func(v interface{}) ([]byte, error)
	union  bool // the union of fileheader_t
}

func g(f func(v interface{}) interface{}) func(v interface{}) interface{} { return f }

type (
	bh = pttbbs.BoardHeader
	fh = pttbbs.FileHeader
	ur = pttbbs.Userec
	ui = pttbbs.UserInfoCache
)

var boardType = &rtype{cname: "boardheader_t", size: 256,
	decode: func(b []byte) (interface{}, error) { return pttbbs.UnmarshalBoardHeader(b) },
	encode: func(v interface{}) ([]byte, error) { return v.(*bh).MarshalBinary() },
	fields: []rfield{
		{name: "brdname", kind: kBig5, path: "BrdName"},
		{name: "title", kind: kBig5, get: func(v interface{}) interface{} { return v.(*bh).Title() },
			set: func(v, x interface{}) bool { v.(*bh).SetTitle(x.(string)); return true }},
		{name: "BM", kind: kBig5},
		{name: "brdattr", kind: kInt, path: "Brdattr"},
		{name: "chesscountry", kind: kRaw1, path: "ChessCountry"},
		{name: "vote_limit_posts", kind: kInt, path: "VoteLimitPosts"},
		{name: "vote_limit_logins", kind: kInt, path: "VoteLimitLogins"},
		{name: "bupdate", kind: kTime, path: "BUpdate"},
		{name: "post_limit_posts", kind: kInt, path: "PostLimitPosts"},
		{name: "post_limit_logins", kind: kInt, path: "PostLimitLogins"},
		{name: "bvote", kind: kInt, path: "BVote"},
		{name: "vtime", kind: kTime, path: "VTime"},
		{name: "level", kind: kInt, path: "Level"},
		{name: "perm_reload", kind: kTime, path: "PermReload"},
		{name: "gid", kind: kInt, path: "Gid"},
		{name: "next[0]", kind: kInt, path: "Next.0"},
		{name: "next[1]", kind: kInt, path: "Next.1"},
		{name: "firstchild[0]", kind: kInt, path: "FirstChild.0"},
		{name: "firstchild[1]", kind: kInt, path: "FirstChild.1"},
		{name: "parent", kind: kInt, path: "Parent"},
		{name: "childcount", kind: kInt, path: "ChildCount"},
		{name: "nuser", kind: kInt, path: "Nuser"},
		{name: "postexpire", kind: kInt, path: "PostExpire"},
		{name: "endgamble", kind: kTime, path: "EndGamble"},
		{name: "posttype", kind: kTrim, path: "PostType"},
		{name: "posttype_f", kind: kRaw1, path: "PostTypeF"},
		{name: "fastrecommend_pause", kind: kInt, path: "FastRecommendPause"},
		{name: "vote_limit_badpost", kind: kInt, path: "VoteLimitBadPost"},
		{name: "post_limit_badpost", kind: kInt, path: "PostLimitBadPost"},
		{name: "SRexpire", kind: kTime, path: "SRexpire"},
	}}

var fileType = &rtype{cname: "fileheader_t", size: 128, union: true,
	decode: func(b []byte) (interface{}, error) { return pttbbs.NewFileHeaderWithByte(b) },
	encode: func(v interface{}) ([]byte, error) { return v.(*fh).MarshalToByte() },
	fields: []rfield{
		{name: "filename", kind: kASCII, get: func(v interface{}) interface{} { return v.(*fh).Filename() },
			set: func(v, x interface{}) bool { v.(*fh).SetFilename(x.(string)); return true }},
		{name: "modified", kind: kTime, get: func(v interface{}) interface{} { return v.(*fh).Modified() },
			set: func(v, x interface{}) bool { v.(*fh).SetModified(x.(time.Time)); return true }},
		{name: "recommend", kind: kInt, get: func(v interface{}) interface{} { return v.(*fh).Recommend() },
			set: func(v, x interface{}) bool {
				v.(*fh).AddRecommend(int8(x.(uint32)) - int8(v.(*fh).Recommend()))
				return true
			}},
		{name: "owner", kind: kASCII, get: func(v interface{}) interface{} { return v.(*fh).Owner() },
			set: func(v, x interface{}) bool { v.(*fh).SetOwner(x.(string)); return true }},
		{name: "date", kind: kASCII, get: func(v interface{}) interface{} { return v.(*fh).Date() },
			set: func(v, x interface{}) bool { v.(*fh).SetDate(x.(string)); return true }},
		{name: "title", kind: kBig5, get: func(v interface{}) interface{} { return v.(*fh).Title() },
			set: func(v, x interface{}) bool { v.(*fh).SetTitle(x.(string)); return true }},
		{name: "filemode", kind: kInt, path: "Filemode"},
	}}

var userType = &rtype{cname: "userec_t", size: 512,
	decode: func(b []byte) (interface{}, error) { return pttbbs.UnmarshalUserec(b) },
	encode: func(v interface{}) ([]byte, error) { return v.(*ur).MarshalBinary() },
	fields: []rfield{
		{name: "version", kind: kInt, path: "Version"},
		{name: "userid", kind: kASCII, get: func(v interface{}) interface{} { return v.(*ur).UserID() }},
		{name: "realname", kind: kBig5, get: func(v interface{}) interface{} { return v.(*ur).RealName() }},
		{name: "nickname", kind: kBig5, get: func(v interface{}) interface{} { return v.(*ur).Nickname() }},
		{name: "passwd", kind: kASCII, get: func(v interface{}) interface{} { return v.(*ur).HashedPassword() }},
		{name: "uflag", kind: kInt, get: func(v interface{}) interface{} { return v.(*ur).UserFlag() }},
		{name: "userlevel", kind: kInt, path: "UserLevel"},
		{name: "numlogindays", kind: kInt, get: func(v interface{}) interface{} { return v.(*ur).NumLoginDays() }},
		{name: "numposts", kind: kInt, get: func(v interface{}) interface{} { return v.(*ur).NumPosts() }},
		{name: "firstlogin", kind: kTime},
		{name: "lastlogin", kind: kTime, get: func(v interface{}) interface{} { return v.(*ur).LastLogin() }},
		{name: "lasthost", kind: kASCII, get: func(v interface{}) interface{} { return v.(*ur).LastHost() }},
		{name: "money", kind: kInt, get: func(v interface{}) interface{} { return v.(*ur).Money() }},
		{name: "email", kind: kBig5, path: "Email"},
		{name: "address", kind: kBig5, path: "Address"},
		{name: "justify", kind: kBig5, path: "Justify"},
		{name: "over_18", kind: kBool, path: "Over18"},
		{name: "pager_ui_type", kind: kInt, path: "PagerUIType"},
		{name: "pager", kind: kInt, path: "Pager"},
		{name: "invisible", kind: kBool, path: "Invisible"},
		{name: "exmailbox", kind: kInt, path: "ExMailBox"},
		{name: "career", kind: kBig5, path: "Career"},
		{name: "role", kind: kInt, path: "Role"},
		{name: "lastseen", kind: kTime, path: "LastSeen"},
		{name: "timesetangel", kind: kTime, path: "TimeSetAngel"},
		{name: "timeplayangel", kind: kTime, path: "TimePlayAngel"},
		{name: "lastsong", kind: kTime, path: "LastSong"},
		{name: "loginview", kind: kInt, path: "LoginView"},
		{name: "vl_count", kind: kInt, path: "ViolateLaw"},
		{name: "five_win", kind: kInt, path: "Five.Win"},
		{name: "five_lose", kind: kInt, path: "Five.Lose"},
		{name: "five_tie", kind: kInt, path: "Five.Tie"},
		{name: "chc_win", kind: kInt, path: "ChineseChess.Win"},
		{name: "chc_lose", kind: kInt, path: "ChineseChess.Lose"},
		{name: "chc_tie", kind: kInt, path: "ChineseChess.Tie"},
		{name: "conn6_win", kind: kInt, path: "Conn6.Win"},
		{name: "conn6_lose", kind: kInt, path: "Conn6.Lose"},
		{name: "conn6_tie", kind: kInt, path: "Conn6.Tie"},
		{name: "go_win", kind: kInt, path: "GoChess.Win"},
		{name: "go_lose", kind: kInt, path: "GoChess.Lose"},
		{name: "go_tie", kind: kInt, path: "GoChess.Tie"},
		{name: "dark_win", kind: kInt, path: "DarkChess.Win"},
		{name: "dark_lose", kind: kInt, path: "DarkChess.Lose"},
		{name: "ua_version", kind: kInt, path: "UaVersion"},
		{name: "signature", kind: kInt, path: "Signature"},
		{name: "badpost", kind: kInt, path: "BadPost"},
		{name: "dark_tie", kind: kInt, path: "DarkChess.Tie"},
		{name: "myangel", kind: kASCII, path: "MyAngel"},
		{name: "chess_elo_rating", kind: kInt, path: "ChessEloRating"},
		{name: "withme", kind: kInt, path: "WithMe"},
		{name: "timeremovebadpost", kind: kTime, path: "TimeRemoveBadPost"},
		{name: "timeviolatelaw", kind: kTime, path: "TimeViolateLaw"},
	}}

var infoType = &rtype{cname: "userinfo_t", size: 3484,
	decode: func(b []byte) (interface{}, error) { return pttbbs.UnmarshalUserInfo(b), nil },
	encode: func(v interface{}) ([]byte, error) { return v.(*ui).MarshalBinary(), nil },
	fields: []rfield{
		{name: "uid", kind: kInt}, {name: "pid", kind: kInt},
		{name: "sockaddr", kind: kInt, path: "SockAddr"},
		{name: "userlevel", kind: kInt, path: "UserLevel"},
		{name: "userid", kind: kASCII}, {name: "nickname", kind: kBig5}, {name: "from", kind: kASCII},
		{name: "from_ip", kind: kInt},
		{name: "dark_win", kind: kInt, path: "DarkChess.Win"},
		{name: "dark_lose", kind: kInt, path: "DarkChess.Lose"},
		{name: "angelpause", kind: kInt, path: "AngelPause"},
		{name: "dark_tie", kind: kInt, path: "DarkChess.Tie"},
		{name: "friendtotal", kind: kInt, path: "FriendTotal"},
		{name: "nFriends", kind: kInt, path: "NumFriends"},
		{name: "myfriend", kind: kArr, path: "MyFriend"},
		{name: "friend_online", kind: kArr, path: "FriendOnline"},
		{name: "reject", kind: kArr, path: "Reject"},
		{name: "msgcount", kind: kInt, path: "MsgCount"},
		{name: "msgs", kind: kMsgs, get: func(v interface{}) interface{} {
			var b []byte
			for _, m := range v.(*ui).Msgs {
				b = append(b, m...)
			}
			return string(b)
		}, set: func(v, x interface{}) bool {
			b := []byte(x.(string))
			for i := range v.(*ui).Msgs {
				v.(*ui).Msgs[i] = append(pttbbs.MessageQueueCache{}, b[100*i:100*i+100]...)
			}
			return true
		}},
		{name: "birth", kind: kBool, path: "Birth"},
		{name: "active", kind: kBool, path: "Active"},
		{name: "invisible", kind: kBool, path: "Invisible"},
		{name: "mode", kind: kInt, path: "Mode"},
		{name: "pager", kind: kBool, path: "Pager"},
		{name: "conn6_win", kind: kInt, path: "Conn6.Win"},
		{name: "lastact", kind: kTime, path: "LastAct"},
		{name: "alerts", kind: kInt, path: "Alerts"},
		{name: "conn6_lose", kind: kInt, path: "Conn6.Lose"},
		{name: "sig", kind: kInt, path: "Signature"},
		{name: "conn6_tie", kind: kInt, path: "Conn6.Tie"},
		{name: "destuid", kind: kInt, path: "DestUID"},
		{name: "destuip", kind: kInt, path: "DestUIP"},
		{name: "sockactive", kind: kInt, path: "SockActive"},
		{name: "in_chat", kind: kInt, path: "InChat"},
		{name: "chatid", kind: kASCII, path: "ChatID"},
		{name: "lockmode", kind: kInt, path: "LockMode"},
		{name: "turn", kind: kBool, path: "Turn"},
		{name: "mateid", kind: kBig5, path: "MateID"},
		{name: "color", kind: kInt, path: "Color"},
		{name: "five_win", kind: kInt, path: "Five.Win"},
		{name: "five_lose", kind: kInt, path: "Five.Lose"},
		{name: "five_tie", kind: kInt, path: "Five.Tie"},
		{name: "chc_win", kind: kInt, path: "ChineseChess.Win"},
		{name: "chc_lose", kind: kInt, path: "ChineseChess.Lose"},
		{name: "chc_tie", kind: kInt, path: "ChineseChess.Tie"},
		{name: "chess_elo_rating", kind: kInt, path: "ChessEloRating"},
		{name: "go_win", kind: kInt, path: "GoChess.Win"},
		{name: "go_lose", kind: kInt, path: "GoChess.Lose"},
		{name: "go_tie", kind: kInt, path: "GoChess.Tie"},
		{name: "withme", kind: kInt, path: "WithMe"},
		{name: "brc_id", kind: kInt},
		{name: "wbtime", kind: kTime},
	}}

var formosaType = &rtype{cname: "formosa_t", size: 248,
	decode: func(b []byte) (interface{}, error) { return formosabbs.NewFomosaBBSFileHeaderWithByte(b) },
	fields: []rfield{
		{name: "filename", kind: kASCII, path: "Filename"},
		{name: "postno", kind: kInt, path: "Postno"},
		{name: "owner", kind: kASCII, path: "Owner"},
		{name: "mtime", kind: kTime, path: "Modified"},
		{name: "title", kind: kBig5, path: "Title"},
	}}

const (
	modeVote = 0x40
	modeAnon = 0x80
)

// rfval is the value of one field in a generated record.
type rfval struct {
	text []byte      // bytes of a text field up to its end
	want interface{} // as normalised by norm
	odd  bool        // not restored bit by bit: a true flag which is not 1, text beyond max
	any  bool        // too long: what is stored is not specified
}

type rrec struct {
	raw  []byte
	vals map[string]*rfval
}

// genField fills the field f of b and returns what it means.
func genField(r *rand.Rand, f *rfield, b []byte) *rfval {
	v := &rfval{}
	switch f.kind {
	case kBig5, kASCII:
		var s string
		v.text, s = fillText(r, b, f.kind == kASCII)
		v.want = s
		if f.max > 0 && len(v.text) > f.max {
			v.odd = true
		}
	case kTrim:
		for i := range b {
			b[i] = 0
		}
		p, s := genText(r, len(b), false, false)
		if len(p) > 8 && r.IntN(2) == 0 {
			q, s2 := genText(r, len(p)/2, false, false)
			q2, s3 := genText(r, len(p)/2-2, false, false)
			p = append(append(append([]byte{}, q...), 0, 0), q2...)
			s = s2 + "\x00\x00" + s3
		}
		copy(b, p)
		v.text = bytes.TrimRight(p, "\x00")
		v.want = strings.TrimRight(s, "\x00")
	case kRaw1:
		b[0] = byte(genU32(r))
		v.want = strings.Trim(string(b), "\x00")
	case kInt:
		x := genU32(r)
		switch len(b) {
		case 1:
			b[0] = byte(x)
			v.want = uint32(b[0])
		case 2:
			binary.LittleEndian.PutUint16(b, uint16(x))
			v.want = uint32(uint16(x))
		default:
			binary.LittleEndian.PutUint32(b, x)
			v.want = x
		}
	case kTime:
		x := genTime(r)
		binary.LittleEndian.PutUint32(b, x)
		v.want = x
	case kBool:
		b[0] = byte(r.IntN(2))
		if r.IntN(6) == 0 {
			b[0] = byte(genU32(r))
		}
		v.odd = b[0] > 1
		v.want = b[0] != 0
	case kArr:
		for i := 0; i+4 <= len(b); i += 4 {
			binary.LittleEndian.PutUint32(b[i:], genU32(r))
		}
		v.want = string(b)
	case kMsgs:
		copy(b, randBytes(r, len(b)))
		v.want = string(b)
	}
	return v
}

// norm brings what the record returns into the form of rfval.want.
func norm(f *rfield, size int, x interface{}) interface{} {
	switch f.kind {
	case kInt:
		rv := reflect.ValueOf(x)
		var u uint32
		switch rv.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			u = uint32(rv.Int())
		default:
			u = uint32(rv.Uint())
		}
		if size == 1 {
			u &= 0xff
		} else if size == 2 {
			u &= 0xffff
		}
		return u
	case kTime:
		return uint32(x.(time.Time).Unix())
	case kArr:
		rv := reflect.ValueOf(x)
		b := make([]byte, 4*rv.Len())
		for i := 0; i < rv.Len(); i++ {
			e := rv.Index(i)
			u := uint32(0)
			if e.Kind() == reflect.Int32 {
				u = uint32(e.Int())
			} else {
				u = uint32(e.Uint())
			}
			binary.LittleEndian.PutUint32(b[4*i:], u)
		}
		return string(b)
	}
	return x
}

func pathOf(v interface{}, path string) (reflect.Value, bool) {
	rv := reflect.ValueOf(v)
	for rv.Kind() == reflect.Ptr {
		rv = rv.Elem()
	}
	for _, p := range strings.Split(path, ".") {
		if rv.Kind() == reflect.Slice {
			i := int(p[0] - '0')
			if i >= rv.Len() {
				return rv, false
			}
			rv = rv.Index(i)
			continue
		}
		rv = rv.FieldByName(p)
		if !rv.IsValid() {
			return rv, false
		}
	}
	return rv, true
}

func (f *rfield) value(v interface{}) (interface{}, bool) {
	if f.get != nil {
		return f.get(v), true
	}
	if f.path == "" {
		return nil, false
	}
	rv, ok := pathOf(v, f.path)
	if !ok {
		return "(missing)", true
	}
	return rv.Interface(), true
}

// assign sets the field to x, a value like rfval.want.
func (f *rfield) assign(v interface{}, x interface{}) bool {
	if f.kind == kTime {
		x = time.Unix(int64(x.(uint32)), 0)
	}
	if f.set != nil {
		return f.set(v, x)
	}
	if f.path == "" {
		return false
	}
	rv, ok := pathOf(v, f.path)
	if !ok || !rv.CanSet() {
		return false
	}
	switch y := x.(type) {
	case uint32:
		switch rv.Kind() {
		case reflect.Int8:
			rv.SetInt(int64(int8(y)))
		case reflect.Int16:
			rv.SetInt(int64(int16(y)))
		case reflect.Int32, reflect.Int:
			rv.SetInt(int64(int32(y)))
		default:
			rv.SetUint(uint64(y))
		}
	case string:
		if f.kind == kArr {
			for i := 0; i < rv.Len(); i++ {
				u := binary.LittleEndian.Uint32([]byte(y[4*i:]))
				if rv.Index(i).Kind() == reflect.Int32 {
					rv.Index(i).SetInt(int64(int32(u)))
				} else {
					rv.Index(i).SetUint(uint64(u))
				}
			}
			return true
		}
		rv.SetString(y)
	case bool:
		rv.SetBool(y)
	case time.Time:
		rv.Set(reflect.ValueOf(y))
	}
	return true
}

// genRec makes a record of random fields, with garbage between them.
func (rt *rtype) genRec(t *T, r *rand.Rand) *rrec {
	l := loadLayout(t)
	if _, size := l.of(t, rt.cname+".."); size != rt.size {
		t.Harness(fmt.Errorf("%s has %d bytes", rt.cname, size))
	}
	rec := &rrec{raw: make([]byte, rt.size), vals: map[string]*rfval{}}
	if r.IntN(4) != 0 {
		copy(rec.raw, randBytes(r, rt.size))
	}
	for i := range rt.fields {
		f := &rt.fields[i]
		off, n := l.of(t, rt.cname+"."+f.name)
		rec.vals[f.name] = genField(r, f, rec.raw[off:off+n])
	}
	if rt.union {
		off, _ := l.of(t, rt.cname+".multi.money")
		binary.LittleEndian.PutUint32(rec.raw[off:], genU32(r))
	}
	return rec
}

// checkDecoded compares a decoded value with what the record holds.
func (rt *rtype) checkDecoded(t *T, v interface{}, rec *rrec, what string) {
	l := loadLayout(t)
	n := 0
	for i := range rt.fields {
		f := &rt.fields[i]
		x, ok := f.value(v)
		if !ok {
			continue
		}
		_, size := l.of(t, rt.cname+"."+f.name)
		got := norm(f, size, x)
		if want := rec.vals[f.name].want; got != want {
			t.Note("record %s", hexdump(rec.raw))
			t.Errorf("%s: field %s is %s, the C structure has %s", what, f.name, clip(fmt.Sprintf("%#v", got), 200), clip(fmt.Sprintf("%#v", want), 200))
		}
		n++
	}
	if rt.union {
		rt.checkUnion(t, v.(*fh), rec.raw, what)
		n++
	}
	t.Count("fields_compared", n)
	if len(t.fails) > 0 {
		panic(failNow{})
	}
}

func (rt *rtype) checkUnion(t *T, h *fh, raw []byte, what string) {
	l := loadLayout(t)
	off, _ := l.of(t, "fileheader_t.multi.money")
	moff, _ := l.of(t, "fileheader_t.filemode")
	u := binary.LittleEndian.Uint32(raw[off:])
	switch mode := raw[moff]; {
	case mode&modeVote != 0:
		got := []byte{h.VoteLimits.Posts, h.VoteLimits.Logins, h.VoteLimits.Regtime, h.VoteLimits.Badpost}
		var want []byte
		for _, n := range []string{"posts", "logins", "regtime", "badpost"} {
			o, _ := l.of(t, "fileheader_t.multi.vote_limits."+n)
			want = append(want, raw[o])
		}
		t.Check(bytes.Equal(got, want), "%s: vote limits are %v, the record has %v", what, got, want)
	case mode&modeAnon != 0:
		t.Check(uint32(h.AnnoUID) == u, "%s: anonymous uid is %d, the record has %d", what, h.AnnoUID, u)
	default:
		t.Check(int64(h.Money()) == int64(int32(u)), "%s: money is %d, the record has %d", what, h.Money(), int32(u))
	}
}

// checkEncoded compares an encoded record with the fields it was made of.
func (rt *rtype) checkEncoded(t *T, enc []byte, rec *rrec, fresh bool, what string) {
	l := loadLayout(t)
	t.Check(len(enc) == rt.size, "%s: %d bytes, a record has %d", what, len(enc), rt.size)
	covered := make([]bool, rt.size)
	for i := range rt.fields {
		f := &rt.fields[i]
		off, n := l.of(t, rt.cname+"."+f.name)
		for j := off; j < off+n; j++ {
			covered[j] = true
		}
		v := rec.vals[f.name]
		got, want := enc[off:off+n], rec.raw[off:off+n]
		if v.any {
			continue
		}
		switch f.kind {
		case kBig5, kASCII, kTrim:
			if v.odd {
				continue
			}
			want = v.text
			if len(got) > len(want) && f.kind != kTrim {
				t.Check(got[len(want)] == 0, "%s: text of %s does not end after %d bytes: %x, from %x", what, f.name, len(want), got, want)
				got = got[:len(want)]
			} else if f.kind == kTrim {
				for _, c := range got[len(want):] {
					t.Check(c == 0, "%s: text of %s does not end after %d bytes: %x", what, f.name, len(want), got)
				}
				got = got[:len(want)]
			}
		case kBool:
			if v.odd {
				t.Check(got[0] != 0, "%s: flag %s is lost", what, f.name)
				continue
			}
		}
		if !bytes.Equal(got, want) {
			t.Note("encoded %s\nrecord  %s", hexdump(enc), hexdump(rec.raw))
			t.Errorf("%s: field %s is written as %s, was %s", what, f.name, hexdump(got), hexdump(want))
		}
	}
	if rt.union {
		off, _ := l.of(t, rt.cname+".multi.money")
		for j := off; j < off+4; j++ {
			covered[j] = true
		}
		if !bytes.Equal(enc[off:off+4], rec.raw[off:off+4]) {
			t.Errorf("%s: the union is written as %x, was %x (file mode %#x)", what, enc[off:off+4], rec.raw[off:off+4], rec.raw[124])
		}
	}
	if fresh {
		for j, c := range covered {
			if !c && enc[j] != 0 {
				t.Errorf("%s: byte %d, outside of every field, is %#x", what, j, enc[j])
			}
		}
	}
	if len(t.fails) > 0 {
		panic(failNow{})
	}
}

// roundTrip is one case: decode a random record, compare, encode it again,
// then change some fields and encode.
func (rt *rtype) roundTrip(t *T) {
	r := t.R
	rec := rt.genRec(t, r)
	orig := append([]byte{}, rec.raw...)
	in := append([]byte{}, rec.raw...)
	extra := 0
	if r.IntN(4) == 0 { // a longer buffer
		extra = 1 + r.IntN(300)
		in = append(in, randBytes(r, extra)...)
	}
	v, err := rt.decode(in)
	t.Check(err == nil, "decoding a record of %d bytes: %v", len(in), err)
	t.Check(bytes.Equal(in[:rt.size], orig), "decoding changed its input")
	rt.checkDecoded(t, v, rec, "decoded")
	// what was decoded does not depend on the buffer
	for i := range in {
		in[i] ^= 0x5a
	}
	rt.checkDecoded(t, v, rec, "decoded, after the buffer was changed")
	t.Nontrivial(orig)
	t.Count("records", 1)
	if t.Idx < 3 {
		t.Sample("record %s", clip(hexdump(orig), 160))
	}
	if rt.encode == nil {
		return
	}
	enc, err := rt.encode(v)
	t.Check(err == nil, "encoding: %v", err)
	rt.checkEncoded(t, enc, rec, false, "encoded again")
	// a second round is stable
	v2, err := rt.decode(enc)
	t.Check(err == nil, "decoding an encoded record: %v", err)
	enc2, err := rt.encode(v2)
	t.Check(err == nil && bytes.Equal(enc, enc2), "encoding is not stable: %v, first difference at %d", err, firstDiff(enc, enc2))
	// changing the result of an encoding changes nothing else
	for i := range enc {
		enc[i] ^= 0xff
	}
	enc3, _ := rt.encode(v)
	t.Check(bytes.Equal(enc2, enc3), "the encoded record changed after the first result was modified")

	// change some attributes
	n := 1 + r.IntN(4)
	if r.IntN(4) == 0 {
		n = len(rt.fields)
	}
	var changed []string
	for k := 0; k < n; k++ {
		f := &rt.fields[r.IntN(len(rt.fields))]
		rt.change(t, r, v, rec, f)
		changed = append(changed, f.name)
	}
	if rt.union {
		rt.setUnion(t, r, v.(*fh), rec)
	}
	t.Note("changed %v", changed)
	enc, err = rt.encode(v)
	t.Check(err == nil, "encoding after a change: %v", err)
	rt.checkEncoded(t, enc, rec, false, fmt.Sprintf("after changing %v", changed))
	t.Count("attribute_changes", n)
	rt.longer(t)
}

// longer is a record some of whose texts take more bytes when encoded than
// they had: Big5-UAO has four codes for a letter with a combining mark, which
// become two characters. They may be cut, but stay in their field.
func (rt *rtype) longer(t *T) {
	r := t.R
	l := loadLayout(t)
	rec := rt.genRec(t, r)
	var names []string
	for i := range rt.fields {
		f := &rt.fields[i]
		if f.kind != kBig5 || r.IntN(3) > 0 {
			continue
		}
		off, n := l.of(t, rt.cname+"."+f.name)
		for j := 0; j+2 <= n; j += 2 {
			copy(rec.raw[off+j:], [][]byte{{0x88, 0x62}, {0x88, 0x64}, {0x88, 0xa3}, {0x88, 0xa5}}[r.IntN(4)])
		}
		rec.vals[f.name].any = true
		names = append(names, f.name)
	}
	if len(names) == 0 {
		return
	}
	v, err := rt.decode(append([]byte{}, rec.raw...))
	t.Check(err == nil, "decoding: %v", err)
	enc, err := rt.encode(v)
	t.Check(err == nil && len(enc) == rt.size, "encoding: %d bytes, %v", len(enc), err)
	rt.checkEncoded(t, enc, rec, false, fmt.Sprintf("with longer texts in %v", names))
	t.Count("growing_texts", len(names))
}

// change sets one field to a new random value in the value and in the record.
func (rt *rtype) change(t *T, r *rand.Rand, v interface{}, rec *rrec, f *rfield) {
	l := loadLayout(t)
	off, n := l.of(t, rt.cname+"."+f.name)
	buf := make([]byte, n)
	nv := genField(r, f, buf)
	if f.kind == kBool {
		buf[0] &= 1
		nv.want, nv.odd = buf[0] == 1, false
	}
	x := nv.want
	if (f.kind == kBig5 || f.kind == kASCII || f.kind == kTrim) && r.IntN(3) == 0 {
		// too long
		b, s := genText(r, n+1+r.IntN(200), f.kind == kASCII, false)
		if len(b) > n {
			nv.any = true
			x = s
		} else if len(b) > 0 && (f.max == 0 || len(b) <= f.max) {
			nv.text, x, nv.odd = b, s, false
		}
	}
	if f.kind == kTime && r.IntN(4) == 0 {
		binary.LittleEndian.PutUint32(buf, 0)
		if f.set != nil {
			f.set(v, time.Time{})
		} else {
			rv, ok := pathOf(v, f.path)
			if !ok {
				return
			}
			rv.Set(reflect.ValueOf(time.Time{}))
		}
		copy(rec.raw[off:], buf)
		nv.want = uint32(0)
		rec.vals[f.name] = nv
		t.Count("unset_times", 1)
		return
	}
	// a setter which is not there leaves the old value
	if rt.union && f.name == "filemode" {
		// the union keeps its bits only while its meaning does
		if x.(uint32)&modeVote != uint32(rec.raw[off])&modeVote || x.(uint32)&modeAnon != uint32(rec.raw[off])&modeAnon {
			return
		}
	}
	if !f.assign(v, x) {
		return
	}
	copy(rec.raw[off:off+n], buf)
	rec.vals[f.name] = nv
	if nv.any {
		t.Count("overlong_texts", 1)
	}
}

// setUnion changes the vote limits or the uid, where that is what the union has.
func (rt *rtype) setUnion(t *T, r *rand.Rand, h *fh, rec *rrec) {
	l := loadLayout(t)
	if r.IntN(2) == 0 {
		return
	}
	off, _ := l.of(t, "fileheader_t.multi.money")
	moff, _ := l.of(t, "fileheader_t.filemode")
	switch mode := h.Filemode; {
	case mode != rec.raw[moff]:
		return
	case mode&modeVote != 0:
		h.VoteLimits.Posts, h.VoteLimits.Logins, h.VoteLimits.Regtime, h.VoteLimits.Badpost = byte(genU32(r)), byte(genU32(r)), byte(genU32(r)), byte(genU32(r))
		for n, x := range map[string]byte{"posts": h.VoteLimits.Posts, "logins": h.VoteLimits.Logins, "regtime": h.VoteLimits.Regtime, "badpost": h.VoteLimits.Badpost} {
			o, _ := l.of(t, "fileheader_t.multi.vote_limits."+n)
			rec.raw[o] = x
		}
	case mode&modeAnon != 0:
		h.AnnoUID = int(genU32(r))
		binary.LittleEndian.PutUint32(rec.raw[off:], uint32(h.AnnoUID))
	}
}

// freshBoard encodes a board value made from nothing.
func freshValue(rt *rtype, mk func() interface{}) func(t *T) {
	return func(t *T) {
		r := t.R
		v := mk()
		rec := &rrec{raw: make([]byte, rt.size), vals: map[string]*rfval{}}
		for i := range rt.fields {
			f := &rt.fields[i]
			nv := &rfval{want: ""}
			rec.vals[f.name] = nv
		}
		n := r.IntN(len(rt.fields) + 1)
		if rt == boardType && r.IntN(3) > 0 {
			b := v.(*bh)
			b.Next, b.FirstChild = make([]int32, 2), make([]int32, 2)
		}
		var names []string
		for k := 0; k < n; k++ {
			f := &rt.fields[r.IntN(len(rt.fields))]
			rt.change(t, r, v, rec, f)
			names = append(names, f.name)
		}
		if rt.union {
			rt.setUnion(t, r, v.(*fh), rec)
		}
		if rt.cname != "boardheader_t" && rt.cname != "fileheader_t" {
			// a time which was never set is not covered for these
			l := loadLayout(t)
			for i := range rt.fields {
				f := &rt.fields[i]
				if f.kind != kTime || rec.vals[f.name].want != "" {
					continue
				}
				off, _ := l.of(t, rt.cname+"."+f.name)
				_ = off
				rec.vals[f.name].any = true
			}
		}
		enc, err := rt.encode(v)
		t.Check(err == nil, "encoding a new value: %v", err)
		t.Note("set fields %v", names)
		rt.checkEncoded(t, enc, rec, true, "new value")
		t.Nontrivial(enc)
		t.Sample("fields %v -> %s", names, clip(hexdump(enc), 120))
	}
}

// exhaustByte walks one byte through all positions: every byte of a record
// belongs to the field the C structure has there, and to that field only.
func walkByte(rt *rtype) func(t *T) {
	return func(t *T) {
		r := t.R
		l := loadLayout(t)
		pos := t.Idx % rt.size
		base := rt.genRec(t, r)
		v1, err := rt.decode(base.raw)
		t.Check(err == nil, "decode: %v", err)
		before := rt.values(v1)
		mod := append([]byte{}, base.raw...)
		mod[pos] ^= byte(1 + r.IntN(255))
		v2, err := rt.decode(mod)
		t.Check(err == nil, "decode: %v", err)
		after := rt.values(v2)
		for i := range rt.fields {
			f := &rt.fields[i]
			off, n := l.of(t, rt.cname+"."+f.name)
			if pos >= off && pos < off+n {
				continue
			}
			t.Check(before[f.name] == after[f.name], "changing byte %d changed field %s, which is at %d..%d: %v -> %v", pos, f.name, off, off+n-1, before[f.name], after[f.name])
		}
		t.Nontrivial(pos, base.raw)
		t.Count("byte_positions", 1)
	}
}

func (rt *rtype) values(v interface{}) map[string]interface{} {
	ret := map[string]interface{}{}
	for i := range rt.fields {
		f := &rt.fields[i]
		x, ok := f.value(v)
		if !ok {
			continue
		}
		ret[f.name] = norm(f, 4, x)
	}
	return ret
}

func boardAttrs() []struct {
	name string
	bit  uint32
	f    func(b *bh) bool
} {
	return []struct {
		name string
		bit  uint32
		f    func(b *bh) bool
	}{
		{"IsNoCount", 0x2, (*bh).IsNoCount}, {"IsGroupBoard", 0x8, (*bh).IsGroupBoard}, {"IsClass", 0x8, (*bh).IsClass},
		{"IsHide", 0x10, (*bh).IsHide}, {"IsPostMask", 0x20, (*bh).IsPostMask}, {"IsAnonymous", 0x40, (*bh).IsAnonymous},
		{"IsDefaultAnonymous", 0x80, (*bh).IsDefaultAnonymous}, {"IsNoCredit", 0x100, (*bh).IsNoCredit},
		{"IsVoteBoard", 0x200, (*bh).IsVoteBoard}, {"IsWarnEL", 0x400, (*bh).IsWarnEL}, {"IsTop", 0x800, (*bh).IsTop},
		{"IsNoRecommend", 0x1000, (*bh).IsNoRecommend}, {"IsAngelAnonymous", 0x2000, (*bh).IsAngelAnonymous},
		{"IsBMCount", 0x4000, (*bh).IsBMCount}, {"IsIsSymbolic", 0x8000, (*bh).IsIsSymbolic}, {"IsNoBoo", 0x10000, (*bh).IsNoBoo},
		{"IsRestrictedPost", 0x40000, (*bh).IsRestrictedPost}, {"IsGuestPost", 0x80000, (*bh).IsGuestPost},
		{"IsCooldown", 0x100000, (*bh).IsCooldown}, {"IsCPLog", 0x200000, (*bh).IsCPLog},
		{"IsNoFastRecommend", 0x400000, (*bh).IsNoFastRecommend}, {"IsIPLogRecommend", 0x800000, (*bh).IsIPLogRecommend},
		{"IsOver18", 0x1000000, (*bh).IsOver18}, {"IsNoReply", 0x2000000, (*bh).IsNoReply},
		{"IsAlignedComment", 0x4000000, (*bh).IsAlignedComment}, {"IsNoSelfDeletePost", 0x8000000, (*bh).IsNoSelfDeletePost},
		{"IsBMMaskContent", 0x10000000, (*bh).IsBMMaskContent},
	}
}

func c35(t *T) {
	r := t.R
	rec := boardType.genRec(t, r)
	l := loadLayout(t)
	// moderators
	off, n := l.of(t, "boardheader_t.BM")
	var bms []string
	text := ""
	for k := r.IntN(5); k > 0; k-- {
		u := genUser(r)
		if len(text)+1+len(u) > n {
			break
		}
		if text != "" {
			text += "/"
		}
		text += u
		bms = append(bms, u)
	}
	bm := rec.raw[off : off+n]
	copy(bm, randBytes(r, n))
	copy(bm, text)
	if len(text) < n {
		bm[len(text)] = 0
	}
	aoff, _ := l.of(t, "boardheader_t.brdattr")
	if t.Idx < 32*33 {
		// every single flag, alone, with one other, and all but it
		a := uint32(1) << (t.Idx % 32)
		switch k := t.Idx / 32; {
		case k == 32:
			a = ^a
		case k > 0:
			a |= 1 << k
		}
		binary.LittleEndian.PutUint32(rec.raw[aoff:], a)
	}
	attr := binary.LittleEndian.Uint32(rec.raw[aoff:])
	b, err := pttbbs.UnmarshalBoardHeader(rec.raw)
	t.Check(err == nil, "decode: %v", err)
	for _, a := range boardAttrs() {
		got := a.f(b)
		t.Check(got == (attr&a.bit != 0), "%s() is %v for attribute word %#x, its flag is %#x", a.name, got, attr, a.bit)
	}
	t.Count("attribute_queries", len(boardAttrs()))
	gid := rec.vals["gid"].want.(uint32)
	t.Check(b.ClassID() == fmt.Sprint(int32(gid)), "ClassID() is %q, the group number is %d", b.ClassID(), int32(gid))
	for _, x := range []struct {
		n    string
		v, w uint32
	}{{"GetPostLimitPosts", uint32(b.GetPostLimitPosts()), rec.vals["post_limit_posts"].want.(uint32)},
		{"GetPostLimitLogins", uint32(b.GetPostLimitLogins()), rec.vals["post_limit_logins"].want.(uint32)},
		{"GetPostLimitBadPost", uint32(b.GetPostLimitBadPost()), rec.vals["post_limit_badpost"].want.(uint32)}} {
		t.Check(x.v == x.w, "%s() is %d, the record has %d", x.n, x.v, x.w)
	}
	got := b.BM()
	t.Check(len(got) == len(bms) && (len(got) == 0 || reflect.DeepEqual(got, bms)), "BM() is %q, the record has %q", got, text)
	t.Check(b.BoardID() == rec.vals["brdname"].want, "BoardID() is %q, want %q", b.BoardID(), rec.vals["brdname"].want)
	t.Check(b.Title() == rec.vals["title"].want, "Title() is %q, want %q", b.Title(), rec.vals["title"].want)
	t.Nontrivial(attr, text)
	t.Sample("attributes %#x, moderators %q", attr, text)
}

func init() {
	rule := "a case is a record of random and boundary field values laid out by the C structures as gcc compiles them, with garbage in padding and after text; it is decoded, compared field by field, encoded, changed and encoded again; distinct records are counted"
	assume := []string{"the C structures in harness/c/layout.c are those of pttbbs and FormosaBBS on x86-64", "text fields hold valid Big5-UAO"}
	register(&Prop{ID: "C01", Rule: rule, Assume: assume, Groups: []Group{
		{Name: "roundtrip", Quick: 90000, Thorough: 1500000, Fn: boardType.roundTrip},
		{Name: "fresh", Quick: 90000, Thorough: 1500000, Fn: freshValue(boardType, func() interface{} { return pttbbs.NewBoardHeader() })},
		{Name: "walk", Quick: 256 * 32, Thorough: 256 * 800, Fn: walkByte(boardType)},
	}})
	register(&Prop{ID: "C02", Rule: rule, Assume: assume, Groups: []Group{
		{Name: "roundtrip", Quick: 150000, Thorough: 2500000, Fn: fileType.roundTrip},
		{Name: "fresh", Quick: 120000, Thorough: 2000000, Fn: freshValue(fileType, func() interface{} { return pttbbs.NewFileHeader() })},
		{Name: "walk", Quick: 128 * 32, Thorough: 128 * 800, Fn: walkByte(fileType)},
	}})
	register(&Prop{ID: "C03", Rule: rule, Assume: assume, Groups: []Group{
		{Name: "roundtrip", Quick: 60000, Thorough: 1000000, Fn: userType.roundTrip},
		{Name: "fresh", Quick: 48000, Thorough: 800000, Fn: freshValue(userType, func() interface{} { return &ur{} })},
		{Name: "walk", Quick: 512 * 16, Thorough: 512 * 400, Fn: walkByte(userType)},
	}})
	register(&Prop{ID: "C04", Rule: rule, Assume: assume, Groups: []Group{
		{Name: "roundtrip", Quick: 24000, Thorough: 400000, Fn: infoType.roundTrip},
		{Name: "fresh", Quick: 18000, Thorough: 300000, Fn: freshValue(infoType, func() interface{} { return &ui{} })},
		{Name: "walk", Quick: 13936, Thorough: 3484 * 50, Fn: walkByte(infoType)},
	}})
	register(&Prop{ID: "C35", Rule: "a case is a board record with an attribute word (all single flags, pairs, complements, random words), a moderator list and limits, decoded and queried; distinct pairs of attribute word and moderator text are counted", Assume: assume, Groups: []Group{
		{Name: "attributes", Quick: 120000, Thorough: 2000000, Fn: c35},
	}})
}
