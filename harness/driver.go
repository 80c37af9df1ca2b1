package main

import (
	"bytes"
	"errors"
	"fmt"
	"io/fs"
	"math/rand/v2"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
)

// ---- a driver which records its calls and fails on demand

type dcall struct {
	Name  string
	Args  string
	Write bool
	Fail  error
}

type drv struct {
	mask    int // what it can do
	calls   []dcall
	failAt  int    // number of the call which fails, -1: none
	fail    error  // with this error
	failAll string // every call with this name fails
	junk    bool   // a failing call returns values as well

	users     []bbs.UserRecord
	favs      []bbs.FavoriteRecord
	boards    []bbs.BoardRecord
	arts      map[string][]bbs.ArticleRecord // index path
	files     map[string][]byte              // article path
	ua        []bbs.UserArticleRecord
	uc        []bbs.UserCommentRecord
	draft     []byte
	newBoard  bbs.BoardRecord
	newArt    bbs.ArticleRecord
	newName   string
	lastBoard bbs.BoardRecord
	lastArt   bbs.ArticleRecord
	lastMap   map[string]interface{}
	lastData  []byte
}

// step records a call and says whether it fails.
func (k *drv) step(name string, write bool, args ...interface{}) error {
	c := dcall{Name: name, Args: fmt.Sprintf("%q", args), Write: write}
	if len(k.calls) == k.failAt || name == k.failAll {
		c.Fail = k.fail
	}
	k.calls = append(k.calls, c)
	return c.Fail
}

func (k *drv) path(kind string, args ...interface{}) (string, error) {
	if err := k.step("Get"+kind, false, args...); err != nil {
		if k.junk {
			return "junk", err
		}
		return "", err
	}
	return fmt.Sprintf("<%s %q>", kind, args), nil
}

type baseDrv struct{ k *drv }

func (d baseDrv) Open(s string) error { return d.k.step("Open", false, s) }
func (d baseDrv) GetUserRecordsPath() (string, error) {
	return d.k.path("UserRecordsPath")
}
func (d baseDrv) ReadUserRecordsFile(name string) ([]bbs.UserRecord, error) {
	if err := d.k.step("ReadUserRecordsFile", false, name); err != nil {
		return keepIf(d.k.junk, d.k.users), err
	}
	return d.k.users, nil
}

func keepIf[T any](c bool, l []T) []T {
	if !c {
		return nil
	}
	return l
}

func (d baseDrv) GetUserFavoriteRecordsPath(u string) (string, error) {
	return d.k.path("UserFavoriteRecordsPath", u)
}
func (d baseDrv) ReadUserFavoriteRecordsFile(name string) ([]bbs.FavoriteRecord, error) {
	if err := d.k.step("ReadUserFavoriteRecordsFile", false, name); err != nil {
		return keepIf(d.k.junk, d.k.favs), err
	}
	return d.k.favs, nil
}
func (d baseDrv) GetBoardRecordsPath() (string, error) { return d.k.path("BoardRecordsPath") }
func (d baseDrv) ReadBoardRecordsFile(name string) ([]bbs.BoardRecord, error) {
	if err := d.k.step("ReadBoardRecordsFile", false, name); err != nil {
		return keepIf(d.k.junk, d.k.boards), err
	}
	return d.k.boards, nil
}
func (d baseDrv) GetBoardArticleRecordsPath(b string) (string, error) {
	return d.k.path("BoardArticleRecordsPath", b)
}
func (d baseDrv) GetBoardTreasureRecordsPath(b string, id []string) (string, error) {
	return d.k.path("BoardTreasureRecordsPath", b, id)
}
func (d baseDrv) ReadArticleRecordsFile(name string) ([]bbs.ArticleRecord, error) {
	if err := d.k.step("ReadArticleRecordsFile", false, name); err != nil {
		return keepIf(d.k.junk, d.k.arts[name]), err
	}
	return d.k.arts[name], nil
}
func (d baseDrv) GetBoardArticleFilePath(b, f string) (string, error) {
	return d.k.path("BoardArticleFilePath", b, f)
}
func (d baseDrv) GetBoardTreasureFilePath(b string, id []string, f string) (string, error) {
	return d.k.path("BoardTreasureFilePath", b, id, f)
}
func (d baseDrv) ReadBoardArticleFile(name string) ([]byte, error) {
	if err := d.k.step("ReadBoardArticleFile", false, name); err != nil {
		return keepIf(d.k.junk, d.k.files[name]), err
	}
	return d.k.files[name], nil
}

type capWB struct{ k *drv }

func (d capWB) NewBoardRecord(args map[string]interface{}) (bbs.BoardRecord, error) {
	d.k.lastMap = args
	if err := d.k.step("NewBoardRecord", false); err != nil {
		return nil, err
	}
	return d.k.newBoard, nil
}
func (d capWB) AddBoardRecordFileRecord(name string, brd bbs.BoardRecord) error {
	d.k.lastBoard = brd
	return d.k.step("AddBoardRecordFileRecord", true, name)
}
func (d capWB) UpdateBoardRecordFileRecord(name string, i uint, brd bbs.BoardRecord) error {
	d.k.lastBoard = brd
	return d.k.step("UpdateBoardRecordFileRecord", true, name, i)
}
func (d capWB) ReadBoardRecordFileRecord(name string, i uint) (bbs.BoardRecord, error) {
	if err := d.k.step("ReadBoardRecordFileRecord", false, name, i); err != nil {
		return nil, err
	}
	return d.k.newBoard, nil
}
func (d capWB) RemoveBoardRecordFileRecord(name string, i uint) error {
	return d.k.step("RemoveBoardRecordFileRecord", true, name, i)
}

type capWA struct{ k *drv }

func (d capWA) CreateBoardArticleFilename(b string) (string, error) {
	if err := d.k.step("CreateBoardArticleFilename", true, b); err != nil {
		if d.k.junk {
			return "junk", err
		}
		return "", err
	}
	return d.k.newName, nil
}
func (d capWA) NewArticleRecord(filename, owner, date, title string) (bbs.ArticleRecord, error) {
	if err := d.k.step("NewArticleRecord", false, filename, owner, date, title); err != nil {
		if d.k.junk {
			return d.k.newArt, err
		}
		return nil, err
	}
	return d.k.newArt, nil
}
func (d capWA) AddArticleRecordFileRecord(name string, a bbs.ArticleRecord) error {
	d.k.lastArt = a
	return d.k.step("AddArticleRecordFileRecord", true, name)
}
func (d capWA) UpdateArticleRecordFileRecord(name string, i uint, a bbs.ArticleRecord) error {
	d.k.lastArt = a
	return d.k.step("UpdateArticleRecordFileRecord", true, name, i)
}
func (d capWA) WriteBoardArticleFile(name string, b []byte) error {
	d.k.lastData = b
	return d.k.step("WriteBoardArticleFile", true, name)
}
func (d capWA) AppendBoardArticleFile(name string, b []byte) error {
	d.k.lastData = b
	return d.k.step("AppendBoardArticleFile", true, name)
}

type capUA struct{ k *drv }

func (d capUA) GetUserArticleRecordsPath(u string) (string, error) {
	return d.k.path("UserArticleRecordsPath", u)
}
func (d capUA) ReadUserArticleRecordFile(name string) ([]bbs.UserArticleRecord, error) {
	if err := d.k.step("ReadUserArticleRecordFile", false, name); err != nil {
		return keepIf(d.k.junk, d.k.ua), err
	}
	return d.k.ua, nil
}
func (d capUA) WriteUserArticleRecordFile(name string, l []bbs.UserArticleRecord) error {
	return d.k.step("WriteUserArticleRecordFile", true, name)
}
func (d capUA) AppendUserArticleRecordFile(name string, r bbs.UserArticleRecord) error {
	return d.k.step("AppendUserArticleRecordFile", true, name)
}

type capUC struct{ k *drv }

func (d capUC) GetUserCommentRecordsPath(u string) (string, error) {
	return d.k.path("UserCommentRecordsPath", u)
}
func (d capUC) ReadUserCommentRecordFile(name string) ([]bbs.UserCommentRecord, error) {
	if err := d.k.step("ReadUserCommentRecordFile", false, name); err != nil {
		return keepIf(d.k.junk, d.k.uc), err
	}
	return d.k.uc, nil
}

type capUD struct{ k *drv }

func (d capUD) GetUserDraftPath(u, id string) (string, error) {
	return d.k.path("UserDraftPath", u, id)
}
func (d capUD) ReadUserDraft(name string) ([]byte, error) {
	if err := d.k.step("ReadUserDraft", false, name); err != nil {
		return keepIf(d.k.junk, d.k.draft), err
	}
	return d.k.draft, nil
}
func (d capUD) DeleteUserDraft(name string) error { return d.k.step("DeleteUserDraft", true, name) }
func (d capUD) WriteUserDraft(name string, b []byte) error {
	d.k.lastData = b
	return d.k.step("WriteUserDraft", true, name)
}

const (
	hasWB = 1 << iota
	hasWA
	hasUA
	hasUC
	hasUD
)

var capNames = []string{"WriteBoard", "WriteArticle", "UserArticle", "UserComment", "UserDraft"}

// ---- records of other drivers

type otherUser struct {
	bbs.UserRecord
	id string
}

func (u *otherUser) UserID() string { return u.id }

type otherFav struct{ bbs.FavoriteRecord }

type otherBoard struct {
	bbs.BoardRecord
	id string
}

func (b *otherBoard) BoardID() string { return b.id }

type otherArt struct{ file, owner, title, date string }

func (a *otherArt) Filename() string        { return a.file }
func (a *otherArt) Owner() string           { return a.owner }
func (a *otherArt) Title() string           { return a.title }
func (a *otherArt) Date() string            { return a.date }
func (a *otherArt) Modified() time.Time     { return time.Time{} }
func (a *otherArt) SetModified(_ time.Time) {}
func (a *otherArt) Recommend() int          { return 0 }
func (a *otherArt) Money() int              { return 0 }

type otherUA struct {
	bbs.UserArticleRecord
	n int
}
type otherUC struct {
	bbs.UserCommentRecord
	n int
}

// ---- the operations

type dwant struct {
	err   bool // an error is right
	check func(t *T) string
}

type dop struct {
	name  string
	needs int // capabilities
	run   func(t *T, r *rand.Rand, db *bbs.DB, k *drv) (results []interface{}, check func() string, err error)
}

func text(r *rand.Rand) string {
	switch r.IntN(5) {
	case 0:
		return ""
	case 1:
		_, s := genText(r, 20, false, true)
		return s
	}
	return pick(r, alnum, 1+r.IntN(12))
}

func texts(r *rand.Rand) []string {
	var l []string
	for i := r.IntN(4); i > 0; i-- {
		l = append(l, text(r))
	}
	return l
}

// lastArgs reports whether the last call is the one expected, with these arguments.
func (k *drv) did(names ...string) string {
	var got []string
	for _, c := range k.calls {
		got = append(got, c.Name+c.Args)
	}
	if strings.Join(got, "\n") != strings.Join(names, "\n") {
		return fmt.Sprintf("the driver was called\n%s\nexpected\n%s", strings.Join(got, "\n"), strings.Join(names, "\n"))
	}
	return ""
}

func cl(name string, args ...interface{}) string { return name + fmt.Sprintf("%q", args) }
func pth(kind string, args ...interface{}) string {
	return fmt.Sprintf("<%s %q>", kind, args)
}

// sameSlice: the very values the driver returned.
func sameSlice[T any](got, want []T) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d values, the driver gave %d", len(got), len(want))
	}
	for i := range got {
		if !reflect.DeepEqual(got[i], want[i]) {
			return fmt.Sprintf("value %d is %v, the driver gave %v", i, got[i], want[i])
		}
	}
	return ""
}

func join(s ...string) string {
	for _, x := range s {
		if x != "" {
			return x
		}
	}
	return ""
}

var dops = []dop{
	{"ReadUserRecords", 0, func(t *T, r *rand.Rand, db *bbs.DB, k *drv) ([]interface{}, func() string, error) {
		l, err := db.ReadUserRecords()
		return res(l), func() string {
			return join(sameSlice(l, k.users), k.did(cl("GetUserRecordsPath"), cl("ReadUserRecordsFile", pth("UserRecordsPath"))))
		}, err
	}},
	{"ReadUserFavoriteRecords", 0, func(t *T, r *rand.Rand, db *bbs.DB, k *drv) ([]interface{}, func() string, error) {
		u := text(r)
		l, err := db.ReadUserFavoriteRecords(u)
		return res(l), func() string {
			return join(sameSlice(l, k.favs), k.did(cl("GetUserFavoriteRecordsPath", u), cl("ReadUserFavoriteRecordsFile", pth("UserFavoriteRecordsPath", u))))
		}, err
	}},
	{"ReadBoardRecords", 0, func(t *T, r *rand.Rand, db *bbs.DB, k *drv) ([]interface{}, func() string, error) {
		l, err := db.ReadBoardRecords()
		return res(l), func() string {
			return join(sameSlice(l, k.boards), k.did(cl("GetBoardRecordsPath"), cl("ReadBoardRecordsFile", pth("BoardRecordsPath"))))
		}, err
	}},
	{"ReadBoardArticleRecordsFile", 0, func(t *T, r *rand.Rand, db *bbs.DB, k *drv) ([]interface{}, func() string, error) {
		b := k.anyBoard(r)
		p := pth("BoardArticleRecordsPath", b)
		l, err := db.ReadBoardArticleRecordsFile(b)
		return res(l), func() string {
			return join(sameSlice(l, k.arts[p]), k.did(cl("GetBoardArticleRecordsPath", b), cl("ReadArticleRecordsFile", p)))
		}, err
	}},
	{"ReadBoardTreasureRecordsFile", 0, func(t *T, r *rand.Rand, db *bbs.DB, k *drv) ([]interface{}, func() string, error) {
		b, id := text(r), texts(r)
		p := pth("BoardTreasureRecordsPath", b, id)
		k.arts[p] = genArts(r, nil)
		l, err := db.ReadBoardTreasureRecordsFile(b, id)
		return res(l), func() string {
			return join(sameSlice(l, k.arts[p]), k.did(cl("GetBoardTreasureRecordsPath", b, id), cl("ReadArticleRecordsFile", p)))
		}, err
	}},
	{"ReadBoardArticleFile", 0, func(t *T, r *rand.Rand, db *bbs.DB, k *drv) ([]interface{}, func() string, error) {
		b, f := text(r), text(r)
		p := pth("BoardArticleFilePath", b, f)
		k.files[p] = randBytes(r, r.IntN(100))
		l, err := db.ReadBoardArticleFile(b, f)
		return res(l), func() string {
			return join(sameSlice(l, k.files[p]), k.did(cl("GetBoardArticleFilePath", b, f), cl("ReadBoardArticleFile", p)))
		}, err
	}},
	{"ReadBoardTreasureFile", 0, func(t *T, r *rand.Rand, db *bbs.DB, k *drv) ([]interface{}, func() string, error) {
		b, id, f := text(r), texts(r), text(r)
		p := pth("BoardTreasureFilePath", b, id, f)
		k.files[p] = randBytes(r, r.IntN(100))
		l, err := db.ReadBoardTreasureFile(b, id, f)
		return res(l), func() string {
			return join(sameSlice(l, k.files[p]), k.did(cl("GetBoardTreasureFilePath", b, id, f), cl("ReadBoardArticleFile", p)))
		}, err
	}},
	{"NewBoardRecord", hasWB, func(t *T, r *rand.Rand, db *bbs.DB, k *drv) ([]interface{}, func() string, error) {
		args := map[string]interface{}{"board_id": text(r), "title": text(r), "x": r.IntN(100)}
		b, err := db.NewBoardRecord(args)
		return res(b), func() string {
			if b != k.newBoard {
				return fmt.Sprintf("the board is %v, the driver gave %v", b, k.newBoard)
			}
			if !reflect.DeepEqual(k.lastMap, args) {
				return fmt.Sprintf("the driver got %v of %v", k.lastMap, args)
			}
			return k.did(cl("NewBoardRecord"))
		}, err
	}},
	{"AddBoardRecord", hasWB, func(t *T, r *rand.Rand, db *bbs.DB, k *drv) ([]interface{}, func() string, error) {
		b := &otherBoard{id: text(r)}
		err := db.AddBoardRecord(b)
		return nil, func() string {
			if k.lastBoard != bbs.BoardRecord(b) {
				return "the driver got another board"
			}
			return k.did(cl("GetBoardRecordsPath"), cl("AddBoardRecordFileRecord", pth("BoardRecordsPath")))
		}, err
	}},
	{"CreateArticleRecord", hasWA, func(t *T, r *rand.Rand, db *bbs.DB, k *drv) ([]interface{}, func() string, error) {
		b, o, d, ti := text(r), text(r), text(r), text(r)
		a, err := db.CreateArticleRecord(b, o, d, ti)
		return res(a), func() string {
			if a != k.newArt {
				return fmt.Sprintf("the article is %v, the driver gave %v", a, k.newArt)
			}
			return k.did(cl("CreateBoardArticleFilename", b), cl("NewArticleRecord", k.newName, o, d, ti))
		}, err
	}},
	{"AddArticleRecordFileRecord", hasWA, func(t *T, r *rand.Rand, db *bbs.DB, k *drv) ([]interface{}, func() string, error) {
		b, a := text(r), &otherArt{file: text(r)}
		err := db.AddArticleRecordFileRecord(b, a)
		return nil, func() string {
			if k.lastArt != bbs.ArticleRecord(a) {
				return "the driver got another article"
			}
			return k.did(cl("GetBoardArticleRecordsPath", b), cl("AddArticleRecordFileRecord", pth("BoardArticleRecordsPath", b)))
		}, err
	}},
	{"WriteBoardArticleFile", hasWA, func(t *T, r *rand.Rand, db *bbs.DB, k *drv) ([]interface{}, func() string, error) {
		b, f, c := text(r), text(r), randBytes(r, r.IntN(200))
		err := db.WriteBoardArticleFile(b, f, c)
		return nil, func() string {
			return join(sameSlice(k.lastData, c), k.did(cl("GetBoardArticleFilePath", b, f), cl("WriteBoardArticleFile", pth("BoardArticleFilePath", b, f))))
		}, err
	}},
	{"AppendBoardArticleFile", hasWA, func(t *T, r *rand.Rand, db *bbs.DB, k *drv) ([]interface{}, func() string, error) {
		b, f, c := text(r), text(r), randBytes(r, r.IntN(200))
		err := db.AppendBoardArticleFile(b, f, c)
		return nil, func() string {
			return join(sameSlice(k.lastData, c), k.did(cl("GetBoardArticleFilePath", b, f), cl("AppendBoardArticleFile", pth("BoardArticleFilePath", b, f))))
		}, err
	}},
	{"GetUserDrafts", hasUD, func(t *T, r *rand.Rand, db *bbs.DB, k *drv) ([]interface{}, func() string, error) {
		u, id := text(r), text(r)
		d, err := db.GetUserDrafts(u, id)
		return res(d), func() string {
			return join(sameSlice(d.Raw(), k.draft), k.did(cl("GetUserDraftPath", u, id), cl("ReadUserDraft", pth("UserDraftPath", u, id))))
		}, err
	}},
	{"DeleteUserDraft", hasUD, func(t *T, r *rand.Rand, db *bbs.DB, k *drv) ([]interface{}, func() string, error) {
		u, id := text(r), text(r)
		err := db.DeleteUserDraft(u, id)
		return nil, func() string {
			return k.did(cl("GetUserDraftPath", u, id), cl("DeleteUserDraft", pth("UserDraftPath", u, id)))
		}, err
	}},
	{"WriteUserDraft", hasUD, func(t *T, r *rand.Rand, db *bbs.DB, k *drv) ([]interface{}, func() string, error) {
		u, id, c := text(r), text(r), randBytes(r, r.IntN(200))
		err := db.WriteUserDraft(u, id, bbs.NewUserDraft(c))
		return nil, func() string {
			return join(sameSlice(k.lastData, c), k.did(cl("GetUserDraftPath", u, id), cl("WriteUserDraft", pth("UserDraftPath", u, id))))
		}, err
	}},
	{"GetBoardArticleCommentRecords", 0, func(t *T, r *rand.Rand, db *bbs.DB, k *drv) ([]interface{}, func() string, error) {
		b := k.anyBoard(r)
		a := bbs.ArticleRecord(&otherArt{file: text(r), owner: text(r)})
		if l := k.arts[pth("BoardArticleRecordsPath", b)]; len(l) > 0 {
			a = l[r.IntN(len(l))]
		}
		l, err := db.GetBoardArticleCommentRecords(b, a)
		return res(l), func() string {
			p := pth("BoardArticleFilePath", b, a.Filename())
			return join(sameComments(l, k.commentsOf(b, a, "")), k.did(cl("GetBoardArticleFilePath", b, a.Filename()), cl("ReadBoardArticleFile", p)))
		}, err
	}},
	{"GetBoardUserCommentRecord", 0, func(t *T, r *rand.Rand, db *bbs.DB, k *drv) ([]interface{}, func() string, error) {
		b, u := k.anyBoard(r), k.anyUser(r)
		l, err := db.GetBoardUserCommentRecord(b, u)
		return res(l), func() string { return sameComments(l, k.boardComments(b, u)) }, err
	}},
	{"GetUserCommentRecordFile", 0, func(t *T, r *rand.Rand, db *bbs.DB, k *drv) ([]interface{}, func() string, error) {
		u := k.anyUser(r)
		l, err := db.GetUserCommentRecordFile(u)
		return res(l), func() string {
			if k.mask&hasUC != 0 && len(k.uc) > 0 {
				return join(sameSlice(l, k.uc), k.did(cl("GetUserCommentRecordsPath", u), cl("ReadUserCommentRecordFile", pth("UserCommentRecordsPath", u))))
			}
			var want []string
			for _, b := range k.boards {
				if id := b.BoardID(); id != "" && id != "ALLPOST" {
					want = append(want, k.boardComments(id, u)...)
				}
			}
			return sameComments(l, want)
		}, err
	}},
	{"GetUserArticleRecordFile", 0, func(t *T, r *rand.Rand, db *bbs.DB, k *drv) ([]interface{}, func() string, error) {
		u := k.anyUser(r)
		l, err := db.GetUserArticleRecordFile(u)
		return res(l), func() string {
			if k.mask&hasUA != 0 && len(k.ua) > 0 {
				return join(sameSlice(l, k.ua), k.did(cl("GetUserArticleRecordsPath", u), cl("ReadUserArticleRecordFile", pth("UserArticleRecordsPath", u))))
			}
			var want, got []string
			for _, b := range k.boards {
				id := b.BoardID()
				if id == "" || id == "ALLPOST" || k.missing(pth("BoardArticleRecordsPath", id)) {
					continue
				}
				for _, a := range k.arts[pth("BoardArticleRecordsPath", id)] {
					if a.Owner() == u {
						want = append(want, fmt.Sprintf("%q %q %q %q", id, a.Title(), a.Owner(), a.Filename()))
					}
				}
			}
			for _, a := range l {
				got = append(got, fmt.Sprintf("%q %q %q %q", a.BoardID(), a.Title(), a.Owner(), a.ArticleID()))
			}
			return sameSlice(got, want)
		}, err
	}},
	{"UpdateBoardRecord", hasWB, func(t *T, r *rand.Rand, db *bbs.DB, k *drv) ([]interface{}, func() string, error) {
		b := bbs.BoardRecord(&otherBoard{})
		i := uint(r.IntN(5))
		err := db.UpdateBoardRecord(i, &b)
		return nil, func() string {
			return k.did(cl("GetBoardRecordsPath"), cl("UpdateBoardRecordFileRecord", pth("BoardRecordsPath"), i))
		}, err
	}},
	{"ReadBoardRecord", hasWB, func(t *T, r *rand.Rand, db *bbs.DB, k *drv) ([]interface{}, func() string, error) {
		i := uint(r.IntN(5))
		b, err := db.ReadBoardRecord(i)
		return res(b), func() string {
			if *b != k.newBoard {
				return "another board"
			}
			return ""
		}, err
	}},
	{"RemoveBoardRecord", hasWB, func(t *T, r *rand.Rand, db *bbs.DB, k *drv) ([]interface{}, func() string, error) {
		i := uint(r.IntN(5))
		err := db.RemoveBoardRecord(i)
		return nil, func() string {
			return k.did(cl("GetBoardRecordsPath"), cl("RemoveBoardRecordFileRecord", pth("BoardRecordsPath"), i))
		}, err
	}},
}

func res(x ...interface{}) []interface{} { return x }

func (k *drv) called(name string) bool {
	for _, c := range k.calls {
		if c.Name == name {
			return true
		}
	}
	return false
}

// missing: the driver said there is no such file.
func (k *drv) missing(path string) bool {
	for _, c := range k.calls {
		if c.Fail != nil && c.Name == "GetBoardArticleFilePath" {
			a := strings.SplitN(path, " ", 2)
			if a[0] == "<BoardArticleFilePath" && strings.TrimSuffix(a[1], ">") == c.Args {
				return true
			}
		}
		if c.Fail != nil && strings.HasSuffix(c.Args, fmt.Sprintf("%q]", path)) {
			return true
		}
	}
	return false
}

func (k *drv) anyBoard(r *rand.Rand) string {
	if len(k.boards) == 0 {
		return text(r)
	}
	return k.boards[r.IntN(len(k.boards))].BoardID()
}

func (k *drv) anyUser(r *rand.Rand) string { return []string{"alice", "bob", "Alice", "al"}[r.IntN(4)] }

// commentsOf are the comments in the article, of user u if given.
func (k *drv) commentsOf(b string, a bbs.ArticleRecord, u string) (ret []string) {
	p := pth("BoardArticleFilePath", b, a.Filename())
	if k.missing(p) {
		return nil
	}
	n := 0
	for _, l := range strings.Split(string(k.files[p]), "\n") {
		if !strings.HasPrefix(l, "C ") {
			continue
		}
		n++
		f := strings.Fields(l)
		o := strings.TrimSuffix(f[1], ":")
		if u == "" || o == u {
			ret = append(ret, fmt.Sprintf("%d %q %q %q", n, o, b, a.Filename()))
		}
	}
	return ret
}

func (k *drv) boardComments(b, u string) (ret []string) {
	p := pth("BoardArticleRecordsPath", b)
	if k.missing(p) {
		return nil
	}
	for _, a := range k.arts[p] {
		if a.Filename() != "" {
			ret = append(ret, k.commentsOf(b, a, u)...)
		}
	}
	return ret
}

func sameComments(l []bbs.UserCommentRecord, want []string) string {
	var got []string
	for _, c := range l {
		got = append(got, fmt.Sprintf("%d %q %q %q", c.CommentOrder(), c.Owner(), c.BoardID(), c.Filename()))
	}
	return sameSlice(got, want)
}

func genArts(r *rand.Rand, owners []string) (l []bbs.ArticleRecord) {
	if len(owners) == 0 {
		owners = []string{"x"}
	}
	for i := r.IntN(5); i > 0; i-- {
		f := fmt.Sprintf("M.%d.A.%03X", 1000+r.IntN(100000), r.IntN(4096))
		if r.IntN(8) == 0 {
			f = ""
		}
		l = append(l, &otherArt{file: f, owner: owners[r.IntN(len(owners))], title: text(r), date: "1/02"})
	}
	return l
}

func genDrv(r *rand.Rand) *drv {
	k := &drv{failAt: -1, arts: map[string][]bbs.ArticleRecord{}, files: map[string][]byte{}}
	users := []string{"alice", "bob", "Alice", "al"}
	for i := r.IntN(4); i > 0; i-- {
		k.users = append(k.users, &otherUser{id: text(r)})
		k.favs = append(k.favs, &otherFav{})
	}
	seen := map[string]bool{}
	for i := r.IntN(5); i > 0; i-- {
		id := []string{"", "ALLPOST", "test", "Test", "SYSOP", text(r)}[r.IntN(6)]
		if seen[id] {
			continue
		}
		seen[id] = true
		k.boards = append(k.boards, &otherBoard{id: id})
		arts := genArts(r, users)
		k.arts[pth("BoardArticleRecordsPath", id)] = arts
		for _, a := range arts {
			var b bytes.Buffer
			for j := r.IntN(5); j > 0; j-- {
				if r.IntN(3) == 0 {
					fmt.Fprintf(&b, "plain text\n")
				} else {
					fmt.Fprintf(&b, "C %s: %s 0%d/1%d 1%d:0%d\n", users[r.IntN(4)], pick(r, letters, 5), 1+r.IntN(9), r.IntN(10), r.IntN(10), r.IntN(10))
				}
			}
			k.files[pth("BoardArticleFilePath", id, a.Filename())] = b.Bytes()
		}
	}
	if r.IntN(2) == 0 {
		for i := 1 + r.IntN(3); i > 0; i-- {
			k.ua = append(k.ua, &otherUA{n: i})
			k.uc = append(k.uc, &otherUC{n: i})
		}
	} else if r.IntN(2) == 0 {
		k.ua, k.uc = []bbs.UserArticleRecord{}, []bbs.UserCommentRecord{}
	}
	k.draft = randBytes(r, r.IntN(100))
	k.newBoard = &otherBoard{id: text(r)}
	k.newArt = &otherArt{file: text(r)}
	k.newName = text(r)
	return k
}

func genErr(r *rand.Rand) (error, bool) {
	switch r.IntN(7) {
	case 0:
		return &fs.PathError{Op: "open", Path: "x", Err: syscall.ENOENT}, true
	case 1:
		return fmt.Errorf("driver: %w", &fs.PathError{Op: "open", Path: "x", Err: syscall.ENOENT}), true
	case 2:
		return &fs.PathError{Op: "open", Path: "x", Err: syscall.EACCES}, false
	case 3:
		return errors.New("no such user"), false
	case 4:
		return errors.New(""), false
	case 5:
		return fmt.Errorf("%w", os.ErrClosed), false
	}
	return errors.New(pick(r, alnum, 10)), false
}

var drvNumber atomic.Int64
var drvNames = make(chan string, 100)

func openDrv(t *T, k *drv, mask int) *bbs.DB {
	// few names: a driver registered again takes the place of the former
	name := ""
	select {
	case name = <-drvNames:
	default:
		name = fmt.Sprintf("c31-%d", drvNumber.Add(1))
	}
	k.mask = mask
	bbs.Register(name, withCaps(k, mask))
	db, err := bbs.Open(name, "somewhere")
	t.Harness(err)
	select {
	case drvNames <- name:
	default:
	}
	k.calls = nil
	return db
}

func capList(mask int) string {
	var l []string
	for i, n := range capNames {
		if mask>>i&1 != 0 {
			l = append(l, n)
		}
	}
	return "[" + strings.Join(l, " ") + "]"
}

// runOp runs the operation; a panic is a violation.
func (op *dop) runOp(t *T, seed uint64, db *bbs.DB, k *drv, what string) (results []interface{}, check func() string, err error) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(failNow); ok {
				panic(e)
			}
			t.Fatalf("%s panics: %v, calls: %v", what, e, k.calls)
		}
	}()
	results, check, err = op.run(t, rand.New(rand.NewPCG(seed, 5)), db, k)
	if err == nil {
		c := check
		check = func() (s string) {
			defer func() {
				if e := recover(); e != nil {
					s = fmt.Sprintf("the result cannot be used: %v", e)
				}
			}()
			return c()
		}
	}
	return
}

func c31(t *T) {
	r := t.R
	op := &dops[t.Idx%len(dops)]
	mask := (t.Idx / len(dops)) % 32
	worldSeed, argSeed := r.Uint64(), r.Uint64()
	world := func() *drv { return genDrv(rand.New(rand.NewPCG(worldSeed, 9))) }
	what := fmt.Sprintf("%s with a driver of %s", op.name, capList(mask))

	// nothing fails
	k := world()
	db := openDrv(t, k, mask)
	_, check, err := op.runOp(t, argSeed, db, k, what)
	notImpl := op.name == "UpdateBoardRecord" || op.name == "ReadBoardRecord" || op.name == "RemoveBoardRecord"
	if op.needs&^mask != 0 {
		if err == nil {
			t.Fatalf("%s: no error, calls: %v", what, k.calls)
		}
		for _, c := range k.calls {
			if c.Write {
				t.Fatalf("%s: %s was called", what, c.Name)
			}
		}
		t.Count("missing_capability", 1)
	} else if err != nil {
		if !notImpl {
			t.Fatalf("%s: %v, calls: %v", what, err, k.calls)
		}
		for _, c := range k.calls {
			if c.Write {
				t.Fatalf("%s: an error and %s was called", what, c.Name)
			}
		}
	} else {
		if s := check(); s != "" {
			t.Fatalf("%s: %s", what, s)
		}
		t.Count("succeeded", 1)
	}
	n := len(k.calls)
	t.Max("driver_calls_of_one_operation", n)

	// each of its calls fails
	for i := 0; i < n; i++ {
		k := world()
		k.failAt = i
		var missing bool
		k.fail, missing = genErr(r)
		k.junk = r.IntN(2) == 0
		db := func() *bbs.DB { k.failAt = -1; defer func() { k.failAt = i }(); return openDrv(t, k, mask) }()
		results, check, err := op.runOp(t, argSeed, db, k, fmt.Sprintf("%s, call %d fails with %q,", what, i, k.fail))
		if len(k.calls) <= i {
			t.Fatalf("%s: it made %d calls, %d before", what, len(k.calls), n)
		}
		failed := k.calls[i]
		what := fmt.Sprintf("%s, %s%s fails with %q", what, failed.Name, failed.Args, k.fail)
		t.Count("failed_calls", 1)
		t.Nontrivial(op.name, mask, failed.Name, missing, k.junk)
		allowed := missing && (failed.Name == "ReadArticleRecordsFile" && (op.name == "ReadBoardArticleRecordsFile" || op.name == "GetUserArticleRecordFile" || op.name == "GetUserCommentRecordFile" || op.name == "GetBoardUserCommentRecord") ||
			failed.Name == "ReadBoardArticleFile" && (op.name == "GetBoardUserCommentRecord" || op.name == "GetUserCommentRecordFile"))
		// an article whose path cannot be told because it is gone may be skipped, too
		tolerated := missing && failed.Name == "GetBoardArticleFilePath" && (op.name == "GetBoardUserCommentRecord" || op.name == "GetUserCommentRecordFile")
		if err == nil {
			if !allowed && !tolerated {
				t.Fatalf("%s: no error, results %v, later calls %v", what, results, k.calls[i+1:])
			}
			if op.name == "ReadBoardArticleRecordsFile" {
				if l := results[0].([]bbs.ArticleRecord); len(l) != 0 {
					t.Fatalf("%s: %d articles", what, len(l))
				}
			} else if s := check(); s != "" {
				t.Fatalf("%s: %s", what, s)
			}
			t.Count("fallbacks", 1)
			continue
		}
		if allowed && k.fail.Error() != "" {
			// the documented fallback: an index or article which is gone is empty
			t.Fatalf("%s: %v", what, err)
		}
		for _, c := range k.calls[i+1:] {
			if c.Write {
				t.Fatalf("%s: then %s%s is called", what, c.Name, c.Args)
			}
		}
		if len(k.calls) > i+1 {
			t.Fatalf("%s: %d more calls: %v", what, len(k.calls)-i-1, k.calls[i+1:])
		}
	}
	t.Sample("%s: %d calls, each failed once", what, n)
}

// c31open: drivers which cannot be opened, unknown drivers.
func c31open(t *T) {
	r := t.R
	k := genDrv(r)
	name := fmt.Sprintf("c31open-%d", drvNumber.Add(1))
	if db, err := bbs.Open(name, text(r)); err == nil || db != nil {
		t.Fatalf("Open of an unknown driver: %v %v", db, err)
	}
	bbs.Register(name, withCaps(k, r.IntN(32)))
	k.failAt = 0
	k.fail, _ = genErr(r)
	arg := text(r)
	db, err := bbs.Open(name, arg)
	if err == nil || db != nil {
		t.Fatalf("Open fails with %q: %v %v", k.fail, db, err)
	}
	k.failAt, k.calls = -1, nil
	db, err = bbs.Open(name, arg)
	if err != nil || db == nil {
		t.Fatalf("Open: %v %v", db, err)
	}
	if s := k.did(cl("Open", arg)); s != "" {
		t.Fatalf("%s", s)
	}
	t.Nontrivial(arg, k.fail)
}

// c31pttbbs: records and arguments the pttbbs driver cannot use.
func c31pttbbs(t *T) {
	r := t.R
	h := genHome(t, "h", homeOpt{})
	db := openDB(t, h.dir)
	before := snapshot(t, h.dir, false)
	var what string
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(failNow); ok {
				panic(e)
			}
			t.Fatalf("%s panics: %v", what, e)
		}
	}()
	board := ""
	if len(h.boards) > 0 {
		board = h.boards[r.IntN(len(h.boards))].id
	}
	vals := []interface{}{nil, 1, 2.5, []byte("x"), []string{"x"}, true, struct{}{}, (*string)(nil), errors.New("x"), map[string]string{}}
	var err error
	var got interface{}
	c := &pttbbs.Connector{}
	t.Harness(c.Open(h.dir))
	switch r.IntN(8) {
	case 0:
		args := map[string]interface{}{}
		if r.IntN(3) == 0 {
			args = nil
		} else {
			if r.IntN(2) == 0 {
				args["board_id"], args["title"] = "x", vals[r.IntN(len(vals))]
			} else {
				args["title"], args["board_id"] = "x", vals[r.IntN(len(vals))]
			}
			if r.IntN(3) == 0 {
				delete(args, []string{"title", "board_id"}[r.IntN(2)])
			}
		}
		what = fmt.Sprintf("NewBoardRecord(%v)", args)
		var b bbs.BoardRecord
		b, err = db.NewBoardRecord(args)
		if b != nil && err != nil {
			got = b
		}
	case 1:
		what = "AddBoardRecord of another driver's board"
		err = db.AddBoardRecord(&otherBoard{id: "x"})
	case 2:
		what = "AddBoardRecord of no board"
		err = db.AddBoardRecord(nil)
	case 3:
		what = "AddArticleRecordFileRecord of another driver's article"
		err = db.AddArticleRecordFileRecord(board, &otherArt{file: "M.1.A.000"})
	case 4:
		what = "AddArticleRecordFileRecord of no article"
		err = db.AddArticleRecordFileRecord(board, nil)
	case 5:
		what = "UpdateArticleRecordFileRecord of another driver's article"
		err = c.UpdateArticleRecordFileRecord(h.index("x"), uint(r.IntN(3)), []bbs.ArticleRecord{nil, &otherArt{}}[r.IntN(2)])
	case 6:
		args := map[string]interface{}{"owner": "o", "date": "1/01", "title": "t", "board_id": board}
		k := []string{"owner", "date", "title", "board_id"}[r.IntN(4)]
		if r.IntN(2) == 0 {
			delete(args, k)
		} else {
			args[k] = vals[r.IntN(len(vals))]
		}
		what = fmt.Sprintf("NewArticleRecordWithMap(%v)", args)
		var a bbs.ArticleRecord
		a, err = c.NewArticleRecordWithMap(args)
		if a != nil && err != nil {
			got = a
		}
	case 7:
		what = "operations the driver does not have"
		for i := range make([]int, 3) {
			switch i {
			case 0:
				err = c.UpdateBoardRecordFileRecord(h.brd(), 0, &otherBoard{})
			case 1:
				_, err = c.ReadBoardRecordFileRecord(filepath.Join(h.dir, "none"), 0)
			case 2:
				err = c.RemoveBoardRecordFileRecord(filepath.Join(h.dir, "none"), 0)
			}
			if err == nil {
				break
			}
		}
	}
	if err == nil {
		t.Fatalf("%s: no error", what)
	}
	if got != nil {
		t.Fatalf("%s: a record and the error %v", what, err)
	}
	if d := diffSnap(before, snapshot(t, h.dir, false)); d != "" {
		t.Fatalf("%s: %v, but it changed %s", what, err, d)
	}
	t.Count("refused", 1)
	t.Nontrivial(what)
}

func init() {
	register(&Prop{ID: "C31", Level: "fault_enumeration",
		Rule:   "an operation with one combination of capabilities, and each call it makes to the driver failing once; nontrivial by operation, capabilities, failing call and kind of error",
		Assume: []string{"an article index or article which does not exist is the one documented fallback"},
		Groups: []Group{
			{Name: "driver", Quick: 32 * len(dops) * 20, Thorough: 32 * len(dops) * 2000, Fn: c31},
			{Name: "open", Quick: 200, Thorough: 10000, Fn: c31open},
			{Name: "arguments", Quick: 400, Thorough: 20000, Fn: c31pttbbs},
		}})
}
