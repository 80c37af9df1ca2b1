package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand/v2"
	"path/filepath"
	"reflect"
	"strings"
	"time"

	bbs "github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
)

// favNode is an item of a favorites file.
type favNode struct {
	typ, attr  byte
	bid        uint32
	last, brdA uint32
	id         byte
	title      []byte // 49 bytes as stored
	titleText  []byte
	titleS     string
	kids       []*favNode
}

type favTree struct {
	version uint16
	root    []*favNode
}

func genFav(r *rand.Rand, depth, width int) *favTree {
	left := 1 + r.IntN(width*2)
	var mk func(d int) []*favNode
	mk = func(d int) []*favNode {
		var ret []*favNode
		n := r.IntN(width)
		if r.IntN(4) == 0 {
			n = r.IntN(3)
		}
		for i := 0; i < n && left > 0; i++ {
			left--
			x := &favNode{typ: byte(1 + r.IntN(3)), attr: byte(r.IntN(256))}
			if r.IntN(2) == 0 {
				x.attr = 1
			}
			if x.typ == 2 && d <= 0 {
				x.typ = 1
			}
			switch x.typ {
			case 1:
				x.bid, x.last, x.brdA = uint32(r.IntN(40)), genTime(r), genU32(r)
				if r.IntN(12) == 0 {
					x.bid = genU32(r)
				}
			case 2:
				x.id = byte(r.IntN(256))
				x.title = make([]byte, 49)
				x.titleText, x.titleS = fillText(r, x.title, false)
				x.kids = mk(d - 1)
			case 3:
				x.id = byte(r.IntN(256))
			}
			ret = append(ret, x)
		}
		return ret
	}
	return &favTree{version: uint16(r.IntN(1 << 16)), root: mk(r.IntN(depth + 1))}
}

func encFav(f *favTree) []byte {
	var w bytes.Buffer
	binary.Write(&w, binary.LittleEndian, f.version)
	var enc func(items []*favNode)
	enc = func(items []*favNode) {
		var nb uint16
		var nl, nf uint8
		for _, x := range items {
			switch x.typ {
			case 1:
				nb++
			case 2:
				nf++
			case 3:
				nl++
			}
		}
		binary.Write(&w, binary.LittleEndian, nb)
		w.Write([]byte{nl, nf})
		for _, x := range items {
			w.Write([]byte{x.typ, x.attr})
			switch x.typ {
			case 1:
				binary.Write(&w, binary.LittleEndian, []uint32{x.bid, x.last, x.brdA})
			case 2:
				w.WriteByte(x.id)
				w.Write(x.title)
			case 3:
				w.WriteByte(x.id)
			}
		}
		for _, x := range items {
			if x.typ == 2 {
				enc(x.kids)
			}
		}
	}
	enc(f.root)
	return w.Bytes()
}

const favLine = "------------------------------------------"

// checkFavItems compares what was read with what is stored; names gives the
// id of the board at a 1-based position, nil: not resolved.
func checkFavItems(t *T, got []bbs.FavoriteRecord, want []*favNode, names func(uint32) string, path string) int {
	t.Check(len(got) == len(want), "folder %q has %d items, stored are %d", path, len(got), len(want))
	n := 0
	for i, x := range want {
		y := got[i]
		p := fmt.Sprintf("%s/%d", path, i)
		n++
		switch x.typ {
		case 1:
			t.Check(y.Type() == bbs.FavoriteTypeBoard, "item %s is a board and its type is %v", p, y.Type())
			t.Check(y.Title() == "", "item %s is a board and has the title %q", p, y.Title())
			w := ""
			if names != nil {
				w = names(x.bid)
			}
			t.Check(y.BoardID() == w, "item %s is board %d: its id is %q, the board list has %q there", p, x.bid, y.BoardID(), w)
			t.Check(len(y.Records()) == 0, "item %s is a board with %d items", p, len(y.Records()))
		case 2:
			t.Check(y.Type() == bbs.FavoriteTypeFolder, "item %s is a folder and its type is %v", p, y.Type())
			t.Check(y.Title() == x.titleS, "folder %s has the title %q, stored is %q", p, y.Title(), x.titleS)
			t.Check(y.BoardID() == "", "folder %s has the board id %q", p, y.BoardID())
			n += checkFavItems(t, y.Records(), x.kids, names, p)
		case 3:
			t.Check(y.Type() == bbs.FavoriteTypeLine, "item %s is a line and its type is %v", p, y.Type())
			t.Check(y.Title() == favLine, "line %s has the title %q", p, y.Title())
			t.Check(y.BoardID() == "", "line %s has the board id %q", p, y.BoardID())
			t.Check(len(y.Records()) == 0, "line %s has items", p)
		}
	}
	return n
}

// checkFavFolder compares the exported structures.
func checkFavFolder(t *T, f *pttbbs.FavFolder, want []*favNode, path string) {
	t.Check(len(f.FavItems) == len(want), "folder %q has %d items, stored are %d", path, len(f.FavItems), len(want))
	var nb uint16
	var nl, nf uint8
	for i, x := range want {
		y := f.FavItems[i]
		p := fmt.Sprintf("%s/%d", path, i)
		t.Check(byte(y.FavType) == x.typ, "item %s has type %d, stored is %d", p, y.FavType, x.typ)
		t.Check(y.FavAttr == x.attr, "item %s has the attributes %#x, stored is %#x", p, y.FavAttr, x.attr)
		b, d, l := y.GetBoard(), y.GetFolder(), y.GetLine()
		t.Check((b != nil) == (x.typ == 1) && (d != nil) == (x.typ == 2) && (l != nil) == (x.typ == 3), "item %s of type %d is %T", p, x.typ, y.Item)
		switch x.typ {
		case 1:
			nb++
			t.Check(b.BoardID == x.bid && uint32(b.LastVisit.Unix()) == x.last && b.Attr == x.brdA,
				"board item %s is %d %d %#x, stored is %d %d %#x", p, b.BoardID, b.LastVisit.Unix(), b.Attr, x.bid, x.last, x.brdA)
		case 2:
			nf++
			t.Check(d.Title == x.titleS, "folder %s has the title %q, stored is %q", p, d.Title, x.titleS)
			t.Check(d.FolderID == nf, "folder %s has the number %d, it is folder %d of its folder", p, d.FolderID, nf)
			t.Check(d.ThisFolder != nil, "folder %s has no contents", p)
			checkFavFolder(t, d.ThisFolder, x.kids, p)
		case 3:
			nl++
			t.Check(l.LineID == nl, "line %s has the number %d, it is line %d of its folder", p, l.LineID, nl)
		}
	}
	t.Check(f.NBoards == nb && f.NLines == nl && f.NFolders == nf, "folder %q counts %d boards, %d lines, %d folders; it has %d, %d, %d", path, f.NBoards, f.NLines, f.NFolders, nb, nl, nf)
}

// renumber is the tree as it is written: lines and folders in sequence.
func renumber(items []*favNode) []*favNode {
	var nl, nf byte
	var ret []*favNode
	for _, x := range items {
		y := *x
		switch x.typ {
		case 2:
			nf++
			y.id = nf
			y.title = make([]byte, 49)
			copy(y.title, x.titleText)
			y.kids = renumber(x.kids)
		case 3:
			nl++
			y.id = nl
		}
		ret = append(ret, &y)
	}
	return ret
}

func c05(t *T) {
	r := t.R
	tree := genFav(r, 6, 40)
	if r.IntN(40) == 0 { // very deep
		tree.root = nil
		cur := &tree.root
		for i := 0; i < 100+r.IntN(500); i++ {
			b, s := genText(r, 49, false, false)
			x := &favNode{typ: 2, title: append(append([]byte{}, b...), make([]byte, 49-len(b))...), titleText: b, titleS: s}
			*cur = append(*cur, x)
			cur = &x.kids
		}
	}
	if r.IntN(20) == 0 { // very wide
		tree.root = nil
		n := 200 + r.IntN(3000)
		if r.IntN(3) == 0 {
			n = r.IntN(1 << 14)
		}
		left := 255
		for i := 0; i < n; i++ {
			if left > 0 && r.IntN(1+n/200) == 0 {
				left--
				b, s := genText(r, 49, false, false)
				x := &favNode{typ: 2, attr: 1, title: append(append([]byte{}, b...), make([]byte, 49-len(b))...), titleText: b, titleS: s}
				if x.kids = genFav(r, 3, 10).root; r.IntN(60) == 0 {
					for k := r.IntN(8000); k > 0; k-- {
						x.kids = append(x.kids, &favNode{typ: 1, attr: 1, bid: uint32(r.IntN(50))})
					}
				}
				tree.root = append(tree.root, x)
			}
			tree.root = append(tree.root, &favNode{typ: 1, attr: 1, bid: uint32(r.IntN(50)), last: genTime(r), brdA: genU32(r)})
		}
	}
	if r.IntN(10) == 0 { // many lines and folders
		tree.root = nil
		for i := 0; i < 255; i++ {
			tree.root = append(tree.root, &favNode{typ: 3, attr: byte(i), id: byte(r.IntN(256))})
			if r.IntN(2) == 0 {
				tree.root = append(tree.root, &favNode{typ: 1, attr: 1, bid: uint32(i)})
			}
		}
		for i := 0; i < 127+r.IntN(128); i++ {
			b, s := genText(r, 49, false, false)
			x := &favNode{typ: 2, attr: 1, title: append(append([]byte{}, b...), make([]byte, 49-len(b))...), titleText: b, titleS: s}
			if r.IntN(3) == 0 {
				x.kids = []*favNode{{typ: 3, attr: 1}, {typ: 1, bid: uint32(i)}}
			}
			k := r.IntN(len(tree.root) + 1)
			tree.root = append(tree.root[:k:k], append([]*favNode{x}, tree.root[k:]...)...)
		}
	}
	if r.IntN(500) == 0 { // as many items as a folder can count
		tree.root = nil
		for i := 65535 - r.IntN(3); i > 0; i-- {
			tree.root = append(tree.root, &favNode{typ: 1, attr: 1, bid: uint32(r.IntN(50)), last: genTime(r), brdA: genU32(r)})
		}
		for i := r.IntN(256); i > 0; i-- {
			tree.root[r.IntN(200)] = &favNode{typ: 3, attr: 1}
		}
		for i := r.IntN(255); i > 0; i-- {
			tree.root = append(tree.root, &favNode{typ: 1, attr: 3, bid: uint32(i)})
		}
		for n := 0; ; { // not more boards than fit
			n = 0
			for _, x := range tree.root {
				if x.typ == 1 {
					n++
				}
			}
			if n <= 65535 {
				break
			}
			tree.root = tree.root[:len(tree.root)-1]
		}
		t.Count("full_folders", 1)
	}
	boards := r.IntN(45)
	if r.IntN(20) == 0 {
		boards = 250 + r.IntN(500)
	}
	if r.IntN(1000) == 0 {
		boards = 65530 + r.IntN(20)
	}
	var all func(items []*favNode)
	all = func(items []*favNode) {
		for _, x := range items {
			if x.typ == 1 && boards > 45 && r.IntN(3) > 0 {
				x.bid = uint32(r.IntN(boards + 3))
				if r.IntN(4) == 0 {
					x.bid = uint32(boards - r.IntN(4))
				}
			}
			all(x.kids)
		}
	}
	all(tree.root)
	for i := r.IntN(6); i > 3; i-- { // the whole in a folder
		b, s := genText(r, 49, false, false)
		x := &favNode{typ: 2, attr: 1, title: append(append([]byte{}, b...), make([]byte, 49-len(b))...), titleText: b, titleS: s, kids: tree.root}
		tree.root = []*favNode{{typ: 3, attr: 1}, x, {typ: 1, attr: 1, bid: uint32(1 + r.IntN(40))}}
	}
	data := encFav(tree)
	in := append([]byte{}, data...)
	f, err := pttbbs.UnmarshalFavFile(in)
	t.Check(err == nil, "reading favorites of %d bytes: %v", len(data), err)
	t.Check(bytes.Equal(in, data), "reading changed the buffer")
	t.Check(f.Version == tree.version, "version is %d, stored is %d", f.Version, tree.version)
	checkFavFolder(t, f.Folder, tree.root, "")
	for i := range in {
		in[i] ^= 0x55
	}
	checkFavFolder(t, f.Folder, tree.root, "(after the buffer changed)")

	// written back
	want := encFav(&favTree{tree.version, renumber(tree.root)})
	out, err := f.MarshalBinary()
	t.Check(err == nil, "writing: %v", err)
	t.Check(len(out) == len(want), "written are %d bytes, the tree has %d", len(out), len(want))
	// padding after a title's end is free
	f2, err := pttbbs.UnmarshalFavFile(out)
	t.Check(err == nil, "reading what was written: %v", err)
	t.Check(f2.Version == tree.version, "version is %d after writing, was %d", f2.Version, tree.version)
	checkFavFolder(t, f2.Folder, tree.root, "(written)")
	t.Check(reflect.DeepEqual(f.Folder, f2.Folder), "the tree which was written and read differs")
	t.Check(bytes.Equal(clearTitles(out), clearTitles(want)), "the written bytes differ at %d:\n%x\n%x", firstDiff(out, want), clip(string(out), 200), clip(string(want), 200))

	// through the database, with a board list
	h := newHome(t, "h")
	n := boards
	var brd []byte
	var names []string
	for i := 0; i < n; i++ {
		id := genBoard(r)
		if r.IntN(10) == 0 {
			brd, names = append(brd, make([]byte, 256)...), append(names, "")
			continue
		}
		brd, names = append(brd, nameRecord(t, boardType, "brdname", id)...), append(names, id)
	}
	user := genUser(r)
	writeFile(t, h.brd(), brd)
	writeFile(t, filepath.Join(h.userDir(user), ".fav"), data)
	lookup := func(bid uint32) string {
		if bid >= 1 && uint64(bid) <= uint64(len(names)) {
			return names[bid-1]
		}
		return ""
	}
	for round := 0; round < 2; round++ {
		recs, err := h.db.ReadUserFavoriteRecords(user)
		t.Check(err == nil, "ReadUserFavoriteRecords: %v", err)
		items := checkFavItems(t, recs, tree.root, lookup, "")
		t.Count("items", items)
	}
	other := genUser(r)
	if other != user {
		recs, err := h.db.ReadUserFavoriteRecords(other)
		t.Check(len(recs) == 0, "a user without favorites has %d (%v)", len(recs), err)
	}
	if len(tree.root) > 0 {
		t.Nontrivial(data, strings.Join(names, "/"))
	}
	t.Max("depth", favDepth(tree.root))
	t.Sample("%d bytes, %d top items, depth %d, %d boards", len(data), len(tree.root), favDepth(tree.root), n)
}

func favDepth(items []*favNode) int {
	d := 0
	for _, x := range items {
		if x.typ == 2 {
			d = max(d, 1+favDepth(x.kids))
		}
	}
	return d
}

// clearTitles clears what follows the end of titles.
func clearTitles(b []byte) []byte {
	b = append([]byte{}, b...)
	pos := 2
	var folder func()
	folder = func() {
		if pos+4 > len(b) {
			return
		}
		n := int(binary.LittleEndian.Uint16(b[pos:])) + int(b[pos+2]) + int(b[pos+3])
		pos += 4
		sub := 0
		for i := 0; i < n && pos+2 < len(b); i++ {
			switch b[pos] {
			case 1:
				pos += 14
			case 3:
				pos += 3
			case 2:
				sub++
				if pos+52 > len(b) {
					return
				}
				ttl := b[pos+3 : pos+52]
				if k := bytes.IndexByte(ttl, 0); k >= 0 {
					for ; k < len(ttl); k++ {
						ttl[k] = 0
					}
				}
				pos += 52
			default:
				return
			}
		}
		for i := 0; i < sub; i++ {
			folder()
		}
	}
	folder()
	return b
}

// c05change writes a tree which was built or changed in memory.
func c05change(t *T) {
	r := t.R
	tree := genFav(r, 4, 20)
	f, err := pttbbs.UnmarshalFavFile(encFav(tree))
	t.Check(err == nil, "reading: %v", err)
	ops := 1 + r.IntN(6)
	var all []*favNode
	var collect func(a []*favNode, b []*pttbbs.FavItem)
	var items []*pttbbs.FavItem
	collect = func(a []*favNode, b []*pttbbs.FavItem) {
		for i := range a {
			all, items = append(all, a[i]), append(items, b[i])
			if a[i].typ == 2 {
				collect(a[i].kids, b[i].GetFolder().ThisFolder.FavItems)
			}
		}
	}
	collect(tree.root, f.Folder.FavItems)
	if len(all) == 0 {
		return
	}
	for k := 0; k < ops; k++ {
		i := r.IntN(len(all))
		x, y := all[i], items[i]
		switch r.IntN(6) {
		case 0:
			x.attr = byte(r.IntN(256))
			y.FavAttr = x.attr
		case 3:
			if x.typ == 1 {
				x.last = genTime(r)
				y.GetBoard().LastVisit = time.Unix(int64(x.last), 0)
				if r.IntN(3) == 0 {
					x.last, y.GetBoard().LastVisit = 0, time.Time{}
				}
			}
		case 4: // a new item
			fd, kids := f.Folder, &tree.root
			if x.typ == 2 && r.IntN(4) > 0 {
				fd, kids = y.GetFolder().ThisFolder, &x.kids
			}
			at := r.IntN(len(*kids) + 1)
			nx, ny := &favNode{typ: byte(1 + r.IntN(3)), attr: byte(r.IntN(256))}, &pttbbs.FavItem{}
			switch nx.typ {
			case 1:
				nx.bid = uint32(1 + r.IntN(100))
				ny.Item = &pttbbs.FavBoardItem{BoardID: nx.bid}
				fd.NBoards++
			case 2:
				nx.titleText, nx.titleS = genText(r, 49, false, false)
				ny.Item = &pttbbs.FavFolderItem{Title: nx.titleS, ThisFolder: &pttbbs.FavFolder{}}
				fd.NFolders++
			case 3:
				ny.Item = &pttbbs.FavLineItem{}
				fd.NLines++
			}
			ny.FavType, ny.FavAttr = pttbbs.FavItemType(nx.typ), nx.attr
			*kids = append((*kids)[:at:at], append([]*favNode{nx}, (*kids)[at:]...)...)
			fd.FavItems = append(fd.FavItems[:at:at], append([]*pttbbs.FavItem{ny}, fd.FavItems[at:]...)...)
			t.Count("new_items", 1)
		case 5: // the first item goes
			if x.typ != 2 || len(x.kids) == 0 || r.IntN(3) > 0 {
				continue
			}
			fd := y.GetFolder().ThisFolder
			switch x.kids[0].typ {
			case 1:
				fd.NBoards--
			case 2:
				fd.NFolders--
			case 3:
				fd.NLines--
			}
			x.kids, fd.FavItems = x.kids[1:], fd.FavItems[1:]
			t.Count("removed_items", 1)
		case 1:
			if x.typ == 1 {
				x.bid, x.brdA = genU32(r), genU32(r)
				y.GetBoard().BoardID, y.GetBoard().Attr = x.bid, x.brdA
			}
		case 2:
			if x.typ == 2 {
				b, s := genText(r, 49, false, false)
				x.titleText, x.titleS = b, s
				x.title = append(append([]byte{}, b...), make([]byte, 49-len(b))...)
				y.GetFolder().Title = s
			}
		}
	}
	out, err := f.MarshalBinary()
	t.Check(err == nil, "writing: %v", err)
	f2, err := pttbbs.UnmarshalFavFile(out)
	t.Check(err == nil, "reading what was written: %v", err)
	checkFavFolder(t, f2.Folder, tree.root, "")
	t.Count("changed_trees", 1)
	t.Nontrivial(out)
	favUnwritable(t, f)
}

// favUnwritable puts something that cannot be written in the place of an item
// at any depth: the file is refused, and not written without the item.
func favUnwritable(t *T, f *pttbbs.FavFile) {
	r := t.R
	var all []*pttbbs.FavItem
	var walk func(*pttbbs.FavFolder)
	walk = func(d *pttbbs.FavFolder) {
		all = append(all, d.FavItems...)
		for _, it := range d.FavItems {
			if x, ok := it.Item.(*pttbbs.FavFolderItem); ok {
				walk(x.ThisFolder)
			}
		}
	}
	walk(f.Folder)
	if len(all) == 0 {
		return
	}
	it := all[r.IntN(len(all))]
	if r.IntN(2) == 0 {
		it = all[len(all)-1] // the deepest of the last ones
	}
	switch r.IntN(4) {
	case 0:
		it.Item = nil
	case 1:
		it.Item = "an item"
	case 2:
		it.Item = struct{ LineID uint8 }{1}
	default:
		it.Item = failingItem{}
	}
	out, err := f.MarshalBinary()
	t.Check(err != nil, "an item holding %T cannot be written, yet MarshalBinary gives %d bytes and no error", it.Item, len(out))
	t.Count("unwritable_items", 1)
}

type failingItem struct{}

func (failingItem) MarshalBinary() ([]byte, error) {
	return []byte("x"), errors.New("failingItem")
}

func init() {
	register(&Prop{ID: "C05", Rule: "a case is a generated favorites tree (nested, deep, wide, many lines) with garbage after titles and a board list, read from memory and through the database, written and read again; distinct trees with at least one item are counted",
		Assume: []string{"the file format is the one of pttbbs fav.c as documented in fav.go", "folder titles hold valid Big5-UAO"}, Groups: []Group{
			{Name: "trees", Quick: 3000, Thorough: 150000, Fn: c05},
			{Name: "changed", Quick: 3000, Thorough: 150000, Fn: c05change},
		}})
}
