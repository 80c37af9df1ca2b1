package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"

	"golang.org/x/text/encoding/traditionalchinese"
)

// tok is a character: its bytes in Big5-UAO and in UTF-8.
type tok struct {
	b []byte
	s string
}

var (
	poolOnce sync.Once
	poolTok  []tok             // two byte codes which convert one to one
	allCodes map[uint16]string // every valid two byte code
	encTab   map[rune][]byte
)

func initPool() {
	poolOnce.Do(func() {
		allCodes = map[uint16]string{}
		encTab = map[rune][]byte{}
		for hi := 0x81; hi <= 0xfe; hi++ {
			for lo := 0x40; lo <= 0xfe; lo++ {
				if lo >= 0x7f && lo <= 0xa0 {
					continue
				}
				b := []byte{byte(hi), byte(lo)}
				u, err := traditionalchinese.Big5.NewDecoder().Bytes(b)
				if err != nil || bytes.ContainsRune(u, '\uFFFD') || len(u) == 0 || u[0] < 0x80 {
					continue
				}
				allCodes[uint16(hi)<<8|uint16(lo)] = string(u)
				e, err := traditionalchinese.Big5.NewEncoder().Bytes(u)
				if err == nil && bytes.Equal(e, b) && len([]rune(string(u))) == 1 {
					poolTok = append(poolTok, tok{b, string(u)})
				}
			}
		}
		for r := rune(0x80); r <= 0x10ffff; r++ {
			if r >= 0xd800 && r < 0xe000 {
				continue
			}
			e, err := traditionalchinese.Big5.NewEncoder().Bytes([]byte(string(r)))
			if err == nil {
				encTab[r] = e
			}
		}
	})
}

// trailing bytes which are special characters in other places
var nastyTrail = []tok{}
var nastyOnce sync.Once

func bigTok(r *rand.Rand) tok {
	initPool()
	nastyOnce.Do(func() {
		for _, k := range poolTok {
			if bytes.IndexByte([]byte("\\|@[]^_`{}~"), k.b[1]) >= 0 {
				nastyTrail = append(nastyTrail, k)
			}
		}
	})
	if r.IntN(6) == 0 {
		return nastyTrail[r.IntN(len(nastyTrail))]
	}
	return poolTok[r.IntN(len(poolTok))]
}

// genText makes text of at most max bytes in Big5; ctl: with control characters.
func genText(r *rand.Rand, max int, ascii, ctl bool) (b []byte, s string) {
	n := max
	switch r.IntN(6) {
	case 0:
		n = 0
	case 1:
		n = max - 1
	case 2, 3:
		n = r.IntN(max + 1)
	}
	mix := r.IntN(4)
	var sb strings.Builder
	for len(b) < n {
		if !ascii && len(b)+2 <= n && (mix == 0 || mix != 1 && r.IntN(2) == 0) {
			k := bigTok(r)
			b = append(b, k.b...)
			sb.WriteString(k.s)
			continue
		}
		c := byte(0x20 + r.IntN(0x5f))
		if ctl && r.IntN(12) == 0 {
			c = byte(1 + r.IntN(0x1f))
		}
		b = append(b, c)
		sb.WriteByte(c)
	}
	return b, sb.String()
}

// fillText puts text into a field with garbage after its NUL and returns the
// text's bytes and the decoded string.
func fillText(r *rand.Rand, field []byte, ascii bool) ([]byte, string) {
	for i := range field {
		field[i] = byte(r.IntN(256))
	}
	if r.IntN(3) == 0 {
		for i := range field {
			field[i] = 0
		}
	}
	b, s := genText(r, len(field), ascii, true)
	copy(field, b)
	if len(b) < len(field) {
		field[len(b)] = 0
	}
	return b, s
}

func genU32(r *rand.Rand) uint32 {
	switch r.IntN(8) {
	case 0:
		return 0
	case 1:
		return []uint32{1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe}[r.IntN(13)]
	case 2:
		return 1 << r.IntN(32)
	case 3:
		return ^(uint32(1) << r.IntN(32))
	}
	return r.Uint32()
}

func genTime(r *rand.Rand) uint32 {
	if r.IntN(2) == 0 {
		return 1600000000 + uint32(r.IntN(100000000))
	}
	return genU32(r)
}

const (
	letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
	alnum   = letters + "0123456789"
)

func pick(r *rand.Rand, set string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = set[r.IntN(len(set))]
	}
	return string(b)
}

func genUser(r *rand.Rand) string {
	return pick(r, letters, 1) + pick(r, alnum, 1+r.IntN(11))
}

func genBoard(r *rand.Rand) string {
	return pick(r, letters, 1) + pick(r, alnum+"_-.", 1+r.IntN(11))
}

func randBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	for i := 0; i+8 <= n; i += 8 {
		binary.LittleEndian.PutUint64(b[i:], r.Uint64())
	}
	for i := n &^ 7; i < n; i++ {
		b[i] = byte(r.Uint32())
	}
	return b
}

func mkdirs(t *T, p string) string {
	t.Harness(os.MkdirAll(p, 0755))
	return p
}

func writeFile(t *T, p string, b []byte) {
	t.Harness(os.MkdirAll(filepath.Dir(p), 0755))
	t.Harness(os.WriteFile(p, b, 0644))
}

func readFile(t *T, p string) []byte {
	b, err := os.ReadFile(p)
	t.Harness(err)
	return b
}

// snapshot describes every file below dir: name, mode, content, and with
// meta also its inode and modification time.
func snapshot(t *T, dir string, meta bool) map[string]string {
	ret := map[string]string{}
	t.Harness(filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			if os.IsNotExist(err) {
				return nil
			}
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		s := fi.Mode().String()
		if fi.Mode().IsRegular() {
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			s += fmt.Sprintf(" %d %s", len(b), b)
		}
		if meta {
			st := fi.Sys().(*syscall.Stat_t)
			s += fmt.Sprintf(" ino=%d nlink=%d uid=%d mtime=%d ctime=%d", st.Ino, st.Nlink, st.Uid, fi.ModTime().UnixNano(), st.Ctim.Nano())
		}
		ret[rel] = s
		return nil
	}))
	return ret
}

// diffSnap describes how two snapshots differ, "" if they do not.
func diffSnap(a, b map[string]string) string {
	var d []string
	for k, v := range a {
		w, ok := b[k]
		if !ok {
			d = append(d, "removed "+k)
		} else if v != w {
			d = append(d, fmt.Sprintf("changed %s: %q -> %q", k, clip(v, 120), clip(w, 120)))
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			d = append(d, "created "+k)
		}
	}
	sort.Strings(d)
	return clip(strings.Join(d, "; "), 1500)
}

func hexdump(b []byte) string {
	if len(b) > 300 {
		return fmt.Sprintf("%x... (%d bytes)", b[:300], len(b))
	}
	return fmt.Sprintf("%x", b)
}

func firstDiff(a, b []byte) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return i
		}
	}
	if len(a) != len(b) {
		if len(a) < len(b) {
			return len(a)
		}
		return len(b)
	}
	return -1
}
