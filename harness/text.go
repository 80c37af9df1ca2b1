package main

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	bbs "github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/crypt"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
)

// ---- C09 text conversion

// runes which Big5-UAO does not have, of every UTF-8 length
func foreign(r *rand.Rand) string {
	initPool()
	for {
		c := rune(0x80 + r.IntN([]int{0x780, 0xf780, 0x10ff00}[r.IntN(3)]))
		if _, ok := encTab[c]; !ok && (c < 0xd800 || c >= 0xe000) {
			return string(c)
		}
	}
}

func c09code(t *T) { // every two byte code, alone and between neighbours
	initPool()
	hi := 0x81 + t.Idx
	sub := bbs.Utf8ToBig5("\U0001F600")
	for lo := 0; lo <= 0xff; lo++ {
		code := uint16(hi)<<8 | uint16(lo)
		want, ok := allCodes[code]
		b := []byte{byte(hi), byte(lo)}
		if !ok {
			s := bbs.Big5ToUtf8(append(append([]byte("<"), b...), "\n>"...))
			t.Check(utf8.ValidString(s) && strings.HasPrefix(s, "<") && strings.HasSuffix(s, "\n>"), "the bytes %x between ASCII become %q", b, s)
			t.Count("codes_without_character", 1)
			continue
		}
		for _, ctx := range [][2]tok{{}, {{[]byte("A"), "A"}, {[]byte("z"), "z"}}, {bigTok(t.R), bigTok(t.R)}, {{}, {[]byte("@"), "@"}}} {
			in := append(append(append([]byte{}, ctx[0].b...), b...), ctx[1].b...)
			w := ctx[0].s + want + ctx[1].s
			got := bbs.Big5ToUtf8(in)
			t.Check(got == w, "the bytes %x become %q, should be %q", in, got, w)
			t.Count("codes", 1)
		}
	}
	_ = sub
	t.Nontrivial(hi)
}

func c09rune(t *T) { // every character of Unicode
	initPool()
	n := 0x110000 / 272
	lo := rune(t.Idx * n)
	for r := lo; r < lo+rune(n); r++ {
		if r >= 0xd800 && r < 0xe000 || r == 0 {
			continue
		}
		in := "a" + string(r) + "Z"
		got := bbs.Utf8ToBig5(in)
		e, ok := encTab[r]
		if r < 0x80 {
			e, ok = []byte{byte(r)}, true
		}
		if ok {
			w := append(append([]byte("a"), e...), 'Z')
			t.Check(bytes.Equal(got, w), "%q becomes %x, should be %x", in, got, w)
			t.Count("characters_encoded", 1)
			if s := bbs.Big5ToUtf8(got); len(allCodes[code2(e)]) == len(string(r)) || r < 0x80 {
				t.Check(s == in || allCodes[code2(e)] != string(r), "%q becomes %x and back %q", in, got, s)
			}
		} else {
			t.Check(bytes.HasPrefix(got, []byte("a")) && bytes.HasSuffix(got, []byte("Z")) && len(got) >= 3 && len(got) <= 4, "%q (U+%04X is not in Big5) becomes %x: want one substitute between a and Z", in, r, got)
			t.Count("characters_substituted", 1)
		}
	}
	t.Nontrivial(t.Idx)
}

func code2(e []byte) uint16 {
	if len(e) != 2 {
		return 0
	}
	return uint16(e[0])<<8 | uint16(e[1])
}

var textLens = []int{0, 1, 2, 3, 127, 128, 129, 255, 256, 511, 512, 1023, 1024, 2047, 2048, 4090, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 65535, 65536, 65537, 131072, 300000}

func drawLen(r *rand.Rand, max int) int {
	if r.IntN(3) == 0 {
		n := textLens[r.IntN(len(textLens))] + r.IntN(5) - 2
		if n < 0 {
			n = 0
		}
		if n > max {
			n = max
		}
		return n
	}
	return r.IntN(300)
}

func c09text(t *T) { // random text both ways, with characters Big5 does not have
	r := t.R
	n := drawLen(r, 300000)
	var u strings.Builder
	var b []byte
	sub := bbs.Utf8ToBig5("\U0001F600")
	t.Check(len(sub) == 1 || len(sub) == 2, "the substitute for a character is %x", sub)
	rate := []int{0, 3, 20, 200}[r.IntN(4)]
	subs := 0
	mode := r.IntN(4)
	for len(b) < n {
		switch {
		case rate > 0 && r.IntN(rate) == 0:
			u.WriteString(foreign(r))
			b = append(b, sub...)
			subs++
		case mode != 0 && (mode == 1 || r.IntN(2) == 0):
			k := bigTok(r)
			u.WriteString(k.s)
			b = append(b, k.b...)
		default:
			c := byte(r.IntN(128))
			u.WriteByte(c)
			b = append(b, c)
		}
	}
	in := u.String()
	got := bbs.Utf8ToBig5(in)
	if !bytes.Equal(got, b) {
		i := firstDiff(got, b)
		t.Fatalf("text of %d bytes becomes %d bytes of Big5, should be %d; first difference at %d: %x, should be %x", len(in), len(got), len(b), i, clip(string(got[min(i, len(got)):]), 20), clip(string(b[min(i, len(b)):]), 20))
	}
	if subs == 0 {
		back := bbs.Big5ToUtf8(got)
		if back != in {
			i := firstDiff([]byte(back), []byte(in))
			t.Fatalf("text of %d bytes comes back as %d bytes, first difference at %d: %q, should be %q", len(in), len(back), i, clip(back[min(i, len(back)):], 20), clip(in[min(i, len(in)):], 20))
		}
		t.Count("round_trips", 1)
	}
	t.Count("substitutions", subs)
	t.Max("text_bytes", len(in))
	t.Nontrivial(in)
}

func c09bytes(t *T) { // any bytes
	r := t.R
	b := randBytes(r, drawLen(r, 100000))
	if r.IntN(2) == 0 { // mostly well formed
		s, _ := genText(r, len(b), false, true)
		b = s
		for k := r.IntN(8); k >= 0 && len(b) > 0; k-- {
			b[r.IntN(len(b))] = byte(r.IntN(256))
		}
	}
	tail := "\nEND\u6f22\u5b57\n"
	in := append(append([]byte{}, b...), append([]byte("\nEND"), bbs.Utf8ToBig5("\u6f22\u5b57\n")...)...)
	orig := append([]byte{}, in...)
	s := bbs.Big5ToUtf8(in)
	t.Check(bytes.Equal(in, orig), "the conversion changed its argument")
	t.Check(utf8.ValidString(s), "%x becomes invalid UTF-8: %q", b, clip(s, 300))
	t.Check(strings.HasSuffix(s, tail), "%x followed by %q becomes text which ends with %q", clip(string(b), 200), tail, s[max(0, len(s)-40):])
	t.Check(bbs.Big5ToUtf8(b)+tail == s, "%x becomes %q alone and %q before other text", clip(string(b), 200), clip(bbs.Big5ToUtf8(b), 300), clip(s, 300))
	// bytes below 0x40 are never part of a two byte code
	low := func(p []byte) []byte {
		var o []byte
		for _, c := range p {
			if c < 0x40 {
				o = append(o, c)
			}
		}
		return o
	}
	t.Check(bytes.Equal(low(in), low([]byte(s))), "%x becomes %q: ASCII bytes are not kept", clip(string(b), 200), clip(s, 300))
	// invalid UTF-8 in: what is around it stays
	mid := string(randBytes(r, r.IntN(12)))
	e := bbs.Utf8ToBig5("\u6f22a\n" + mid + "\n\u5b57z")
	p, q := append(append([]byte{}, encTab['\u6f22']...), "a\n"...), append(append([]byte("\n"), encTab['\u5b57']...), 'z')
	t.Check(bytes.HasPrefix(e, p) && bytes.HasSuffix(e, q), "text around %x becomes %x", mid, e)
	t.Nontrivial(b)
}

// ---- C11, C12 crypt

const saltChars = "./0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"

var (
	desIP = []int{58, 50, 42, 34, 26, 18, 10, 2, 60, 52, 44, 36, 28, 20, 12, 4, 62, 54, 46, 38, 30, 22, 14, 6, 64, 56, 48, 40, 32, 24, 16, 8,
		57, 49, 41, 33, 25, 17, 9, 1, 59, 51, 43, 35, 27, 19, 11, 3, 61, 53, 45, 37, 29, 21, 13, 5, 63, 55, 47, 39, 31, 23, 15, 7}
	desFP = []int{40, 8, 48, 16, 56, 24, 64, 32, 39, 7, 47, 15, 55, 23, 63, 31, 38, 6, 46, 14, 54, 22, 62, 30, 37, 5, 45, 13, 53, 21, 61, 29,
		36, 4, 44, 12, 52, 20, 60, 28, 35, 3, 43, 11, 51, 19, 59, 27, 34, 2, 42, 10, 50, 18, 58, 26, 33, 1, 41, 9, 49, 17, 57, 25}
	desE = []int{32, 1, 2, 3, 4, 5, 4, 5, 6, 7, 8, 9, 8, 9, 10, 11, 12, 13, 12, 13, 14, 15, 16, 17, 16, 17, 18, 19, 20, 21, 20, 21, 22, 23, 24, 25, 24, 25, 26, 27, 28, 29, 28, 29, 30, 31, 32, 1}
	desP = []int{16, 7, 20, 21, 29, 12, 28, 17, 1, 15, 23, 26, 5, 18, 31, 10, 2, 8, 24, 14, 32, 27, 3, 9, 19, 13, 30, 6, 22, 11, 4, 25}
	desS = [8][64]int{
		{14, 4, 13, 1, 2, 15, 11, 8, 3, 10, 6, 12, 5, 9, 0, 7, 0, 15, 7, 4, 14, 2, 13, 1, 10, 6, 12, 11, 9, 5, 3, 8, 4, 1, 14, 8, 13, 6, 2, 11, 15, 12, 9, 7, 3, 10, 5, 0, 15, 12, 8, 2, 4, 9, 1, 7, 5, 11, 3, 14, 10, 0, 6, 13},
		{15, 1, 8, 14, 6, 11, 3, 4, 9, 7, 2, 13, 12, 0, 5, 10, 3, 13, 4, 7, 15, 2, 8, 14, 12, 0, 1, 10, 6, 9, 11, 5, 0, 14, 7, 11, 10, 4, 13, 1, 5, 8, 12, 6, 9, 3, 2, 15, 13, 8, 10, 1, 3, 15, 4, 2, 11, 6, 7, 12, 0, 5, 14, 9},
		{10, 0, 9, 14, 6, 3, 15, 5, 1, 13, 12, 7, 11, 4, 2, 8, 13, 7, 0, 9, 3, 4, 6, 10, 2, 8, 5, 14, 12, 11, 15, 1, 13, 6, 4, 9, 8, 15, 3, 0, 11, 1, 2, 12, 5, 10, 14, 7, 1, 10, 13, 0, 6, 9, 8, 7, 4, 15, 14, 3, 11, 5, 2, 12},
		{7, 13, 14, 3, 0, 6, 9, 10, 1, 2, 8, 5, 11, 12, 4, 15, 13, 8, 11, 5, 6, 15, 0, 3, 4, 7, 2, 12, 1, 10, 14, 9, 10, 6, 9, 0, 12, 11, 7, 13, 15, 1, 3, 14, 5, 2, 8, 4, 3, 15, 0, 6, 10, 1, 13, 8, 9, 4, 5, 11, 12, 7, 2, 14},
		{2, 12, 4, 1, 7, 10, 11, 6, 8, 5, 3, 15, 13, 0, 14, 9, 14, 11, 2, 12, 4, 7, 13, 1, 5, 0, 15, 10, 3, 9, 8, 6, 4, 2, 1, 11, 10, 13, 7, 8, 15, 9, 12, 5, 6, 3, 0, 14, 11, 8, 12, 7, 1, 14, 2, 13, 6, 15, 0, 9, 10, 4, 5, 3},
		{12, 1, 10, 15, 9, 2, 6, 8, 0, 13, 3, 4, 14, 7, 5, 11, 10, 15, 4, 2, 7, 12, 9, 5, 6, 1, 13, 14, 0, 11, 3, 8, 9, 14, 15, 5, 2, 8, 12, 3, 7, 0, 4, 10, 1, 13, 11, 6, 4, 3, 2, 12, 9, 5, 15, 10, 11, 14, 1, 7, 6, 0, 8, 13},
		{4, 11, 2, 14, 15, 0, 8, 13, 3, 12, 9, 7, 5, 10, 6, 1, 13, 0, 11, 7, 4, 9, 1, 10, 14, 3, 5, 12, 2, 15, 8, 6, 1, 4, 11, 13, 12, 3, 7, 14, 10, 15, 6, 8, 0, 5, 9, 2, 6, 11, 13, 8, 1, 4, 10, 7, 9, 5, 0, 15, 14, 2, 3, 12},
		{13, 2, 8, 4, 6, 15, 11, 1, 10, 9, 3, 14, 5, 0, 12, 7, 1, 15, 13, 8, 10, 3, 7, 4, 12, 5, 6, 11, 0, 14, 9, 2, 7, 11, 4, 1, 9, 12, 14, 2, 0, 6, 10, 13, 15, 3, 5, 8, 2, 1, 14, 7, 4, 10, 8, 13, 15, 12, 9, 0, 3, 5, 6, 11},
	}
	desPC1 = []int{57, 49, 41, 33, 25, 17, 9, 1, 58, 50, 42, 34, 26, 18, 10, 2, 59, 51, 43, 35, 27, 19, 11, 3, 60, 52, 44, 36,
		63, 55, 47, 39, 31, 23, 15, 7, 62, 54, 46, 38, 30, 22, 14, 6, 61, 53, 45, 37, 29, 21, 13, 5, 28, 20, 12, 4}
	desPC2 = []int{14, 17, 11, 24, 1, 5, 3, 28, 15, 6, 21, 10, 23, 19, 12, 4, 26, 8, 16, 7, 27, 20, 13, 2,
		41, 52, 31, 37, 47, 55, 30, 40, 51, 45, 33, 48, 44, 49, 39, 56, 34, 53, 46, 42, 50, 36, 29, 32}
	desShift = []int{1, 1, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 1}
)

func perm(in []byte, table []int) []byte {
	out := make([]byte, len(table))
	for i, p := range table {
		out[i] = in[p-1]
	}
	return out
}

// refCrypt is the traditional DES crypt, one bit a byte, from the standard.
func refCrypt(key []byte, salt string) string {
	kb := make([]byte, 64)
	for i := 0; i < 8 && i < len(key) && key[i] != 0; i++ {
		for j := 0; j < 7; j++ {
			kb[8*i+j] = key[i] >> (6 - j) & 1
		}
	}
	cd := perm(kb, desPC1)
	var ks [16][]byte
	for r := 0; r < 16; r++ {
		for s := 0; s < desShift[r]; s++ {
			c0, d0 := cd[0], cd[28]
			copy(cd[:27], cd[1:28])
			cd[27] = c0
			copy(cd[28:55], cd[29:56])
			cd[55] = d0
		}
		ks[r] = perm(cd, desPC2)
	}
	e := append([]int{}, desE...)
	for i := 0; i < 2; i++ {
		v := strings.IndexByte(saltChars, salt[i])
		for j := 0; j < 6; j++ {
			if v>>j&1 == 1 {
				e[6*i+j], e[6*i+j+24] = e[6*i+j+24], e[6*i+j]
			}
		}
	}
	block := make([]byte, 64)
	for n := 0; n < 25; n++ {
		b := perm(block, desIP)
		l, r := append([]byte{}, b[:32]...), append([]byte{}, b[32:]...)
		for k := 0; k < 16; k++ {
			x := perm(r, e)
			var f []byte
			for s := 0; s < 8; s++ {
				for j := 0; j < 6; j++ {
					x[6*s+j] ^= ks[k][6*s+j]
				}
				y := x[6*s : 6*s+6]
				v := desS[s][int(y[0])<<5|int(y[5])<<4|int(y[1])<<3|int(y[2])<<2|int(y[3])<<1|int(y[4])]
				f = append(f, byte(v>>3&1), byte(v>>2&1), byte(v>>1&1), byte(v&1))
			}
			f = perm(f, desP)
			for i := range f {
				f[i] ^= l[i]
			}
			l, r = r, f
		}
		block = perm(append(append([]byte{}, r...), l...), desFP)
	}
	out := []byte(salt[:2])
	bits := append(append([]byte{}, block...), 0, 0)
	for i := 0; i < 11; i++ {
		v := 0
		for j := 0; j < 6; j++ {
			v = v<<1 | int(bits[6*i+j])
		}
		out = append(out, saltChars[v])
	}
	return string(out)
}

var cryptOnce sync.Once
var cryptErr error

// the reference is itself checked against known results and the C library
func checkRefCrypt(t *T) {
	cryptOnce.Do(func() {
		for _, v := range [][3]string{{"foob", "ar", "arlEKn0OzVJn."}, {"U*U*U*U*", "CC", "CCNf8Sbh3HDfQ"}, {"U*U***U", "CC", "CCX.K.MFy4Ois"}, {"", "SD", "SDbsugeBiC58A"}} {
			if g := refCrypt([]byte(v[0]), v[1]); v[0] != "" && g != v[2] {
				cryptErr = fmt.Errorf("reference crypt(%q,%q) = %s, should be %s", v[0], v[1], g, v[2])
			}
		}
		for i := 0; i < 20; i++ {
			k, s := pick(t.R, alnum+"!@#$%^&*() ", t.R.IntN(12)), pick(t.R, saltChars, 2)
			out, err := exec.Command("perl", "-e", "print crypt($ARGV[0],$ARGV[1])", k, s).Output()
			if err != nil || len(out) != 13 {
				return // no such function here
			}
			if g := refCrypt([]byte(k), s); g != string(out) {
				cryptErr = fmt.Errorf("reference crypt(%q,%q) = %s, perl has %s", k, s, g, out)
			}
		}
	})
	t.Harness(cryptErr)
}

func genPassword(r *rand.Rand) []byte {
	var b []byte
	switch r.IntN(5) {
	case 0:
		b = []byte(pick(r, alnum, r.IntN(20)))
	case 1: // any 7 bit
		b = make([]byte, r.IntN(14))
		for i := range b {
			b[i] = byte(1 + r.IntN(127))
		}
	case 2:
		b, _ = genText(r, 12, false, false)
	default:
		b = make([]byte, r.IntN(12))
		for i := range b {
			b[i] = byte(1 + r.IntN(255))
		}
	}
	return b
}

func fcrypt(key, salt []byte) (string, error) {
	res, err := crypt.Fcrypt(key, salt)
	return strings.TrimRight(string(res), "\x00"), err
}

func c11(t *T) {
	checkRefCrypt(t)
	r := t.R
	key := genPassword(r)
	salt := pick(r, saltChars, 2)
	if t.Idx < 64*64 {
		salt = string([]byte{saltChars[t.Idx/64], saltChars[t.Idx%64]})
	}
	want := refCrypt(key, salt)
	kin, sin := append([]byte{}, key...), []byte(salt)
	got, err := fcrypt(kin, sin)
	t.Check(err == nil, "hashing %q with salt %q: %v", key, salt, err)
	t.Check(got == want, "the hash of %q with salt %q is %q, crypt gives %q", key, salt, got, want)
	t.Check(bytes.Equal(kin, key) && string(sin) == salt, "hashing changed its arguments")
	// the whole hash as the salt
	got, err = fcrypt(key, []byte(want))
	t.Check(err == nil && got == want, "the hash of %q with the salt %q is %q, %v", key, want, got, err)
	// only eight characters of seven bits
	k8 := append(append([]byte{}, key...), genPassword(r)...)
	g8, _ := fcrypt(k8, []byte(salt))
	t.Check(g8 == refCrypt(k8, salt), "the hash of %q with salt %q is %q", k8, salt, g8)
	if len(k8) > 8 {
		g, _ := fcrypt(k8[:8], []byte(salt))
		t.Check(g == g8, "characters after the eighth change the hash of %q", k8)
	}
	// a NUL ends the password, as in C
	if len(key) > 1 {
		kn := append([]byte{}, key...)
		kn[r.IntN(len(kn))] = 0
		g, err := fcrypt(kn, []byte(salt))
		t.Check(err == nil && g == refCrypt(kn, salt), "the hash of %q with salt %q is %q, %v; crypt gives %q", kn, salt, g, err, refCrypt(kn, salt))
	}
	t.Nontrivial(key, salt)
	t.Count("hashes", 4)
	t.Sample("%q with %q: %s", key, salt, want)
}

func c11salt(t *T) { // salts which are not
	r := t.R
	key := genPassword(r)
	var salt []byte
	switch t.Idx % 4 {
	case 0:
		salt = nil
	case 1:
		salt = []byte{byte(r.IntN(256))}
	case 2:
		salt = []byte{byte(0x80 + r.IntN(0x80)), saltChars[r.IntN(64)]}
	case 3:
		salt = []byte{saltChars[r.IntN(64)], byte(0x80 + r.IntN(0x80))}
	}
	if len(salt) == 2 && r.IntN(2) == 0 {
		salt = append(salt, randBytes(r, 11)...)
	}
	got, err := fcrypt(key, salt)
	t.Check(err != nil, "hashing %q with the invalid salt %x gives %q and no error", key, salt, got)
	t.Check(got == "", "hashing %q with the invalid salt %x gives an error and the hash %q", key, salt, got)
	// others must not crash
	fcrypt(key, []byte{byte(r.IntN(128)), byte(r.IntN(128))})
	t.Nontrivial(key, salt)
}

func userWith(t *T, id string, hash []byte) []byte {
	raw := userType.genRec(t, t.R).raw
	putText(t, userType, raw, "userid", []byte(id))
	off, n := loadLayout(t).of(t, "userec_t.passwd")
	f := raw[off : off+n]
	for i := range f {
		f[i] = byte(t.R.IntN(256))
	}
	k := copy(f, hash)
	if k < n {
		f[k] = 0
	}
	return raw
}

func c12(t *T) {
	checkRefCrypt(t)
	r := t.R
	key := genPassword(r)
	salt := pick(r, saltChars, 2)
	hash := []byte(refCrypt(key, salt))
	what := "whole"
	switch r.IntN(12) {
	case 0:
		hash[r.IntN(13)] ^= 1 << r.IntN(7)
		what = "altered"
	case 1:
		hash = hash[:r.IntN(13)]
		what = "truncated"
	case 2:
		hash = append(hash, saltChars[r.IntN(64)])
		what = "extended"
	case 3:
		hash = randBytes(r, r.IntN(15))
		what = "random"
	case 4:
		hash = nil
		what = "empty"
	case 5:
		hash[2+r.IntN(11)] = saltChars[r.IntN(64)]
		what = "one character"
	case 6:
		hash[r.IntN(2)] = byte(r.IntN(256))
		what = "other salt"
	case 7: // the last characters
		hash[12] = saltChars[r.IntN(64)]
		what = "last character"
	case 8:
		hash[r.IntN(len(hash))] = 0
		what = "with a NUL"
	}
	if len(hash) > 14 {
		hash = hash[:14]
	}
	stored := hash
	if i := bytes.IndexByte(hash, 0); i >= 0 {
		stored = hash[:i]
	}
	raw := userWith(t, "user", hash)
	u, err := pttbbs.UnmarshalUserec(raw)
	t.Check(err == nil, "%v", err)
	t.Check(u.HashedPassword() == string(stored), "the stored hash is %q, HashedPassword() is %q", stored, u.HashedPassword())
	try := func(u bbs.UserRecord, pw []byte) {
		want := false
		if len(stored) == 13 && strings.IndexByte(saltChars, stored[0]) >= 0 && strings.IndexByte(saltChars, stored[1]) >= 0 {
			want = refCrypt(pw, string(stored[:2])) == string(stored)
		} else if len(stored) == 13 && stored[0] < 0x80 && stored[1] < 0x80 {
			return // salts which crypt does not define
		}
		got := u.VerifyPassword(string(pw)) == nil
		t.Check(got == want, "password %q with the stored hash %q (%s): accepted %v, should be %v", pw, stored, what, got, want)
		if want {
			t.Count("accepted", 1)
		} else {
			t.Count("refused", 1)
		}
	}
	pws := [][]byte{key, nil, append(append([]byte{}, key...), 'x'), genPassword(r), stored, []byte(strings.ToUpper(string(key))), []byte(strings.ToLower(string(key)))}
	if len(key) > 0 {
		x := append([]byte{}, key...)
		x[r.IntN(len(x))] ^= 1 << r.IntN(8)
		pws = append(pws, x, key[:len(key)-1], key[1:])
	}
	if len(key) > 8 {
		pws = append(pws, key[:8])
	}
	for _, pw := range pws {
		try(u, pw)
	}
	if r.IntN(8) == 0 { // as read by the database
		h := newHome(t, "h")
		other := userWith(t, "other", []byte(refCrypt([]byte("secret12"), "ab")))
		writeFile(t, h.passwds(), append(append([]byte{}, raw...), other...))
		l, err := h.db.ReadUserRecords()
		t.Check(err == nil && len(l) == 2, "ReadUserRecords: %v", err)
		for _, pw := range pws {
			try(l[0], pw)
		}
		t.Check(l[1].VerifyPassword("secret12") == nil, "the password of the second account is refused")
		t.Check(l[1].VerifyPassword("secret13") != nil, "a wrong password of the second account is accepted")
		t.Count("accounts_of_files", 2)
	}
	t.Nontrivial(key, stored)
	t.Sample("%s hash %q", what, stored)
}

// ---- C13 comment lines

type comment struct {
	ok     bool
	owner  string
	text   string
	t      time.Time
	skip   bool // not specified
	noTime bool
}

func isDigit(c byte) bool { return c >= '0' && c <= '9' }
func isLetter(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

// refComment is an own reading of a comment line.
func refComment(line string) comment {
	// the name: the first run of a letter and letters or digits before a colon
	colon, name := -1, ""
	for i := 0; i < len(line); i++ {
		if line[i] != ':' {
			continue
		}
		j := i
		for j > 0 && (isDigit(line[j-1]) || isLetter(line[j-1])) {
			j--
		}
		for j < i && !isLetter(line[j]) {
			j++
		}
		if i-j >= 2 {
			colon, name = i, line[j:i]
			break
		}
	}
	if colon < 0 {
		return comment{}
	}
	for i := len(line) - 11; i > colon; i-- {
		s := line[i : i+11]
		if isDigit(s[0]) && isDigit(s[1]) && s[2] == '/' && isDigit(s[3]) && isDigit(s[4]) && isDigit(s[6]) && isDigit(s[7]) && s[8] == ':' && isDigit(s[9]) && isDigit(s[10]) {
			if s[5] == '\t' || s[5] == '\r' || s[5] == '\f' || s[5] == '\n' {
				return comment{skip: true}
			}
			if s[5] != ' ' {
				continue
			}
			d := func(k int) int { return int(s[k]-'0')*10 + int(s[k+1]-'0') }
			mo, da, h, mi := d(0), d(3), d(6), d(9)
			days := []int{0, 31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}
			if mo < 1 || mo > 12 || da < 1 || da > days[mo] || h > 23 || mi > 59 {
				return comment{}
			}
			return comment{ok: true, owner: name, text: strings.Trim(line[colon+1:i], " \t"), t: time.Date(0, time.Month(mo), da, h, mi, 0, 0, time.UTC)}
		}
	}
	return comment{}
}

func genStamp(r *rand.Rand, bad bool) string {
	days := []int{0, 31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}
	mo := 1 + r.IntN(12)
	da, h, mi := 1+r.IntN(days[mo]), r.IntN(24), r.IntN(60)
	if r.IntN(6) == 0 {
		da = days[mo]
	}
	if bad {
		switch r.IntN(6) {
		case 0:
			mo = 13 + r.IntN(80)
		case 1:
			mo = 0
		case 2:
			da = days[mo] + 1 + r.IntN(99-days[mo])
		case 3:
			da = 0
		case 4:
			h = 24 + r.IntN(70)
		case 5:
			mi = 60 + r.IntN(40)
		}
		if r.IntN(3) == 0 { // just too much
			switch r.IntN(4) {
			case 0:
				mo, da, h, mi = 1+r.IntN(12), 1+r.IntN(28), 24, []int{0, 0, r.IntN(60)}[r.IntN(3)]
			case 1:
				mo, da, h, mi = 1+r.IntN(12), 1+r.IntN(28), []int{0, 23, 24, r.IntN(24)}[r.IntN(4)], 60
			case 2:
				mo, h, mi = 1+r.IntN(12), r.IntN(24), r.IntN(60)
				da = days[mo] + 1
			case 3:
				mo, da, h, mi = []int{0, 13}[r.IntN(2)], 1+r.IntN(31), r.IntN(24), r.IntN(60)
			}
		}
	}
	return fmt.Sprintf("%02d/%02d %02d:%02d", mo, da, h, mi)
}

// commentTexts has what is likely to confuse the reading of a line.
func commentText(r *rand.Rand) string {
	var sb strings.Builder
	for k := r.IntN(7); k > 0; k-- {
		switch r.IntN(12) {
		case 0:
			sb.WriteString(genStamp(r, r.IntN(4) == 0))
		case 1:
			sb.WriteString(genUser(r) + ":")
		case 2:
			sb.WriteString([]string{":", "::", " : ", "//", "12/3", "3:4", "/", "\\", "\"", "'", "0", "%s", "%d%n", "\x00", "\xff", "\xc0\x80"}[r.IntN(16)])
		case 3:
			b, _ := genText(r, 20, false, false)
			sb.Write(b)
		case 4:
			_, s := genText(r, 20, false, false)
			sb.WriteString(s)
		case 5:
			sb.WriteString(fmt.Sprintf("%d.%d.%d.%d", r.IntN(256), r.IntN(256), r.IntN(256), r.IntN(256)))
		case 6:
			sb.WriteString(strings.Repeat(" ", r.IntN(30)))
		case 7:
			sb.WriteString("http://" + pick(r, alnum, 8) + ".tw/" + pick(r, alnum, 5))
		case 8:
			sb.Write(bytes.ReplaceAll(randBytes(r, r.IntN(10)), []byte("\n"), []byte("x")))
		default:
			sb.WriteString(pick(r, alnum+"   .,!?-", 1+r.IntN(20)))
		}
	}
	return sb.String()
}

// genCommentLine makes a line and how it was made.
func genCommentLine(r *rand.Rand) (string, string) {
	owner := genUser(r)
	text := commentText(r)
	pre := ""
	switch r.IntN(4) {
	case 0:
		pre = "\xb1\xc0 " // a mark in Big5
	case 1:
		pre = "\u63a8 "
	case 2:
		pre = []string{"-> ", "x", "  ", "1", ": ", "a: ", "9:", "[x] ", "\xa1\xf7 "}[r.IntN(9)]
	}
	post := ""
	if r.IntN(5) == 0 {
		post = []string{" ", "\r", "5", " :", " 1.2.3.4", "\xa7"}[r.IntN(6)]
	}
	stamp := genStamp(r, r.IntN(10) == 0)
	sp := []string{"", " ", "  "}[r.IntN(3)]
	sp2 := []string{"", " ", "    "}[r.IntN(3)]
	line := pre + owner + ":" + sp + text + sp2 + stamp + post
	switch r.IntN(14) {
	case 0:
		line = pre + owner + ":" + text
	case 1:
		line = pre + owner + " " + text + sp2 + stamp
	case 2:
		line = pre + ":" + text + sp2 + stamp
	case 3:
		line = owner + ":" + stamp
	case 4:
		line = text
	}
	return strings.ReplaceAll(line, "\n", ""), owner
}

func checkComment(t *T, line string, c bbs.UserCommentRecord, err error) bool {
	w := refComment(line)
	if w.skip {
		return false
	}
	if !w.ok {
		t.Check(err != nil, "%q is no comment, it is read as %v", line, c)
		return false
	}
	t.Check(err == nil && c != nil, "%q is a comment and gives %v", line, err)
	t.Check(c.Owner() == w.owner, "%q: author is %q, should be %q", line, c.Owner(), w.owner)
	t.Check(c.CommentTime().Equal(w.t), "%q: time is %v, should be %v", line, c.CommentTime(), w.t)
	t.Check(strings.TrimSpace(c.Comment()) == strings.TrimSpace(w.text), "%q: text is %q, should be %q", line, c.Comment(), w.text)
	if len(w.text) > 0 && w.text[0] > ' ' && w.text[0] < 0x80 && w.text[len(w.text)-1] > ' ' && w.text[len(w.text)-1] < 0x80 {
		t.Check(c.Comment() == w.text, "%q: text is %q, should be %q", line, c.Comment(), w.text)
	}
	return true
}

func c13(t *T) {
	r := t.R
	line, owner := genCommentLine(r)
	if r.IntN(20) == 0 {
		line = strings.ReplaceAll(string(mutate(r, []byte(line))), "\n", "")
	}
	if r.IntN(200) == 0 { // long
		line = owner + ": " + strings.Repeat(commentText(r)+"x", 2000) + " " + genStamp(r, false)
		line = strings.ReplaceAll(line, "\n", "")
	}
	fhd := pttbbs.NewFileHeader()
	fhd.SetFilename("M.1234567890.A." + pick(r, "0123456789ABCDEF", 3))
	order := genU32(r)
	brd := genBoard(r)
	c, err := bbs.NewUserCommentRecord(order, line, brd, fhd)
	if checkComment(t, line, c, err) {
		t.Check(c.CommentOrder() == order, "order is %d, given %d", c.CommentOrder(), order)
		t.Check(c.BoardID() == brd && c.Filename() == fhd.Filename(), "board %q and file %q, given %q and %q", c.BoardID(), c.Filename(), brd, fhd.Filename())
		t.Count("comments", 1)
		t.Nontrivial(line)
		s := c.String()
		t.Check(strings.Contains(s, c.Owner()) && strings.Contains(s, c.CommentTime().Format("01/02 15:04")), "String() is %q", s)
	} else {
		t.Count("other_lines", 1)
	}
	t.Sample("%q: %v", clip(line, 100), err)
}

// ---- C16 terminal codes

var csiFinal = []byte("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz")

func genCSI(r *rand.Rand) string {
	s := "\x1b["
	n := r.IntN(5)
	for i := 0; i < n; i++ {
		if i > 0 {
			s += ";"
		}
		if r.IntN(5) > 0 {
			s += fmt.Sprint([]int{0, 1, 5, 7, 30 + r.IntN(18), r.IntN(1000), r.IntN(10000), r.IntN(1 << 30)}[r.IntN(8)])
		}
	}
	f := byte('m')
	if r.IntN(3) == 0 {
		f = csiFinal[r.IntN(len(csiFinal))]
	}
	return s + string(f)
}

func plainText(r *rand.Rand, n int) string {
	switch r.IntN(4) {
	case 0:
		_, s := genText(r, n, false, false)
		return s
	case 1:
		b, _ := genText(r, n, false, false) // raw Big5
		return string(b)
	case 2: // what looks like parts of a sequence
		return []string{"[", "[31m", "0m", ";", "m", "[1;31", "\n", "\t", "1;2", "()", "#", "?", "\r\n", "[]", "*s", "A", "\\", "]", "\r", " ", "\x00", "\x0b", "\x0c", "\x01", "\x7f", "\x08", "\u00a0", "\u3000", "\ufeff", "\ufffd", "\x80"}[r.IntN(31)]
	}
	b := make([]byte, r.IntN(n+1))
	for i := range b {
		b[i] = byte(0x20 + r.IntN(0x5f))
	}
	return string(b)
}

func c16(t *T) {
	r := t.R
	var in, want strings.Builder
	parts := r.IntN(12)
	if r.IntN(100) == 0 {
		parts = 3000
	}
	if r.IntN(1000) == 0 {
		parts = 100000
	}
	seqs := 0
	for k := 0; k < parts; k++ {
		if r.IntN(2) == 0 {
			in.WriteString(genCSI(r))
			seqs++
			continue
		}
		p := plainText(r, 30)
		in.WriteString(p)
		want.WriteString(p)
	}
	s, w := in.String(), want.String()
	got := bbs.FilterStringANSI(s)
	if got != w {
		i := firstDiff([]byte(got), []byte(w))
		t.Fatalf("%q becomes text which differs from the plain text at %d: %q, should be %q", clip(s, 500), i, clip(got[max(0, i-30):], 60), clip(w[max(0, i-30):], 60))
	}
	t.Check(bbs.FilterStringANSI(got) == got, "removing codes again changes %q to %q", got, bbs.FilterStringANSI(got))
	t.Check(bbs.FilterStringANSI(w) == w, "the plain text %q is changed to %q", w, bbs.FilterStringANSI(w))
	t.Count("sequences", seqs)
	if seqs > 0 {
		t.Nontrivial(s)
	}
	t.Sample("%q -> %q", clip(s, 80), clip(got, 80))
}

// ---- C17 login logs

func genHost(r *rand.Rand) string {
	switch r.IntN(6) {
	case 0:
		return pick(r, letters+"0123456789", 1) + pick(r, alnum+"-.", r.IntN(30))
	case 1:
		return pick(r, letters+"0123456789", 1) + pick(r, alnum+"-.?@_:*[]/%()#", r.IntN(60))
	case 2:
		return fmt.Sprintf("2001:%x::%x", r.IntN(65536), r.IntN(65536))
	}
	return fmt.Sprintf("%d.%d.%d.%d", r.IntN(256), r.IntN(256), r.IntN(256), r.IntN(256))
}

func genDate(r *rand.Rand) time.Time {
	if r.IntN(5) == 0 {
		return time.Date(1990+r.IntN(60), time.Month(1+r.IntN(12)), []int{1, 28, 29, 30, 31}[r.IntN(5)], []int{0, 11, 12, 13, 23}[r.IntN(5)], []int{0, 59}[r.IntN(2)], []int{0, 59}[r.IntN(2)], 0, time.UTC)
	}
	return time.Unix(int64(r.IntN(2000000000)), 0).UTC()
}

func genAttempt(r *rand.Rand) (string, pttbbs.LoginAttempt) {
	a := pttbbs.LoginAttempt{LoginStartTime: genDate(r), FromHost: genHost(r)}
	stamp := "[" + a.LoginStartTime.Format("01/02/2006 15:04:05 Mon") + "]"
	if r.IntN(3) == 0 {
		return stamp + " " + a.FromHost, a
	}
	a.UserID = genUser(r)
	if r.IntN(4) == 0 { // whatever was typed at the login prompt
		a.UserID = pick(r, alnum+"-._?@!#/:", 1) + pick(r, alnum+"-._?@!#/:] ", r.IntN(11)) + pick(r, alnum+"-._?@!#/:", 1)
	}
	a.Success = r.IntN(2) == 0
	c := "-"
	if a.Success {
		c = " "
	}
	return c + a.UserID + strings.Repeat(" ", 12-len(a.UserID)) + stamp + " ?@" + a.FromHost, a
}

func sameAttempt(a, b *pttbbs.LoginAttempt) bool {
	return a.Success == b.Success && a.UserID == b.UserID && a.FromHost == b.FromHost && a.LoginStartTime.Equal(b.LoginStartTime)
}

func breakLine(r *rand.Rand, l string, attempt bool) string {
	if attempt {
		k := strings.IndexByte(l, '[')
		switch r.IntN(8) {
		case 0:
			return ""
		case 1:
			return l[:r.IntN(k+25)]
		case 2:
			return pick(r, "x#0*?", 1) + l
		case 3, 6: // the mark of the result
			for {
				c := byte(r.IntN(256))
				if r.IntN(2) == 0 {
					c = pick(r, "*+x0?#_=~!sSfFyYnN\t", 1)[0]
				}
				if c != ' ' && c != '-' && c != '[' && c != '\n' {
					return string([]byte{c}) + l[1:]
				}
			}
		case 7:
			return l[:k+3] + pick(r, "-. x", 1) + l[k+4:]
		case 4:
			return l[:k+1] + "13" + l[k+3:]
		case 5:
			return l[:k+1] + pick(r, "xyz:", 2) + l[k+3:]
		}
		return l[:k+12] + "25" + l[k+14:]
	}
	switch r.IntN(6) {
	case 0:
		return ""
	case 1:
		return l[:r.IntN(20)]
	case 2:
		return "13" + l[2:]
	case 3:
		return "x" + l[1:]
	case 4:
		return l[:3] + "32" + l[5:]
	}
	return l[:11] + "24" + l[13:]
}

func c17attempts(t *T) {
	r := t.R
	n := r.IntN(20)
	if r.IntN(30) == 0 {
		n = 500 + r.IntN(3000)
	} else if r.IntN(300) == 0 {
		n = 70000
	}
	bad := -1
	if n > 0 && r.IntN(4) == 0 {
		bad = r.IntN(n)
	}
	var sb strings.Builder
	var want []pttbbs.LoginAttempt
	for i := 0; i < n; i++ {
		l, a := genAttempt(r)
		if i > 0 && i-1 != bad && r.IntN(8) == 0 { // again
			a = want[r.IntN(i)]
			if r.IntN(2) == 0 {
				a = want[i-1]
			}
			m, err := a.MarshalText()
			t.Check(err == nil, "writing %+v: %v", a, err)
			l = string(m)
		} else if r.IntN(100) == 0 {
			l, a.FromHost = l+strings.Repeat("x", 4000), a.FromHost+strings.Repeat("x", 4000)
		}
		var one pttbbs.LoginAttempt
		err := one.UnmarshalText([]byte(l))
		t.Check(err == nil && sameAttempt(&one, &a), "the line %q is read as %+v, %v; it says %+v", l, one, err, a)
		// written and read again
		m, err := a.MarshalText()
		t.Check(err == nil, "writing %+v: %v", a, err)
		var two pttbbs.LoginAttempt
		err = two.UnmarshalText(m)
		t.Check(err == nil && sameAttempt(&two, &a), "%+v is written as %q and read as %+v, %v", a, m, two, err)
		t.Check(string(m) == l, "%+v is written as %q, the log has %q", a, m, l)
		t.Check(a.IsUnderBbsHome() == (a.UserID != ""), "IsUnderBbsHome() is %v for user id %q", a.IsUnderBbsHome(), a.UserID)
		// into a value which was used before
		used := pttbbs.LoginAttempt{Success: true, UserID: "somebody", FromHost: "x", LoginStartTime: time.Unix(1, 0)}
		err = used.UnmarshalText([]byte(l))
		t.Check(err == nil && sameAttempt(&used, &a), "the line %q is read into a used entry as %+v, %v", l, used, err)
		if i == bad {
			l = breakLine(r, l, true)
			t.Note("line %d is %q", i, l)
			var x pttbbs.LoginAttempt
			t.Check(x.UnmarshalText([]byte(l)) != nil, "the malformed line %q is read as %+v", l, x)
		}
		sb.WriteString(l)
		if i < n-1 || r.IntN(2) == 0 || l == "" {
			sb.WriteString("\n")
		}
		want = append(want, a)
	}
	p := filepath.Join(t.Dir(), "logins.bad")
	writeFile(t, p, []byte(sb.String()))
	got, err := pttbbs.OpenBadLoginFile(p)
	if bad >= 0 {
		t.Check(err != nil, "a log of %d lines with a malformed line %d is read as %d entries without an error", n, bad, len(got))
		t.Count("malformed_logs", 1)
	} else {
		t.Check(err == nil && len(got) == n, "a log of %d lines is read as %d entries, %v", n, len(got), err)
		for i := range want {
			t.Check(sameAttempt(got[i], &want[i]), "entry %d is %+v, the log says %+v", i, got[i], want[i])
		}
		t.Count("entries", n)
	}
	if n > 0 {
		t.Nontrivial(sb.String())
	}
}

func c17recent(t *T) {
	r := t.R
	n := r.IntN(20)
	if r.IntN(30) == 0 {
		n = 500 + r.IntN(3000)
	} else if r.IntN(300) == 0 {
		n = 70000
	}
	bad := -1
	if n > 0 && r.IntN(4) == 0 {
		bad = r.IntN(n)
	}
	var sb strings.Builder
	var want []pttbbs.LoginRecentRecord
	for i := 0; i < n; i++ {
		w := pttbbs.LoginRecentRecord{LoginStartTime: genDate(r), FromHost: genHost(r)}
		if r.IntN(5) == 0 {
			w.FromHost = []string{"?@", "@", "?", "*", "-", "[", "::", "#", "/", ".", "@?", "(", "%"}[r.IntN(13)] + w.FromHost
		}
		if i > 0 && r.IntN(8) == 0 { // again
			w = want[i-1]
		} else if i > 0 && r.IntN(8) == 0 {
			w.LoginStartTime = want[i-1].LoginStartTime
		}
		if r.IntN(100) == 0 {
			w.FromHost += strings.Repeat("x", 3000)
		}
		l := w.LoginStartTime.Format("01/02/2006 15:04:05") + " " + w.FromHost
		one, err := pttbbs.NewLoginRecentRecord(l)
		t.Check(err == nil && one.FromHost == w.FromHost && one.LoginStartTime.Equal(w.LoginStartTime), "the line %q is read as %+v, %v", l, one, err)
		if i == bad {
			l = breakLine(r, l, false)
			t.Note("line %d is %q", i, l)
			x, err := pttbbs.NewLoginRecentRecord(l)
			t.Check(err != nil, "the malformed line %q is read as %+v", l, x)
		}
		sb.WriteString(l)
		if i < n-1 || r.IntN(2) == 0 || l == "" {
			sb.WriteString("\n")
		}
		want = append(want, w)
	}
	p := filepath.Join(t.Dir(), "logins.recent")
	writeFile(t, p, []byte(sb.String()))
	got, err := pttbbs.OpenLoginRecentFile(p)
	if bad >= 0 {
		t.Check(err != nil, "a log of %d lines with a malformed line %d is read as %d entries without an error", n, bad, len(got))
		t.Count("malformed_logs", 1)
	} else {
		t.Check(err == nil && len(got) == n, "a log of %d lines is read as %d entries, %v", n, len(got), err)
		for i := range want {
			t.Check(got[i].FromHost == want[i].FromHost && got[i].LoginStartTime.Equal(want[i].LoginStartTime), "entry %d is %+v, the log says %+v", i, got[i], want[i])
		}
		t.Count("entries", n)
	}
	if n > 0 {
		t.Nontrivial(sb.String())
	}
}

// logs are the readers of line files.
var logs = []struct {
	name string
	open func(p string) ([]interface{}, error)
	line func(r *rand.Rand) string
}{
	{"login attempts", func(p string) ([]interface{}, error) { return toList(pttbbs.OpenBadLoginFile(p)) }, func(r *rand.Rand) string { l, _ := genAttempt(r); return l }},
	{"recent logins", func(p string) ([]interface{}, error) { return toList(pttbbs.OpenLoginRecentFile(p)) }, func(r *rand.Rand) string {
		return genDate(r).Format("01/02/2006 15:04:05") + " " + genHost(r)
	}},
}

func c17fault(t *T) {
	k := t.Idx % 2
	r := t.R
	n := 1 + r.IntN(400)
	var sb strings.Builder
	for i := 0; i < n; i++ {
		sb.WriteString(logs[k].line(r) + "\n")
	}
	p := filepath.Join(t.Dir(), "log")
	writeFile(t, p, []byte(sb.String()))
	switch r.IntN(8) {
	case 0:
		l, err := logs[k].open(t.Dir())
		t.Check(err != nil, "%s: a directory is read as %d entries", logs[k].name, len(l))
	case 1:
		l, err := logs[k].open("/proc/self/mem")
		t.Check(err != nil, "%s: a file which cannot be read gives %d entries", logs[k].name, len(l))
	case 2:
		_, err := logs[k].open(p + "x")
		t.Check(err != nil, "%s: a missing file gives no error", logs[k].name)
	case 3: // longer than any line can be
		writeFile(t, p, []byte(sb.String()+logs[k].line(r)+strings.Repeat("y", 200000)+"\n"+logs[k].line(r)+"\n"))
		l, err := logs[k].open(p)
		t.Check(err != nil || len(l) == n+2, "%s: %d lines and two more after a long one are read as %d entries without an error", logs[k].name, n, len(l))
	default:
		when := 1 + r.IntN(1+sb.Len()/4096+2)
		res := runWorker(t, workerOpt{strace: []string{"-P", p, "-e", "trace=read,pread64", "-e", fmt.Sprintf("inject=read,pread64:error=EIO:when=%d", when)}}, "readlog", fmt.Sprint(k), p)
		t.Count("reads_with_a_fault", res.Injected)
		t.Check(res.Exit == 0, "%s: a failing read ended the process: %s", logs[k].name, res.Err)
		var got int
		var e string
		fmt.Sscan(string(res.Out), &got, &e)
		t.Check(e == "err" || got == n, "%s: a read failed, %d of %d entries are returned without an error", logs[k].name, got, n)
	}
	t.Nontrivial(k, sha([]byte(sb.String())))
}

func workerReadLog(args []string) {
	k := 0
	fmt.Sscan(args[0], &k)
	l, err := logs[k].open(args[1])
	if err != nil {
		fmt.Println(len(l), "err")
	} else {
		fmt.Println(len(l), "ok")
	}
}

func init() {
	workers["readlog"] = workerReadLog
	_ = reflect.DeepEqual
	register(&Prop{ID: "C09", Rule: "a case is a block of Big5 codes or Unicode characters (all of them are covered), or a random text or byte string; distinct blocks, texts and byte strings are counted",
		Assume: []string{"Big5-UAO is the table of golang.org/x/text/encoding/traditionalchinese, applied one character at a time"}, Groups: []Group{
			{Name: "codes", Quick: 126, Thorough: 126, Fn: c09code},
			{Name: "runes", Quick: 272, Thorough: 272, Fn: c09rune},
			{Name: "text", Quick: 4000, Thorough: 200000, Fn: c09text},
			{Name: "bytes", Quick: 20000, Thorough: 300000, Fn: c09bytes},
		}})
	register(&Prop{ID: "C11", Rule: "a case is a password (any bytes, lengths around 8) and a salt (all 4096 are used), hashed and compared with a bit by bit DES crypt; distinct pairs are counted",
		Assume: []string{"the reference crypt is checked against published results and the crypt() of the C library"}, Groups: []Group{
			{Name: "hash", Quick: 20000, Thorough: 300000, Fn: c11},
			{Name: "salt", Quick: 4000, Thorough: 200000, Fn: c11salt},
		}})
	register(&Prop{ID: "C12", Rule: "a case is a stored hash (whole, altered, truncated, extended, random, empty) and passwords near the right one, verified and compared with the reference crypt; distinct pairs are counted",
		Groups: []Group{{Name: "verify", Quick: 20000, Thorough: 150000, Fn: c12}}})
	register(&Prop{ID: "C13", Rule: "a case is a line (made of a name, texts with colons, time stamps and any bytes, blanks and a time stamp, or a damaged one) read and compared with an independent reading; distinct comment lines are counted",
		Assume: []string{"a blank in a time stamp is a space; the text is compared without surrounding blanks"},
		Groups: []Group{{Name: "lines", Quick: 300000, Thorough: 8000000, Fn: c13}}})
	register(&Prop{ID: "C16", Rule: "a case is a sequence of plain parts (ASCII, UTF-8, Big5, look-alikes) and control sequences, filtered and compared with the plain parts; distinct texts with a sequence are counted",
		Assume: []string{"plain text has no ESC or BEL", "parameters have at most four digits"},
		Groups: []Group{{Name: "texts", Quick: 200000, Thorough: 4000000, Fn: c16}}})
	register(&Prop{ID: "C17", Rule: "a case is a log of generated lines, some with a malformed line or a failing read, compared entry by entry; distinct logs are counted",
		Assume: []string{"user ids have 2 to 12 characters, hosts have no blanks"}, Groups: []Group{
			{Name: "attempts", Quick: 8000, Thorough: 100000, Fn: c17attempts},
			{Name: "recent", Quick: 8000, Thorough: 100000, Fn: c17recent},
			{Name: "fault", Quick: 160, Thorough: 6000, Fn: c17fault},
		}})
}
