//go:build !race

package main

import (
	"embed"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
)

// Parts which other packages cannot call are observed by a test file which is
// laid over the package while it is built.

//go:embed overlay
var overlays embed.FS

var hiddenMu sync.Mutex
var hiddenAll = map[string]string{}

// hidden builds the package with the file and gives the program, or "" when
// the file does not fit to the package (any more).
func hidden(t *T, pkg, file string) string {
	hiddenMu.Lock()
	defer hiddenMu.Unlock()
	if p, ok := hiddenAll[file]; ok {
		return p
	}
	src, err := overlays.ReadFile("overlay/" + file)
	t.Harness(err)
	dir, err := os.MkdirTemp(scratchDir(), "overlay")
	t.Harness(err)
	t.Harness(os.WriteFile(filepath.Join(dir, "x_test.go"), src, 0600))
	js, _ := json.Marshal(map[string]interface{}{"Replace": map[string]string{filepath.Join(repoDir(), pkg, "x_verif_test.go"): filepath.Join(dir, "x_test.go")}})
	t.Harness(os.WriteFile(filepath.Join(dir, "overlay.json"), js, 0600))
	bin := filepath.Join(dir, "observer")
	cmd := exec.Command("go", "test", "-c", "-vet=off", "-overlay", filepath.Join(dir, "overlay.json"), "-o", bin, "./"+pkg)
	cmd.Dir = repoDir()
	if out, err := cmd.CombinedOutput(); err != nil {
		plain := exec.Command("go", "build", "./...")
		plain.Dir = repoDir()
		if o, err := plain.CombinedOutput(); err != nil {
			t.Harness(fmt.Errorf("the repository does not build: %s", clip(string(o), 1000)))
		}
		t.Count("observer_does_not_fit", 1)
		fmt.Println("note: the observer of", pkg, "does not fit to the package:", clip(string(out), 400))
		bin = ""
	}
	hiddenAll[file] = bin
	return bin
}

// askHidden runs the program. false: there is none.
func askHidden(t *T, pkg, file string, in, out interface{}) bool {
	bin := hidden(t, pkg, file)
	if bin == "" {
		return false
	}
	js, err := json.Marshal(in)
	t.Harness(err)
	a, b := tmpName(t, "in"), tmpName(t, "out")
	writeFile(t, a, js)
	cmd := exec.Command(bin, "-test.run", "^TestVerif", "-test.timeout", "100s")
	cmd.Dir = t.Dir()
	cmd.Env = append(os.Environ(), "VERIF_IN="+a, "VERIF_OUT="+b)
	o, err := cmd.CombinedOutput()
	t.Check(err == nil, "the calls fail: %v %s", err, clip(string(o), 2000))
	t.Harness(json.Unmarshal(readFile(t, b), out))
	return true
}

// The bits of uflags.h.
var cUserFlags = map[string]uint32{
	"UF_FAV_NOHILIGHT": 1 << 0, "UF_FAV_ADDNEW": 1 << 1, "UF_ADBANNER": 1 << 6, "UF_ADBANNER_USONG": 1 << 7,
	"UF_DBCS_AWARE": 1 << 9, "UF_DBCS_NOINTRESC": 1 << 10, "UF_DBCS_DROP_REPEAT": 1 << 11, "UF_NO_MODMARK": 1 << 12,
	"UF_COLORED_MODMARK": 1 << 13, "UF_DEFBACKUP": 1 << 16, "UF_NEW_ANGEL_PAGER": 1 << 17, "UF_REJ_OUTTAMAIL": 1 << 18,
	"UF_SECURE_LOGIN": 1 << 19, "UF_MENU_LIGHTBAR": 1 << 24, "UF_CURSOR_ASCII": 1 << 25,
}

func c42(t *T) {
	r := t.R
	type tcase struct {
		Users [][]byte
		Asks  []string
	}
	type user struct {
		id   string
		flag uint32
	}
	var cases []tcase
	var model [][]user
	offset, _ := loadLayout(t).of(t, "userec_t.uflag")
	for i := 0; i < 60; i++ {
		var c tcase
		var m []user
		n := r.IntN(12)
		if r.IntN(10) == 0 {
			n = 200
		}
		ids := similarUsers(r)
		for k := 0; k < n; k++ {
			id := genUser(r)
			if r.IntN(2) == 0 {
				id = ids[r.IntN(len(ids))]
			}
			if len(id) > 12 {
				id = id[:12]
			}
			b := userWith(t, id, nil)
			flag := genU32(r)
			switch r.IntN(4) {
			case 0:
				flag = 1 << r.IntN(32)
			case 1:
				flag = ^uint32(1 << r.IntN(32))
			}
			for j := 0; j < 4; j++ {
				b[offset+j] = byte(flag >> (8 * j))
			}
			c.Users = append(c.Users, b)
			m = append(m, user{id, flag})
		}
		for _, u := range m {
			c.Asks = append(c.Asks, u.id)
			if r.IntN(3) == 0 {
				c.Asks = append(c.Asks, strings.ToUpper(u.id), u.id+"x", u.id+" ", u.id[:len(u.id)/2])
			}
		}
		c.Asks = append(c.Asks, "", genUser(r))
		cases = append(cases, c)
		model = append(model, m)
	}
	var out [][]struct {
		Found     bool
		All, Each map[string]bool
	}
	if !askHidden(t, "pttbbs", "settings_test.go.txt", cases, &out) {
		t.Nontrivial("not observed")
		return
	}
	t.Check(len(out) == len(cases), "%d answers of %d", len(out), len(cases))
	for i, c := range cases {
		for k, id := range c.Asks {
			a := out[i][k]
			var want *user
			for j := range model[i] {
				if model[i][j].id == id { // the first one
					want = &model[i][j]
					break
				}
			}
			if want == nil {
				t.Check(!a.Found, "the settings of %q are found, there is no such account among %v", id, model[i])
				t.Count("not_found", 1)
				continue
			}
			t.Check(a.Found, "no settings of %q are found", id)
			for name, bit := range cUserFlags {
				on := want.flag&bit != 0
				x, ok := a.All[name]
				t.Check(ok && x == on, "%s of %q is %v among all settings; the flags are %08x, its bit %08x", name, id, x, want.flag, bit)
				x, ok = a.Each[name]
				t.Check(ok && x == on, "%s of %q is %v; the flags are %08x, its bit %08x", name, id, x, want.flag, bit)
			}
			t.Nontrivial(want.flag)
			t.Count("settings", len(cUserFlags))
		}
	}
}

func c43(t *T) {
	r := t.R
	type tcase struct {
		Offset uint32
		Pieces [][]byte
	}
	var cases []tcase
	for i := 0; i < 300; i++ {
		c := tcase{Offset: genU32(r)}
		if r.IntN(3) == 0 {
			c.Offset = 33554467
		}
		for k := r.IntN(4); k >= 0; k-- {
			c.Pieces = append(c.Pieces, randBytes(r, []int{0, 1, r.IntN(13), r.IntN(300), r.IntN(3000)}[r.IntN(5)]))
		}
		cases = append(cases, c)
	}
	var out []struct {
		Sums  []uint32
		Bytes []byte
		Size  int
		Init  uint32
	}
	if !askHidden(t, "pttbbs/internal/fnv", "fnv_test.go.txt", cases, &out) {
		t.Nontrivial("not observed")
		return
	}
	for i, c := range cases {
		h := c.Offset
		check := func(k int) {
			t.Check(len(out[i].Sums) > k && out[i].Sums[k] == h, "from %08x, %d pieces: the hash is %08x, should be %08x", c.Offset, k, out[i].Sums[k], h)
		}
		check(0)
		for k, p := range c.Pieces {
			for _, b := range p {
				h = (h ^ uint32(b)) * 16777619
			}
			check(k + 1)
		}
		want := []byte{1, 2, byte(h >> 24), byte(h >> 16), byte(h >> 8), byte(h)}
		t.Check(string(out[i].Bytes) == string(want) && out[i].Size == 4, "from %08x: the bytes of the hash are % x, should be % x", c.Offset, out[i].Bytes, want)
		t.Check(out[i].Init == 33554467, "the start value of PTT is %d", out[i].Init)
		t.Nontrivial(h)
		t.Count("hashes", 1)
	}
}

func init() {
	register(&Prop{ID: "C42",
		Rule:   "lists of accounts with single, all but one and random flag bits, asked for existing and similar ids; nontrivial by flags",
		Assume: []string{"the bits of uflags.h are those in harness/hidden.go"},
		Groups: []Group{{Name: "settings", Quick: 30, Thorough: 2000, Fn: c42}}})
	register(&Prop{ID: "C43",
		Rule:   "start values and texts in pieces; nontrivial by hash",
		Groups: []Group{{Name: "hash", Quick: 30, Thorough: 2000, Fn: c43}}})
}
