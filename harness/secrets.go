//go:build !race

package main

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"log"
	mrand "math/rand/v2"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	bbs "github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/crypt"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
)

// ---- C38: secrets

// secret is a text which must not be seen, in the ways it may be written.
type secret struct {
	what  string
	forms [][2]string // how, text
}

func newSecret(what string, b []byte) secret {
	s := secret{what: what}
	add := func(how, x string) { s.forms = append(s.forms, [2]string{how, x}) }
	add("as it is", string(b))
	if q := fmt.Sprintf("%q", b); q[1:len(q)-1] != string(b) {
		add("quoted", q[1:len(q)-1])
		q = fmt.Sprintf("%+q", b)
		add("quoted", q[1:len(q)-1])
	}
	if q := url.QueryEscape(string(b)); q != string(b) {
		add("escaped", q)
	}
	list := func(b []byte, f string, sep string) string {
		var l []string
		for _, c := range b {
			l = append(l, fmt.Sprintf(f, c))
		}
		return strings.Join(l, sep)
	}
	add("as numbers", list(b, "%d", " "))
	add("as numbers", list(b, "%d", ","))
	add("as Go bytes", list(b, "%#x", ", "))
	add("in hexadecimal", hex.EncodeToString(b))
	add("in hexadecimal", strings.ToUpper(hex.EncodeToString(b)))
	add("in hexadecimal", list(b, "%02x", " "))
	add("in base 64", strings.TrimRight(base64.StdEncoding.EncodeToString(b[:len(b)/3*3]), "="))
	add("in base 64", strings.TrimRight(base64.URLEncoding.EncodeToString(b[:len(b)/3*3]), "="))
	// as the key of the cipher
	k := make([]byte, len(b))
	for i := range b {
		k[i] = b[i] << 1
	}
	add("as a key", list(k, "%d", " "))
	return s
}

func passwordSecret(id string, p []byte) []secret {
	l := []secret{newSecret("the password of "+id, p)}
	if len(p) > 8 {
		l = append(l, newSecret("the start of the password of "+id, p[:8]))
	}
	return l
}

func hashSecret(id, h string) []secret {
	return []secret{newSecret("the password hash of "+id, []byte(h[2:]))}
}

// searchSecrets looks for secrets in what was seen.
func searchSecrets(t *T, where string, seen []byte, l []secret) {
	t.Count("bytes_searched", len(seen))
	for _, s := range l {
		for _, f := range s.forms {
			if i := bytes.Index(seen, []byte(f[1])); i >= 0 {
				lo, hi := max(0, i-150), min(len(seen), i+len(f[1])+50)
				t.Fatalf("%s has %s, %s: ...%q...", where, s.what, f[0], seen[lo:hi])
			}
		}
	}
}

// captured runs f and gives all that is printed and logged meanwhile.
func captured(t *T, f func()) []byte {
	p := filepath.Join(t.Dir(), "captured")
	out, err := os.OpenFile(p, os.O_RDWR|os.O_CREATE|os.O_TRUNC|os.O_APPEND, 0600)
	t.Harness(err)
	defer out.Close()
	var old [3]int
	for fd := 1; fd <= 2; fd++ {
		old[fd], err = syscall.Dup(fd)
		t.Harness(err)
		t.Harness(syscall.Dup3(int(out.Fd()), fd, 0))
	}
	w, flags := log.Writer(), log.Flags()
	log.SetOutput(out)
	restore := func() {
		log.SetOutput(w)
		log.SetFlags(flags)
		for fd := 1; fd <= 2; fd++ {
			syscall.Dup3(old[fd], fd, 0)
			syscall.Close(old[fd])
		}
	}
	func() {
		defer restore()
		f()
	}()
	b, err := os.ReadFile(p)
	t.Harness(err)
	return b
}

// secretPassword is a password which cannot be there by chance.
func secretPassword(r *mrand.Rand) []byte {
	b := []byte(pick(r, alnum, 7+r.IntN(8)))
	for i := r.IntN(3); i > 0; i-- {
		b[r.IntN(len(b))] = "%&=+\"\\ \x01\x7f\xa4/.$"[r.IntN(13)]
	}
	return b
}

func c38(t *T) {
	r := t.R
	w := genWorld(t, "h", true)
	var l []secret
	for i, id := range w.ids {
		l = append(l, passwordSecret(id, []byte(w.passwords[i]))...)
		l = append(l, hashSecret(id, w.hashes[i])...)
	}
	var wrong [][]byte
	for i := 0; i < 6; i++ {
		p := secretPassword(r)
		wrong = append(wrong, p)
		l = append(l, passwordSecret("a failed login", p)...)
	}
	ops := 0
	var errs bytes.Buffer
	note := func(err error) {
		ops++
		if err != nil {
			fmt.Fprintln(&errs, err)
			fmt.Fprintf(&errs, "%+v %#v\n", err, err)
		}
	}
	seen := captured(t, func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(harnessErr); ok {
					panic(e)
				}
			}
		}()
		log.Println("the capture works")
		fmt.Println("the capture works")
		for round := 0; round < 2; round++ {
			s, err := newSite(w.dir)
			t.Harness(err)
			login := func(u bbs.UserRecord) {
				for i := range w.passwords {
					note(u.VerifyPassword(w.passwords[i]))
				}
				for _, p := range wrong {
					note(u.VerifyPassword(string(p)))
				}
				u.HashedPassword()
				u.UserID()
			}
			us, err := s.db.ReadUserRecords()
			note(err)
			for _, u := range us {
				login(u)
			}
			raw, _ := os.ReadFile(w.passwds())
			for o := 0; o < len(raw); o += 512 {
				b := raw[o:min(len(raw), o+512)]
				u, err := pttbbs.UnmarshalUserec(b)
				note(err)
				if err == nil {
					login(u)
					_, err = u.MarshalBinary()
					note(err)
				}
				_, err = pttbbs.UnmarshalUserec(b[:r.IntN(len(b)+1)])
				note(err)
			}
			for i, h := range w.hashes {
				for _, salt := range []string{h, h[:2], h[:1], "", h + "\x00", "\xff" + h} {
					_, err := crypt.Fcrypt([]byte(w.passwords[i]), []byte(salt))
					note(err)
					_, err = crypt.Fcrypt(wrong[r.IntN(len(wrong))], []byte(salt))
					note(err)
				}
			}
			for _, o := range w.reads(r) {
				_, err := o.safe(s)
				note(err)
			}
			for _, o := range w.writes(r) {
				_, err := o.safe(s)
				note(err)
			}
			// the account file broken, and gone
			if round == 0 {
				switch r.IntN(3) {
				case 0:
					os.WriteFile(w.passwds(), raw[:len(raw)-r.IntN(512)], 0644)
				case 1:
					os.WriteFile(w.passwds(), mutate(r, raw), 0644)
				case 2:
					os.WriteFile(w.passwds(), append(raw, raw[:100+r.IntN(300)]...), 0644)
				}
			}
		}
	})
	if bytes.Count(seen, []byte("the capture works")) != 2 {
		t.Harness(fmt.Errorf("nothing is captured"))
	}
	searchSecrets(t, "the output of the library", seen, l)
	searchSecrets(t, "an error of the library", errs.Bytes(), l)
	t.Count("operations", ops)
	t.Count("log_lines", bytes.Count(seen, []byte("\n")))
	t.Count("secrets", len(l))
	t.Nontrivial(t.Idx)
}

func c38web(t *T) {
	r := t.R
	users := webAccounts(t, 6)
	for _, u := range users {
		u.pass = secretPassword(r)
		u.hash = refCrypt(u.pass, pick(r, saltChars, 2))
		off, _ := loadLayout(t).of(t, "userec_t.passwd")
		copy(u.rec.raw[off:], u.hash+"\x00")
	}
	home := filepath.Join(t.Dir(), "home", "bbs")
	writeAccounts(t, home, users)
	b := readFile(t, filepath.Join(home, ".PASSWDS"))
	if r.IntN(4) == 0 { // a broken record at the end
		writeFile(t, filepath.Join(home, ".PASSWDS"), append(b, b[:100+r.IntN(400)]...))
	}
	writeFile(t, filepath.Join(home, ".BRD"), boardType.genRec(t, r).raw)
	var l []secret
	var wrong [][]byte
	for _, u := range users {
		l = append(l, passwordSecret(u.id, u.pass)...)
		l = append(l, hashSecret(u.id, u.hash)...)
	}
	for i := 0; i < 10; i++ {
		p := secretPassword(r)
		wrong = append(wrong, p)
		l = append(l, passwordSecret("a failed login", p)...)
	}
	s := startWeb(t)
	m := &auth{s: s, users: users, seen: map[string]int{}}
	var seen bytes.Buffer
	n := 0
	ok := func(a *webAnswer, err error) *webAnswer {
		t.Check(err == nil, "%v", err)
		fmt.Fprintf(&seen, "%d %s %s\n", a.status, a.header, a.body)
		n++
		return a
	}
	form := map[string]string{"Content-Type": "application/x-www-form-urlencoded"}
	tokens := map[string]string{}
	for _, u := range users {
		for _, p := range [][]byte{u.pass, wrong[r.IntN(10)], wrong[r.IntN(10)], append(append([]byte{}, u.pass...), 'x'), u.pass[:len(u.pass)-1]} {
			for _, id := range []string{u.id, u.id + "x", "", "nobody", "a b%"} {
				q := url.Values{"username": {id}, "password": {string(p)}}.Encode()
				a := ok(s.do("POST", "/v1/token", form, q))
				if i := bytes.Index(a.body, []byte(`"access_token": "`)); i >= 0 && id == u.id {
					tokens[id] = strings.SplitN(string(a.body[i+17:]), `"`, 2)[0]
				}
				switch r.IntN(12) {
				case 6: // parameters which cannot be parsed
					ok(s.do("POST", "/v1/token?"+q+[]string{"&x=%zz", ";a=b", "&%", "%"}[r.IntN(4)], nil, ""))
				case 7:
					ok(s.do("POST", "/v1/token?"+q, form, []string{"a=%zz", q + "%", q + ";x=y", "%"}[r.IntN(4)]))
				case 8:
					ok(s.do("POST", "/v1/token?"+q, map[string]string{"Content-Type": []string{"multipart/form-data", "multipart/form-data; boundary=x", "/", "a/b; c", "application/x-www-form-urlencoded; charset"}[r.IntN(5)]}, q))
				case 9:
					ok(s.do("POST", "/v1/token", map[string]string{"Content-Type": "multipart/form-data; boundary=x"}, "--x\r\nContent-Disposition: form-data; name=\"username\"\r\n\r\n"+id+"\r\n--x\r\nContent-Disposition: form-data; name=\"password\"\r\n\r\n"+string(p)+"\r\n--x"+[]string{"--", "", "\r\n"}[r.IntN(3)]))
				case 10:
					ok(s.do([]string{"POST", "GET"}[r.IntN(2)], []string{"/v1/token", "/v1/users/" + url.PathEscape(u.id) + "/information", "/v1/boards"}[r.IntN(3)], map[string]string{"Authorization": "Basic " + base64.StdEncoding.EncodeToString([]byte(id+":"+string(p)))}, ""))
				case 11:
					ok(s.do([]string{"HEAD", "PATCH", "DELETE", "OPTIONS"}[r.IntN(4)], "/v1/token?"+q, form, q))
				case 0:
					ok(s.do("POST", "/v1/token?"+q, nil, ""))
				case 1:
					ok(s.do("GET", "/v1/token?"+q, nil, ""))
				case 2:
					ok(s.do("POST", "/v1/token", form, q+"&x=%zz"))
				case 3:
					ok(s.do("POST", "/v1/token", map[string]string{"Content-Type": "application/json"}, fmt.Sprintf(`{"username":%q,"password":%q}`, id, p)))
				case 4:
					ok(s.do("PUT", "/v1/token", form, q))
				case 5:
					ok(s.do("GET", "/v1/users/"+url.PathEscape(u.id)+"/information", map[string]string{"Authorization": "Basic " + base64.StdEncoding.EncodeToString([]byte("u"+pick(r, alnum, r.IntN(3))+":x"))}, ""))
				}
			}
		}
	}
	for _, u := range users {
		for _, v := range users {
			ok(m.info(v.id, "Bearer "+tokens[u.id]))
		}
	}
	ok(s.do("GET", "/v1/boards", nil, ""))
	for i := 0; i < 30; i++ {
		if err := s.oddRequest(r, users, tokens); err != nil {
			t.Fatalf("%v", err)
		}
	}
	t.Check(s.alive(), "the server ended: %s", s.log())
	out := readFile(t, s.out)
	searchSecrets(t, "a response of the web server", seen.Bytes(), l)
	searchSecrets(t, "the log of the web server", out, l)
	t.Count("requests", n)
	t.Count("tokens", len(tokens))
	t.Count("log_lines", bytes.Count(out, []byte("\n")))
	t.Nontrivial(t.Idx)
}

func c38cli(t *T) {
	r := t.R
	w := genWorld(t, "h", r.IntN(2) == 0)
	c := &cli{t: t, bin: program(t, "./cmd/bbstool", false), home: w.dir}
	var l []secret
	for i, id := range w.ids {
		l = append(l, passwordSecret(id, []byte(w.passwords[i]))...)
		l = append(l, hashSecret(id, w.hashes[i])...)
	}
	raw := readFile(t, w.passwds())
	if r.IntN(3) == 0 {
		writeFile(t, w.passwds(), append(raw, raw[:100+r.IntN(300)]...))
	}
	u := w.ids[r.IntN(len(w.ids))]
	board := "x"
	if len(w.boards) > 0 && w.boards[0].id != "" {
		board = w.boards[0].id
	}
	var seen bytes.Buffer
	for _, args := range [][]string{{"show_board_list"}, {"show_user_list"}, {"show_user_article_list", "--user_id", u}, {"show_user_comment_list", "--user_id", u}, {"show_board_article_list", "--board", board},
		{"add_board_article", "--board", board, "--owner", u, "--date", "1/02", "--title", "t", "--content", "c"}, {"show_board_article", "--board", board, "--filename", "M.1.A.000"}, {"add_board", "--board_id", "New1", "--title", "t"}, {"show_user_list", "--user_id", u}} {
		o, err := c.run([]string{"--bbshome=" + w.dir}, args...)
		t.Check(err == nil, "%v", err)
		seen.WriteString(o.stdout + o.stderr)
		t.Count("commands", 1)
	}
	searchSecrets(t, "the output of the command line tool", seen.Bytes(), l)
	t.Nontrivial(t.Idx)
}

func init() {
	register(&Prop{ID: "C38",
		Rule:   "accounts get passwords and hashes which cannot occur by chance; everything the library prints, logs and returns as an error, every response and log line of the built web server and every output of the built command line tool is searched for them as they are, quoted, escaped, as numbers, in hexadecimal and base 64 and as cipher key, while logins succeed and fail and account files are whole and broken",
		Assume: []string{"a URL which the server sends the client back to is the client's own: passwords in a URL are only sent to the canonical path"},
		Groups: []Group{{Name: "library", Quick: 40, Thorough: 4000, Par: 1, Fn: c38},
			{Name: "web", Quick: 12, Thorough: 500, Par: 1, Fn: c38web},
			{Name: "tool", Quick: 60, Thorough: 3000, Fn: c38cli}}})
}
