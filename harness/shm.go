package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/rand/v2"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"unsafe"

	"github.com/Ptt-official-app/go-bbs/cache"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
)

// ---- what the kernel says about segments

type ipcPerm struct {
	Key                        uint32
	Uid, Gid, Cuid, Cgid, Mode uint32
	Seq, pad2                  uint16
	pad3                       [4]byte
	unused1, unused2           uint64
}

// kshmid mirrors struct shmid64_ds of the kernel (linux, 64 bit).
type kshmid struct {
	Perm                ipcPerm
	Segsz               uint64
	Atime, Dtime, Ctime int64
	Cpid, Lpid          int32
	Nattch              uint64
	unused4, unused5    uint64
}

func rawShmget(key int) (int, bool) {
	id, _, e := syscall.Syscall(syscall.SYS_SHMGET, uintptr(key), 0, 0)
	return int(id), e == 0
}

func rawStat(id int) (kshmid, bool) {
	var b struct {
		ds  kshmid
		pad [256]byte
	}
	_, _, e := syscall.Syscall(syscall.SYS_SHMCTL, uintptr(id), 2, uintptr(unsafe.Pointer(&b)))
	return b.ds, e == 0
}

func rawRemove(id int) { _, _, _ = syscall.Syscall(syscall.SYS_SHMCTL, uintptr(id), 0, 0) }

func inodeOf(p string) uint64 {
	fi, err := os.Stat(p)
	if err != nil {
		return 0
	}
	return fi.Sys().(*syscall.Stat_t).Ino
}

// mapped counts the mappings of a file, or of a segment with the id.
func mapped(name string, ino uint64, sysv bool) int {
	f, err := os.Open("/proc/self/maps")
	if err != nil {
		return -1
	}
	defer f.Close()
	n := 0
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		f := strings.Fields(sc.Text())
		if len(f) < 6 || f[4] != strconv.FormatUint(ino, 10) {
			continue
		}
		if sysv && strings.HasPrefix(f[5], "/SYSV") || !sysv && strings.HasSuffix(strings.TrimSuffix(sc.Text(), " (deleted)"), " "+name) {
			n++
		}
	}
	return n
}

// ---- C27

type mSeg struct {
	sysv    bool
	key     int
	shmid   int
	path    string
	ino     uint64
	data    []byte
	removed bool
}

type mAtt struct {
	c      cache.Cache
	seg    *mSeg
	closed bool
	addr   uintptr
	how    string
}

var keyMu sync.Mutex

// freshKey is a key no segment has.
func freshKey(r *rand.Rand) int {
	for {
		k := int(r.Int32N(1<<30)) + 1
		if _, ok := rawShmget(k); !ok {
			return k
		}
	}
}

func addrOf(b []byte) uintptr {
	if len(b) == 0 {
		return 0
	}
	return uintptr(unsafe.Pointer(&b[0]))
}

func segSize(r *rand.Rand) int {
	if r.IntN(60) == 0 {
		return 1<<20 + r.IntN(5<<20)
	}
	switch r.IntN(6) {
	case 0:
		return 1 + r.IntN(16)
	case 1:
		return 4096 * (1 + r.IntN(4))
	case 2:
		return 4096*(1+r.IntN(4)) + r.IntN(3) - 1
	case 3:
		return 1 + r.IntN(200000)
	default:
		return 1 + r.IntN(12000)
	}
}

func c27(t *T) {
	r := t.R
	debug.SetPanicOnFault(true)
	defer debug.SetPanicOnFault(false)
	dir := mkdirs(t, filepath.Join(t.Dir(), "seg"))
	var segs []*mSeg
	var atts []*mAtt
	var log []string
	fds := func(p string) int { // open files with that name
		n := 0
		es, _ := os.ReadDir("/proc/self/fd")
		for _, e := range es {
			l, err := os.Readlink("/proc/self/fd/" + e.Name())
			if err == nil && (l == p || l == p+" (deleted)") {
				n++
			}
		}
		return n
	}
	t.Defer(func() {
		for _, a := range atts {
			if !a.closed {
				a.c.Close()
			}
		}
		for _, s := range segs {
			if s.sysv && !s.removed {
				rawRemove(s.shmid)
			}
		}
	})
	bad := func(format string, a ...interface{}) {
		t.Fatalf("%s\nhistory:\n%s", fmt.Sprintf(format, a...), strings.Join(log, "\n"))
	}
	name := func(s *mSeg) string {
		if s.sysv {
			return fmt.Sprintf("key %d (%d bytes)", s.key, len(s.data))
		}
		return fmt.Sprintf("file %s (%d bytes)", filepath.Base(s.path), len(s.data))
	}
	attached := func(s *mSeg) (n int) {
		for _, a := range atts {
			if a.seg == s && !a.closed {
				n++
			}
		}
		return n
	}
	check := func() {
		for _, s := range segs {
			want := attached(s)
			if s.sysv {
				if s.shmid >= 0 && (!s.removed || want > 0) {
					ds, ok := rawStat(s.shmid)
					if !ok {
						bad("%s is gone", name(s))
					}
					if int(ds.Nattch) != want {
						bad("%s has %d attachments, expected %d", name(s), ds.Nattch, want)
					}
					if int(ds.Segsz) != len(s.data) {
						bad("%s has %d bytes", name(s), ds.Segsz)
					}
				}
				id, ok := rawShmget(s.key)
				if s.removed && ok && id == s.shmid {
					bad("%s is still there", name(s))
				} else if !s.removed && (!ok || id != s.shmid) {
					bad("%s was removed", name(s))
				}
				if n := mapped("", uint64(s.shmid), true); n != want {
					bad("%s is mapped %d times, expected %d", name(s), n, want)
				}
			} else {
				if n := mapped(s.path, s.ino, false); n != want {
					bad("%s is mapped %d times, expected %d", name(s), n, want)
				}
				if n := fds(s.path); n != want && n != 0 {
					bad("%s is open %d times, expected %d", name(s), n, want)
				}
				b, err := os.ReadFile(s.path)
				if s.removed {
					if err == nil && inodeOf(s.path) == s.ino {
						bad("%s is still there", name(s))
					}
				} else {
					if err != nil {
						bad("%s: %v", name(s), err)
					}
					if !bytes.Equal(b, s.data) {
						bad("%s: the file has %d bytes with other content: %s", name(s), len(b), firstDiff3(b, s.data))
					}
				}
			}
		}
		for i, a := range atts {
			if a.closed {
				if len(a.c.Bytes()) != 0 {
					// memory of a closed attachment is not ours, it must not be shown
					bad("attachment %d is closed and still shows %d bytes", i, len(a.c.Bytes()))
				}
				continue
			}
			b := a.c.Bytes()
			if len(b) != len(a.seg.data) {
				bad("attachment %d (%s) of %s has %d bytes", i, a.how, name(a.seg), len(b))
			}
			var err interface{}
			same := func() (ok bool) {
				defer func() {
					if e := recover(); e != nil {
						err = e
					}
				}()
				return bytes.Equal(b, a.seg.data)
			}()
			if err != nil {
				bad("attachment %d (%s) of %s cannot be read: %v", i, a.how, name(a.seg), err)
			}
			if !same {
				bad("attachment %d (%s) of %s shows other bytes: %s", i, a.how, name(a.seg), firstDiff3(b, a.seg.data))
			}
			t.Count("contents_compared", 1)
		}
	}
	add := func(c cache.Cache, s *mSeg, how string) {
		for _, o := range atts {
			if !o.closed && o.addr == addrOf(c.Bytes()) && o.addr != 0 {
				bad("%s: same memory as another attachment", how)
			}
		}
		atts = append(atts, &mAtt{c: c, seg: s, addr: addrOf(c.Bytes()), how: how})
	}
	live := func(sysv bool) *mSeg {
		var l []*mSeg
		for _, s := range segs {
			if s.sysv == sysv && !s.removed {
				l = append(l, s)
			}
		}
		if len(l) == 0 {
			return nil
		}
		return l[r.IntN(len(l))]
	}
	for i := 0; ; i++ { // another segment next to ours, which nobody may touch
		k := freshKey(r)
		id, _, e := syscall.Syscall(syscall.SYS_SHMGET, uintptr(k), 5000, 01000|02000|0600)
		if e != 0 {
			if i > 20 {
				t.Harness(e)
			}
			continue
		}
		segs = append(segs, &mSeg{sysv: true, key: k, shmid: int(id), data: make([]byte, 5000)})
		break
	}
	steps := 12 + r.IntN(18)
	reused := 0
	for i := 0; i < steps; i++ {
		op := r.IntN(15)
		sysv := r.IntN(2) == 0
		say := func(f string, a ...interface{}) { log = append(log, fmt.Sprintf("%d. ", i)+fmt.Sprintf(f, a...)) }
		switch op {
		case 0, 1: // create
			if len(segs) > 6 {
				continue
			}
			size := segSize(r)
			if sysv {
				k := freshKey(r)
				say("CreateKey(%d, %d)", k, size)
				c, err := cache.CreateKey(k, size)
				if err != nil {
					bad("%v", err)
				}
				id, ok := rawShmget(k)
				if !ok {
					bad("there is no segment with the key")
				}
				s := &mSeg{sysv: true, key: k, shmid: id, data: make([]byte, size)}
				segs = append(segs, s)
				add(c, s, "CreateKey")
			} else {
				p := filepath.Join(dir, fmt.Sprintf([]string{"s%d.shm", "s%d.shm", "a:b:%d", "sp ace%%2f#%d?x=1", "shmkey:%d", "%d ", " %d\t"}[r.IntN(7)], i))
				old := -1
				if r.IntN(3) == 0 { // what the file held before is not in the new segment
					old = r.IntN(2*size + 1)
					writeFile(t, p, randBytes(r, old))
					t.Count("created_over_a_file", 1)
				}
				say("CreateMmap(%s, %d), file of %d bytes before", filepath.Base(p), size, old)
				c, err := cache.CreateMmap(p, int64(size))
				if err != nil {
					bad("%v", err)
				}
				s := &mSeg{path: p, ino: inodeOf(p), data: make([]byte, size)}
				segs = append(segs, s)
				add(c, s, "CreateMmap")
			}
		case 2, 3, 4: // open
			s := live(sysv)
			if s == nil || len(atts) > 40 {
				continue
			}
			var c cache.Cache
			var err error
			how := ""
			if s.sysv {
				switch r.IntN(3) {
				case 0:
					how = fmt.Sprintf("OpenKey(%d)", s.key)
					c, err = wrap(cache.OpenKey(s.key))
				case 1:
					how = fmt.Sprintf("NewCache(shmkey:%d)", s.key)
					c, err = cache.NewCache(fmt.Sprintf([]string{"shmkey:%d", "shmkey:%d", "shmkey:%d", "shmkey:0%d", "shmkey:+%d", "shmkey:%012d"}[r.IntN(6)], s.key))
				case 2:
					how = fmt.Sprintf("CreateKey(%d, %d) again", s.key, len(s.data))
					c, err = wrap(cache.CreateKey(s.key, len(s.data)))
				}
			} else {
				n := r.IntN(4)
				if n == 1 && strings.Contains(s.path, ":") {
					n = 2
				}
				switch n {
				case 0:
					how = "OpenMmap(path)"
					c, err = wrapM(cache.OpenMmap(s.path))
				case 1:
					how = "NewCache(path)"
					c, err = cache.NewCache(s.path)
				case 2:
					how = "NewCache(file:path)"
					c, err = cache.NewCache("file:" + s.path)
				case 3:
					how = "NewCache(file://path)"
					c, err = cache.NewCache("file://" + s.path)
				}
			}
			say("%s of %s", how, name(s))
			if err != nil {
				bad("%v", err)
			}
			add(c, s, how)
			for _, o := range atts[:len(atts)-1] {
				if o.closed && o.addr == atts[len(atts)-1].addr {
					reused++
				}
			}
		case 5, 6, 7: // write through one of them
			var l []*mAtt
			for _, a := range atts {
				if !a.closed {
					l = append(l, a)
				}
			}
			if len(l) == 0 {
				continue
			}
			a := l[r.IntN(len(l))]
			n := 1 + r.IntN(len(a.seg.data))
			off := r.IntN(len(a.seg.data) - n + 1)
			if r.IntN(3) == 0 {
				off = len(a.seg.data) - n
			}
			b := randBytes(r, n)
			say("write %d bytes at %d of %s", n, off, name(a.seg))
			copy(a.c.Bytes()[off:], b)
			copy(a.seg.data[off:], b)
		case 8, 9: // close
			if len(atts) == 0 {
				continue
			}
			n := r.IntN(len(atts))
			a := atts[n]
			say("Close attachment %d (%s) of %s, closed before: %v", n, a.how, name(a.seg), a.closed)
			err := a.c.Close()
			if a.closed {
				if err == nil {
					bad("closing it again is no error")
				}
				t.Count("closed_twice", 1)
			} else if err != nil {
				bad("%v", err)
			}
			a.closed = true
		case 10: // remove
			s := live(sysv)
			if s == nil {
				continue
			}
			say("remove %s, %d attachments", name(s), attached(s))
			var err error
			if s.sysv {
				err = cache.RemoveKey(s.key)
			} else {
				err = cache.RemoveMmap(s.path)
			}
			if err != nil {
				bad("%v", err)
			}
			s.removed = true
			if s.sysv && attached(s) == 0 {
				if _, ok := rawStat(s.shmid); ok {
					bad("the segment is still there")
				}
				s.shmid = -1
			}
		case 11, 12: // what must fail
			var err error
			what := ""
			var c cache.Cache
			switch r.IntN(12) {
			case 0:
				k := freshKey(r)
				what = fmt.Sprintf("OpenKey(%d)", k)
				c, err = wrap(cache.OpenKey(k))
			case 1:
				k := freshKey(r)
				what = fmt.Sprintf("RemoveKey(%d)", k)
				err = cache.RemoveKey(k)
			case 2:
				what = "OpenMmap of no file"
				c, err = wrapM(cache.OpenMmap(filepath.Join(dir, "none")))
			case 3:
				what = "OpenMmap of a directory"
				c, err = wrapM(cache.OpenMmap(dir))
			case 4:
				p := filepath.Join(dir, "empty")
				writeFile(t, p, nil)
				what = "OpenMmap of an empty file"
				c, err = wrapM(cache.OpenMmap(p))
				if fds(p) != 0 {
					bad("%s: the file stays open", what)
				}
			case 5:
				what = "RemoveMmap of no file"
				err = cache.RemoveMmap(filepath.Join(dir, "none"))
			case 6:
				s := live(true)
				if s == nil {
					continue
				}
				what = "CreateKey with a larger size than the segment has"
				c, err = wrap(cache.CreateKey(s.key, len(s.data)+4096+r.IntN(9000)))
			case 7:
				s := []string{"shmkey:", "shmkey:x", "shmkey:12x", "other:1", "http://x/y", "shmkey:99999999999999999999", ":", "file:", "file://", ""}[r.IntN(10)]
				what = fmt.Sprintf("NewCache(%q)", s)
				c, err = cache.NewCache(s)
			case 8:
				what = "CreateMmap in no directory"
				c, err = wrapM(cache.CreateMmap(filepath.Join(dir, "none", "x"), 10))
			case 9:
				p := filepath.Join(dir, fmt.Sprintf("bad%d", i))
				what = "CreateMmap of size 0 or less"
				c, err = wrapM(cache.CreateMmap(p, int64(-r.IntN(2))))
				if fds(p) != 0 {
					bad("%s: the file stays open", what)
				}
			case 10:
				p := filepath.Join(dir, fmt.Sprintf("huge%d", i))
				what = "CreateMmap of a size nothing can map"
				c, err = wrapM(cache.CreateMmap(p, 1<<62))
				if fds(p) != 0 {
					bad("%s: the file stays open", what)
				}
			case 11:
				k := freshKey(r)
				what = "CreateKey of a size nothing can have"
				c, err = wrap(cache.CreateKey(k, -1-r.IntN(100)))
				if _, ok := rawShmget(k); ok {
					bad("%s: there is a segment", what)
				}
			}
			say("%s: %v", what, err)
			if err == nil {
				bad("%s: no error", what)
			}
			if c != nil && !reflect.ValueOf(c).IsNil() {
				bad("%s: an attachment and the error %v", what, err)
			}
			t.Count("failing_calls", 1)
		case 13: // query
			s := live(true)
			if s == nil {
				continue
			}
			var b struct {
				pre  [128]byte
				ds   cache.ShmidDs
				post [128]byte
			}
			fill := byte(1 + r.IntN(255))
			for i := range b.pre {
				b.pre[i], b.post[i] = fill, fill
			}
			id, err := cache.Shmget(s.key, 0, 0)
			say("Shmctl(IPCStat) of %s", name(s))
			if err != nil || id != s.shmid {
				bad("Shmget: %d %v, the segment is %d", id, err, s.shmid)
			}
			_, err = cache.Shmctl(id, cache.IPCStat, &b.ds)
			if err != nil {
				bad("%v", err)
			}
			for i := range b.pre {
				if b.pre[i] != fill || b.post[i] != fill {
					bad("the call wrote outside its buffer")
				}
			}
			ds, _ := rawStat(id)
			if uint64(b.ds.ShmSegsz) != ds.Segsz || int(b.ds.ShmSegsz) != len(s.data) || uint64(b.ds.ShmNattach) != ds.Nattch || b.ds.ShmCpid != ds.Cpid || b.ds.ShmLpid != ds.Lpid {
				bad("IPCStat says %d bytes, %d attachments, creator %d, last %d; the kernel %+v", b.ds.ShmSegsz, b.ds.ShmNattach, b.ds.ShmCpid, b.ds.ShmLpid, ds)
			}
			t.Count("queries", 1)
		case 14: // attach and detach by hand, at a page of its own
			s := live(true)
			if s == nil {
				continue
			}
			a, err := cache.Shmat(s.shmid, 0, 0)
			say("Shmat and Shmdt of %s", name(s))
			if err != nil {
				bad("%v", err)
			}
			b := *(*[]byte)(unsafe.Pointer(&struct {
				p    uintptr
				l, c int
			}{a, len(s.data), len(s.data)}))
			if !bytes.Equal(b, s.data) {
				bad("the attached memory has other bytes: %s", firstDiff3(b, s.data))
			}
			if _, err := cache.Shmdt(a); err != nil {
				bad("%v", err)
			}
		}
		if r.IntN(4) == 0 {
			runtime.GC() // attachments in use are not collected
		}
		check()
		t.Count("steps", 1)
	}
	for _, a := range atts {
		if !a.closed {
			if err := a.c.Close(); err != nil {
				bad("Close: %v", err)
			}
			a.closed = true
		}
	}
	runtime.GC()
	check()
	t.Count("segments", len(segs))
	t.Count("attachments", len(atts))
	t.Count("addresses_used_again", reused)
	t.Nontrivial(strings.Join(log, "\n"))
	t.Sample("%s", strings.Join(log[:min(6, len(log))], "; "))
}

func wrap(s *cache.SHM, err error) (cache.Cache, error) {
	if s == nil {
		return nil, err
	}
	return s, err
}

func wrapM(s *cache.Mmap, err error) (cache.Cache, error) {
	if s == nil {
		return nil, err
	}
	return s, err
}

func firstDiff3(got, want []byte) string {
	i := firstDiff(got, want)
	if i < 0 {
		return "equal"
	}
	e := func(b []byte) string {
		if i > len(b) {
			return "nothing"
		}
		return fmt.Sprintf("% x", b[i:min(len(b), i+8)])
	}
	return fmt.Sprintf("at %d %s, expected %s", i, e(got), e(want))
}

// ---- C27: other processes

// c27procs: writes of one process are seen by another one.
func c27procs(t *T) {
	r := t.R
	size := segSize(r)
	var c cache.Cache
	var err error
	where := ""
	if r.IntN(2) == 0 {
		k := freshKey(r)
		where = fmt.Sprintf("shmkey:%d", k)
		c, err = wrap(cache.CreateKey(k, size))
		t.Defer(func() {
			if id, ok := rawShmget(k); ok {
				rawRemove(id)
			}
		})
	} else {
		where = filepath.Join(mkdirs(t, filepath.Join(t.Dir(), "s")), "x")
		c, err = wrapM(cache.CreateMmap(where, int64(size)))
	}
	t.Harness(err)
	defer c.Close()
	mine := randBytes(r, size)
	copy(c.Bytes(), mine)
	seed := r.Uint32()
	res := runWorker(t, workerOpt{}, "shm", where, fmt.Sprint(seed))
	t.Check(res.Exit == 0, "the other process ended with %d: %s", res.Exit, res.Err)
	t.Check(string(bytes.TrimSpace(res.Out)) == fmt.Sprintf("%d %s", size, sha(mine)), "%s: the other process sees %s, expected %d %s", where, res.Out, size, sha(mine))
	want := randBytes(rand.New(rand.NewPCG(uint64(seed), 1)), size)
	t.Check(bytes.Equal(c.Bytes(), want), "%s: what the other process wrote is not seen: %s", where, firstDiff3(c.Bytes(), want))
	t.Count("processes", 1)
	t.Nontrivial(where[:1], size)
}

func workerShm(args []string) {
	c, err := cache.NewCache(args[0])
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	b := c.Bytes()
	fmt.Println(len(b), sha(b))
	seed, _ := strconv.ParseUint(args[1], 10, 64)
	copy(b, randBytes(rand.New(rand.NewPCG(seed, 1)), len(b)))
	if r := c.Close(); r != nil {
		fmt.Println(r)
		os.Exit(1)
	}
}

// ---- C28

type shmSetting struct {
	users, idlen, align, hash int
	cool                      bool
}

func genSetting(r *rand.Rand) shmSetting {
	s := shmSetting{users: 1 + r.IntN(300), idlen: 12, align: []int{0, 1, 2, 4, 8}[r.IntN(5)], hash: r.IntN(17), cool: r.IntN(2) == 0}
	if r.IntN(3) == 0 {
		s.idlen = 1 + r.IntN(40)
	}
	switch r.IntN(5) {
	case 0:
		s.users = 1 + r.IntN(4)
	case 1:
		s.users = 1 + r.IntN(20000)
	}
	return s
}

func (s shmSetting) layout(t *T) layout {
	a := s.align
	if a == 0 {
		a = 1
	}
	d := []string{fmt.Sprintf("-DMAX_USERS=%d", s.users), fmt.Sprintf("-DIDLEN_=%d", s.idlen), fmt.Sprintf("-DHASH_BITS=%d", s.hash), fmt.Sprintf("-DALIGN=%d", a)}
	if s.cool {
		d = append(d, "-DUSE_COOLDOWN")
	}
	return loadLayout(t, d...)
}

func (s shmSetting) mapping() *pttbbs.MemoryMappingSetting {
	return &pttbbs.MemoryMappingSetting{AlignmentBytes: s.align, MaxUsers: s.users, IDLen: s.idlen, UseCoolDown: s.cool, HashBits: s.hash}
}

type shmImage struct {
	shmSetting
	l                 layout
	raw               []byte
	uidOff, moneyOff  int
	infoOff, infoSize int
	infos             []*rrec
}

func genImage(t *T, s shmSetting, ninfo, extra int) *shmImage {
	r := t.R
	im := &shmImage{shmSetting: s, l: s.layout(t)}
	im.uidOff, _ = im.l.of(t, "shm_t.userid")
	im.moneyOff, _ = im.l.of(t, "shm_t.money")
	im.infoOff, _ = im.l.of(t, "shm_t.uinfo")
	_, im.infoSize = im.l.of(t, "userinfo_t..")
	im.raw = randBytes(r, im.infoOff)
	for i := 0; i < s.users; i++ { // most ids look like ids
		im.setID(i, genID(r, s.idlen))
	}
	for i := 0; i < ninfo; i++ {
		rec := infoType.genRec(t, r)
		im.infos = append(im.infos, rec)
		im.raw = append(im.raw, rec.raw...)
	}
	im.raw = append(im.raw, randBytes(r, extra)...)
	return im
}

func genID(r *rand.Rand, idlen int) []byte {
	b := randBytes(r, idlen+1)
	switch r.IntN(8) {
	case 0:
	case 1:
		b = make([]byte, idlen+1)
	default:
		n := r.IntN(idlen + 1)
		copy(b, pick(r, alnum, n))
		b[n] = 0
	}
	return b
}

func (im *shmImage) setID(i int, b []byte) { copy(im.raw[im.uidOff+i*(im.idlen+1):], b) }
func (im *shmImage) id(i int) string {
	b := im.raw[im.uidOff+i*(im.idlen+1):][:im.idlen+1]
	if k := bytes.IndexByte(b, 0); k >= 0 {
		b = b[:k]
	}
	return string(b)
}
func (im *shmImage) money(i int) int32 {
	return int32(binary.LittleEndian.Uint32(im.raw[im.moneyOff+4*i:]))
}

func (im *shmImage) desc() string {
	return fmt.Sprintf("users %d idlen %d align %d hashbits %d cooldown %v", im.users, im.idlen, im.align, im.hash, im.cool)
}

func (im *shmImage) checkAll(t *T, c *pttbbs.Cache, indices int) {
	r := t.R
	d := im.desc()
	if v := c.Version(); v != binary.LittleEndian.Uint32(im.raw) {
		t.Fatalf("%s: version %d, expected %d", d, v, binary.LittleEndian.Uint32(im.raw))
	}
	one := func(i int) {
		if g := c.UserID(i); g != im.id(i) {
			t.Fatalf("%s: id of user %d is %q, expected %q", d, i, g, im.id(i))
		}
		if g := c.Money(i); g != im.money(i) {
			t.Fatalf("%s: money of user %d is %d, expected %d", d, i, g, im.money(i))
		}
		t.Count("users_compared", 1)
	}
	one(0)
	one(im.users - 1)
	for k := 0; k < indices; k++ {
		one(r.IntN(im.users))
	}
	for i, rec := range im.infos {
		u := c.UserInfo(i)
		if u == nil {
			t.Fatalf("%s: no online record %d of %d", d, i, len(im.infos))
		}
		infoType.checkDecoded(t, u, rec, fmt.Sprintf("%s: online record %d", d, i))
		t.Count("online_records_compared", 1)
	}
	for _, i := range []int{-1, im.users, im.users + 1, -im.users, math.MaxInt, math.MinInt, math.MaxInt32, math.MinInt32, math.MaxInt / 4, math.MaxInt/13 + 1, math.MaxInt / 3484, 1 << 62, -(1 << 62), im.users + r.IntN(1000000), -1 - r.IntN(1000000)} {
		if i >= 0 && i < im.users {
			continue
		}
		if g := c.UserID(i); g != "" {
			t.Fatalf("%s: there is no user %d, its id is %q", d, i, g)
		}
		if g := c.Money(i); g != 0 {
			t.Fatalf("%s: there is no user %d, its money is %d", d, i, g)
		}
		t.Count("no_such_user", 1)
	}
	for _, i := range []int{-1, len(im.infos), len(im.infos) + 1, math.MaxInt, math.MinInt, math.MaxInt / 3484, math.MaxInt/3484 + 1, 1 << 62, -(1 << 62), len(im.infos) + r.IntN(100000)} {
		if g := c.UserInfo(i); g != nil {
			t.Fatalf("%s: there is no online record %d of %d, it is %+v", d, i, len(im.infos), *g)
		}
	}
}

// openCache puts the image into a segment.
func openCache(t *T, im *shmImage) (*pttbbs.Cache, []byte, error) {
	r := t.R
	where := ""
	var buf []byte
	if r.IntN(2) == 0 {
		k := freshKey(r)
		c, err := cache.CreateKey(k, len(im.raw))
		if err != nil {
			t.Harness(err)
		}
		t.Defer(func() { c.Close(); _ = cache.RemoveKey(k) })
		copy(c.Bytes(), im.raw)
		buf = c.Bytes()
		where = fmt.Sprintf("shmkey:%d", k)
	} else {
		p := filepath.Join(mkdirs(t, filepath.Join(t.Dir(), "seg")), "shm")
		writeFile(t, p, im.raw)
		c, err := cache.OpenMmap(p)
		t.Harness(err)
		t.Defer(func() { c.Close() })
		buf = c.Bytes()
		where = []string{p, "file:" + p, "file://" + p}[r.IntN(3)]
	}
	c, err := pttbbs.NewCache(where, im.mapping())
	return c, buf, err
}

func c28(t *T) {
	r := t.R
	im := genImage(t, genSetting(r), r.IntN(4), r.IntN(2)*r.IntN(3484))
	c, buf, err := openCache(t, im)
	if err != nil {
		t.Fatalf("%s: %d bytes: %v", im.desc(), len(im.raw), err)
	}
	defer c.Close()
	im.checkAll(t, c, 40)
	// the segment changes, so do the answers
	for k := 0; k < 5; k++ {
		i := r.IntN(im.users)
		im.setID(i, genID(r, im.idlen))
		binary.LittleEndian.PutUint32(im.raw[im.moneyOff+4*i:], r.Uint32())
		binary.LittleEndian.PutUint32(im.raw, r.Uint32())
		copy(buf, im.raw)
		if g := c.UserID(i); g != im.id(i) {
			t.Fatalf("%s: id of user %d is %q after it changed to %q", im.desc(), i, g, im.id(i))
		}
		if g := c.Money(i); g != im.money(i) {
			t.Fatalf("%s: money of user %d is %d after it changed to %d", im.desc(), i, g, im.money(i))
		}
	}
	im.checkAll(t, c, 5)
	if !bytes.Equal(buf, im.raw) {
		t.Fatalf("reading changed the segment: %s", firstDiff3(buf, im.raw))
	}
	t.Nontrivial(im.desc(), len(im.infos))
	t.Count("segments", 1)
	t.Sample("%s, %d online records: %d bytes", im.desc(), len(im.infos), len(im.raw))
}

// c28small: segments which are too small, and just not.
func c28small(t *T) {
	r := t.R
	im := genImage(t, genSetting(r), 2, 0)
	size := im.infoOff
	switch r.IntN(7) {
	case 0:
		size -= 1
	case 1:
		size = im.moneyOff + 4*im.users - r.IntN(3)
	case 2:
		size = 1 + r.IntN(im.infoOff)
	case 3:
		size = 1 + r.IntN(8)
	case 4:
	case 5:
		size = im.infoOff + im.infoSize - 1 - r.IntN(3)
	case 6:
		size = im.infoOff + 2*im.infoSize - 1 - r.IntN(im.infoSize)
	}
	im.raw = im.raw[:size]
	for len(im.infos) > 0 && im.infoOff+len(im.infos)*im.infoSize > size {
		im.infos = im.infos[:len(im.infos)-1]
	}
	c, _, err := openCache(t, im)
	if err != nil {
		if c != nil {
			t.Fatalf("a cache and the error %v", err)
		}
		if size >= im.infoOff+im.infoSize {
			t.Fatalf("%s: %d bytes are enough: %v", im.desc(), size, err)
		}
		t.Count("refused", 1)
		t.Nontrivial(im.desc(), size, "refused")
		return
	}
	defer c.Close()
	// it may be opened all the same, then what is not there is empty
	var u string
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(failNow); ok {
				panic(e)
			}
			t.Fatalf("%s, %d of %d bytes: %s: panic %v", im.desc(), size, im.infoOff, u, e)
		}
	}()
	u = "Version"
	if v := c.Version(); size >= 4 && v != binary.LittleEndian.Uint32(im.raw) || size < 4 && v != 0 {
		t.Fatalf("version %d", v)
	}
	for _, i := range []int{0, im.users - 1, im.users / 2, r.IntN(im.users), r.IntN(im.users)} {
		u = fmt.Sprintf("UserID(%d)", i)
		g := c.UserID(i)
		if end := im.uidOff + (i+1)*(im.idlen+1); end <= size && g != im.id(i) || end > size && g != "" && g != clipID(im, i) {
			t.Fatalf("%s, %d of %d bytes: id of user %d is %q", im.desc(), size, im.infoOff, i, g)
		}
		u = fmt.Sprintf("Money(%d)", i)
		m := c.Money(i)
		if end := im.moneyOff + 4*(i+1); end <= size && m != im.money(i) || end > size && m != 0 {
			t.Fatalf("%s, %d of %d bytes: money of user %d is %d", im.desc(), size, im.infoOff, i, m)
		}
	}
	for i := 0; i < 4; i++ {
		u = fmt.Sprintf("UserInfo(%d)", i)
		g := c.UserInfo(i)
		if i >= len(im.infos) && g != nil {
			t.Fatalf("%s, %d bytes: an online record %d, there are %d", im.desc(), size, i, len(im.infos))
		}
		if i < len(im.infos) {
			if g == nil {
				t.Fatalf("%s, %d bytes: no online record %d of %d", im.desc(), size, i, len(im.infos))
			}
			infoType.checkDecoded(t, g, im.infos[i], "online record")
		}
	}
	t.Count("opened", 1)
	t.Nontrivial(im.desc(), size, "opened")
}

func clipID(im *shmImage, i int) string {
	from := im.uidOff + i*(im.idlen+1)
	if from >= len(im.raw) {
		return ""
	}
	b := im.raw[from:min(len(im.raw), from+im.idlen+1)]
	if k := bytes.IndexByte(b, 0); k >= 0 {
		b = b[:k]
	}
	return string(b)
}

// c28gc: the segment stays attached while an accessor works, also when the
// call is the last use of the cache.
func c28gc(t *T) {
	r := t.R
	debug.SetPanicOnFault(true)
	im := genImage(t, shmSetting{users: 5, idlen: 12, align: 4, hash: 2}, 3, 0)
	p := filepath.Join(mkdirs(t, filepath.Join(t.Dir(), "seg")), "shm")
	writeFile(t, p, im.raw)
	var stop atomic.Bool
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !stop.Load() {
				runtime.GC()
			}
		}()
	}
	defer wg.Wait()
	defer stop.Store(true)
	n := 150
	if !t.Quick() {
		n = 1500
	}
	for k := 0; k < n; k++ {
		i := r.IntN(3)
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(failNow); ok {
						panic(e)
					}
					t.Fatalf("the segment was detached during the call: %v", e)
				}
			}()
			c, err := pttbbs.NewCache(p, im.mapping())
			t.Harness(err)
			u := c.UserInfo(i)
			infoType.checkDecoded(t, u, im.infos[i], "online record")
		}()
		t.Count("last_uses", 1)
	}
	t.Nontrivial(t.Idx)
}

func init() {
	workers["shm"] = workerShm
	register(&Prop{ID: "C27",
		Rule:   "a history of creating, opening, writing, closing (also twice) and removing segments; nontrivial by its steps",
		Assume: []string{"the kernel's shmctl, /proc/self/maps and /proc/self/fd tell what is attached and open", "linux"},
		Groups: []Group{
			{Name: "history", Quick: 1200, Thorough: 60000, Fn: c27},
			{Name: "processes", Quick: 60, Thorough: 2000, Fn: c27procs},
		}})
	register(&Prop{ID: "C28",
		Rule:   "a segment written with the offsets gcc gives for one combination of settings; nontrivial by setting, size and number of online records",
		Assume: []string{"harness/c/layout.c names the members of the C structure in their order", "the alignment setting says at which multiple next_in_hash is placed"},
		Groups: []Group{
			{Name: "settings", Quick: 500, Thorough: 20000, Fn: c28},
			{Name: "small", Quick: 400, Thorough: 10000, Fn: c28small},
			{Name: "collected", Quick: 60, Thorough: 400, Par: 2, Fn: c28gc},
		}})
}
