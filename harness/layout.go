package main

import (
	"bufio"
	"bytes"
	_ "embed"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sync"
)

//go:embed c/layout.c
var layoutC []byte

// layout holds offset and size of the fields of the C structures, as gcc lays
// them out.
type layout map[string][2]int

var (
	layMu    sync.Mutex
	layCache = map[string]layout{}
	layGiven bool
)

// saveLayouts writes the layouts which are known for a worker.
func saveLayouts(t *T, file string) {
	layMu.Lock()
	js, err := json.Marshal(layCache)
	layMu.Unlock()
	t.Harness(err)
	writeFile(t, file, js)
}

// giveLayouts makes a worker use these and start no compiler.
func giveLayouts(t *T, file string) {
	js, err := os.ReadFile(file)
	t.Harness(err)
	t.Harness(json.Unmarshal(js, &layCache))
	layGiven = true
}

func loadLayout(t *T, defs ...string) layout {
	key := fmt.Sprint(defs)
	layMu.Lock()
	l, ok := layCache[key]
	layMu.Unlock()
	if ok {
		return l
	}
	if layGiven {
		t.Harness(fmt.Errorf("the layout %s was not given", key))
	}
	dir, err := os.MkdirTemp("", "layout")
	t.Harness(err)
	defer os.RemoveAll(dir)
	src, bin := filepath.Join(dir, "layout.c"), filepath.Join(dir, "layout")
	t.Harness(os.WriteFile(src, layoutC, 0644))
	out, err := exec.Command("gcc", append(append([]string{}, defs...), "-O0", "-o", bin, src)...).CombinedOutput()
	if err != nil {
		t.Harness(fmt.Errorf("gcc: %v %s", err, out))
	}
	out, err = exec.Command(bin).Output()
	t.Harness(err)
	l = layout{}
	sc := bufio.NewScanner(bytes.NewReader(out))
	for sc.Scan() {
		var s, f string
		var off, size int
		_, err := fmt.Sscan(sc.Text(), &s, &f, &off, &size)
		t.Harness(err)
		l[s+"."+f] = [2]int{off, size}
	}
	layMu.Lock()
	layCache[key] = l
	layMu.Unlock()
	return l
}

func (l layout) of(t *T, name string) (off, size int) {
	v, ok := l[name]
	if !ok {
		t.Harness(fmt.Errorf("no field %s in the layout", name))
	}
	return v[0], v[1]
}
