package main

import (
	"bufio"
	"crypto/sha256"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"
)

// The filesystem storage (C21): every object behaves as a register. Processes that set
// objects are killed, or get an error, at every system call that touches files; readers watch
// while the calls are slowed down; several processes and goroutines set the same object.

// fsProc is a process with a filesystem storage on dir.
type fsProc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Scanner
}

func startFs(root string, wrap ...string) *fsProc {
	a := append(append([]string{}, wrap...), sutPath, "fs", root)
	p := &fsProc{cmd: exec.Command(a[0], a[1:]...)}
	p.cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL, Setpgid: true}
	var err error
	p.in, err = p.cmd.StdinPipe()
	must(err)
	o, err := p.cmd.StdoutPipe()
	must(err)
	p.out = bufio.NewScanner(o)
	must(p.cmd.Start())
	return p
}

// do sends a command; it returns the words of the answer, or nil when the process is gone.
func (p *fsProc) do(f string, a ...any) []string {
	t := time.AfterFunc(20*time.Second, func() { syscall.Kill(-p.cmd.Process.Pid, syscall.SIGKILL) })
	defer t.Stop()
	if _, err := fmt.Fprintf(p.in, f+"\n", a...); err != nil {
		return nil
	}
	for p.out.Scan() {
		if r, ok := strings.CutPrefix(p.out.Text(), "RES "); ok {
			return strings.Fields(r)
		}
	}
	return nil
}

func (p *fsProc) stop() {
	p.in.Close()
	t := time.AfterFunc(10*time.Second, func() { syscall.Kill(-p.cmd.Process.Pid, syscall.SIGKILL) })
	p.cmd.Wait()
	t.Stop()
	syscall.Kill(-p.cmd.Process.Pid, syscall.SIGKILL)
}

// fsT is a scenario on one directory.
type fsT struct {
	w    *World
	r    *rand.Rand
	root string
	src  string
	mu   sync.Mutex
	n    int
	rd   int
	busy map[string]int // sets under way
	conc map[string]int // number of times two sets overlapped
}

func newFsT(c *Ctx) *fsT {
	w := c.World(WOpt{})
	t := &fsT{w: w, r: c.Rng, root: filepath.Join(w.dir, "store"), src: filepath.Join(w.dir, "src"), busy: map[string]int{}, conc: map[string]int{}}
	must(os.MkdirAll(t.root, 0755))
	must(os.MkdirAll(t.src, 0755))
	return t
}

// content writes a source file and returns its path and id.
func (t *fsT) content(size int) (string, int) {
	t.mu.Lock()
	t.n++
	n := t.n
	b := make([]byte, size)
	t.r.Read(b)
	t.mu.Unlock()
	p := fmt.Sprintf("%s/%d", t.src, n)
	must(os.WriteFile(p, b, 0644))
	return p, fsID(b)
}

func fsID(b []byte) int {
	h := sha256.Sum256(b)
	return intern("fsc", string(h[:]))
}

// set stores a fresh content of the given size. must: it has to succeed.
func (t *fsT) set(p *fsProc, key string, size int, mustOK bool) bool {
	src, c := t.content(size)
	e := t.begin(key, c)
	r := p.do("set %s %s", key, src)
	ok := r != nil && r[0] == "true"
	e(ok, mustOK)
	os.Remove(src)
	return ok
}

// begin records the start of a set and returns the function that records its end.
func (t *fsT) begin(key string, c int) func(ok, mustOK bool) {
	k := intern("fsk", key)
	t.mu.Lock()
	if t.busy[key] > 0 {
		t.conc[key]++
	}
	t.busy[key]++
	c0 := t.conc[key]
	alone := t.busy[key] == 1
	t.w.Emit(Ev{"e": "fss", "k": k, "c": c})
	t.mu.Unlock()
	return func(ok, mustOK bool) {
		t.mu.Lock()
		t.busy[key]--
		t.w.Emit(Ev{"e": "fse", "k": k, "c": c, "ok": bi(ok), "must": bi(mustOK), "alone": bi(alone && t.conc[key] == c0)})
		t.mu.Unlock()
	}
}

// read looks at the object, from disk.
func (t *fsT) read(key string, quiet bool) {
	t.mu.Lock()
	t.rd++
	r := t.rd
	t.w.Emit(Ev{"e": "fsr0", "k": intern("fsk", key), "r": r})
	t.mu.Unlock()
	b, err := os.ReadFile(filepath.Join(t.root, key))
	c, ok := 0, true
	if err == nil {
		c = fsID(b)
	} else if !os.IsNotExist(err) {
		ok = false
	}
	t.mu.Lock()
	t.w.Emit(Ev{"e": "fsr", "r": r, "c": c, "ok": bi(ok), "quiet": bi(quiet)})
	t.mu.Unlock()
}

// get reads through the storage.
func (t *fsT) get(p *fsProc, key string, quiet bool) {
	t.mu.Lock()
	t.rd++
	r := t.rd
	t.w.Emit(Ev{"e": "fsr0", "k": intern("fsk", key), "r": r})
	t.mu.Unlock()
	dst := fmt.Sprintf("%s/g%d", t.src, r)
	x := p.do("getto %s %s", key, dst)
	c, ok := 0, true
	if len(x) == 2 && x[0] == "true" {
		b, err := os.ReadFile(dst)
		must(err)
		os.Remove(dst)
		c = fsID(b)
	} else if len(x) != 2 || x[1] != "missing" {
		ok = false
	}
	t.w.Emit(Ev{"e": "fsr", "r": r, "c": c, "ok": bi(ok), "quiet": bi(quiet)})
}

func haveStrace() bool {
	out, err := exec.Command("strace", "-f", "-qq", "-e", "trace=openat", "-e", "inject=openat:error=ENOSPC:when=9999", "true").CombinedOutput()
	return err == nil && !strings.Contains(string(out), "PTRACE")
}

var fsCalls = []string{"openat", "write", "fsync", "fdatasync", "close", "rename", "renameat", "renameat2", "fchmod", "fchmodat", "ftruncate", "unlinkat", "linkat", "mkdirat", "pwrite64"}

func straceWrap(root, inj string) []string {
	return []string{"strace", "-f", "-qq", "-o", "/dev/null", "-e", "trace=" + strings.Join(fsCalls, ","), "-e", inj}
}

func init() {
	families["fs"] = func(r *rand.Rand, tier string) []Scenario {
		var out []Scenario
		add := func(name string, f func(t *fsT)) {
			out = append(out, Scenario{Name: "fs-" + name, Run: func(c *Ctx) {
				t := newFsT(c)
				f(t)
			}})
		}
		keys := []string{"checkpoint", "ct/v1/get-sth", "tile/data/x001/234.p/7", "int/hashes/ab/cd/ef/" + strings.Repeat("0", 26)}
		rep := 1
		if tier == "thorough" {
			rep = 6
		}
		sizes := []int{0, 1, 700, 5000, 70000, 300000}
		if haveStrace() {
			for _, call := range []string{"openat", "write", "fsync", "close", "renameat", "rename", "fchmod", "fchmodat", "ftruncate", "mkdirat", "unlinkat"} {
				for _, how := range []string{"signal=KILL", "error=ENOSPC", "error=EIO"} {
					if how == "error=EIO" && call != "fsync" && call != "close" && tier != "thorough" {
						continue
					}
					call, how := call, how
					add("inject-"+call+"-"+strings.ReplaceAll(how, "=", "-"), func(t *fsT) { t.inject(call, how, rep) })
				}
			}
			for _, call := range []string{"write", "openat", "renameat", "fsync", "close", "fchmod"} {
				call := call
				for _, n := range []int{1, 3} {
					n := n
					add(fmt.Sprintf("watch-%s-%d", call, n), func(t *fsT) { t.watch(call, keys[t.r.Intn(4)], n, 6*rep) })
				}
			}
		}
		for k := 0; k < rep; k++ {
			for i, key := range keys {
				key := key
				add(fmt.Sprintf("seq-%d.%d", i, k), func(t *fsT) { t.seq(key, sizes) })
				add(fmt.Sprintf("race-%d.%d", i, k), func(t *fsT) { t.race(key) })
				add(fmt.Sprintf("limit-%d.%d", i, k), func(t *fsT) { t.limit(key) })
				add(fmt.Sprintf("kill-%d.%d", i, k), func(t *fsT) { t.kill(key) })
			}
			add(fmt.Sprintf("dirs.%d", k), func(t *fsT) { t.dirs() })
		}
		return out
	}
}

// seq: growing, shrinking and empty contents, read back after each.
func (t *fsT) seq(key string, sizes []int) {
	p := startFs(t.root)
	defer p.stop()
	t.get(p, key, true)
	for i := 0; i < 25; i++ {
		t.set(p, key, sizes[t.r.Intn(len(sizes))]+t.r.Intn(3), true)
		t.read(key, true)
		t.get(p, key, true)
	}
}

// inject: the n-th call of a kind fails or kills the process; then the object is read, and
// must still be settable.
func (t *fsT) inject(call, how string, rep int) {
	max := 12
	if call == "openat" || call == "close" || call == "write" {
		max = 22
	}
	good := startFs(t.root)
	defer good.stop()
	var wg sync.WaitGroup
	sem := make(chan bool, 4)
	for i := 0; i < rep; i++ {
		for n := 1; n <= max; n++ {
			key := fmt.Sprintf("d%d/o%d", n%3, n)
			fresh := n%4 == 1
			if fresh {
				key = fmt.Sprintf("new%d/%d/x/o%d", i, n, n) // in directories that do not exist yet
			}
			old, size := []int{0, 3000, 90000}[t.r.Intn(3)], []int{0, 1, 2000, 80000}[t.r.Intn(4)]
			if !fresh {
				t.set(good, key, old, true)
			}
			wg.Add(1)
			n := n
			sem <- true
			go func() {
				defer wg.Done()
				defer func() { <-sem }()
				p := startFs(t.root, straceWrap(t.root, fmt.Sprintf("inject=%s:%s:when=%d", call, how, n))...)
				if t.set(p, key, size, false) {
					t.set(p, key, size/2, false)
				}
				p.stop()
			}()
		}
		wg.Wait()
		for n := 1; n <= max; n++ {
			key := fmt.Sprintf("d%d/o%d", n%3, n)
			if n%4 == 1 {
				key = fmt.Sprintf("new%d/%d/x/o%d", i, n, n)
			}
			t.read(key, true)
			t.get(good, key, true)
			t.set(good, key, 100+t.r.Intn(4000), true)
			t.read(key, true)
		}
	}
}

// watch: calls are slow, readers look at the object all the time.
func (t *fsT) watch(call, key string, when, n int) {
	good := startFs(t.root)
	t.set(good, key, 4000, true)
	good.stop()
	p := startFs(t.root, straceWrap(t.root, fmt.Sprintf("inject=%s:delay_exit=9000:delay_enter=3000:when=%d+", call, when))...)
	stop := make(chan bool)
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				t.read(key, false)
				time.Sleep(700 * time.Microsecond)
			}
		}()
	}
	for i := 0; i < n; i++ {
		t.mu.Lock()
		s := []int{0, 10, 3000, 200000}[t.r.Intn(4)]
		t.mu.Unlock()
		t.set(p, key, s, true)
	}
	close(stop)
	wg.Wait()
	p.stop()
	t.read(key, true)
}

// race: goroutines and processes set the same object, and other objects of its directory.
func (t *fsT) race(key string) {
	var ps []*fsProc
	for i := 0; i < 3; i++ {
		ps = append(ps, startFs(t.root))
	}
	defer func() {
		for _, p := range ps {
			p.stop()
		}
	}()
	for round := 0; round < 8; round++ {
		var wg sync.WaitGroup
		for i, p := range ps {
			wg.Add(1)
			sz := []int{20, 5000, 400000}[t.r.Intn(3)]
			k2 := fmt.Sprintf("%s-%d", key, i)
			if round%2 == 0 {
				k2 = fmt.Sprintf("r%d/a/b/c/%d", round, i)
			}
			go func() {
				defer wg.Done()
				t.set(p, key, sz, true)
				t.set(p, k2, 100, true)
				t.set(p, key, sz/3, true)
			}()
		}
		for i := 0; i < 6; i++ {
			t.read(key, false)
		}
		wg.Wait()
		t.read(key, true)
		// several goroutines of one process
		var ends []func(bool, bool)
		cmd := "pset " + key
		var srcs []string
		for i := 0; i < 3; i++ {
			src, c := t.content([]int{10, 9000, 200000}[t.r.Intn(3)])
			ends = append(ends, t.begin(key, c))
			cmd += " " + src
			srcs = append(srcs, src)
		}
		rs := ps[0].do("%s", cmd)
		for i, e := range ends {
			e(i < len(rs) && rs[i] == "true", true)
		}
		for _, s := range srcs {
			os.Remove(s)
		}
		t.read(key, true)
	}
}

// limit: the write runs into a size limit (a full disk) half way.
func (t *fsT) limit(key string) {
	for i := 0; i < 6; i++ {
		p := startFs(t.root)
		t.set(p, key, 3000+t.r.Intn(3000), true)
		p.do("fsize %d", []int{0, 1, 1000, 4096, 50000}[t.r.Intn(5)])
		t.set(p, key, 60000+t.r.Intn(1000), false)
		t.read(key, true)
		p.stop()
		p = startFs(t.root)
		t.get(p, key, true)
		t.set(p, key, 200, true)
		t.read(key, true)
		p.stop()
	}
}

// kill: the process dies at some time while it sets a large object.
func (t *fsT) kill(key string) {
	p := startFs(t.root)
	t.set(p, key, 100000, true)
	p.stop()
	for i := 0; i < 12; i++ {
		p := startFs(t.root)
		if t.r.Intn(2) == 0 {
			t.set(p, "warm/"+key, 10, true)
		}
		src, c := t.content(8 << 20)
		e := t.begin(key, c)
		fmt.Fprintf(p.in, "set %s %s\n", key, src)
		time.Sleep(time.Duration(t.r.Intn(14000)) * time.Microsecond)
		p.cmd.Process.Kill()
		ok := false
		for p.out.Scan() {
			ok = ok || p.out.Text() == "RES true"
		}
		p.stop()
		e(ok, false)
		os.Remove(src)
		t.read(key, true)
	}
}

// dirs: many objects in directories nobody has created yet, from several processes.
func (t *fsT) dirs() {
	var wg sync.WaitGroup
	for i := 0; i < 3; i++ {
		p := startFs(t.root)
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer p.stop()
			for j := 0; j < 60; j++ {
				k := fmt.Sprintf("x/%d/y/%d/z", j, j%7)
				t.set(p, k, 50, true)
				t.set(p, fmt.Sprintf("%s.%d", k, i), 30, true)
				t.read(fmt.Sprintf("%s.%d", k, i), true)
			}
		}()
	}
	wg.Wait()
	for j := 0; j < 60; j++ {
		t.read(fmt.Sprintf("x/%d/y/%d/z", j, j%7), true)
	}
}
