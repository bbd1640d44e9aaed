package main

import (
	"bytes"
	"fmt"
	"io/fs"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"
)

// The whole log on the filesystem storage: the store is looked at from outside, whenever an
// answer arrives and when everything is quiet.

// fsSync records what changed on disk. A checkpoint that is there was published as a tree head
// before, and the tiles of a tree head are there before it, so the order of the reads matters.
func (w *World) fsSync() {
	asked := time.Now()
	w.fsMu.Lock()
	defer w.fsMu.Unlock()
	if w.fsAt.After(asked) {
		return // somebody else looked since
	}
	w.fsAt = time.Now()
	got := map[string][]byte{}
	read := func(key string) []byte {
		b, err := os.ReadFile(filepath.Join(w.fsDir, key))
		if err != nil {
			return nil
		}
		return b
	}
	walk := func(sub string) {
		filepath.WalkDir(filepath.Join(w.fsDir, sub), func(p string, e fs.DirEntry, err error) error {
			if err != nil || e.IsDir() {
				return nil
			}
			k, _ := filepath.Rel(w.fsDir, p)
			if c := classOf(k); c != "other" && !(c == "ded" && sub == "") && c != "sth" && c != "ckpt" && w.isKey(c, k) {
				if b := read(k); b != nil {
					got[k] = b
				}
			}
			return nil
		})
	}
	t0 := time.Now()
	var ck, sth []byte
	for {
		walk("int/dedupe")
		ck = read("checkpoint")
		sth = read("ct/v1/get-sth")
		a := decodeCheckpoint(ck, w.origin, &w.key.PublicKey, w.logID)
		b := decodeSTH(sth, &w.key.PublicKey)
		if (a.Wf && b.Wf && a.Root == b.Root && a.Size == b.Size) || time.Since(t0) > 15*time.Second || (ck == nil && b.Size == 0) {
			break
		}
		live := false
		w.mu.Lock()
		for _, in := range w.insts {
			live = live || (!in.dead && in.upSeen)
		}
		w.mu.Unlock()
		if !live && time.Since(t0) > 300*time.Millisecond {
			break
		}
		time.Sleep(time.Millisecond)
	}
	walk("")
	rank := map[string]int{"ded": 9}
	var ks []string
	for k := range got {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		a, b := rank[classOf(ks[i])], rank[classOf(ks[j])]
		if a != b {
			return a < b
		}
		return ks[i] < ks[j]
	})
	w.mu.Lock()
	defer w.mu.Unlock()
	put := func(k string, b []byte) {
		if b == nil {
			return
		}
		if o, ok := w.objs[k]; ok && bytes.Equal(o, b) {
			return
		}
		w.objs[k] = b
		w.emitPut(nil, k, b, now())
	}
	heads := false
	for _, k := range ks {
		if classOf(k) == "ded" && !heads {
			heads = true
			put("ct/v1/get-sth", sth)
			put("checkpoint", ck)
		}
		put(k, got[k])
	}
	if !heads {
		put("ct/v1/get-sth", sth)
		put("checkpoint", ck)
	}
}

var hexName = regexp.MustCompile(`^[0-9a-f]{64}$`)

// isKey tells objects from other files of the directory.
func (w *World) isKey(c, k string) bool {
	switch c {
	case "iss":
		return hexName.MatchString(strings.TrimPrefix(k, "issuer/"))
	case "hidx", "ded":
		f := strings.SplitN(k, "/", 3)[2]
		return len(f) == len(lookupPath(make([]byte, 16), w.mask)) && strings.Trim(f, "0123456789abcdef/") == ""
	}
	return true
}

func init() {
	families["fse"] = func(r *rand.Rand, tier string) []Scenario {
		var out []Scenario
		n := 6
		if tier == "thorough" {
			n = 60
		}
		for i, b := range []int64{0, 254, 300} {
			b := b
			out = append(out, Scenario{Name: fmt.Sprintf("fse-grow-%d.%d", b, i), Run: func(c *Ctx) { runFseGrow(c, b) }})
		}
		st := haveStrace()
		for i := 0; i < n; i++ {
			b := []int64{0, 253, 255, 511}[r.Intn(4)]
			how := "kill"
			if st && i%3 != 0 {
				how = []string{"renameat", "write", "openat", "fsync", "close"}[r.Intn(5)]
			}
			out = append(out, Scenario{Name: fmt.Sprintf("fse-crash-%s-%d.%d", how, b, i), Run: func(c *Ctx) { runFseCrash(c, b, how) }})
		}
		return out
	}
}

func newFse(c *Ctx, b int64) *D {
	d := newD(c, WOpt{Base: getBase(b, 0, 0), Flush: 120, Fs: "store", Mask: 1 + c.Rng.Intn(5)})
	d.Sick() // publication times are not seen on disk
	return d
}

// quietBattery asks the monitor everything while nothing writes.
func (d *D) quietBattery(k int) {
	d.in.Kill()
	d.cons.Expire(d.in)
	d.fsSync()
	d.battery(k)
	d.in = d.MustUp(nil)
}

func runFseGrow(c *Ctx, b int64) {
	d := newFse(c, b)
	d.in = d.MustUp(nil)
	d.m = d.StartMon(d.fsDir)
	d.growSeq(2)
	d.grow(5)
	d.quietBattery(2)
	d.again(3)
	if b == 300 {
		d.grow(260)
	} else {
		d.grow(6)
	}
	d.again(3)
	// queries while the log grows
	for i := 0; i < 4; i++ {
		subs := d.leaves(3)
		ps := d.submitAll(subs)
		n := d.size()
		d.Query(d.m, Q{Op: "ents", A: n - 1, B: n + 5})
		h, ok := d.hashAt(n - 1)
		if ok {
			d.Query(d.m, Q{Op: "proof", Hash: &h, B: n})
		}
		d.Query(d.m, Q{Op: "cons", A: b, B: n})
		d.Query(d.m, Q{Op: "eap", A: n - 1, B: n})
		d.wait(subs, ps)
	}
	d.quietBattery(3)
	d.again(2)
	d.Probe(d.in, "C21")
	// what does not exist, on this storage
	d.Query(d.m, Q{Op: "roots"})
	for _, x := range []string{"/ct/v1/get-entries?start=-1&end=5", "/../../etc/passwd", "/ct/v1/get-proof-by-hash?hash=AAAA&tree_size=1"} {
		if !strings.HasPrefix(x, "/..") {
			d.Query(d.m, Q{Op: "raw", Raw: x})
		}
	}
	d.quietBattery(1)
}

func runFseCrash(c *Ctx, b int64, how string) {
	d := newFse(c, b)
	d.in = d.MustUp(nil)
	d.m = d.StartMon(d.fsDir)
	d.grow(2)
	d.in.Kill()
	d.cons.Expire(d.in)
	for round := 0; round < 3; round++ {
		if how != "kill" {
			d.wrap = straceWrap(d.fsDir, fmt.Sprintf("inject=%s:signal=KILL:when=%d", how, 1+d.r.Intn(90)))
		}
		d.in = d.Start(nil)
		d.wrap = nil
		d.Emit(Ev{"e": "intr", "i": d.in.ID})
		if d.in.WaitUp(20*time.Second) && d.in.Alive() {
			subs := d.leaves(1 + d.r.Intn(5))
			ps := d.submitAll(subs)
			if how == "kill" {
				time.Sleep(time.Duration(100+d.r.Intn(60)) * time.Millisecond)
			} else {
				d.in.WaitExit(time.Duration(d.r.Intn(1500)) * time.Millisecond)
			}
			d.in.Kill()
			d.wait(subs, ps)
		}
		d.in.Kill()
		d.cons.Expire(d.in)
		d.fsSync()
		d.battery(1)
	}
	d.in = d.MustUp(nil)
	d.again(2)
	d.grow(3)
	d.again(2)
	d.quietBattery(1)
	d.Probe(d.in, "C21")
}
