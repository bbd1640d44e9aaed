package main

import (
	"encoding/json"
	"os"
	"sync"
)

// Tables interns everything the abstract traces refer to. Identifiers are dense, start at 1
// and are shared by all worlds of a run; 0 means "unknown".
type Tables struct {
	mu   sync.Mutex
	ids  map[string]map[string]int
	Leaf []LeafT // leaf hash -> content
	Ent  []EntT  // data tile / get-entries entry
	Kids [][]int // tile hash (level >= 1) -> the 256 hashes below it
	Root [][]int // root hash -> leaf sequence from off (empty: unknown)
	Rlen []int   // root hash -> tree size relative to D (-1: unknown)
	Sub  []SubT

	kidsDone []bool
}

type LeafT struct {
	Idx int `json:"idx"`
	Ts  int `json:"ts"`
	B   int `json:"b"`
	H   int `json:"h"` // first 16 bytes
}

type EntT struct {
	M  int   `json:"m"`
	B  int   `json:"b"`
	C  int   `json:"c"`  // certificate (x509) or precertificate fingerprint
	Ch []int `json:"ch"` // fingerprints of chain[1:]
	Wf int   `json:"wf"`
}

type SubT struct {
	B  int   `json:"b"`
	C  int   `json:"c"`
	Ch []int `json:"ch"`
	Pr int   `json:"pr"`
	Ok int   `json:"ok"`
}

var tb = &Tables{ids: map[string]map[string]int{}}

func (t *Tables) id(kind, s string) int {
	m := t.ids[kind]
	if m == nil {
		m = map[string]int{}
		t.ids[kind] = m
	}
	if v, ok := m[s]; ok {
		return v
	}
	v := len(m) + 1
	m[s] = v
	return v
}

func intern(kind, s string) int {
	tb.mu.Lock()
	defer tb.mu.Unlock()
	return tb.id(kind, s)
}

func (t *Tables) leafID(h Hash) int {
	n := t.id("m", string(h[:]))
	for len(t.Leaf) < n {
		t.Leaf = append(t.Leaf, LeafT{Idx: -1})
	}
	if t.Leaf[n-1].H == 0 {
		t.Leaf[n-1].H = t.id("h", string(h[:16]))
	}
	return n
}

func leafID(h Hash) int { tb.mu.Lock(); defer tb.mu.Unlock(); return tb.leafID(h) }

// leafOf registers the content behind a leaf hash.
func leafOf(h Hash, idx, ts, b int) int {
	tb.mu.Lock()
	defer tb.mu.Unlock()
	n := tb.leafID(h)
	l := &tb.Leaf[n-1]
	l.Idx, l.Ts, l.B = idx, ts, b
	return n
}

func (t *Tables) nodeID(h Hash) int {
	n := t.id("n", string(h[:]))
	for len(t.Kids) < n {
		t.Kids = append(t.Kids, []int{})
	}
	return n
}

func nodeIDOf(h Hash) int { tb.mu.Lock(); defer tb.mu.Unlock(); return tb.nodeID(h) }

// nodeKids registers the hashes below a tile hash.
func nodeKids(h Hash, kids []int) int {
	tb.mu.Lock()
	defer tb.mu.Unlock()
	n := tb.nodeID(h)
	if len(tb.Kids[n-1]) == 0 {
		tb.Kids[n-1] = kids
	}
	return n
}

func (t *Tables) rootID(h Hash) int {
	n := t.id("r", string(h[:]))
	for len(t.Root) < n {
		t.Root = append(t.Root, []int{})
		t.Rlen = append(t.Rlen, -1)
	}
	return n
}

func rootID(h Hash) int { tb.mu.Lock(); defer tb.mu.Unlock(); return tb.rootID(h) }

func rootKnown(h Hash) bool {
	tb.mu.Lock()
	defer tb.mu.Unlock()
	n := tb.rootID(h)
	return tb.Rlen[n-1] >= 0
}

func rootSeq(h Hash, rel int64, ms []int) {
	tb.mu.Lock()
	defer tb.mu.Unlock()
	n := tb.rootID(h)
	tb.Root[n-1], tb.Rlen[n-1] = ms, int(rel)
}

func entID(key string, e EntT) int {
	tb.mu.Lock()
	defer tb.mu.Unlock()
	n := tb.id("x", key)
	if n > len(tb.Ent) {
		if e.Ch == nil {
			e.Ch = []int{}
		}
		tb.Ent = append(tb.Ent, e)
	}
	return n
}

func subID(s SubT) int {
	tb.mu.Lock()
	defer tb.mu.Unlock()
	if s.Ch == nil {
		s.Ch = []int{}
	}
	tb.Sub = append(tb.Sub, s)
	return len(tb.Sub)
}

func (t *Tables) write(path string) {
	t.mu.Lock()
	defer t.mu.Unlock()
	// never empty: the JSON reader of TLC maps [] to << >>
	d, err := json.Marshal(map[string]any{"leaf": append([]LeafT{}, t.Leaf...), "ent": append([]EntT{}, t.Ent...),
		"kids": append([][]int{}, t.Kids...), "root": append([][]int{}, t.Root...), "rlen": append([]int{}, t.Rlen...), "sub": append([]SubT{}, t.Sub...)})
	must(err)
	must(os.WriteFile(path, d, 0644))
}
