package main

import (
	"crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"sync"
)

var randReader = rand.Reader

// Base is a synthetic, valid published log of a given size on which worlds start.
// Entries from Off on appear in traces; everything below Off is "base" to the observer.
// Deep bases use pseudo-random hashes below Off (their leaves are never looked at).
type Base struct {
	Size, Off, D int64
	deep         bool
	levels       [][]Hash // small bases: levels[l][pos], complete subtrees only
	mu           sync.Mutex
	cache        map[[2]int64]Hash
	Ents         []*Entry // Off..Size-1
	leafH        []Hash
}

var baseMu sync.Mutex
var bases = map[string]*Base{}

func baseIssFps() []Hash {
	var f []Hash
	for _, c := range getPKI().baseIss {
		f = append(f, sha256.Sum256(c.Cert.Raw))
	}
	return f
}

func baseEntry(d, off, i int64, fps []Hash) *Entry {
	e := &Entry{Ts: uint64(epoch) - 400000000 + uint64(i-d)%100000000, Idx: uint64(i), Fps: fps, Cert: []byte(fmt.Sprintf("base certificate %d/%d/%d", d, off, i))}
	if i%5 == 3 {
		e.Pre = true
		e.PreC = []byte(fmt.Sprintf("base precertificate %d/%d/%d", d, off, i))
		e.IKH = sha256.Sum256([]byte("ikh"))
	}
	return e
}

func getBase(size, off, d int64) *Base {
	baseMu.Lock()
	defer baseMu.Unlock()
	key := fmt.Sprint(size, off, d)
	if b := bases[key]; b != nil {
		return b
	}
	b := &Base{Size: size, Off: off, D: d, deep: d > 0, cache: map[[2]int64]Hash{}}
	fps := baseIssFps()
	for i := off; i < size; i++ {
		e := baseEntry(d, off, i, fps)
		b.Ents = append(b.Ents, e)
		b.leafH = append(b.leafH, leafHash(e.leaf()))
	}
	if !b.deep {
		l0 := make([]Hash, size)
		for i := int64(0); i < size; i++ {
			if i >= off {
				l0[i] = b.leafH[i-off]
			} else {
				l0[i] = leafHash(baseEntry(d, off, i, fps).leaf())
			}
		}
		b.levels = append(b.levels, l0)
		for len(b.levels[len(b.levels)-1]) > 1 {
			p := b.levels[len(b.levels)-1]
			q := make([]Hash, len(p)/2)
			for i := range q {
				q[i] = nodeHash(p[2*i], p[2*i+1])
			}
			b.levels = append(b.levels, q)
		}
	}
	bases[key] = b
	return b
}

// Node returns the hash of a complete subtree of the base.
func (b *Base) Node(level uint, pos int64) (Hash, bool) {
	if (pos+1)<<level > b.Size {
		return Hash{}, false
	}
	if !b.deep {
		return b.levels[level][pos], true
	}
	if level == 0 && pos >= b.Off {
		return b.leafH[pos-b.Off], true
	}
	if (pos+1)<<level <= b.Off && level%8 == 0 {
		// The pseudo hash of a node strictly inside the base. The hash of a node whose
		// children are visible through an edge tile is never asked for (see edge below).
		var buf [20]byte
		binary.BigEndian.PutUint64(buf[:8], uint64(level))
		binary.BigEndian.PutUint64(buf[8:16], uint64(pos))
		copy(buf[16:], "deep")
		return sha256.Sum256(buf[:]), true
	}
	b.mu.Lock()
	h, ok := b.cache[[2]int64{int64(level), pos}]
	b.mu.Unlock()
	if ok {
		return h, true
	}
	l, ok1 := b.Node(level-1, pos*2)
	r, ok2 := b.Node(level-1, pos*2+1)
	if !ok1 || !ok2 {
		return Hash{}, false
	}
	h = nodeHash(l, r)
	b.mu.Lock()
	b.cache[[2]int64{int64(level), pos}] = h
	b.mu.Unlock()
	return h, true
}

// object produces a stored object of the base on demand.
func (b *Base) object(key string) ([]byte, bool) {
	t, ok := parseTile(key)
	if !ok {
		return nil, false
	}
	if t.L <= 0 {
		start := t.N * 256
		if start+int64(t.W) > b.Size || (t.W != 256 && start+int64(t.W) != b.Size) {
			return nil, false
		}
		if t.L == -1 {
			fps := baseIssFps()
			var out []byte
			for i := start; i < start+int64(t.W); i++ {
				if i >= b.Off {
					out = b.Ents[i-b.Off].append(out)
				} else {
					out = baseEntry(b.D, b.Off, i, fps).append(out)
				}
			}
			return out, true
		}
	}
	var out []byte
	for j := int64(0); j < int64(t.W); j++ {
		h, ok := b.Node(uint(8*t.L), t.N*256+j)
		if !ok {
			return nil, false
		}
		out = append(out, h[:]...)
	}
	return out, true
}
