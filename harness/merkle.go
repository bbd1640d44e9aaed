package main

import "crypto/sha256"

// Independent RFC 6962 hashing (does not use golang.org/x/mod/sumdb/tlog).

type Hash = [32]byte

func leafHash(b []byte) Hash {
	h := sha256.New()
	h.Write([]byte{0})
	h.Write(b)
	var r Hash
	h.Sum(r[:0])
	return r
}

func nodeHash(l, r Hash) Hash {
	var buf [65]byte
	buf[0] = 1
	copy(buf[1:], l[:])
	copy(buf[33:], r[:])
	return sha256.Sum256(buf[:])
}

// perfectHash hashes a power-of-two sized list of hashes.
func perfectHash(hs []Hash) Hash {
	cur := append([]Hash(nil), hs...)
	for len(cur) > 1 {
		for i := 0; i < len(cur)/2; i++ {
			cur[i] = nodeHash(cur[2*i], cur[2*i+1])
		}
		cur = cur[:len(cur)/2]
	}
	return cur[0]
}

// Nodes gives the hash of the complete binary subtree at (level, pos), i.e. of the
// leaves [pos<<level, (pos+1)<<level).
type Nodes interface {
	Node(level uint, pos int64) (Hash, bool)
}

// mthRange computes the RFC 6962 hash of leaves [lo,hi) where lo is a multiple of the
// smallest power of two >= hi-lo (the only ranges the recursion produces).
func mthRange(n Nodes, lo, hi int64) (Hash, bool) {
	sz := hi - lo
	if sz&(sz-1) == 0 {
		lvl := uint(0)
		for int64(1)<<lvl < sz {
			lvl++
		}
		if lo&(sz-1) == 0 {
			return n.Node(lvl, lo>>lvl)
		}
	}
	k := int64(1)
	for k*2 < sz {
		k *= 2
	}
	l, ok := mthRange(n, lo, lo+k)
	if !ok {
		return Hash{}, false
	}
	r, ok := mthRange(n, lo+k, hi)
	if !ok {
		return Hash{}, false
	}
	return nodeHash(l, r), true
}

func mth(n Nodes, size int64) (Hash, bool) {
	if size == 0 {
		return sha256.Sum256(nil), true
	}
	return mthRange(n, 0, size)
}
