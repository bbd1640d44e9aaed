package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/sha256"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
	"time"
)

// Independent decoders and encoders for everything itko stores or answers.

var epoch = time.Now().UnixMilli()

func clamp(v int64) int {
	if v > 2000000000 {
		return 2000000000
	}
	if v < -2000000000 {
		return -2000000000
	}
	return int(v)
}

// relTs maps a unix-ms timestamp to the 32-bit integers of the trace.
func relTs(ms uint64) int {
	if ms > 1<<62 {
		return 2000000000
	}
	return clamp(int64(ms) - epoch)
}

type Entry struct {
	Ts   uint64
	Pre  bool
	IKH  [32]byte
	Cert []byte // certificate or TBS
	Idx  uint64
	PreC []byte
	Fps  []Hash
}

func u24(n int) []byte { return []byte{byte(n >> 16), byte(n >> 8), byte(n)} }
func u16(n int) []byte { return []byte{byte(n >> 8), byte(n)} }
func u64(n uint64) []byte {
	return binary.BigEndian.AppendUint64(nil, n)
}

func extBytes(idx uint64) []byte {
	return []byte{0, 0, 5, byte(idx >> 32), byte(idx >> 24), byte(idx >> 16), byte(idx >> 8), byte(idx)}
}

func signedEntry(pre bool, ikh [32]byte, cert []byte) []byte {
	var b []byte
	if pre {
		b = append(b, 0, 1)
		b = append(b, ikh[:]...)
	} else {
		b = append(b, 0, 0)
	}
	b = append(b, u24(len(cert))...)
	return append(b, cert...)
}

// merkleLeaf builds the RFC 6962 MerkleTreeLeaf (equal to the SCT's digitally-signed input).
func merkleLeaf(ts uint64, pre bool, ikh [32]byte, cert []byte, idx uint64) []byte {
	b := []byte{0, 0}
	b = append(b, u64(ts)...)
	b = append(b, signedEntry(pre, ikh, cert)...)
	x := extBytes(idx)
	b = append(b, u16(len(x))...)
	return append(b, x...)
}

func (e *Entry) leaf() []byte { return merkleLeaf(e.Ts, e.Pre, e.IKH, e.Cert, e.Idx) }

func (e *Entry) append(b []byte) []byte {
	b = append(b, u64(e.Ts)...)
	b = append(b, signedEntry(e.Pre, e.IKH, e.Cert)...)
	x := extBytes(e.Idx)
	b = append(b, u16(len(x))...)
	b = append(b, x...)
	if e.Pre {
		b = append(b, u24(len(e.PreC))...)
		b = append(b, e.PreC...)
	}
	b = append(b, u16(32*len(e.Fps))...)
	for _, f := range e.Fps {
		b = append(b, f[:]...)
	}
	return b
}

func (e *Entry) fp() Hash {
	if e.Pre {
		return sha256.Sum256(e.PreC)
	}
	return sha256.Sum256(e.Cert)
}

type rd struct {
	b  []byte
	ok bool
}

func (r *rd) take(n int) []byte {
	if !r.ok || n < 0 || len(r.b) < n {
		r.ok = false
		return nil
	}
	x := r.b[:n]
	r.b = r.b[n:]
	return x
}
func (r *rd) uint(n int) uint64 {
	x := r.take(n)
	var v uint64
	for _, c := range x {
		v = v<<8 | uint64(c)
	}
	return v
}
func (r *rd) vec(n int) []byte { return r.take(int(r.uint(n))) }

func decodeExt(x []byte) (uint64, bool) {
	if len(x) != 8 || x[0] != 0 || x[1] != 0 || x[2] != 5 {
		return 0, false
	}
	var v uint64
	for _, c := range x[3:] {
		v = v<<8 | uint64(c)
	}
	return v, true
}

func decodeDataTile(b []byte) (out []*Entry, ok bool) {
	r := &rd{b, true}
	for len(r.b) > 0 && r.ok {
		e := &Entry{}
		e.Ts = r.uint(8)
		switch r.uint(2) {
		case 0:
			e.Cert = r.vec(3)
		case 1:
			e.Pre = true
			copy(e.IKH[:], r.take(32))
			e.Cert = r.vec(3)
		default:
			return out, false
		}
		idx, k := decodeExt(r.vec(2))
		if !k {
			return out, false
		}
		e.Idx = idx
		if e.Pre {
			e.PreC = r.vec(3)
		}
		f := r.vec(2)
		if !r.ok || len(f)%32 != 0 {
			return out, false
		}
		for i := 0; i < len(f); i += 32 {
			e.Fps = append(e.Fps, Hash(f[i:i+32]))
		}
		out = append(out, e)
	}
	return out, r.ok
}

// decodeLeafInput decodes a get-entries leaf_input.
func decodeLeafInput(b []byte) (*Entry, bool) {
	r := &rd{b, true}
	if r.uint(1) != 0 || r.uint(1) != 0 {
		return nil, false
	}
	e := &Entry{Ts: r.uint(8)}
	switch r.uint(2) {
	case 0:
		e.Cert = r.vec(3)
	case 1:
		e.Pre = true
		copy(e.IKH[:], r.take(32))
		e.Cert = r.vec(3)
	default:
		return nil, false
	}
	idx, k := decodeExt(r.vec(2))
	if !k || !r.ok || len(r.b) != 0 {
		return nil, false
	}
	e.Idx = idx
	return e, true
}

// decodeExtra decodes extra_data into the precertificate and the chain's fingerprints.
func (e *Entry) decodeExtra(b []byte) bool {
	r := &rd{b, true}
	if e.Pre {
		e.PreC = r.vec(3)
	}
	c := &rd{r.vec(3), true}
	if !r.ok || len(r.b) != 0 {
		return false
	}
	for len(c.b) > 0 && c.ok {
		e.Fps = append(e.Fps, sha256.Sum256(c.vec(3)))
	}
	return c.ok
}

type TilePath struct {
	L int // -1 data
	N int64
	W int
}

func (t TilePath) String() string {
	l := "data"
	if t.L >= 0 {
		l = strconv.Itoa(t.L)
	}
	n := t.N
	s := fmt.Sprintf("%03d", n%1000)
	for n >= 1000 {
		n /= 1000
		s = fmt.Sprintf("x%03d/%s", n%1000, s)
	}
	p := ""
	if t.W != 256 {
		p = fmt.Sprintf(".p/%d", t.W)
	}
	return "tile/" + l + "/" + s + p
}

func parseTile(key string) (t TilePath, ok bool) {
	k, found := strings.CutPrefix(key, "tile/")
	if !found {
		return t, false
	}
	t.W = 256
	if i := strings.Index(k, ".p/"); i >= 0 {
		w, err := strconv.Atoi(k[i+3:])
		if err != nil {
			return t, false
		}
		t.W = w
		k = k[:i]
	}
	parts := strings.Split(k, "/")
	if len(parts) < 2 {
		return t, false
	}
	if parts[0] == "data" {
		t.L = -1
	} else {
		l, err := strconv.Atoi(parts[0])
		if err != nil || l < 0 || l > 7 {
			return t, false
		}
		t.L = l
	}
	for _, p := range parts[1:] {
		v, err := strconv.ParseInt(strings.TrimPrefix(p, "x"), 10, 64)
		if err != nil || v < 0 {
			return t, false
		}
		t.N = t.N*1000 + v
	}
	return t, t.String() == key && t.W >= 1 && t.W <= 256
}

func lookupPath(h []byte, mask int) string {
	s := hex.EncodeToString(h)[:mask]
	var parts []string
	for len(s) > 2 {
		parts = append(parts, s[:2])
		s = s[2:]
	}
	return strings.Join(append(parts, s), "/")
}

func decodeHashesTile(b []byte) (out []Hash, ok bool) {
	if len(b)%32 != 0 {
		return nil, false
	}
	for i := 0; i < len(b); i += 32 {
		out = append(out, Hash(b[i:i+32]))
	}
	return out, true
}

func verifySig(pub *ecdsa.PublicKey, msg, ds []byte) bool {
	r := &rd{ds, true}
	if r.uint(1) != 4 || r.uint(1) != 3 {
		return false
	}
	sig := r.vec(2)
	if !r.ok || len(r.b) != 0 {
		return false
	}
	d := sha256.Sum256(msg)
	return ecdsa.VerifyASN1(pub, d[:], sig)
}

func sthInput(size, ts uint64, root Hash) []byte {
	b := []byte{0, 1}
	b = append(b, u64(ts)...)
	b = append(b, u64(size)...)
	return append(b, root[:]...)
}

type STH struct {
	Size, Ts uint64
	Root     Hash
	Wf, Sig  bool
	DS       []byte // the signature as encoded
}

func decodeSTH(b []byte, pub *ecdsa.PublicKey) (s STH) {
	var j struct {
		TreeSize          *uint64 `json:"tree_size"`
		Timestamp         *uint64 `json:"timestamp"`
		SHA256RootHash    []byte  `json:"sha256_root_hash"`
		TreeHeadSignature []byte  `json:"tree_head_signature"`
	}
	if json.Unmarshal(b, &j) != nil || j.TreeSize == nil || j.Timestamp == nil || len(j.SHA256RootHash) != 32 {
		return
	}
	s.Size, s.Ts, s.Wf = *j.TreeSize, *j.Timestamp, true
	copy(s.Root[:], j.SHA256RootHash)
	s.DS = j.TreeHeadSignature
	s.Sig = verifySig(pub, sthInput(s.Size, s.Ts, s.Root), s.DS)
	return
}

// decodeCheckpoint checks a c2sp checkpoint with an RFC 6962 note signature.
func decodeCheckpoint(b []byte, origin string, pub *ecdsa.PublicKey, logID [32]byte) (s STH) {
	i := bytes.Index(b, []byte("\n\n"))
	if i < 0 {
		return
	}
	text, sigs := string(b[:i+1]), string(b[i+2:])
	lines := strings.Split(text, "\n")
	if len(lines) != 4 || lines[3] != "" || lines[0] != origin {
		return
	}
	n, err := strconv.ParseUint(lines[1], 10, 64)
	if err != nil || strconv.FormatUint(n, 10) != lines[1] {
		return
	}
	h, err := base64.StdEncoding.DecodeString(lines[2])
	if err != nil || len(h) != 32 {
		return
	}
	s.Size = n
	copy(s.Root[:], h)
	sl := strings.Split(sigs, "\n")
	if len(sl) != 2 || sl[1] != "" {
		return
	}
	pre := "— " + origin + " "
	if !strings.HasPrefix(sl[0], pre) {
		return
	}
	sb, err := base64.StdEncoding.DecodeString(sl[0][len(pre):])
	if err != nil || len(sb) < 12 {
		return
	}
	kh := sha256.Sum256(append([]byte(origin+"\n\x05"), logID[:]...))
	if !bytes.Equal(kh[:4], sb[:4]) {
		return
	}
	s.Ts = binary.BigEndian.Uint64(sb[4:12])
	s.Wf = true
	s.DS = sb[12:]
	s.Sig = verifySig(pub, sthInput(s.Size, s.Ts, s.Root), s.DS)
	return
}

func signDS(k *ecdsa.PrivateKey, msg []byte) []byte {
	d := sha256.Sum256(msg)
	sig, err := ecdsa.SignASN1(randReader, k, d[:])
	must(err)
	return append([]byte{4, 3, byte(len(sig) >> 8), byte(len(sig))}, sig...)
}

func encodeSTH(k *ecdsa.PrivateKey, size, ts uint64, root Hash) []byte {
	b, err := json.Marshal(map[string]any{"tree_size": size, "timestamp": ts, "sha256_root_hash": root[:],
		"tree_head_signature": signDS(k, sthInput(size, ts, root))})
	must(err)
	return b
}

func encodeCheckpoint(k *ecdsa.PrivateKey, origin string, logID [32]byte, size, ts uint64, root Hash) []byte {
	kh := sha256.Sum256(append([]byte(origin+"\n\x05"), logID[:]...))
	sb := append(append([]byte{}, kh[:4]...), u64(ts)...)
	sb = append(sb, signDS(k, sthInput(size, ts, root))...)
	return []byte(fmt.Sprintf("%s\n%d\n%s\n\n— %s %s\n", origin, size, base64.StdEncoding.EncodeToString(root[:]), origin, base64.StdEncoding.EncodeToString(sb)))
}
