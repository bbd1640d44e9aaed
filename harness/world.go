package main

import (
	"bufio"
	"bytes"
	"crypto/ecdsa"
	"crypto/sha256"
	"crypto/x509"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Ev is one event of an abstract trace.
type Ev map[string]any

// Decision of the gate about one storage operation.
type Dec int

const (
	Apply       Dec = iota // perform it now, answer success
	Hold                   // keep it pending until the scenario decides
	Fail                   // not performed, error answer
	FailApplied            // performed, error answer
	Reset                  // performed or not is decided by the scenario: connection cut, not performed
	CrashBefore            // kill the instance, operation lost
	CrashAfter             // kill the instance, operation performed
	FailCut                // reads: connection cut
	FailShort              // reads: the body is cut short
	HoldReply              // reads: evaluated now, answered when the scenario decides
)

type Op struct {
	Inst  *Inst
	Kind  string // put get head del
	Key   string
	Body  []byte
	Class string // sth ckpt roots iss hidx ded data tree other
	N     int    // number of this op among the puts of its instance (1..)
	at    int    // arrival
	done  chan opRes
	over  bool
	early *opRes // the answer of a read that was evaluated before it is decided
}

type opRes struct {
	status int
	body   []byte
	cut    bool
	short  bool
}

func classOf(key string) string {
	switch {
	case key == "ct/v1/get-sth":
		return "sth"
	case key == "checkpoint":
		return "ckpt"
	case key == "ct/v1/get-roots":
		return "roots"
	case strings.HasPrefix(key, "issuer/"):
		return "iss"
	case strings.HasPrefix(key, "int/hashes/"):
		return "hidx"
	case strings.HasPrefix(key, "int/dedupe/"):
		return "ded"
	}
	if t, ok := parseTile(key); ok {
		if t.L == -1 {
			return "data"
		}
		return "tree"
	}
	return "other"
}

// World is one scenario: a store, a lock service, instances, monitors and clients.
type World struct {
	Name    string
	Fam     string
	Tag     Ev // extra fields of the reset event
	mu      sync.Mutex
	base    *Base
	objs    map[string][]byte
	evs     []Ev
	insts   []*Inst
	mons    []*Mon
	policy  func(*Op) Dec
	pend    []*Op
	cons    *consul
	mask    int
	edgeMon int
	flush   int
	dir     string
	pki     *PKI
	gc      map[string]any
	lag     int64 // worst scheduling delay seen by the heartbeat (ms)
	origin  string

	leafs    map[int64]Hash // leaf hash by position, as last stored in a data tile
	pubSize  int64          // largest published STH size (absolute)
	pubHash  map[int64]Hash // leaf hashes of the last resolved published tree
	rngs     map[Hash][2]int64
	unres    map[Hash]int64
	known    map[Hash]bool
	reqN     int
	notafS   string
	notafL   string
	Reads    bool // emit get events of everybody, not only of instances without the lock
	errs     []string
	stop     chan struct{}
	notes    []string
	wg       sync.WaitGroup
	nOps     int
	everLeaf []Hash                                   // every leaf hash an instance ever stored
	lat      time.Duration                            // added to every storage operation
	delay    func(*Op) (time.Duration, time.Duration) // waits before and after an operation takes effect
	upProp   string                                   // property blamed when an instance does not come up
	fsDir    string                                   // the instances use this directory as their storage
	fsMu     sync.Mutex
	fsAt     time.Time
	sick     bool // the scenario says that the storage is not healthy
	key      *ecdsa.PrivateKey
	logID    [32]byte
	sigs     bool     // record signatures
	wrap     []string // command that the next instance runs under
	real     bool     // the commands themselves instead of sut/main.go
}

type WOpt struct {
	Base        *Base
	Mask, Flush int
	Tag         Ev
	Roots       []*CA
	KeyPEM      []byte
	LogID       string
	Fs          string
	NAS, NAL    string
	NoSTH       bool
	Name, Fam   string
	KeepOrigin  string
	Key         *ecdsa.PrivateKey // the key of the log
	Sigs        bool              // record signatures
}

var worldN int64
var scratch string

func newWorld(o WOpt) *World {
	n := atomic.AddInt64(&worldN, 1)
	if o.Mask == 0 {
		o.Mask = 2
	}
	if o.Flush == 0 {
		o.Flush = 60
	}
	if o.Base == nil {
		o.Base = getBase(0, 0, 0)
	}
	if o.NAS == "" {
		o.NAS, o.NAL = "2025-01-01T00:00:00Z", "2026-01-01T00:00:00Z"
	}
	w := &World{Name: o.Name, Fam: o.Fam, base: o.Base, objs: map[string][]byte{}, mask: o.Mask, flush: o.Flush, pki: getPKI(),
		leafs: map[int64]Hash{}, pubHash: map[int64]Hash{}, rngs: map[Hash][2]int64{}, unres: map[Hash]int64{}, known: map[Hash]bool{},
		notafS: o.NAS, notafL: o.NAL, stop: make(chan struct{}), origin: "itko.test/log", upProp: "C08"}
	w.key, w.logID, w.sigs = w.pki.LogKey, w.pki.LogID, o.Sigs
	if o.Key != nil {
		d, err := x509.MarshalPKIXPublicKey(&o.Key.PublicKey)
		must(err)
		w.key, w.logID = o.Key, sha256.Sum256(d)
	}
	w.dir = filepath.Join(scratch, fmt.Sprintf("w%d", n))
	must(os.MkdirAll(w.dir, 0755))
	w.cons = newConsul(w)
	kp := filepath.Join(w.dir, "key.pem")
	if o.KeyPEM == nil {
		o.KeyPEM = keyPEM(w.key)
	}
	must(os.WriteFile(kp, o.KeyPEM, 0600))
	if o.LogID == "" {
		o.LogID = b64(w.logID[:])
	}
	w.gc = map[string]any{"name": w.origin, "keyPath": kp, "logID": o.LogID, "listenAddress": "", "maskSize": w.mask, "rootDirectory": o.Fs,
		"s3Bucket": "bkt", "s3Region": "us-east-1", "s3EndpointUrl": "", "s3StaticCredentialUserName": "u", "s3StaticCredentialPassword": "p",
		"notAfterStart": o.NAS, "notAfterLimit": o.NAL, "flushMs": w.flush}
	t := Ev{"e": "reset", "name": o.Name, "fam": o.Fam, "off": int(w.base.Off - w.base.D), "size": int(w.base.Size - w.base.D),
		"d24": int(w.base.D >> 24), "mask": w.mask, "flush": w.flush, "tamper": 0, "noauto": 0, "setup": 0}
	for k, v := range o.Tag {
		t[k] = v
	}
	w.evs = append(w.evs, t)
	if o.Fs != "" {
		// relative to the scratch directory of the world
		w.fsDir = filepath.Join(w.dir, o.Fs)
		w.gc["rootDirectory"] = w.fsDir
		must(os.MkdirAll(w.fsDir, 0755))
	}
	w.initStore(o)
	return w
}

func b64(b []byte) string { return b64std.EncodeToString(b) }

// initStore fills the store with the published state of the base log.
func (w *World) initStore(o WOpt) {
	roots := o.Roots
	if roots == nil {
		roots = []*CA{w.pki.R1, w.pki.R2}
	}
	put := func(key string, b []byte) {
		w.objs[key] = b
		if w.fsDir != "" {
			f := filepath.Join(w.fsDir, key)
			must(os.MkdirAll(filepath.Dir(f), 0755))
			must(os.WriteFile(f, b, 0644))
		}
		w.emitPut(nil, key, b, now())
	}
	var certs [][]byte
	for _, r := range roots {
		certs = append(certs, r.Cert.Raw)
	}
	rb, _ := json.Marshal(map[string]any{"certificates": certs})
	put("ct/v1/get-roots", rb)
	if o.NoSTH {
		return
	}
	b := w.base
	if b.Size > 0 {
		for _, c := range w.pki.baseIss {
			f := sha256.Sum256(c.Cert.Raw)
			put(fmt.Sprintf("issuer/%x", f), c.Cert.Raw)
		}
		for n := b.Off / 256; n*256 < b.Size; n++ {
			wd := int(min64(256, b.Size-n*256))
			for _, l := range []int{-1, 0} {
				k := TilePath{l, n, wd}.String()
				d, ok := b.object(k)
				if !ok {
					panic(k)
				}
				put(k, d)
			}
		}
		for l := 1; b.Size>>(8*l) > 0; l++ {
			c := b.Size >> (8 * l)
			if c%256 != 0 {
				k := TilePath{l, c / 256, int(c % 256)}.String()
				d, ok := b.object(k)
				if !ok {
					panic(k)
				}
				put(k, d)
			}
			// full tiles of level l that contain observed hashes
			for n := (b.Off >> (8 * l)) / 256; (n+1)*256 <= c; n++ {
				k := TilePath{l, n, 256}.String()
				if d, ok := b.object(k); ok {
					put(k, d)
				}
			}
		}
		files := map[string][]rec{}
		for i, e := range b.Ents {
			h := b.leafH[i]
			p := "int/hashes/" + lookupPath(h[:16], w.mask)
			files[p] = append(files[p], rec{h[:16], e.Idx})
		}
		var ks []string
		for k := range files {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			put(k, encodeHidx(files[k]))
		}
	}
	root, ok := mth(w.nodes(nil), b.Size)
	if !ok {
		panic("base root")
	}
	ts := uint64(epoch) - 100000
	put("ct/v1/get-sth", encodeSTH(w.key, uint64(b.Size), ts, root))
	if b.Size > 0 {
		put("checkpoint", encodeCheckpoint(w.key, w.origin, w.logID, uint64(b.Size), ts, root))
	}
}

type rec struct {
	k   []byte
	idx uint64
}

func encodeHidx(rs []rec) []byte {
	sort.Slice(rs, func(i, j int) bool { return bytes.Compare(rs[i].k, rs[j].k) < 0 })
	var out []byte
	for _, r := range rs {
		out = append(out, r.k...)
		for i := 0; i < 5; i++ {
			out = append(out, byte(r.idx>>(8*i)))
		}
	}
	return out
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

// nodesView gives the subtree hashes of base + a leaf assignment.
type nodesView struct {
	b  *Base
	lf map[int64]Hash
	c  map[[2]int64]Hash
}

func (w *World) nodes(lf map[int64]Hash) *nodesView {
	return &nodesView{w.base, lf, map[[2]int64]Hash{}}
}

func (v *nodesView) Node(level uint, pos int64) (Hash, bool) {
	if (pos+1)<<level <= v.b.Off || v.lf == nil {
		return v.b.Node(level, pos)
	}
	if level == 0 {
		h, ok := v.lf[pos]
		return h, ok
	}
	k := [2]int64{int64(level), pos}
	if h, ok := v.c[k]; ok {
		return h, true
	}
	l, ok := v.Node(level-1, pos*2)
	if !ok {
		return Hash{}, false
	}
	r, ok := v.Node(level-1, pos*2+1)
	if !ok {
		return Hash{}, false
	}
	h := nodeHash(l, r)
	v.c[k] = h
	return h, true
}

func now() int { return clamp(time.Now().UnixMilli() - epoch) }

func (w *World) emit(e Ev) {
	e["t"] = now()
	w.evs = append(w.evs, e)
}

func (w *World) Emit(e Ev) {
	w.mu.Lock()
	w.emit(e)
	w.mu.Unlock()
}

func (w *World) rel(idx uint64) int { return clamp(int64(idx) - w.base.D) }

func bi(b bool) int {
	if b {
		return 1
	}
	return 0
}

// entOf interns a decoded entry.
func (w *World) entOf(e *Entry, wf bool) int {
	b := intern("b", string(signedEntry(e.Pre, e.IKH, e.Cert)))
	m := leafOf(leafHash(e.leaf()), w.rel(e.Idx), relTs(e.Ts), b)
	f := e.fp()
	c := intern("f", string(f[:]))
	ch := []int{}
	for _, f := range e.Fps {
		ch = append(ch, intern("f", string(f[:])))
	}
	return entID(fmt.Sprint(m, c, ch, wf), EntT{M: m, B: b, C: c, Ch: ch, Wf: bi(wf)})
}

// tileN maps an absolute tile number to the trace's number (relative to D below level 3).
func (w *World) tileN(l int, n int64) int {
	if l < 0 {
		l = 0
	}
	if l <= 2 {
		return clamp(n - w.base.D>>(8*(l+1)))
	}
	return clamp(n)
}

// emitPut decodes a stored object and appends the put event. Called with mu held.
func (w *World) emitPut(in *Inst, key string, body []byte, at int) {
	c := classOf(key)
	cid := sha256.Sum256(body)
	e := Ev{"e": "put", "i": 0, "k": c, "kid": intern("k", key), "cid": intern("c", string(cid[:])), "wf": 0, "at": at}
	if in != nil {
		e["i"] = in.ID
	}
	if in != nil && (c == "data" || c == "tree") && w.base.Size > 0 {
		if old, ok := w.base.object(key); ok && !bytes.Equal(old, body) {
			e["bs"] = 0 // not what was published there before the scenario
		}
	}
	switch c {
	case "data":
		t, _ := parseTile(key)
		e["n"], e["w"] = w.tileN(t.L, t.N), t.W
		es, ok := decodeDataTile(body)
		xs := []int{}
		for j, x := range es {
			xs = append(xs, w.entOf(x, true))
			lh := leafHash(x.leaf())
			if in != nil && w.leafs[t.N*256+int64(j)] != lh {
				w.everLeaf = append(w.everLeaf, lh)
			}
			w.leafs[t.N*256+int64(j)] = lh
		}
		e["v"], e["wf"] = xs, bi(ok && len(es) == t.W)
		if ok && len(es) == 256 {
			var hs []Hash
			var ms []int
			for _, x := range es {
				hs = append(hs, leafHash(x.leaf()))
				ms = append(ms, leafID(hs[len(hs)-1]))
			}
			nodeKids(perfectHash(hs), ms)
		}
	case "tree":
		t, _ := parseTile(key)
		e["l"], e["n"], e["w"] = t.L, w.tileN(t.L, t.N), t.W
		hs, ok := decodeHashesTile(body)
		ids := []int{}
		for j, h := range hs {
			ids = append(ids, w.hashID(t.L, t.N*256+int64(j), h))
		}
		e["v"], e["wf"] = ids, bi(ok && len(hs) == t.W)
		if ok && len(hs) == 256 {
			nodeKids(perfectHash(hs), ids)
		}
	case "sth", "ckpt":
		var s STH
		if c == "sth" {
			s = decodeSTH(body, &w.key.PublicKey)
		} else {
			s = decodeCheckpoint(body, w.origin, &w.key.PublicKey, w.logID)
		}
		e["size"], e["ts"], e["rid"], e["wf"], e["sig"] = 0, 0, 0, bi(s.Wf), bi(s.Sig)
		if s.Wf {
			e["size"], e["ts"], e["rid"] = w.rel(s.Size), relTs(s.Ts), rootID(s.Root)
			w.resolve(s.Root, int64(s.Size))
			if w.sigs && in != nil {
				w.emit(w.sigEv(c, sthInput(s.Size, s.Ts, s.Root), s.DS))
			}
			if c == "sth" {
				if int64(s.Size) > w.pubSize {
					w.pubSize = int64(s.Size)
				}
			}
		}
	case "hidx", "ded":
		rl, kind, pre := 21, "h", "int/hashes/"
		if c == "ded" {
			rl, kind, pre = 29, "d", "int/dedupe/"
		}
		wf, srt, pok := len(body)%rl == 0, true, true
		rs := [][]int{}
		for j := 0; j+rl <= len(body); j += rl {
			r := body[j : j+rl]
			var idx, ts uint64
			for q := 4; q >= 0; q-- {
				idx = idx<<8 | uint64(r[16+q])
			}
			if j > 0 && bytes.Compare(body[j-rl:j-rl+16], r[:16]) > 0 {
				srt = false
			}
			if pre+lookupPath(r[:16], w.mask) != key {
				pok = false
			}
			row := []int{intern(kind, string(r[:16])), w.rel(idx)}
			if c == "ded" {
				for q := 7; q >= 0; q-- {
					ts = ts<<8 | uint64(r[21+q])
				}
				row = append(row, relTs(ts))
			}
			rs = append(rs, row)
		}
		e["v"], e["wf"], e["srt"], e["pok"] = rs, bi(wf), bi(srt), bi(pok)
	case "iss":
		f := sha256.Sum256(body)
		e["fp"] = intern("f", string(f[:]))
		e["wf"] = bi(key == fmt.Sprintf("issuer/%x", f))
	case "roots":
		var j struct {
			Certificates [][]byte `json:"certificates"`
		}
		ok := json.Unmarshal(body, &j) == nil
		fs := []int{}
		for _, c := range j.Certificates {
			f := sha256.Sum256(c)
			fs = append(fs, intern("f", string(f[:])))
		}
		e["fs"], e["wf"] = fs, bi(ok)
	}
	w.emit(e)
}

// hashID interns one hash of a hash tile: leaf id at level 0, node id above, -1 for the
// right hash below off.
func (w *World) hashID(l int, pos int64, h Hash) int {
	if (pos+1)<<(8*l) <= w.base.Off {
		if x, ok := w.base.Node(uint(8*l), pos); ok && x == h {
			return -1
		}
		return 0
	}
	if l == 0 {
		return leafID(h)
	}
	return nodeIDOf(h)
}

// resolve looks for the leaf sequence behind a root hash. Called with mu held.
func (w *World) resolve(root Hash, size int64) {
	if w.known[root] {
		return
	}
	try := func(lf map[int64]Hash) bool {
		h, ok := mth(w.nodes(lf), size)
		if !ok || h != root {
			return false
		}
		ms := []int{}
		for p := w.base.Off; p < size; p++ {
			ms = append(ms, leafID(lf[p]))
		}
		rootSeq(root, size-w.base.D, ms)
		w.known[root] = true
		for p := w.base.Off; p < size; p++ {
			w.pubHash[p] = lf[p]
		}
		return true
	}
	if size < w.base.Off || size > w.base.Off+100000 {
		w.unres[root] = size
		return
	}
	if try(w.leafs) {
		delete(w.unres, root)
		return
	}
	// data tiles may already have been overwritten, or hash tiles written first
	lf := map[int64]Hash{}
	for k, v := range w.leafs {
		lf[k] = v
	}
	for k, b := range w.objs {
		if t, ok := parseTile(k); ok && t.L == 0 && t.N*256 >= w.base.Off {
			if hs, ok := decodeHashesTile(b); ok {
				for j, h := range hs {
					if _, have := lf[t.N*256+int64(j)]; !have || t.N*256+int64(t.W) == size {
						lf[t.N*256+int64(j)] = h
					}
				}
			}
		}
	}
	if try(lf) {
		delete(w.unres, root)
		return
	}
	w.unres[root] = size
}

// ---------------------------------------------------------------- storage

func (w *World) lookup(key string) ([]byte, bool) {
	if b, ok := w.objs[key]; ok {
		return b, b != nil
	}
	return w.base.object(key)
}

func (w *World) apply(op *Op) {
	w.objs[op.Key] = op.Body
	w.emitPut(op.Inst, op.Key, op.Body, op.at)
}

// submitOp is called by the storage front ends and blocks until the operation is decided.
func (w *World) submitOp(op *Op) opRes {
	w.mu.Lock()
	if op.Inst != nil && op.Inst.dead {
		w.mu.Unlock()
		return opRes{cut: true}
	}
	op.Class = classOf(op.Key)
	op.at = now()
	op.done = make(chan opRes, 1)
	if op.Kind == "put" {
		op.Inst.puts++
		op.N = op.Inst.puts
	}
	w.nOps++
	if op.Inst != nil && op.Kind != "put" && (op.Inst != w.cons.holder || w.Reads) {
		w.emit(Ev{"e": "get", "i": op.Inst.ID, "k": op.Class, "kid": intern("k", op.Key)})
	}
	d := Apply
	if w.policy != nil {
		d = w.policy(op)
	}
	if d == HoldReply {
		op.early = w.read(op)
		d = Hold
	}
	switch d {
	case Hold:
		if len(w.pend) == 0 && !w.sick {
			w.emit(Ev{"e": "sick"})
		}
		w.pend = append(w.pend, op)
	case CrashBefore, CrashAfter:
		if d == CrashAfter && op.Kind == "put" {
			w.apply(op)
		}
		op.Inst.killLocked()
		w.mu.Unlock()
		return opRes{cut: true}
	default:
		w.decide(op, d)
	}
	w.mu.Unlock()
	return <-op.done
}

func (w *World) read(op *Op) *opRes {
	if b, ok := w.lookup(op.Key); ok {
		return &opRes{status: 200, body: b}
	}
	return &opRes{status: 404}
}

// decide finishes an operation. Called with mu held.
func (w *World) decide(op *Op, d Dec) {
	if op.over {
		return
	}
	op.over = true
	switch d {
	case Apply:
		switch op.Kind {
		case "put":
			w.apply(op)
			op.done <- opRes{status: 200}
		default:
			if op.early == nil {
				op.early = w.read(op)
			}
			op.done <- *op.early
		}
	case Fail, FailApplied:
		if op.Kind == "put" {
			if d == FailApplied {
				w.apply(op)
			}
			w.emit(Ev{"e": "fail", "i": op.Inst.ID, "k": op.Class, "kid": intern("k", op.Key), "ap": bi(d == FailApplied)})
		} else if op.Inst != nil {
			w.emit(Ev{"e": "rfail", "i": op.Inst.ID, "k": op.Class})
		}
		op.done <- opRes{status: 403}
	case FailCut, FailShort:
		w.emit(Ev{"e": "rfail", "i": op.Inst.ID, "k": op.Class})
		b, ok := w.lookup(op.Key)
		if d == FailCut || !ok || len(b) < 2 {
			op.done <- opRes{cut: true}
		} else {
			op.done <- opRes{status: 200, body: b, short: true}
		}
	case Reset:
		op.done <- opRes{cut: true}
	}
}

// Decide finishes pending operations chosen by f.
func (w *World) Decide(f func(*Op) (Dec, bool)) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	n := 0
	var rest []*Op
	old := w.pend
	w.pend = nil
	for _, op := range old {
		if d, ok := f(op); ok {
			n++
			w.decide(op, d)
		} else {
			rest = append(rest, op)
		}
	}
	w.pend = append(rest, w.pend...)
	if n > 0 && len(w.pend) == 0 && !w.sick {
		w.emit(Ev{"e": "well"})
	}
	return n
}

func (w *World) Pending() []*Op {
	w.mu.Lock()
	defer w.mu.Unlock()
	return append([]*Op(nil), w.pend...)
}

func (w *World) SetPolicy(p func(*Op) Dec) {
	w.mu.Lock()
	w.policy = p
	w.mu.Unlock()
}

// ReleaseAll applies everything pending and goes back to immediate application.
func (w *World) ReleaseAll() {
	w.SetPolicy(nil)
	w.Decide(func(*Op) (Dec, bool) { return Apply, true })
}

func (w *World) s3Handler(in *Inst) http.Handler {
	return http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		p := strings.TrimPrefix(r.URL.Path, "/")
		i := strings.Index(p, "/")
		if i < 0 || p[:i] != w.gc["s3Bucket"] {
			rw.WriteHeader(400)
			return
		}
		key := p[i+1:]
		body, err := io.ReadAll(r.Body)
		if err != nil {
			return
		}
		if strings.Contains(r.Header.Get("Content-Encoding"), "aws-chunked") {
			body = unchunk(body)
		}
		kind := map[string]string{"PUT": "put", "GET": "get", "HEAD": "head", "DELETE": "del"}[r.Method]
		if kind == "" || kind == "del" {
			rw.WriteHeader(405)
			return
		}
		if w.lat > 0 {
			time.Sleep(w.lat)
		}
		op := &Op{Inst: in, Kind: kind, Key: key, Body: body, Class: classOf(key)}
		var after time.Duration
		w.mu.Lock()
		delay := w.delay
		w.mu.Unlock()
		if delay != nil {
			var before time.Duration
			before, after = delay(op)
			time.Sleep(before)
		}
		res := w.submitOp(op)
		time.Sleep(after)
		if res.cut {
			panic(http.ErrAbortHandler)
		}
		switch {
		case res.status == 200:
			rw.Header().Set("ETag", "\"x\"")
			if kind != "put" {
				rw.Header().Set("Content-Length", fmt.Sprint(len(res.body)))
				rw.Header().Set("Content-Type", "application/octet-stream")
			}
			rw.WriteHeader(200)
			if kind == "get" && res.short {
				rw.Write(res.body[:len(res.body)/2])
				rw.(http.Flusher).Flush()
				panic(http.ErrAbortHandler)
			}
			if kind == "get" {
				rw.Write(res.body)
			}
		case res.status == 404:
			rw.Header().Set("Content-Type", "application/xml")
			rw.WriteHeader(404)
			if kind == "get" {
				io.WriteString(rw, `<?xml version="1.0" encoding="UTF-8"?><Error><Code>NoSuchKey</Code><Message>The specified key does not exist.</Message></Error>`)
			}
		default:
			rw.Header().Set("Content-Type", "application/xml")
			rw.WriteHeader(res.status)
			if kind != "head" {
				io.WriteString(rw, `<?xml version="1.0" encoding="UTF-8"?><Error><Code>AccessDenied</Code><Message>Access Denied</Message></Error>`)
			}
		}
	})
}

func unchunk(b []byte) []byte {
	var out []byte
	for {
		i := bytes.Index(b, []byte("\r\n"))
		if i < 0 {
			return out
		}
		h := string(b[:i])
		if j := strings.Index(h, ";"); j >= 0 {
			h = h[:j]
		}
		var n int
		fmt.Sscanf(h, "%x", &n)
		if n == 0 {
			return out
		}
		b = b[i+2:]
		if n > len(b) {
			return out
		}
		out = append(out, b[:n]...)
		b = bytes.TrimPrefix(b[n:], []byte("\r\n"))
	}
}

// ---------------------------------------------------------------- instances

// Inst is one itko-submit process.
type Inst struct {
	w       *World
	ID      int
	cmd     *exec.Cmd
	Addr    string
	s3      *http.Server
	s3URL   string
	cs      *http.Server
	dead    bool // killed by us or exited
	exited  chan struct{}
	up      chan struct{}
	upSeen  bool
	puts    int
	session string
	log     string
	gcOver  map[string]any
}

func serve(h http.Handler) (*http.Server, string) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	s := &http.Server{Handler: h, ErrorLog: quietLog}
	go s.Serve(l)
	return s, l.Addr().String()
}

// Start launches an instance (it first waits for the lock). over replaces config fields.
func (w *World) Start(over map[string]any) *Inst {
	w.mu.Lock()
	in := &Inst{w: w, ID: len(w.insts) + 1, exited: make(chan struct{}), up: make(chan struct{}), gcOver: over}
	w.insts = append(w.insts, in)
	w.emit(Ev{"e": "start", "i": in.ID})
	w.mu.Unlock()
	var a string
	in.s3, a = serve(w.s3Handler(in))
	in.s3URL = "http://" + a
	if w.real {
		in.startReal()
		return in
	}
	in.cs, a = serve(w.cons.handler(in))
	args := append(append([]string{}, w.wrap...), sutPath, "submit", "127.0.0.1:0", "pfx", a)
	in.cmd = exec.Command(args[0], args[1:]...)
	in.launch()
	return in
}

// markUp records that the instance serves.
func (in *Inst) markUp() {
	in.w.mu.Lock()
	if !in.upSeen && !in.dead {
		in.upSeen = true
		in.w.emit(Ev{"e": "up", "i": in.ID})
		close(in.up)
	}
	in.w.mu.Unlock()
}

func (in *Inst) launch() {
	w := in.w
	in.cmd.Env = append(os.Environ(), "GOMAXPROCS=4")
	in.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL, Setpgid: true}
	out, err := in.cmd.StdoutPipe()
	must(err)
	in.log = filepath.Join(w.dir, fmt.Sprintf("inst%d.log", in.ID))
	lf, err := os.Create(in.log)
	must(err)
	in.cmd.Stderr = lf
	addr := make(chan string, 1)
	must(in.cmd.Start())
	done := make(chan struct{})
	go func() {
		defer close(done)
		sc := bufio.NewScanner(out)
		for sc.Scan() {
			l := sc.Text()
			if a, ok := strings.CutPrefix(l, "LISTEN "); ok {
				addr <- a
			} else if l == "UP" {
				in.markUp()
			} else {
				fmt.Fprintln(lf, l)
			}
		}
	}()
	go func() {
		<-done
		in.cmd.Wait()
		lf.Close()
		w.mu.Lock()
		if !in.dead {
			in.dead = true
			w.emit(Ev{"e": "exit", "i": in.ID})
		}
		close(in.exited)
		w.mu.Unlock()
		in.s3.Close()
		in.cs.Close()
	}()
	if w.real {
		return
	}
	select {
	case in.Addr = <-addr:
	case <-in.exited:
	case <-time.After(20 * time.Second):
		w.fatal("instance did not listen")
	}
}

// killLocked crashes the instance; its pending operations stay pending (in flight).
func (in *Inst) killLocked() {
	if in.dead {
		return
	}
	in.dead = true
	syscall.Kill(-in.cmd.Process.Pid, syscall.SIGKILL)
	in.w.emit(Ev{"e": "crash", "i": in.ID})
}

func (in *Inst) Kill() {
	in.w.mu.Lock()
	in.killLocked()
	in.w.mu.Unlock()
	<-in.exited
}

// Interrupt tells the instance to terminate (Ctrl-C).
func (in *Inst) Interrupt() {
	in.w.Emit(Ev{"e": "intr", "i": in.ID})
	in.cmd.Process.Signal(os.Interrupt)
}

// Tick records the passing of time.
func (w *World) Tick() { w.Emit(Ev{"e": "tick"}) }

// Sick and Well bracket times in which the storage is slow or fails on purpose. Holding an
// operation does the same by itself.
func (w *World) Sick() { w.setSick(true, "sick") }
func (w *World) Well() { w.setSick(false, "well") }

func (w *World) setSick(v bool, e string) {
	w.mu.Lock()
	w.sick = v
	w.emit(Ev{"e": e})
	w.mu.Unlock()
}

// Verdict records the outcome of a comparison made by the harness.
func (w *World) Verdict(prop, label string, ok bool) {
	w.Emit(Ev{"e": "verdict", "pp": prop, "l": label, "ok": bi(ok)})
}

func (in *Inst) Alive() bool {
	in.w.mu.Lock()
	defer in.w.mu.Unlock()
	return !in.dead
}

// WaitUp waits for the instance to serve. It returns false when it exited or took too long.
func (in *Inst) WaitUp(d time.Duration) bool {
	select {
	case <-in.up:
		return true
	case <-in.exited:
	case <-time.After(d):
	}
	return false
}

// MustUp starts an instance that has to come up; if it does not, the trace says so.
func (w *World) MustUp(over map[string]any) *Inst {
	in := w.Start(over)
	if !in.WaitUp(upBound) {
		w.Emit(Ev{"e": "upfail", "i": in.ID, "pp": w.upProp})
		if w.fsDir != "" {
			w.Emit(Ev{"e": "upfail", "i": in.ID, "pp": "C21"})
		}
	}
	return in
}

const upBound = 30 * time.Second

func (in *Inst) WaitExit(d time.Duration) bool {
	select {
	case <-in.exited:
		return true
	case <-time.After(d):
		return false
	}
}

// Restart crashes in, frees its lock and starts a successor.
func (w *World) Restart(in *Inst) *Inst {
	in.Kill()
	w.cons.Expire(in)
	return w.MustUp(nil)
}

func (w *World) fatal(msg string) {
	w.errs = append(w.errs, msg)
	panic(worldErr(w.Name + ": " + msg))
}

type worldErr string

// Close ends the scenario: everything pending is dropped, processes are killed.
func (w *World) Close() {
	w.mu.Lock()
	w.emit(Ev{"e": "end", "lag": int(w.lag)})
	for _, in := range w.insts {
		if !in.dead {
			in.dead = true
			syscall.Kill(-in.cmd.Process.Pid, syscall.SIGKILL)
		}
	}
	pend := w.pend
	w.pend = nil
	w.policy = nil
	for _, op := range pend {
		if !op.over {
			op.over = true
			op.done <- opRes{cut: true}
		}
	}
	for _, m := range w.mons {
		m.closing = true
		if m.cmd != nil {
			m.cmd.Process.Kill()
		}
	}
	for r, s := range w.unres {
		w.resolve(r, s)
	}
	w.mu.Unlock()
	close(w.stop)
	for _, in := range w.insts {
		<-in.exited
	}
	for _, m := range w.mons {
		if m.cmd != nil {
			<-m.exited
		}
		if m.edge != nil {
			m.edge.Close()
		}
		m.srv.Close()
	}
	w.wg.Wait()
	if os.Getenv("VH_KEEP") == "" {
		os.RemoveAll(w.dir)
	}
}

func pemCert(c []byte) []byte { return pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: c}) }
