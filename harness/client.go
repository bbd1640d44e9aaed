package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"io"
	"net"
	"net/http"
	"time"
)

// reg makes a submission known to the tables.
func (s *Sub) reg() int {
	if s.ID == 0 {
		t := SubT{Ok: bi(s.Valid), Pr: bi(s.Pre)}
		if s.Body != nil {
			t.B = intern("b", string(signedEntry(s.Pre, s.IKH, s.Body)))
		}
		if len(s.DER) > 0 {
			f := sha256.Sum256(s.DER[0])
			t.C = intern("f", string(f[:]))
		}
		for _, c := range s.Chain {
			f := sha256.Sum256(c)
			t.Ch = append(t.Ch, intern("f", string(f[:])))
		}
		s.ID = subID(t)
	}
	return s.ID
}

func (s *Sub) body() []byte {
	if s.Raw != nil {
		return s.Raw
	}
	b, _ := json.Marshal(map[string]any{"chain": s.DER})
	return b
}

type Resp struct {
	Q      int
	Status int
	Idx    int64
	Ts     uint64
	Raw    []byte
}

type Pending struct {
	ch     chan Resp
	cancel context.CancelFunc
	Q      int
}

func (p *Pending) Wait() Resp { return <-p.ch }

type ReqOpt struct {
	Ep    int    // 0: by kind, 1: add-chain, 2: add-pre-chain
	Probe string // property blamed when the submission does not succeed
	Path  string
}

var client = &http.Client{Transport: &http.Transport{MaxIdleConnsPerHost: 64, DialContext: (&net.Dialer{Timeout: 10 * time.Second}).DialContext}}

const reqTimeout = 40 * time.Second

// Submit posts a submission asynchronously.
func (w *World) Submit(in *Inst, s *Sub, o ReqOpt) *Pending {
	id := s.reg()
	ctx, cancel := context.WithTimeout(context.Background(), reqTimeout)
	pre := s.Pre
	if o.Ep != 0 {
		pre = o.Ep == 2
	}
	path := "/ct/v1/add-chain"
	if pre {
		path = "/ct/v1/add-pre-chain"
	}
	w.mu.Lock()
	w.reqN++
	q := w.reqN
	w.emit(Ev{"e": "req", "q": q, "i": in.ID, "s": id, "ok": bi(s.Valid && (pre == s.Pre)), "pr": o.Probe})
	w.mu.Unlock()
	p := &Pending{ch: make(chan Resp, 1), cancel: cancel, Q: q}
	w.wg.Add(1)
	go func() {
		defer w.wg.Done()
		defer cancel()
		req, _ := http.NewRequestWithContext(ctx, "POST", "http://"+in.Addr+path, bytes.NewReader(s.body()))
		req.Header.Set("Content-Type", "application/json")
		res, err := client.Do(req)
		var b []byte
		if err == nil {
			b, err = io.ReadAll(res.Body)
			res.Body.Close()
		}
		r := Resp{Q: q}
		e := Ev{"e": "resp", "q": q, "i": in.ID, "s": id, "st": 0, "ra": 0, "m": 0, "idx": -1, "ts": 0, "sig": 0, "id": 0, "cid": 0}
		if err != nil {
			if ctx.Err() == context.Canceled {
				w.Emit(Ev{"e": "cancel", "q": q})
				p.ch <- r
				return
			}
			// give a dying process the time to be seen dead
			select {
			case <-in.exited:
			case <-time.After(3 * time.Second):
			case <-w.stop:
			}
		} else {
			r.Status, r.Raw = res.StatusCode, b
			e["st"], e["ra"] = res.StatusCode, bi(res.Header.Get("Retry-After") != "")
			if res.StatusCode == 200 {
				c := sha256.Sum256(b)
				e["cid"] = intern("s", string(c[:]))
				w.decodeSCT(e, s, b, &r)
			}
		}
		if w.fsDir != "" {
			w.fsSync()
		}
		w.Emit(e)
		p.ch <- r
	}()
	return p
}

func (w *World) decodeSCT(e Ev, s *Sub, b []byte, r *Resp) {
	var j struct {
		V   *int   `json:"sct_version"`
		ID  []byte `json:"id"`
		Ts  uint64 `json:"timestamp"`
		Ext string `json:"extensions"`
		Sig []byte `json:"signature"`
	}
	if json.Unmarshal(b, &j) != nil || j.V == nil {
		return
	}
	x, err := base64.StdEncoding.DecodeString(j.Ext)
	if err != nil {
		return
	}
	idx, ok := decodeExt(x)
	if !ok {
		return
	}
	leaf := merkleLeaf(j.Ts, s.Pre, s.IKH, s.Body, idx)
	e["idx"], e["ts"] = w.rel(idx), relTs(j.Ts)
	e["m"] = leafOf(leafHash(leaf), w.rel(idx), relTs(j.Ts), intern("b", string(signedEntry(s.Pre, s.IKH, s.Body))))
	e["sig"] = bi(verifySig(&w.key.PublicKey, leaf, j.Sig))
	if w.sigs {
		w.Emit(w.sigEv("sct", leaf, j.Sig))
	}
	e["id"] = bi(*j.V == 0 && bytes.Equal(j.ID, w.logID[:]))
	r.Idx, r.Ts = int64(idx), j.Ts
}

// Do submits and waits.
func (w *World) Do(in *Inst, s *Sub) Resp { return w.Submit(in, s, ReqOpt{}).Wait() }

// Probe is a submission that must succeed now (fresh certificate, healthy storage).
func (w *World) Probe(in *Inst, prop string) Resp {
	return w.Submit(in, makeLeaf(w.pki.I1, leafOpts{}), ReqOpt{Probe: prop}).Wait()
}

func dialTO(addr string) (net.Conn, error) { return net.DialTimeout("tcp", addr, 5*time.Second) }
