package main

import (
	"bufio"
	"context"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"strings"
	"syscall"
	"time"
)

// Mon is one itko-monitor process reading the world's store through its own front end.
type Mon struct {
	w        *World
	ID       int
	cmd      *exec.Cmd
	Addr     string
	srv      *http.Server
	exited   chan struct{}
	closing  bool
	fault    func(key string, body []byte, ok bool) (status int, b []byte, mode int) // mode 1: truncated body, 2: connection cut, 3: hang until released
	faults   int
	release  chan struct{}
	edge     *http.Server
	edgeHost *edge
	store    string           // address of the storage front end
	gate     func(key string) // called (without the lock) before every read
}

// serveStore is the storage as the monitor sees it.
func (m *Mon) serveStore(rw http.ResponseWriter, r *http.Request) {
	w := m.w
	key := strings.TrimPrefix(r.URL.Path, "/")
	if m.gate != nil {
		m.gate(key)
	}
	w.mu.Lock()
	b, ok := w.lookup(key)
	f := m.fault
	st, mode := 200, 0
	if !ok {
		st = 404
	}
	if f != nil {
		var nb []byte
		st, nb, mode = f(key, b, ok)
		if st != 200 || mode != 0 || string(nb) != string(b) {
			if !(st == 404 && !ok) {
				m.faults++
			}
		}
		b = nb
	}
	w.mu.Unlock()
	switch mode {
	case 1:
		rw.Header().Set("Content-Length", fmt.Sprint(len(b)+100))
		rw.WriteHeader(200)
		rw.Write(b)
		rw.(http.Flusher).Flush()
		panic(http.ErrAbortHandler)
	case 2:
		panic(http.ErrAbortHandler)
	case 3:
		select {
		case <-m.release:
		case <-r.Context().Done():
		case <-w.stop:
		}
		panic(http.ErrAbortHandler)
	}
	if st != 200 {
		rw.WriteHeader(st)
		io.WriteString(rw, "no")
		return
	}
	rw.Header().Set("Content-Type", "application/octet-stream")
	rw.Write(b)
}

// StartMon launches a monitor on the store (dir != "": filesystem).
func (w *World) StartMon(dir string, env ...string) *Mon {
	if w.edgeMon != 0 {
		return w.StartEdge(w.edgeMon == 2)
	}
	w.mu.Lock()
	m := &Mon{w: w, ID: len(w.mons) + 1, exited: make(chan struct{}), release: make(chan struct{})}
	w.mons = append(w.mons, m)
	w.mu.Unlock()
	var a string
	m.srv, a = serve(http.HandlerFunc(m.serveStore))
	u := "http://" + a + "/"
	if dir != "" {
		u = ""
	}
	m.cmd = exec.Command(sutPath, "monitor", "127.0.0.1:0", dir, u, fmt.Sprint(w.mask))
	if w.real {
		m.Addr = freeAddr()
		m.cmd = exec.Command(binsPath+"/itko-monitor", "-listen-address", m.Addr, "-mask-size", fmt.Sprint(w.mask))
		if dir != "" {
			m.cmd.Args = append(m.cmd.Args, "-store-directory", dir)
		} else {
			m.cmd.Args = append(m.cmd.Args, "-store-address", u)
		}
	}
	m.cmd.Env = append(os.Environ(), "GOMAXPROCS=4")
	m.cmd.Env = append(m.cmd.Env, env...)
	m.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL, Setpgid: true}
	out, err := m.cmd.StdoutPipe()
	must(err)
	lf, err := os.Create(fmt.Sprintf("%s/mon%d.log", w.dir, m.ID))
	must(err)
	m.cmd.Stderr = lf
	must(m.cmd.Start())
	addr := make(chan string, 1)
	done := make(chan struct{})
	go func() {
		defer close(done)
		sc := bufio.NewScanner(out)
		for sc.Scan() {
			if a, ok := strings.CutPrefix(sc.Text(), "LISTEN "); ok {
				addr <- a
			}
		}
	}()
	go func() {
		<-done
		m.cmd.Wait()
		lf.Close()
		w.mu.Lock()
		if !m.closing {
			w.emit(Ev{"e": "monexit", "mon": m.ID})
		}
		close(m.exited)
		w.mu.Unlock()
	}()
	if w.real {
		for t0 := time.Now(); time.Since(t0) < 20*time.Second; time.Sleep(5 * time.Millisecond) {
			if c, err := net.Dial("tcp", m.Addr); err == nil {
				c.Close()
				break
			}
		}
		return m
	}
	select {
	case m.Addr = <-addr:
	case <-m.exited:
	case <-time.After(20 * time.Second):
		w.fatal("monitor did not listen")
	}
	return m
}

// reg1 registers the hash of [lo,hi) of the published tree.
func (w *World) reg1(v *nodesView, lo, hi int64) {
	if h, ok := mthRange(v, lo, hi); ok {
		w.rngs[h] = [2]int64{lo, hi}
	}
}

func (w *World) regPath(idx, n int64) {
	if idx < 0 || n > w.pubSize || idx >= n {
		return
	}
	v := w.nodes(w.pubHash)
	lo, hi := int64(0), n
	for hi-lo > 1 {
		k := int64(1)
		for k*2 < hi-lo {
			k *= 2
		}
		w.reg1(v, lo, lo+k)
		w.reg1(v, lo+k, hi)
		if idx < lo+k {
			hi = lo + k
		} else {
			lo += k
		}
	}
	w.reg1(v, lo, hi)
}

// rng maps a proof hash to the trace's name of the subtree it is the hash of.
func (w *World) rng(b []byte) []int {
	if len(b) != 32 {
		return []int{-2, 0, 0}
	}
	r, ok := w.rngs[Hash(b)]
	if !ok {
		return []int{-2, 0, 0}
	}
	lo, hi := r[0], r[1]
	sz := hi - lo
	if sz&(sz-1) == 0 && lo%sz == 0 {
		l := 0
		for int64(1)<<l < sz {
			l++
		}
		if l < 24 {
			return []int{l, clamp((lo - w.base.D) >> l), 0}
		}
		return []int{l, clamp(lo >> l), 0}
	}
	return []int{-1, clamp(lo - w.base.D), clamp(hi - w.base.D)}
}

type QRes struct {
	Status int
	Body   []byte
	N      int // entries returned
}

// Q is one monitoring query.
type Q struct {
	Op    string // ents proof cons eap sth roots raw
	A, B  int64
	Hash  *Hash
	Raw   string // full path and query for malformed requests
	Meth  string
	Edge  string // another host name, at the edge
	Fault bool   // the scenario injects faults for this query
	Tmo   time.Duration
}

func (w *World) absA(v int64) int { return clamp(v - w.base.D) }

func (w *World) Query(m *Mon, q Q) QRes {
	if m.edge != nil && (q.Op == "sth" || q.Op == "roots") {
		return QRes{} // not the edge program's to answer
	}
	w.mu.Lock()
	sz0 := w.pubSize
	if _, ok := w.objs["ct/v1/get-sth"]; !ok {
		sz0 = -1
	}
	f0 := m.faults
	w.emit(Ev{"e": "qs", "mon": m.ID})
	w.mu.Unlock()
	var path string
	e := Ev{"e": "q", "op": q.Op, "mon": m.ID, "sz0": w.absA(sz0), "a": w.absA(q.A), "b": w.absA(q.B), "st": 0, "wf": 0, "m": 0, "idx": -1,
		"xs": []int{}, "ph": [][]int{}, "cid": 0}
	switch q.Op {
	case "ents":
		path = fmt.Sprintf("/ct/v1/get-entries?start=%d&end=%d", q.A, q.B)
	case "proof":
		path = fmt.Sprintf("/ct/v1/get-proof-by-hash?hash=%s&tree_size=%d", url.QueryEscape(b64(q.Hash[:])), q.B)
		e["m"] = leafID(*q.Hash)
		e["a"] = 0
	case "cons":
		path = fmt.Sprintf("/ct/v1/get-sth-consistency?first=%d&second=%d", q.A, q.B)
	case "eap":
		path = fmt.Sprintf("/ct/v1/get-entry-and-proof?leaf_index=%d&tree_size=%d", q.A, q.B)
	case "sth":
		path = "/ct/v1/get-sth"
	case "roots":
		path = "/ct/v1/get-roots"
	case "raw":
		path = q.Raw
	}
	if q.Tmo == 0 {
		q.Tmo = 30 * time.Second
	}
	ctx, cancel := context.WithTimeout(context.Background(), q.Tmo)
	defer cancel()
	meth := q.Meth
	if meth == "" {
		meth = "GET"
	}
	req, err := http.NewRequestWithContext(ctx, meth, "http://"+m.Addr+path, nil)
	must(err)
	if q.Edge != "" {
		req.Header.Set("X-Edge", q.Edge)
	}
	res, err := client.Do(req)
	var r QRes
	if err == nil {
		r.Body, err = io.ReadAll(res.Body)
		res.Body.Close()
		r.Status = res.StatusCode
		if err != nil {
			r.Status = 0
		}
	}
	e["st"] = r.Status
	if w.fsDir != "" {
		w.fsSync()
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	e["flt"] = bi(q.Fault || m.faults != f0)
	if r.Status == 200 {
		c := sha256.Sum256(r.Body)
		e["cid"] = intern("c", string(c[:]))
		switch q.Op {
		case "ents":
			var j struct {
				Entries *[]struct {
					LeafInput []byte `json:"leaf_input"`
					ExtraData []byte `json:"extra_data"`
				} `json:"entries"`
			}
			if json.Unmarshal(r.Body, &j) == nil && j.Entries != nil {
				e["wf"] = 1
				xs := []int{}
				for _, x := range *j.Entries {
					xs = append(xs, w.ansEnt(x.LeafInput, x.ExtraData))
				}
				e["xs"] = xs
				r.N = len(xs)
			}
		case "proof":
			var j struct {
				Idx  *int64   `json:"leaf_index"`
				Path [][]byte `json:"audit_path"`
			}
			if json.Unmarshal(r.Body, &j) == nil && j.Idx != nil {
				e["wf"] = 1
				e["idx"] = w.absA(*j.Idx)
				w.regPath(*j.Idx, q.B)
				e["ph"] = w.rngList(j.Path)
			}
		case "cons":
			var j struct {
				C *[][]byte `json:"consistency"`
			}
			if json.Unmarshal(r.Body, &j) == nil && j.C != nil {
				e["wf"] = 1
				w.regPath(q.A-1, q.B)
				w.regPath(q.A-1, q.A)
				e["ph"] = w.rngList(*j.C)
			}
		case "eap":
			var j struct {
				LeafInput []byte   `json:"leaf_input"`
				ExtraData []byte   `json:"extra_data"`
				Path      [][]byte `json:"audit_path"`
			}
			if json.Unmarshal(r.Body, &j) == nil {
				e["wf"] = 1
				e["xs"] = []int{w.ansEnt(j.LeafInput, j.ExtraData)}
				w.regPath(q.A, q.B)
				e["ph"] = w.rngList(j.Path)
			}
		}
	}
	w.emit(e)
	return r
}

func (w *World) rngList(p [][]byte) [][]int {
	out := [][]int{}
	for _, h := range p {
		out = append(out, w.rng(h))
	}
	return out
}

func (w *World) ansEnt(li, xd []byte) int {
	e, ok := decodeLeafInput(li)
	if !ok {
		return 0
	}
	ok = e.decodeExtra(xd)
	return w.entOf(e, ok)
}
