package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// The monitor at the edge (cmd/fastly-monitor): one run of the program per request. This is its
// host: it hands over the request, looks up the configuration, sends to the backend (the storage
// front end of a Mon), and keeps the cache the runs share. See sut/fastly/host.go.
type edge struct {
	m     *Mon
	local bool
	mu    sync.Mutex
	cache map[string]*edgeObj
	sem   chan struct{}
	logf  *os.File
	hc    *http.Client
	n     atomic.Int64
}

type edgeObj struct {
	busy    chan struct{} // closed when the obligation to insert has been met or dropped
	body    []byte
	expires time.Time
	ok      bool
}

type hostMsg struct {
	Op      string              `json:"op,omitempty"`
	Method  string              `json:"method,omitempty"`
	URI     string              `json:"uri,omitempty"`
	Backend string              `json:"backend,omitempty"`
	Header  map[string][]string `json:"header,omitempty"`
	Status  int                 `json:"status,omitempty"`
	Body    []byte              `json:"body,omitempty"`
	Key     []byte              `json:"key,omitempty"`
	Name    string              `json:"name,omitempty"`
	Value   string              `json:"value,omitempty"`
	TTL     int64               `json:"ttl,omitempty"`
	OK      bool                `json:"ok,omitempty"`
	Must    bool                `json:"must,omitempty"`
	Cut     bool                `json:"cut,omitempty"`
}

const (
	edgeHost, edgeBackend   = "log.example", "store.example"
	otherHost, otherBackend = "other.example", "elsewhere.example" // another log on the same edge
)

// edgeSends is how many requests to backends the platform allows a run.
const edgeSends = 32

// what the storage says about its objects: tiles and issuers never change
func edgeCacheControl(key string) string {
	if strings.HasPrefix(key, "tile/") || strings.HasPrefix(key, "issuer/") {
		return "public, max-age=31536000, immutable"
	}
	return "no-cache, max-age=0"
}

// StartEdge makes a Mon whose requests are answered by runs of the edge program.
func (w *World) StartEdge(local bool) *Mon {
	w.mu.Lock()
	m := &Mon{w: w, ID: len(w.mons) + 1, exited: make(chan struct{}), release: make(chan struct{})}
	w.mons = append(w.mons, m)
	w.mu.Unlock()
	m.srv, m.store = serve(http.HandlerFunc(m.serveStore))
	lf, err := os.Create(fmt.Sprintf("%s/mon%d.log", w.dir, m.ID))
	must(err)
	e := &edge{m: m, local: local, cache: map[string]*edgeObj{}, sem: make(chan struct{}, 8), logf: lf,
		hc: &http.Client{Transport: &http.Transport{DisableKeepAlives: true}, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}}
	m.edge, m.Addr = serve(e)
	m.edgeHost = e
	return m
}

func (e *edge) ServeHTTP(rw http.ResponseWriter, r *http.Request) {
	body, _ := io.ReadAll(r.Body)
	e.sem <- struct{}{}
	defer func() { <-e.sem }()
	if e.n.Add(1)%3 == 0 {
		// somebody asks the same of another log
		e.run(httptest.NewRecorder(), r, body, otherHost)
	}
	host := edgeHost
	if x := r.Header.Get("X-Edge"); x != "" {
		host = x
	}
	if !e.run(rw, r, body, host) {
		panic(http.ErrAbortHandler)
	}
}

// run answers one request with one run of the program; false when the answer was cut short.
func (e *edge) run(rw http.ResponseWriter, r *http.Request, body []byte, host string) bool {
	w := e.m.w
	toR, toW, err := os.Pipe()
	must(err)
	frR, frW, err := os.Pipe()
	must(err)
	defer toW.Close()
	defer frR.Close()
	cmd := exec.Command(binsPath + "/fastly-monitor")
	cmd.Env = append(os.Environ(), "FASTLY_SERVICE_VERSION=1", "GOMAXPROCS=2")
	if e.local {
		cmd.Env = append(cmd.Env, "FASTLY_HOSTNAME=localhost")
	}
	cmd.Stderr = e.logf
	cmd.ExtraFiles = []*os.File{toR, frW}
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL, Setpgid: true}
	err = cmd.Start()
	toR.Close()
	frW.Close()
	must(err)
	// a run may take this long
	kill := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
	defer kill.Stop()
	var owned []string
	in := bufio.NewReaderSize(frR, 1<<16)
	responded, ended, sends := false, false, 0
	for {
		l, err := in.ReadBytes('\n')
		if err != nil {
			break
		}
		var q, a hostMsg
		must(json.Unmarshal(l, &q))
		switch q.Op {
		case "request":
			h := map[string][]string{}
			for k, v := range r.Header {
				h[k] = v
			}
			a = hostMsg{Method: r.Method, URI: "http://" + host + r.URL.RequestURI(), Header: h, Body: body}
		case "store":
			a.OK = q.Name == "hostmap" && host != "nostore"
		case "config":
			a.Value = map[string]string{edgeHost: edgeBackend, otherHost: otherBackend}[q.Value]
			a.OK = q.Name == "hostmap" && a.Value != ""
		case "backend":
			a.OK = q.Backend == edgeBackend || q.Backend == otherBackend
		case "send":
			if sends++; sends <= edgeSends {
				a = e.send(q)
			}
		case "lookup":
			a = e.lookup(q, &owned)
		case "insert":
			e.insert(q)
			for i, k := range owned {
				if k == string(q.Key) {
					owned = append(owned[:i:i], owned[i+1:]...)
					break
				}
			}
		case "drop":
			e.drop(string(q.Key))
		case "respond":
			if !responded {
				responded = true
				for k, vs := range q.Header {
					for _, v := range vs {
						rw.Header().Add(k, v)
					}
				}
				rw.WriteHeader(q.Status)
				rw.Write(q.Body)
			}
		case "body":
			rw.Write(q.Body)
		case "end":
			ended = true
		}
		b, err := json.Marshal(a)
		must(err)
		if _, err := toW.Write(append(b, '\n')); err != nil {
			break
		}
	}
	err = cmd.Wait()
	for _, k := range owned {
		e.drop(k)
	}
	if err != nil || !ended {
		// the run failed
		w.mu.Lock()
		if !e.m.closing && host != otherHost {
			w.emit(Ev{"e": "monexit", "mon": e.m.ID})
		}
		w.mu.Unlock()
		if !responded {
			rw.WriteHeader(500)
			return true
		}
		return false
	}
	return true
}

// send is a request to the backend.
func (e *edge) send(q hostMsg) hostMsg {
	if key, ok := strings.CutPrefix(q.URI, "https://"+otherBackend+"/"); ok && q.Backend == otherBackend {
		// the other log has objects of the same names with other contents
		w := e.m.w
		w.mu.Lock()
		b, ok := w.lookup(key)
		b = append([]byte(nil), b...)
		w.mu.Unlock()
		if !ok {
			return hostMsg{OK: true, Status: 404}
		}
		if strings.HasPrefix(key, "tile/") || strings.HasPrefix(key, "issuer/") {
			for i := range b {
				if i%32 == 31 {
					b[i] ^= 0xa5
				}
			}
		}
		return hostMsg{OK: true, Status: 200, Body: b, Header: map[string][]string{"cache-control": {edgeCacheControl(key)}}}
	}
	key, ok := strings.CutPrefix(q.URI, "https://"+edgeBackend+"/")
	if !ok || q.Backend != edgeBackend {
		return hostMsg{}
	}
	req, err := http.NewRequest(q.Method, "http://"+e.m.store+"/"+key, nil)
	if err != nil {
		return hostMsg{}
	}
	res, err := e.hc.Do(req)
	if err != nil {
		return hostMsg{}
	}
	defer res.Body.Close()
	b, err := io.ReadAll(res.Body)
	return hostMsg{OK: true, Status: res.StatusCode, Body: b, Cut: err != nil, Header: map[string][]string{"cache-control": {edgeCacheControl(key)}}}
}

func (e *edge) lookup(q hostMsg, owned *[]string) hostMsg {
	k := string(q.Key)
	for {
		e.mu.Lock()
		o := e.cache[k]
		if o == nil {
			o = &edgeObj{}
			e.cache[k] = o
		}
		if o.ok && time.Now().Before(o.expires) {
			b := o.body
			e.mu.Unlock()
			return hostMsg{OK: true, Body: b}
		}
		if !q.Must {
			e.mu.Unlock()
			return hostMsg{}
		}
		if o.busy == nil {
			o.busy = make(chan struct{})
			e.mu.Unlock()
			*owned = append(*owned, k)
			return hostMsg{Must: true}
		}
		c := o.busy
		e.mu.Unlock()
		<-c
	}
}

func (e *edge) insert(q hostMsg) {
	e.mu.Lock()
	defer e.mu.Unlock()
	o := e.cache[string(q.Key)]
	if o == nil || o.busy == nil {
		return
	}
	o.body, o.ok, o.expires = q.Body, true, time.Now().Add(time.Duration(q.TTL))
	close(o.busy)
	o.busy = nil
}

// flush forgets everything that is not being inserted.
func (e *edge) flush() {
	e.mu.Lock()
	defer e.mu.Unlock()
	for _, o := range e.cache {
		o.ok, o.body = false, nil
	}
}

func (e *edge) drop(k string) {
	e.mu.Lock()
	defer e.mu.Unlock()
	if o := e.cache[k]; o != nil && o.busy != nil {
		close(o.busy)
		o.busy = nil
	}
}
