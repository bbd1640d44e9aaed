package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"net/http"
	"strconv"
	"strings"
	"sync"
	"time"
)

var b64std = base64.StdEncoding
var quietLog = log.New(io.Discard, "", 0)

// consul is a fake of the parts of Consul's HTTP API behind api.Lock and KV. Each instance
// talks to its own front end, so the fake knows who asks.
type consul struct {
	w        *World
	cond     *sync.Cond // on w.mu
	index    uint64
	sessions map[string]*Inst
	kv       map[string]*kvPair
	holder   *Inst
	sessN    int
	down     map[*Inst]bool // partitioned from the lock service
	noConfig bool
	Config   []byte // stored configuration (set-up scenarios)
	noPut    bool   // writing the configuration fails
}

type kvPair struct {
	val     []byte
	flags   uint64
	session string
	mod     uint64
	create  uint64
	lockIx  uint64
}

func newConsul(w *World) *consul {
	c := &consul{w: w, index: 10, sessions: map[string]*Inst{}, kv: map[string]*kvPair{}, down: map[*Inst]bool{}}
	c.cond = sync.NewCond(&w.mu)
	return c
}

func (c *consul) bump() {
	c.index++
	c.cond.Broadcast()
}

// Expire invalidates the session of an instance (TTL ran out).
func (c *consul) Expire(in *Inst) {
	c.w.mu.Lock()
	defer c.w.mu.Unlock()
	c.expireLocked(in)
}

func (c *consul) expireLocked(in *Inst) {
	for s, o := range c.sessions {
		if o == in {
			delete(c.sessions, s)
			for _, p := range c.kv {
				if p.session == s {
					p.session = ""
					c.bump()
					p.mod = c.index
				}
			}
		}
	}
	if c.holder == in {
		c.holder = nil
		c.w.emit(Ev{"e": "expire", "i": in.ID})
	}
	c.cond.Broadcast()
}

// Down cuts the instance off the lock service (or reconnects it).
func (c *consul) Down(in *Inst, v bool) {
	c.w.mu.Lock()
	c.down[in] = v
	c.cond.Broadcast()
	c.w.mu.Unlock()
}

func (c *consul) handler(in *Inst) http.Handler {
	w := c.w
	return http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		body, _ := io.ReadAll(r.Body)
		p := strings.TrimPrefix(r.URL.Path, "/v1/")
		q := r.URL.Query()
		w.mu.Lock()
		defer w.mu.Unlock()
		if in != nil && (in.dead || c.down[in]) {
			rw.WriteHeader(500)
			return
		}
		reply := func(v any) {
			rw.Header().Set("Content-Type", "application/json")
			rw.Header().Set("X-Consul-Index", strconv.FormatUint(c.index, 10))
			rw.Header().Set("X-Consul-Knownleader", "true")
			json.NewEncoder(rw).Encode(v)
		}
		switch {
		case p == "session/create":
			c.sessN++
			id := fmt.Sprintf("sess-%d", c.sessN)
			c.sessions[id] = in
			if in != nil {
				in.session = id
			}
			reply(map[string]string{"ID": id})
		case strings.HasPrefix(p, "session/renew/"):
			id := strings.TrimPrefix(p, "session/renew/")
			if _, ok := c.sessions[id]; !ok {
				rw.WriteHeader(404)
				return
			}
			reply([]map[string]any{{"ID": id, "TTL": "15s"}})
		case strings.HasPrefix(p, "session/destroy/"):
			id := strings.TrimPrefix(p, "session/destroy/")
			if o := c.sessions[id]; o != nil {
				c.expireLocked(o)
			}
			delete(c.sessions, id)
			reply(true)
		case strings.HasPrefix(p, "kv/") && r.Method == "GET":
			key := strings.TrimPrefix(p, "kv/")
			if key == "pfx/config" && in != nil && !c.noConfig {
				gc := map[string]any{}
				if c.Config != nil {
					json.Unmarshal(c.Config, &gc)
				} else {
					for k, v := range w.gc {
						gc[k] = v
					}
				}
				if s, _ := gc["s3EndpointUrl"].(string); s == "" || c.Config != nil {
					gc["s3EndpointUrl"] = in.s3URL
				}
				for k, v := range in.gcOver {
					gc[k] = v
				}
				val, _ := json.Marshal(gc)
				reply([]map[string]any{{"Key": key, "Value": b64(val), "Flags": 0, "CreateIndex": 1, "ModifyIndex": 1, "LockIndex": 0}})
				return
			}
			if ix := q.Get("index"); ix != "" {
				want, _ := strconv.ParseUint(ix, 10, 64)
				wait, err := time.ParseDuration(q.Get("wait"))
				if err != nil {
					wait = 10 * time.Second
				}
				dl := time.Now().Add(wait)
				t := time.AfterFunc(wait, func() { w.mu.Lock(); c.cond.Broadcast(); w.mu.Unlock() })
				defer t.Stop()
				gone := r.Context().Done()
				go func() { <-gone; w.mu.Lock(); c.cond.Broadcast(); w.mu.Unlock() }()
				for time.Now().Before(dl) && r.Context().Err() == nil {
					pr := c.kv[key]
					if (pr != nil && pr.mod > want) || (pr == nil && c.index > want) {
						break
					}
					if in != nil && (in.dead || c.down[in]) {
						rw.WriteHeader(500)
						return
					}
					c.cond.Wait()
				}
			}
			pr := c.kv[key]
			if pr == nil {
				rw.Header().Set("X-Consul-Index", strconv.FormatUint(c.index, 10))
				rw.WriteHeader(404)
				return
			}
			m := map[string]any{"Key": key, "Value": b64(pr.val), "Flags": pr.flags, "CreateIndex": pr.create, "ModifyIndex": pr.mod, "LockIndex": pr.lockIx}
			if pr.session != "" {
				m["Session"] = pr.session
			}
			rw.Header().Set("X-Consul-Index", strconv.FormatUint(pr.mod, 10))
			rw.Header().Set("Content-Type", "application/json")
			json.NewEncoder(rw).Encode([]map[string]any{m})
		case strings.HasPrefix(p, "kv/") && r.Method == "PUT":
			key := strings.TrimPrefix(p, "kv/")
			pr := c.kv[key]
			if pr == nil {
				pr = &kvPair{create: c.index + 1}
			}
			flags, _ := strconv.ParseUint(q.Get("flags"), 10, 64)
			if s := q.Get("acquire"); s != "" {
				o, ok := c.sessions[s]
				if !ok {
					rw.WriteHeader(500)
					io.WriteString(rw, "invalid session")
					return
				}
				if pr.session != "" && pr.session != s {
					reply(false)
					return
				}
				fresh := pr.session == ""
				c.kv[key] = pr
				pr.session, pr.val, pr.flags = s, body, flags
				pr.lockIx++
				c.bump()
				pr.mod = c.index
				if fresh && o != nil {
					c.holder = o
					w.emit(Ev{"e": "lock", "i": o.ID})
				}
				reply(true)
				return
			}
			if s := q.Get("release"); s != "" {
				if pr.session != s {
					reply(false)
					return
				}
				o := c.sessions[s]
				c.kv[key] = pr
				pr.session, pr.val, pr.flags = "", body, flags
				c.bump()
				pr.mod = c.index
				if o != nil && c.holder == o {
					c.holder = nil
					w.emit(Ev{"e": "unlock", "i": o.ID})
				}
				reply(true)
				return
			}
			if c.noPut {
				rw.WriteHeader(500)
				io.WriteString(rw, "no leader")
				return
			}
			c.kv[key] = pr
			pr.val, pr.flags = body, flags
			c.bump()
			pr.mod = c.index
			if key == "pfx/config" {
				c.Config = body
			}
			reply(true)
		default:
			rw.WriteHeader(404)
		}
	})
}
