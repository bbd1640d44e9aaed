package main

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"time"
)

// The monitor when its storage misbehaves, when it is asked nonsense, and when it is asked a
// lot at the same time (C14-C18). Every fault is followed by the same query without it.

type faultMode struct {
	name string
	f    func(body []byte) (int, []byte, int)
	pass bool // also for objects that are passed through unread
}

var faultModes = []faultMode{
	{"500", func(b []byte) (int, []byte, int) { return 500, nil, 0 }, true},
	{"403", func(b []byte) (int, []byte, int) { return 403, nil, 0 }, true},
	{"404", func(b []byte) (int, []byte, int) { return 404, nil, 0 }, true},
	{"short", func(b []byte) (int, []byte, int) { return 200, b[:len(b)/2], 1 }, true},
	{"cut", func(b []byte) (int, []byte, int) { return 200, nil, 2 }, true},
	{"half", func(b []byte) (int, []byte, int) { return 200, b[:len(b)/2], 0 }, false},
	{"empty", func(b []byte) (int, []byte, int) { return 200, nil, 0 }, false},
	{"less1", func(b []byte) (int, []byte, int) { return 200, b[:len(b)-1], 0 }, false},
	{"less32", func(b []byte) (int, []byte, int) { return 200, b[:max(len(b)-32, 0)], 0 }, false},
	{"204", func(b []byte) (int, []byte, int) { return 204, nil, 0 }, true},
	{"302", func(b []byte) (int, []byte, int) { return 302, nil, 0 }, true},
}

// cutAt gives the positions between the records of a data tile.
func tileCuts(b []byte) []int {
	es, ok := decodeDataTile(b)
	if !ok {
		return nil
	}
	var out []int
	n := 0
	for _, e := range es {
		n += len(e.append(nil))
		if n < len(b) {
			out = append(out, n)
		}
	}
	return out
}

func (m *Mon) setFault(f func(key string, body []byte, ok bool) (int, []byte, int)) {
	m.w.mu.Lock()
	m.fault = f
	m.w.mu.Unlock()
}

// reads runs a query without faults and returns the objects it read.
func (d *D) reads(q Q) []string {
	var mu sync.Mutex
	seen := map[string]bool{}
	var ks []string
	d.m.setFault(func(key string, b []byte, ok bool) (int, []byte, int) {
		mu.Lock()
		defer mu.Unlock()
		if !seen[key] {
			seen[key] = true
			ks = append(ks, key)
		}
		if !ok {
			return 404, nil, 0
		}
		return 200, b, 0
	})
	d.Query(d.m, q)
	d.m.setFault(nil)
	return ks
}

// someQueries are queries of every kind that must be answered now.
func (d *D) someQueries(k int) []Q {
	n, off := d.size(), d.base.Off
	pubs := d.pubs()
	var qs []Q
	qs = append(qs, Q{Op: "sth"}, Q{Op: "roots"}, Q{Op: "ents", A: n - 1, B: n - 1}, Q{Op: "ents", A: off, B: n - 1})
	for i := 0; i < k; i++ {
		a := off + d.r.Int63n(n-off)
		qs = append(qs, Q{Op: "ents", A: a, B: a + d.r.Int63n(300)})
	}
	for _, i := range d.points(n, k) {
		if h, ok := d.hashAt(i); ok {
			qs = append(qs, Q{Op: "proof", Hash: &h, B: n}, Q{Op: "proof", Hash: &h, B: i + 1})
			qs = append(qs, Q{Op: "eap", A: i, B: n})
		}
	}
	for i := 0; i < k+1; i++ {
		a, b := pubs[d.r.Intn(len(pubs))], pubs[d.r.Intn(len(pubs))]
		if a > b {
			a, b = b, a
		}
		qs = append(qs, Q{Op: "cons", A: a, B: b})
	}
	return qs
}

// monLog builds a log with some history, optionally with leftovers of an interrupted round.
func monLog(c *Ctx, size, off int64, stale bool) *D {
	d := newD(c, WOpt{Base: getBase(size, off, 0), Flush: 40, Mask: 1 + c.Rng.Intn(4)})
	d.in = d.MustUp(nil)
	d.growSeq(2)
	d.grow(4)
	if stale {
		ps, _ := d.holdRound(map[string]bool{"sth": true}, d.leaves(3))
		d.crashNow(func(*Op) bool { return false })
		for _, p := range ps {
			p.Wait()
		}
		d.cons.Expire(d.in)
	}
	d.m = d.StartMon("")
	return d
}

func init() {
	families["mon"] = func(r *rand.Rand, tier string) []Scenario {
		var out []Scenario
		add := func(name string, f func(c *Ctx)) { out = append(out, Scenario{Name: "mon-" + name, Run: f}) }
		specs := []baseSpec{{0, 0}, {250, 0}, {509, 256}, {700, 0}, {65533, 65280}}
		rep := 1
		if tier == "thorough" {
			rep = 8
		}
		for k := 0; k < rep; k++ {
			for _, b := range specs {
				b := b
				for _, stale := range []bool{false, true} {
					stale := stale
					add(fmt.Sprintf("fault-%d-%v.%d", b.size, stale, k), func(c *Ctx) { runMonFault(monLog(c, b.size, b.off, stale)) })
				}
			}
			add(fmt.Sprintf("fds.%d", k), func(c *Ctx) { runMonFds(c) })
			add(fmt.Sprintf("load.%d", k), func(c *Ctx) { runMonLoad(monLog(c, 500, 0, false)) })
			add(fmt.Sprintf("burst.%d", k), func(c *Ctx) { runMonBurst(c) })
			add(fmt.Sprintf("stuck.%d", k), func(c *Ctx) { runMonStuck(monLog(c, 300, 0, false)) })
			for op := 0; op < 4; op++ {
				add(fmt.Sprintf("replaced%d.%d", op, k), func(c *Ctx) { runMonGrowing(c, op) })
			}
		}
		add("malformed", func(c *Ctx) { runMonMalformed(monLog(c, 300, 0, false)) })
		add("malformed-empty", func(c *Ctx) { runMonMalformed(monLog(c, 0, 0, false)) })
		add("empty", func(c *Ctx) { runMonEmpty(c, false) })
		add("nothing", func(c *Ctx) { runMonEmpty(c, true) })
		return out
	}
}

func runMonFault(d *D) {
	qs := d.someQueries(1)
	for _, q := range qs {
		ks := d.reads(q)
		for _, key := range ks {
			modes := faultModes
			d.mu.Lock()
			body, ok := d.lookup(key)
			d.mu.Unlock()
			if !ok {
				continue
			}
			if classOf(key) == "data" {
				cuts := tileCuts(body)
				for _, n := range []int{0, len(cuts) - 1, d.r.Intn(len(cuts) + 1)} {
					if n >= 0 && n < len(cuts) {
						n := cuts[n]
						modes = append(modes[:len(modes):len(modes)], faultMode{fmt.Sprintf("record%d", n), func(b []byte) (int, []byte, int) { return 200, b[:min(n, len(b))], 0 }, false})
					}
				}
			}
			for i, m := range modes {
				if (q.Op == "sth" || q.Op == "roots") && !m.pass {
					continue
				}
				if i > 4 && len(qs) > 14 && d.r.Intn(3) > 0 {
					continue
				}
				m := m
				e := d.m.edgeHost
				noticed := true // by the transport
				if e != nil {
					e.flush()
				}
				d.m.setFault(func(k string, b []byte, ok bool) (int, []byte, int) {
					if k == key && ok && len(b) > 0 {
						st, nb, mode := m.f(b)
						noticed = noticed && (st != 200 || mode != 0)
						return st, nb, mode
					}
					if !ok {
						return 404, nil, 0
					}
					return 200, b, 0
				})
				d.Query(d.m, q)
				d.m.setFault(nil)
				if e != nil {
					// what did not arrive is not kept; other contents may be
					if !noticed {
						e.flush()
					}
					d.Query(d.m, q)
				}
			}
			d.Query(d.m, q)
		}
		// everything fails
		d.m.setFault(func(k string, b []byte, ok bool) (int, []byte, int) { return []int{404, 500, 503}[len(k)%3], nil, 0 })
		d.Query(d.m, q)
		d.m.setFault(nil)
		d.Query(d.m, q)
	}
	d.battery(0)
}

// runMonFds: thousands of failed reads do not use up the descriptors of the process.
func runMonFds(c *Ctx) {
	d := newD(c, WOpt{Base: getBase(300, 0, 0), Flush: 40})
	d.in = d.MustUp(nil)
	d.grow(3)
	d.m = d.StartMon("", "VSUT_NOFILE=90")
	qs := d.someQueries(1)
	for i := 0; i < 350; i++ {
		m := faultModes[d.r.Intn(len(faultModes))]
		if i < 200 {
			m = faultModes[i%4]
		}
		d.m.setFault(func(k string, b []byte, ok bool) (int, []byte, int) {
			if ok && len(b) > 0 && (classOf(k) != "sth" || i%2 == 0) {
				return m.f(b)
			}
			return 404, nil, 0
		})
		q := qs[2+d.r.Intn(len(qs)-2)]
		if m.pass {
			q = qs[d.r.Intn(len(qs))]
		}
		d.Query(d.m, q)
	}
	d.m.setFault(nil)
	for _, q := range qs {
		d.Query(d.m, q)
	}
}

// runMonLoad: queries of every kind at the same time, while the log grows.
func runMonLoad(d *D) {
	var wg sync.WaitGroup
	stop := make(chan bool)
	qs := d.someQueries(6)
	for i := 0; i < 12; i++ {
		wg.Add(1)
		i := i
		go func() {
			defer wg.Done()
			for j := 0; j < 25; j++ {
				d.Query(d.m, qs[(i*7+j*5)%len(qs)])
				select {
				case <-stop:
					return
				default:
				}
			}
		}()
	}
	for i := 0; i < 6; i++ {
		d.grow(2)
	}
	close(stop)
	wg.Wait()
	d.battery(1)
}

// runMonStuck: reads that never finish hold up nobody else.
func runMonStuck(d *D) {
	qs := d.someQueries(2)
	n := d.size()
	d.m.setFault(func(k string, b []byte, ok bool) (int, []byte, int) {
		if classOf(k) == "data" {
			return 200, b, 3
		}
		if !ok {
			return 404, nil, 0
		}
		return 200, b, 0
	})
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			d.Query(d.m, Q{Op: "ents", A: int64(i), B: n - 1, Fault: true})
		}()
	}
	time.Sleep(100 * time.Millisecond)
	for _, q := range qs {
		if q.Op == "proof" || q.Op == "cons" || q.Op == "sth" {
			d.Query(d.m, q)
		}
	}
	close(d.m.release)
	wg.Wait()
	d.m.setFault(nil)
	for _, q := range qs {
		d.Query(d.m, q)
	}
}

// runMonGrowing: the tree head a query has read is superseded, and partial tiles disappear,
// while the query still runs.
func runMonGrowing(c *Ctx, op int) {
	b := []baseSpec{{250, 0}, {506, 0}, {65530, 65280}}[c.Rng.Intn(3)]
	d := newD(c, WOpt{Base: getBase(b.size, b.off, 0), Flush: 40})
	d.in = d.MustUp(nil)
	d.m = d.StartMon("")
	d.grow(2)
	for i := 0; i < 4; i++ {
		n := d.size()
		h, ok := d.hashAt(n - 1)
		if !ok {
			break
		}
		done := false
		var mu sync.Mutex
		d.m.gate = func(key string) {
			mu.Lock()
			defer mu.Unlock()
			if key != "ct/v1/get-sth" && !done {
				done = true
				k := 1 + i%3
				if i == 1 {
					// past the end of the tile
					k = int(256 - n%256 + d.r.Int63n(3))
				}
				d.growSeq(k)
				if i%2 == 1 {
					// the partial tiles of the old size are gone once there are full ones
					d.mu.Lock()
					for k := range d.objs {
						if t, ok := parseTile(k); ok && t.W != 256 {
							if _, full := d.objs[TilePath{t.L, t.N, 256}.String()]; full {
								d.objs[k] = nil
							}
						}
					}
					d.mu.Unlock()
				}
			}
		}
		var q Q
		switch (i + op) % 4 {
		case 0:
			q = Q{Op: "proof", Hash: &h, B: n}
		case 1:
			q = Q{Op: "ents", A: n - 3, B: n + 3}
		case 2:
			q = Q{Op: "eap", A: n - 1, B: n}
		case 3:
			q = Q{Op: "cons", A: n - 1, B: n}
		}
		d.Query(d.m, q)
		d.m.gate = nil
	}
	d.battery(1)
}

func runMonMalformed(d *D) {
	n := d.size()
	h, _ := d.hashAt(n - 1)
	hs := strings.NewReplacer("+", "%2B", "/", "%2F", "=", "%3D").Replace(b64(h[:]))
	nums := []string{"", "x", "1x", "-1", "0x1", "1.0", "1e3", "9223372036854775808", "18446744073709551616", "-9223372036854775809", "%20", "%00", "1%202", "٣", "null", "[]", "--1", strings.Repeat("9", 400)}
	var raw []string
	p := "/ct/v1/"
	for _, x := range nums {
		raw = append(raw,
			p+"get-entries?start="+x+"&end="+fmt.Sprint(n-1),
			p+"get-entries?start=0&end="+x,
			p+"get-sth-consistency?first="+x+"&second="+fmt.Sprint(n),
			p+"get-sth-consistency?first=1&second="+x,
			p+"get-proof-by-hash?tree_size="+x+"&hash="+hs,
			p+"get-entry-and-proof?leaf_index="+x+"&tree_size="+fmt.Sprint(n),
			p+"get-entry-and-proof?leaf_index=0&tree_size="+x)
	}
	for _, x := range []string{"", "x", "AAAA", "AAAAAAAAAAAAAAAAAAAAAA%3D%3D", hs[:len(hs)-4], hs + hs, "%3D", strings.Repeat("A", 43), strings.Repeat("A", 64), strings.Repeat("!", 44), "%00%00"} {
		raw = append(raw, p+"get-proof-by-hash?tree_size="+fmt.Sprint(n)+"&hash="+x)
	}
	for _, e := range []string{"get-entries", "get-sth-consistency", "get-proof-by-hash", "get-entry-and-proof"} {
		raw = append(raw, p+e, p+e+"?", p+e+"?%zz", p+e+"?a=b")
	}
	raw = append(raw, p+"get-entries?start=0", p+"get-entries?end=0", p+"get-sth-consistency?first=0", p+"get-sth-consistency?second=1",
		p+"get-proof-by-hash?hash="+hs, p+"get-proof-by-hash?tree_size="+fmt.Sprint(n), p+"get-entry-and-proof?leaf_index=0", p+"get-entry-and-proof?tree_size=1",
		p+"get-entries?START=0&END=0", p+"get-proof-by-hash?tree_size=0&hash="+hs, p+"get-proof-by-hash?tree_size=-5&hash="+hs,
		p+"get-entry-and-proof?leaf_index=0&tree_size=0", "/", "/ct/v1/get-nothing", "/ct/v2/get-sth", "/checkpoint", "/ct/v1/get-sth/x", "/ct/v1/add-chain",
		p+fmt.Sprintf("get-sth-consistency?first=%d&second=%d", n, n-1), p+fmt.Sprintf("get-sth-consistency?first=0&second=%d", n+1),
		p+"get-entries?start=5&end=4", p+"get-entries?start=9223372036854775807&end=9223372036854775807",
		p+"get-sth-consistency?first=9223372036854775807&second=9223372036854775807",
		p+fmt.Sprintf("get-entry-and-proof?leaf_index=9223372036854775806&tree_size=9223372036854775807"),
		p+"get-proof-by-hash?tree_size=9223372036854775807&hash="+hs)
	good := d.someQueries(0)
	for i, x := range raw {
		d.Query(d.m, Q{Op: "raw", Raw: x})
		if i%9 == 8 {
			d.Query(d.m, good[d.r.Intn(len(good))])
		}
	}
	for _, m := range []string{"POST", "PUT", "DELETE", "PATCH", "OPTIONS"} {
		if m == "OPTIONS" && d.edgeMon != 0 {
			continue // answered like GET there
		}
		for _, e := range []string{"get-sth", "get-roots", "get-entries?start=0&end=0", fmt.Sprintf("get-sth-consistency?first=1&second=%d", n)} {
			d.Query(d.m, Q{Op: "raw", Raw: p + e, Meth: m})
		}
	}
	if d.edgeMon != 0 {
		// a host the edge has no log for, and no configuration at all
		for _, e := range []string{"get-entries?start=0&end=0", "get-proof-by-hash?tree_size=" + fmt.Sprint(n) + "&hash=" + hs, fmt.Sprintf("get-sth-consistency?first=1&second=%d", n), "get-sth"} {
			d.Query(d.m, Q{Op: "raw", Raw: p + e, Edge: "unknown"})
			d.Query(d.m, Q{Op: "raw", Raw: p + e, Edge: "nostore"})
		}
	}
	// a range that overflows
	d.Query(d.m, Q{Op: "ents", A: n - 1, B: 1<<63 - 1})
	d.Query(d.m, Q{Op: "ents", A: -1, B: 5})
	d.Query(d.m, Q{Op: "ents", A: -5, B: -1})
	d.Query(d.m, Q{Op: "ents", A: 0, B: -1})
	d.Query(d.m, Q{Op: "cons", A: -1, B: n})
	d.Query(d.m, Q{Op: "eap", A: -1, B: n})
	d.Query(d.m, Q{Op: "proof", Hash: &h, B: 0})
	d.Query(d.m, Q{Op: "proof", Hash: &h, B: -1})
	for _, q := range good {
		d.Query(d.m, q)
	}
	d.battery(0)
}

// runMonEmpty: a log without entries, or a store without anything.
func runMonEmpty(c *Ctx, nothing bool) {
	d := newD(c, WOpt{Base: getBase(0, 0, 0), NoSTH: nothing, Flush: 40})
	d.m = d.StartMon("")
	z := Hash{}
	ask := func() {
		for _, q := range []Q{{Op: "sth"}, {Op: "roots"}, {Op: "ents", A: 0, B: 0}, {Op: "ents", A: 0, B: 300}, {Op: "proof", Hash: &z, B: 0}, {Op: "proof", Hash: &z, B: 1},
			{Op: "cons", A: 0, B: 0}, {Op: "cons", A: 0, B: 1}, {Op: "cons", A: 1, B: 1}, {Op: "eap", A: 0, B: 1}, {Op: "eap", A: 0, B: 0}} {
			d.Query(d.m, q)
		}
	}
	ask()
	if nothing {
		return
	}
	d.in = d.MustUp(nil)
	time.Sleep(100 * time.Millisecond)
	ask()
	d.grow(1)
	ask()
	d.battery(1)
}

// runMonBurst: a monitor that has just started is asked the same things by many clients at once.
func runMonBurst(c *Ctx) {
	d := newD(c, WOpt{Base: getBase(250, 0, 0), Flush: 40})
	d.in = d.MustUp(nil)
	p := d.pki
	var subs []*Sub
	for i, ca := range p.Deep {
		subs = append(subs, makeLeaf(ca, leafOpts{Pre: i%2 == 0}))
	}
	for i := 0; i < 12; i++ {
		// one issuer each
		subs = append(subs, makeLeaf(newCA(fmt.Sprintf("burst %d", i), p.I1, nil, false), leafOpts{}))
	}
	d.wait(subs, d.submitAll(subs))
	n := d.size()
	h, _ := d.hashAt(n - 1)
	for k := 0; k < 5; k++ {
		d.m = d.StartMon("")
		var wg sync.WaitGroup
		for i := 0; i < 48; i++ {
			wg.Add(1)
			q := Q{Op: "ents", A: 250 + int64(d.r.Intn(3)), B: n - 1}
			switch i % 8 {
			case 5:
				q = Q{Op: "eap", A: n - 1 - int64(d.r.Intn(8)), B: n}
			case 6:
				q = Q{Op: "proof", Hash: &h, B: n}
			case 7:
				q = Q{Op: "ents", A: int64(d.r.Intn(int(n))), B: n - 1}
			}
			go func() {
				defer wg.Done()
				d.Query(d.m, q)
			}()
		}
		wg.Wait()
		d.Query(d.m, Q{Op: "ents", A: n - 1, B: n - 1})
	}
}
