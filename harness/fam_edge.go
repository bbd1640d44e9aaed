package main

import (
	"fmt"
	"math/rand"
	"sync"
)

// The monitor at the edge (cmd/fastly-monitor): the same queries as the other one gets, with a
// cache that its runs share and a number of requests it may make for one answer.
func init() {
	families["edge"] = func(r *rand.Rand, tier string) []Scenario {
		var out []Scenario
		rep := 1
		if tier == "thorough" {
			rep = 6
		}
		for k := 0; k < rep; k++ {
			for mode := 1; mode <= 2; mode++ {
				mode := mode
				add := func(name string, f func(c *Ctx)) {
					out = append(out, Scenario{Name: fmt.Sprintf("edge-%s-%d.%d", name, mode, k), Run: func(c *Ctx) {
						c.Edge = mode
						f(c)
					}})
				}
				b := []baseSpec{{253, 0}, {509, 256}, {700, 0}, {65533, 65280}}[r.Intn(4)]
				add(fmt.Sprintf("fault-%d", b.size), func(c *Ctx) { runMonFault(monLog(c, b.size, b.off, k%2 == 0)) })
				for op := 0; op < 4; op++ {
					add(fmt.Sprintf("replaced%d", op), func(c *Ctx) { runMonGrowing(c, op) })
				}
				add("issuers", runEdgeIssuers)
				if mode == 1 || tier == "thorough" {
					add("load", func(c *Ctx) { runMonLoad(monLog(c, 500, 0, false)) })
					add("malformed", func(c *Ctx) { runMonMalformed(monLog(c, 300, 0, false)) })
					add("empty", func(c *Ctx) { runMonEmpty(c, false) })
				}
			}
		}
		return out
	}
}

// runEdgeIssuers: entries whose issuers take more requests than one answer may make, with a cold
// and with a warm cache. A client that asks for more where the answer ended gets everything.
func runEdgeIssuers(c *Ctx) {
	d := newD(c, WOpt{Base: getBase([]int64{250, 509, 600}[c.Rng.Intn(3)], 0, 0), Flush: 40})
	d.in = d.MustUp(nil)
	p := d.pki
	n0 := d.size()
	var subs []*Sub
	for i, ca := range p.Deep {
		subs = append(subs, makeLeaf(ca, leafOpts{Pre: i%2 == 0}))
	}
	for i := 0; i < 40; i++ {
		// one issuer each, together more than the platform allows
		subs = append(subs, makeLeaf(newCA(fmt.Sprintf("edge %d", i), p.I1, nil, false), leafOpts{Pre: i%3 == 0}))
	}
	d.r.Shuffle(len(subs), func(i, j int) { subs[i], subs[j] = subs[j], subs[i] })
	d.wait(subs, d.submitAll(subs))
	n := d.size()
	d.m = d.StartMon("")
	d.Query(d.m, Q{Op: "ents", A: n0, B: n - 1})
	// a cache of its own for each
	for k := 0; k < 4; k++ {
		d.m = d.StartMon("")
		d.Query(d.m, Q{Op: "ents", A: n0 + d.r.Int63n(n-n0), B: n - 1})
	}
	for _, k := range d.r.Perm(int(n - n0))[:18] {
		i := n0 + int64(k)
		d.m = d.StartMon("")
		d.Query(d.m, Q{Op: "ents", A: i, B: i})
		d.m = d.StartMon("")
		d.Query(d.m, Q{Op: "eap", A: i, B: n})
	}
	d.m = d.StartMon("")
	for a := n0 - 3; a < n; {
		r := d.Query(d.m, Q{Op: "ents", A: a, B: n + 200})
		if r.Status != 200 || r.N == 0 {
			break
		}
		a += int64(r.N)
	}
	// many clients at once, none of whose objects are in the cache
	d.m = d.StartMon("")
	var wg sync.WaitGroup
	for i := 0; i < 24; i++ {
		wg.Add(1)
		a := n0 + d.r.Int63n(n-n0)
		go func() {
			defer wg.Done()
			d.Query(d.m, Q{Op: "ents", A: a, B: n - 1})
		}()
	}
	wg.Wait()
	d.battery(1)
}
