package main

import (
	"fmt"
	"math/rand"
	"sync"
	"time"
)

// Storage with realistic response times while submissions trickle in: operations of some
// classes take long, sometimes or always, before or after they take effect.
type latPlan struct {
	name  string
	flush int
	gap   [2]int // ms between submissions
	batch int
	f     func(r *rand.Rand, o *Op, n int) (int, int) // n: which operation of its class
}

func init() {
	families["latency"] = func(r *rand.Rand, tier string) []Scenario {
		put := func(o *Op, cl string) bool { return o.Kind == "put" && o.Class == cl }
		tiles := func(o *Op) bool {
			return o.Kind == "put" && (o.Class == "data" || o.Class == "tree" || o.Class == "hidx")
		}
		plans := []latPlan{
			// tree heads take long to store: rounds queue up
			{"heads-late", 60, [2]int{20, 400}, 2, func(r *rand.Rand, o *Op, n int) (int, int) {
				if put(o, "sth") {
					return 0, 300
				}
				return 0, 0
			}},
			{"heads-slow", 60, [2]int{20, 250}, 1, func(r *rand.Rand, o *Op, n int) (int, int) {
				if put(o, "sth") || put(o, "ckpt") {
					return 100 + r.Intn(150), r.Intn(100)
				}
				return 0, 0
			}},
			// the uploads of some rounds take seconds, and then one tree head or the other
			{"uploads-long-head-long", 100, [2]int{200, 900}, 2, func(r *rand.Rand, o *Op, n int) (int, int) {
				if put(o, "data") && n%3 == 1 {
					return 1300, 0
				}
				if put(o, "sth") && r.Intn(3) == 0 {
					return 1800, 0
				}
				return 0, 0
			}},
			{"uploads-long", 100, [2]int{100, 600}, 2, func(r *rand.Rand, o *Op, n int) (int, int) {
				if put(o, "hidx") && n%2 == 1 {
					return 0, 1600
				}
				if put(o, "sth") {
					return []int{0, 0, 1200}[r.Intn(3)], 0
				}
				return 0, 0
			}},
			{"look-ups-long", 80, [2]int{20, 200}, 2, func(r *rand.Rand, o *Op, n int) (int, int) {
				if o.Kind == "get" && o.Class == "ded" {
					return r.Intn(500), r.Intn(500)
				}
				return 0, 0
			}},
			{"dedupe-long", 60, [2]int{20, 300}, 2, func(r *rand.Rand, o *Op, n int) (int, int) {
				if put(o, "ded") {
					return r.Intn(700), r.Intn(700)
				}
				return 0, 0
			}},
			{"jitter", 80, [2]int{10, 150}, 3, func(r *rand.Rand, o *Op, n int) (int, int) {
				return []int{0, 0, 10, 40, 150}[r.Intn(5)], []int{0, 0, 10, 40, 150}[r.Intn(5)]
			}},
			{"stretches", 60, [2]int{10, 300}, 2, func(r *rand.Rand, o *Op, n int) (int, int) {
				if tiles(o) {
					return []int{0, 0, 0, 400, 1100}[r.Intn(5)], 0
				}
				return []int{0, 0, 0, 0, 700}[r.Intn(5)], []int{0, 0, 0, 0, 400}[r.Intn(5)]
			}},
		}
		rep := 1
		if tier == "thorough" {
			rep = 4
		}
		var out []Scenario
		for k := 0; k < rep; k++ {
			for _, p := range plans {
				p := p
				out = append(out, Scenario{Name: fmt.Sprintf("latency-%s.%d", p.name, k), Run: func(c *Ctx) { runLatency(c, p) }})
			}
		}
		return out
	}
}

func runLatency(c *Ctx, p latPlan) {
	size := []int64{0, 3, 250, 255}[c.Rng.Intn(4)]
	d := newD(c, WOpt{Base: getBase(size, 0, 0), Flush: p.flush, Mask: 2})
	d.in = d.MustUp(nil)
	d.grow(2)
	d.Sick() // the bounds of healthy storage do not apply
	var mu sync.Mutex
	rr := rand.New(rand.NewSource(d.r.Int63()))
	cnt := map[string]int{}
	in := d.in
	d.mu.Lock()
	d.delay = func(o *Op) (time.Duration, time.Duration) {
		if o.Inst != in {
			return 0, 0
		}
		mu.Lock()
		defer mu.Unlock()
		cnt[o.Kind+o.Class]++
		a, b := p.f(rr, o, cnt[o.Kind+o.Class])
		return time.Duration(a) * time.Millisecond, time.Duration(b) * time.Millisecond
	}
	d.mu.Unlock()
	var subs []*Sub
	var ps []*Pending
	for t0 := time.Now(); time.Since(t0) < 9*time.Second && in.Alive(); {
		for i := 0; i <= d.r.Intn(p.batch); i++ {
			var s *Sub
			if len(subs) > 0 && d.r.Intn(4) == 0 {
				s = subs[len(subs)-1-d.r.Intn(min(len(subs), 6))]
			} else {
				s = d.anyLeaf()
			}
			subs = append(subs, s)
			ps = append(ps, d.Submit(in, s, ReqOpt{}))
		}
		time.Sleep(time.Duration(p.gap[0]+d.r.Intn(p.gap[1]-p.gap[0])) * time.Millisecond)
	}
	d.wait(subs, ps)
	d.mu.Lock()
	d.delay = nil
	d.mu.Unlock()
	d.again(3)
	time.Sleep(2 * time.Second)
	d.Well()
	d.m = d.StartMon("")
	d.battery(1)
	d.restart()
	d.again(2)
	d.grow(2)
	d.battery(1)
}
