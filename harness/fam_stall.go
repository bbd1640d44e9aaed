package main

import (
	"fmt"
	"math/rand"
	"sync"
	"time"
)

// Stalled storage: every submission is still answered in time, and the log recovers.
type stallPlan struct {
	what   string // which operations hang
	burst  int    // submissions made while it hangs
	cancel int    // how many clients give up
	dup    bool
	secs   int
	waves  int
}

func (p stallPlan) name() string {
	n := fmt.Sprintf("stall-%s-b%d", p.what, p.burst)
	if p.cancel > 0 {
		n += fmt.Sprintf("-c%d", p.cancel)
	}
	return n
}

func init() {
	families["stall"] = func(r *rand.Rand, tier string) []Scenario {
		plans := []stallPlan{
			{what: "put:data", burst: 20, secs: 13, waves: 3},
			{what: "put:sth", burst: 760, secs: 13, waves: 2},
			{what: "put:tree", burst: 300, cancel: 250, secs: 8, waves: 3},
			{what: "put:hidx", burst: 1100, cancel: 0, secs: 13, waves: 1},
			{what: "put:ded", burst: 30, secs: 7, waves: 2, dup: true},
			{what: "put:ckpt", burst: 500, cancel: 100, secs: 7, waves: 2, dup: true},
			{what: "get:ded", burst: 25, secs: 8, waves: 2},
			{what: "get:ded", burst: 25, cancel: 20, secs: 8, waves: 1},
			{what: "get:hidx", burst: 40, secs: 8, waves: 2},
			{what: "head:iss", burst: 40, secs: 8, waves: 2},
			{what: "put:iss", burst: 10, secs: 8, waves: 2},
		}
		if tier == "thorough" {
			for _, cl := range []string{"data", "tree", "hidx", "sth", "ckpt", "ded", "iss"} {
				for _, b := range []int{5, 255, 256, 700, 1300} {
					plans = append(plans, stallPlan{what: "put:" + cl, burst: b, cancel: r.Intn(b), secs: 6 + r.Intn(9), waves: 1 + r.Intn(3), dup: r.Intn(2) == 0})
				}
			}
		}
		var out []Scenario
		seen := map[string]int{}
		for _, p := range plans {
			p := p
			nm := p.name()
			seen[nm]++
			if seen[nm] > 1 {
				nm = fmt.Sprintf("%s#%d", nm, seen[nm])
			}
			out = append(out, Scenario{Name: nm, Run: func(c *Ctx) { runStall(c, p) }})
		}
		return out
	}
}

var burstOnce sync.Once
var burstPool []*Sub

// burst returns n certificates nobody has submitted to this world (they are shared by worlds).
func burst(n int) []*Sub {
	burstOnce.Do(func() {
		var wg sync.WaitGroup
		burstPool = make([]*Sub, 1500)
		for k := 0; k < 8; k++ {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				for i := k; i < len(burstPool); i += 8 {
					burstPool[i] = makeLeaf(getPKI().I1, leafOpts{Pre: i%7 == 0})
				}
			}(k)
		}
		wg.Wait()
		for _, s := range burstPool {
			s.reg()
		}
	})
	return burstPool[:n]
}

func runStall(c *Ctx, p stallPlan) {
	all := burst(p.burst)
	d := newD(c, WOpt{Flush: 60, Mask: 2})
	d.in = d.MustUp(nil)
	in := d.in
	d.grow(2)
	d.SetPolicy(func(o *Op) Dec {
		if o.Inst == in && o.Kind+":"+o.Class == p.what {
			return Hold
		}
		return Apply
	})
	d.Sick()
	t0 := time.Now()
	if p.what == "put:iss" || p.what == "head:iss" {
		d.submitAll([]*Sub{makeLeaf(d.pki.I3, leafOpts{})})
	}
	var ps []*Pending
	var subs []*Sub
	for k := 0; k < p.waves; k++ {
		lo, hi := len(all)*k/p.waves, len(all)*(k+1)/p.waves
		subs = append(subs, all[lo:hi]...)
		ps = append(ps, d.submitAll(all[lo:hi])...)
		if p.dup && len(d.done) > 0 {
			x := []*Sub{d.done[0]}
			subs = append(subs, x...)
			ps = append(ps, d.submitAll(x)...)
		}
		if k+1 < p.waves {
			time.Sleep(time.Duration(p.secs) * time.Second / time.Duration(2*p.waves))
		}
	}
	for i := 0; i < p.cancel; i++ {
		ps[d.r.Intn(len(ps))].cancel()
	}
	if left := time.Duration(p.secs)*time.Second - time.Since(t0); left > 0 {
		time.Sleep(left)
	}
	d.Tick()
	d.ReleaseAll()
	d.wait(subs, ps)
	d.Tick()
	d.Well()
	// the backlog is worked off; then a fresh submission succeeds again
	d.until(func() bool { return len(d.Pending()) == 0 }, 2*time.Second)
	time.Sleep(500 * time.Millisecond)
	d.Probe(in, "C06")
	d.again(2)
	d.m = d.StartMon("")
	n := d.size()
	for a := int64(0); a < n; {
		r := d.Query(d.m, Q{Op: "ents", A: a, B: n - 1})
		if r.N == 0 {
			break
		}
		a += int64(r.N)
	}
	d.Tick()
}
