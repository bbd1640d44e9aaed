package main

import (
	"fmt"
	"math/rand"
	"time"
)

// Slow writes: while the writes of one class of a round are under way, nothing that depends on
// them may become visible.
func init() {
	families["hold"] = func(r *rand.Rand, tier string) []Scenario {
		var out []Scenario
		rep := 1
		if tier == "thorough" {
			rep = 12
		}
		bs := []baseSpec{{0, 0}, {1, 0}, {253, 0}, {254, 0}, {255, 0}, {256, 0}, {510, 256}, {511, 256}}
		for k := 0; k < rep; k++ {
			for i, cl := range []string{"data", "tree", "hidx", "iss", "sth", "ckpt", "ded"} {
				cl := cl
				n := 2
				if cl == "iss" {
					n = 1
				}
				for j := 0; j < n; j++ {
					b := bs[(i*3+j*5+r.Intn(3))%len(bs)]
					pool := 2 + r.Intn(3)
					nm := fmt.Sprintf("hold-%s-%d-%d", cl, b.size, pool)
					if k > 0 || j > 0 {
						nm += fmt.Sprintf("#%d.%d", k, j)
					}
					out = append(out, Scenario{Name: nm, Run: func(c *Ctx) { runHold(c, b, cl, pool) }})
				}
			}
			// a steady trickle of submissions while the storage is slow: rounds queue up
			for j, cl := range []string{"sth", "data", "ded"} {
				b := bs[(j+r.Intn(3))%len(bs)]
				cl := cl
				if j == 2 && tier != "thorough" {
					continue
				}
				out = append(out, Scenario{Name: fmt.Sprintf("trickle-%d-%s-%d", k, cl, b.size), Run: func(c *Ctx) { runTrickle(c, b, cl) }})
			}
			// each write of the round is delayed in turn (random delays: random completion order)
			for j := 0; j < 3; j++ {
				b := bs[r.Intn(len(bs))]
				out = append(out, Scenario{Name: fmt.Sprintf("jitter-%d-%d", k, j), Run: func(c *Ctx) { runJitter(c, b) }})
			}
		}
		return out
	}
}

func runHold(c *Ctx, b baseSpec, cl string, pool int) {
	d := newD(c, WOpt{Base: getBase(b.size, b.off, 0), Mask: 1 + c.Rng.Intn(3), Flush: 60})
	d.in = d.MustUp(nil)
	d.m = d.StartMon("")
	subs := d.leaves(pool)
	// one more with the same certificate and one with the same certificate through another root
	subs = append(subs, subs[0])
	ps, ops := d.holdRound(map[string]bool{cl: true}, subs)
	if len(ops) == 0 {
		d.notes = append(d.notes, "nothing was held")
	}
	d.Sick()
	// the operations of the class complete one by one while the log is asked
	more := append(d.leaves(1), subs[0], subs[len(subs)/2])
	mp := d.submitAll(more)
	time.Sleep(time.Duration(100+d.r.Intn(200)) * time.Millisecond)
	d.battery(0)
	for {
		p := d.Pending()
		if len(p) <= 1 {
			break
		}
		x := p[d.r.Intn(len(p))]
		d.Decide(func(o *Op) (Dec, bool) { return Apply, o == x })
		time.Sleep(time.Duration(d.r.Intn(30)) * time.Millisecond)
	}
	time.Sleep(time.Duration(d.r.Intn(150)) * time.Millisecond)
	d.battery(0)
	d.ReleaseAll()
	d.wait(subs, ps)
	d.wait(more, mp)
	d.Well()
	d.battery(1)
	d.again(2)
	d.grow(1)
	d.battery(0)
}

func runJitter(c *Ctx, b baseSpec) {
	d := newD(c, WOpt{Base: getBase(b.size, b.off, 0), Mask: 1 + c.Rng.Intn(3), Flush: 30})
	d.in = d.MustUp(nil)
	d.m = d.StartMon("")
	in := d.in
	stop := make(chan struct{})
	done := make(chan struct{})
	d.SetPolicy(func(o *Op) Dec {
		if o.Inst == in && o.Kind == "put" {
			return Hold
		}
		return Apply
	})
	r := rand.New(rand.NewSource(d.r.Int63()))
	go func() {
		defer close(done)
		for {
			select {
			case <-stop:
				return
			case <-time.After(time.Duration(r.Intn(12)) * time.Millisecond):
			}
			if p := d.Pending(); len(p) > 0 {
				x := p[r.Intn(len(p))]
				d.Decide(func(o *Op) (Dec, bool) { return Apply, o == x })
			}
		}
	}()
	for k := 0; k < 4; k++ {
		subs := d.leaves(1 + d.r.Intn(5))
		if len(d.done) > 0 {
			subs = append(subs, d.done[d.r.Intn(len(d.done))])
		}
		ps := d.submitAll(subs)
		for i := 0; i < 2; i++ {
			n := d.size()
			if n > d.base.Off {
				d.Query(d.m, Q{Op: "ents", A: n - 1, B: n + 4})
				if h, ok := d.hashAt(n - 1); ok {
					d.Query(d.m, Q{Op: "proof", Hash: &h, B: n})
				}
				d.Query(d.m, Q{Op: "eap", A: n - 1, B: n})
			}
			time.Sleep(20 * time.Millisecond)
		}
		d.wait(subs, ps)
	}
	close(stop)
	<-done
	d.ReleaseAll()
	d.grow(2)
	d.battery(1)
}

// runTrickle: submissions arrive steadily, the writes of one class take much longer than the
// pool is collected for.
func runTrickle(c *Ctx, b baseSpec, cl string) {
	d := newD(c, WOpt{Base: getBase(b.size, b.off, 0), Mask: 2, Flush: 60})
	d.in = d.MustUp(nil)
	d.m = d.StartMon("")
	in := d.in
	d.SetPolicy(func(o *Op) Dec {
		if o.Inst == in && o.Kind == "put" && o.Class == cl {
			time.Sleep(time.Duration(120) * time.Millisecond)
		}
		return Apply
	})
	var subs []*Sub
	var ps []*Pending
	for i := 0; i < 40; i++ {
		var s *Sub
		switch {
		case i%9 == 8:
			s = subs[d.r.Intn(len(subs))]
		default:
			s = d.anyLeaf()
		}
		subs = append(subs, s)
		ps = append(ps, d.Submit(in, s, ReqOpt{}))
		time.Sleep(time.Duration(10+d.r.Intn(25)) * time.Millisecond)
	}
	d.wait(subs, ps)
	d.SetPolicy(nil)
	d.again(5)
	d.grow(2)
	d.battery(1)
}
