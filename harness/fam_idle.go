package main

import (
	"fmt"
	"math/rand"
	"time"
)

// A healthy log keeps publishing (C22): idle, under a trickle that never leaves a pause as
// long as the flush interval, under bursts, with slow storage, with clients that go away.
func init() {
	families["idle"] = func(r *rand.Rand, tier string) []Scenario {
		var out []Scenario
		long := 10 * time.Second
		rep := 1
		if tier == "thorough" {
			long = 25 * time.Second
			rep = 3
		}
		add := func(name string, flush int, lat time.Duration, f func(d *D, stop func() bool)) {
			for k := 0; k < rep; k++ {
				out = append(out, Scenario{Name: fmt.Sprintf("idle-%s-f%d.%d", name, flush, k), Run: func(c *Ctx) { runIdle(c, flush, lat, long, f) }})
			}
		}
		pause := func(min, spread int) func(d *D) {
			return func(d *D) { time.Sleep(time.Duration(min+d.r.Intn(spread+1)) * time.Millisecond) }
		}
		probe := func(d *D) { d.Submit(d.in, makeLeaf(d.pki.I1, leafOpts{}), ReqOpt{Probe: "C22"}) }
		loop := func(p func(*D), do func(*D)) func(*D, func() bool) {
			return func(d *D, stop func() bool) {
				for !stop() {
					do(d)
					p(d)
				}
			}
		}
		none := func(*D) {}
		add("none", 100, 0, loop(pause(200, 0), none))
		add("none", 700, 0, loop(pause(200, 0), none))
		add("none", 15, 0, loop(pause(200, 0), none))
		add("trickle", 300, 0, loop(pause(40, 60), probe))
		add("trickle", 1500, 0, loop(pause(150, 200), probe))
		add("sparse", 150, 0, loop(pause(400, 1500), probe))
		add("edge", 100, 0, loop(pause(95, 10), probe))
		add("burst", 400, 0, loop(pause(700, 600), func(d *D) {
			for i := 0; i < 60; i++ {
				probe(d)
			}
		}))
		add("resubmit", 300, 0, loop(pause(30, 30), func(d *D) {
			if d.r.Intn(8) == 0 || len(d.done) == 0 {
				d.grow(1)
			}
			d.again(1)
		}))
		add("invalid", 300, 0, loop(pause(20, 30), func(d *D) {
			d.Submit(d.in, badBody([]byte("{")), ReqOpt{Ep: 1})
			if d.r.Intn(10) == 0 {
				probe(d)
			}
		}))
		add("gone", 300, 0, loop(pause(40, 60), func(d *D) {
			p := d.Submit(d.in, makeLeaf(d.pki.I1, leafOpts{}), ReqOpt{})
			go func() { time.Sleep(20 * time.Millisecond); p.cancel() }()
			if d.r.Intn(6) == 0 {
				probe(d)
			}
		}))
		add("slow", 200, 12*time.Millisecond, loop(pause(50, 100), probe))
		return out
	}
}

func runIdle(c *Ctx, flush int, lat, long time.Duration, f func(d *D, stop func() bool)) {
	d := newD(c, WOpt{Base: getBase([]int64{0, 255, 300}[c.Rng.Intn(3)], 0, 0), Flush: flush})
	d.lat = lat
	d.in = d.MustUp(nil)
	t0 := time.Now()
	f(d, func() bool { return time.Since(t0) > long || !d.in.Alive() })
	d.Tick()
	d.Probe(d.in, "C22")
}
