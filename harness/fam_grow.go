package main

import (
	"fmt"
	"math/rand"
	"time"
)

// Growth across tile boundaries: sizes around multiples of 256 and 65536, rounds of every
// width, more submissions than a tile holds in one round.
func init() {
	families["grow"] = func(r *rand.Rand, tier string) []Scenario {
		var out []Scenario
		add := func(name string, f func(c *Ctx)) { out = append(out, Scenario{Name: name, Run: f}) }
		step := func(size, off int64, steps []int, k int) {
			add(fmt.Sprintf("grow-%d-%v.%d", size, steps, k), func(c *Ctx) { runGrow(c, baseSpec{size, off}, steps) })
		}
		step(0, 0, []int{1, 1, 2}, 0)
		step(250, 0, []int{5, 1, 1, 3}, 0)
		step(255, 0, []int{1, 2}, 0)
		step(256, 256, []int{1, 3}, 0)
		step(511, 256, []int{1, 1, 1}, 0)
		step(65530, 65280, []int{5, 1, 1, 2}, 0)
		step(65535, 65280, []int{1, 2}, 0)
		step(65536, 65280, []int{2}, 0)
		step(65791, 65280, []int{3, 1}, 0)
		add("bulk-270", func(c *Ctx) { runBulk(c, baseSpec{0, 0}, 270, 1) })
		add("bulk-600", func(c *Ctx) { runBulk(c, baseSpec{250, 0}, 600, 1) })
		add("bulk-256x2", func(c *Ctx) { runBulk(c, baseSpec{256, 0}, 256, 2) })
		add("bulk-65k", func(c *Ctx) { runBulk(c, baseSpec{65400, 65280}, 300, 1) })
		add("ranges", func(c *Ctx) { runRanges(c, 2600) })
		if tier == "thorough" {
			for k := 1; k <= 40; k++ {
				base := []int64{0, 254, 510, 65534, 131070, 768, 65790}[r.Intn(7)]
				size := base + int64(r.Intn(4))
				off := size / 256 * 256
				if off > 0 && r.Intn(2) == 0 {
					off -= 256
				}
				if off > 256 && size%256 == 0 {
					off -= 256
				}
				var st []int
				for i := 0; i < 2+r.Intn(5); i++ {
					st = append(st, 1+r.Intn(4))
				}
				step(size, off, st, k)
			}
			for k := 0; k < 6; k++ {
				size := int64(r.Intn(1200))
				n, rounds := 100+r.Intn(900), 1+r.Intn(2)
				add(fmt.Sprintf("bulk-%d-%d-%d.%d", size, n, rounds, k), func(c *Ctx) { runBulk(c, baseSpec{size, size / 256 * 256}, n, rounds) })
			}
			for k := 0; k < 4; k++ {
				n := int64(r.Intn(5000))
				add(fmt.Sprintf("ranges-%d.%d", n, k), func(c *Ctx) { runRanges(c, n) })
			}
			add("bulk-3000", func(c *Ctx) { runBulk(c, baseSpec{0, 0}, 3000, 1) })
		}
		return out
	}
}

func runGrow(c *Ctx, b baseSpec, steps []int) {
	d := newD(c, WOpt{Base: getBase(b.size, b.off, 0), Flush: 40})
	d.in = d.MustUp(nil)
	d.m = d.StartMon("")
	d.battery(0)
	for i, n := range steps {
		d.grow(n)
		d.again(1)
		if i == len(steps)-1 || d.r.Intn(3) == 0 {
			d.battery(1)
		} else {
			d.battery(0)
		}
		if d.r.Intn(4) == 0 {
			d.restart()
		}
	}
	d.restart()
	d.Probe(d.in, "C08")
	d.again(2)
	d.battery(2)
	d.Tick()
}

// runBulk submits n certificates at the same time.
func runBulk(c *Ctx, b baseSpec, n, rounds int) {
	d := newD(c, WOpt{Base: getBase(b.size, b.off, 0), Flush: 700})
	d.in = d.MustUp(nil)
	d.m = d.StartMon("")
	for k := 0; k < rounds; k++ {
		var subs []*Sub
		for i := 0; i < n; i++ {
			if i%40 == 7 {
				subs = append(subs, d.anyLeaf())
			} else {
				subs = append(subs, makeLeaf(d.pki.R2, leafOpts{}))
			}
		}
		// all of them at the same time, in several batches so that connections do not pile up
		var ps []*Pending
		for i, s := range subs {
			ps = append(ps, d.Submit(d.in, s, ReqOpt{}))
			if i%300 == 299 {
				time.Sleep(20 * time.Millisecond)
			}
		}
		d.wait(subs, ps)
		d.again(3)
	}
	d.battery(3)
	d.restart()
	d.Probe(d.in, "C08")
	d.battery(1)
	d.Tick()
}

// runRanges asks for ranges wider than the monitor answers at once.
func runRanges(c *Ctx, n int64) {
	d := newD(c, WOpt{Base: getBase(n, 0, 0), Flush: 60})
	d.in = d.MustUp(nil)
	d.m = d.StartMon("")
	d.grow(3)
	n = d.size()
	for i := 0; i < 12; i++ {
		a := d.r.Int63n(n)
		e := a + d.r.Int63n(3000)
		if i%3 == 0 {
			a = a / 256 * 256
		}
		if i%4 == 1 {
			e = (e/256+1)*256 - 1
		}
		d.Query(d.m, Q{Op: "ents", A: a, B: e})
	}
	for _, q := range [][2]int64{{0, n - 1}, {0, 1 << 40}, {0, 1 << 62}, {0, 1023}, {0, 1024}, {0, 1025}, {1, 1024}, {255, 1280}, {n - 1, 1<<63 - 1}, {n / 2, n * 2}} {
		d.Query(d.m, Q{Op: "ents", A: q[0], B: q[1]})
	}
	d.battery(6)
}
