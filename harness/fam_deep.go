package main

import (
	"fmt"
	"math/rand"
)

// Very large trees: tile numbers beyond three digits, tree levels up to 5, indexes up to 40 bits.
func init() {
	families["deep"] = func(r *rand.Rand, tier string) []Scenario {
		var out []Scenario
		add := func(d, size, off int64, k int) {
			out = append(out, Scenario{Name: fmt.Sprintf("deep-%x+%d.%d", d, size, k), Run: func(c *Ctx) { runDeep(c, d, d+size, d+off) }})
		}
		m := int64(1 << 24)
		add(m, 1, 0, 0)
		add(m, 254, 0, 0)
		add(3*m, 300, 256, 0)
		add(1<<32, 511, 256, 0)
		add(1<<32, 65534, 65280, 0)
		add(1<<39, 255, 0, 0)
		add(1<<40-m, m-600, m-1024, 0)
		add(255*m, m-2, m-256, 0) // level 3 and 4 tiles fill up
		add(m, m-1, m-256, 0)
		add(0, 255999, 255744, 0)                              // tile 1000
		add(15*m, 1001000*256-15*m-2, 1001000*256-15*m-256, 0) // tile 1001000
		add(15*m, 1000000*256-15*m-2, 1000000*256-15*m-256, 0) // tile 1000000
		if tier == "thorough" {
			for k := 1; k <= 40; k++ {
				d := (1 + r.Int63n(1<<uint(1+r.Intn(15)))) * m
				s := []int64{0, 1, 254, 255, 256, 510, 65534, 65535, 65791, m - 3, m - 1}[r.Intn(11)] + int64(r.Intn(3))
				if s >= m {
					s = m - 1
				}
				off := s / 256 * 256
				if s%256 == 0 && s > 0 {
					off -= 256
				}
				if s == 0 {
					continue
				}
				add(d, s, off, k)
			}
		}
		return out
	}
}

func runDeep(c *Ctx, dd, size, off int64) {
	d := newD(c, WOpt{Base: getBase(size, off, dd), Flush: 40, Mask: 1 + c.Rng.Intn(5)})
	d.in = d.MustUp(nil)
	d.m = d.StartMon("")
	d.battery(0)
	if size == 1001000*256-2 {
		d.grow(270) // tile 1001000 as a whole: must not be anybody else's
	} else {
		d.grow(1)
	}
	d.again(1)
	d.grow(1 + d.r.Intn(4))
	d.battery(1)
	if d.r.Intn(2) == 0 {
		ps, _ := d.holdRound(roundClasses, d.leaves(2))
		d.crashNow(chooser("random", d.r))
		for _, p := range ps {
			p.Wait()
		}
		d.cons.Expire(d.in)
		d.in = d.MustUp(nil)
	} else {
		d.restart()
	}
	d.again(2)
	d.grow(2)
	d.battery(2)
	d.Probe(d.in, "C08")
}
