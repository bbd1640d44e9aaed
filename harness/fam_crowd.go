package main

import (
	"fmt"
	"math/rand"
	"time"
)

// Waves of submissions at the same time, healthy storage.
func init() {
	families["crowd"] = func(r *rand.Rand, tier string) []Scenario {
		var out []Scenario
		rep := 2
		if tier == "thorough" {
			rep = 10
		}
		for k := 0; k < rep; k++ {
			for i, wave := range []int{20, 90, 250} {
				wave := wave
				b := []baseSpec{{0, 0}, {250, 0}, {510, 256}, {65534, 65280}}[r.Intn(4)]
				out = append(out, Scenario{Name: fmt.Sprintf("crowd-%d-%d-%d.%d", wave, b.size, k, i), Run: func(c *Ctx) { runCrowd(c, b, wave) }})
			}
		}
		return out
	}
}

func runCrowd(c *Ctx, b baseSpec, wave int) {
	d := newD(c, WOpt{Base: getBase(b.size, b.off, 0), Mask: 2, Flush: 20 + c.Rng.Intn(60)})
	d.in = d.MustUp(nil)
	all := burst(1500)
	for lo := 0; lo+wave <= len(all) && lo < 900 && d.in.Alive(); lo += wave {
		s := append([]*Sub{}, all[lo:lo+wave]...)
		for i := 0; i < wave/6; i++ {
			s = append(s, s[d.r.Intn(wave)])
		}
		d.wait(s, d.submitAll(s))
		time.Sleep(time.Duration(d.r.Intn(8)) * time.Millisecond)
	}
	d.again(6)
	d.m = d.StartMon("")
	d.battery(1)
	d.Probe(d.in, "C08")
}
