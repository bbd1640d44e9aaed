package main

import (
	"fmt"
	"math/rand"
	"sync"
	"time"
)

type baseSpec struct{ size, off int64 }

// crashBases: tree sizes around tile boundaries.
var crashBases = []baseSpec{{0, 0}, {1, 0}, {253, 0}, {254, 0}, {255, 0}, {256, 0}, {510, 256}, {511, 256}, {512, 512}, {65534, 65280}}

type crashPlan struct {
	base  baseSpec
	pool  int
	phase string // tiles sth ckpt ded idle-sth idle-ckpt
	sub   string // which of the held writes are applied: none all one:<class> not:<class> random | before after
	again int    // pool after the restart
}

func (p crashPlan) name() string {
	return fmt.Sprintf("crash-%d-p%d-%s-%s-a%d", p.base.size, p.pool, p.phase, p.sub, p.again)
}

func init() {
	families["crash"] = func(r *rand.Rand, tier string) []Scenario {
		var plans []crashPlan
		add := func(p crashPlan) { plans = append(plans, p) }
		// fixed: the classes in isolation around boundaries
		for _, b := range crashBases {
			for _, s := range []string{"all", "none", "random"} {
				add(crashPlan{b, 3, "tiles", s, 1})
			}
			add(crashPlan{b, 2, "sth", "after", 2})
		}
		for _, cl := range []string{"data", "tree", "hidx", "iss"} {
			b := crashBases[3+r.Intn(3)]
			add(crashPlan{b, 2 + r.Intn(3), "tiles", "one:" + cl, 1 + r.Intn(3)})
			add(crashPlan{b, 2 + r.Intn(3), "tiles", "not:" + cl, 1 + r.Intn(3)})
		}
		for _, b := range []baseSpec{{0, 0}, {254, 0}, {511, 256}} {
			for _, ph := range []string{"sth", "ckpt", "ded"} {
				for _, v := range []string{"before", "after"} {
					add(crashPlan{b, 1 + r.Intn(4), ph, v, 1 + r.Intn(3)})
				}
			}
			add(crashPlan{b, 4, "ded", "random", 2})
		}
		add(crashPlan{crashBases[2], 0, "idle-sth", "before", 2})
		add(crashPlan{crashBases[2], 0, "idle-sth", "after", 2})
		add(crashPlan{crashBases[4], 0, "idle-ckpt", "before", 2})
		n := 12
		if tier == "thorough" {
			n = 400
		}
		for i := 0; i < n; i++ {
			b := crashBases[r.Intn(len(crashBases))]
			ph := []string{"tiles", "tiles", "tiles", "sth", "ckpt", "ded"}[r.Intn(6)]
			s := []string{"before", "after"}[r.Intn(2)]
			if ph == "tiles" || (ph == "ded" && r.Intn(2) == 0) {
				s = "random"
			}
			add(crashPlan{b, 1 + r.Intn(6), ph, s, 1 + r.Intn(5)})
		}
		var out []Scenario
		seen := map[string]int{}
		for _, p := range plans {
			p := p
			nm := p.name()
			seen[nm]++
			if seen[nm] > 1 {
				nm = fmt.Sprintf("%s#%d", nm, seen[nm])
			}
			out = append(out, Scenario{Name: nm, Run: func(c *Ctx) { runCrash(c, p) }})
		}
		out = append(out, Scenario{Name: "crash-many-hidx", Run: runCrashMany})
		return out
	}
}

// runCrashMany: many left-over records of an interrupted round in few files, then new entries
// at the same positions.
func runCrashMany(c *Ctx) {
	d := newD(c, WOpt{Base: getBase(10, 0, 0), Mask: 1, Flush: 120})
	d.in = d.MustUp(nil)
	d.m = d.StartMon("")
	for k := 0; k < 2; k++ {
		subs := d.leaves(90)
		ps, _ := d.holdRound(map[string]bool{"sth": true}, subs)
		d.crashNow(chooser("none", d.r))
		d.wait(subs, ps)
		d.cons.Expire(d.in)
		d.in = d.MustUp(nil)
		d.battery(0)
		// the same certificates and new ones, some of them at the positions of the left-overs
		next := append(d.leaves(80), subs[:6]...)
		d.r.Shuffle(len(next), func(i, j int) { next[i], next[j] = next[j], next[i] })
		d.wait(next, d.submitAll(next))
		d.Probe(d.in, "C08")
	}
	d.again(4)
	d.battery(2)
}

func chooser(sub string, r *rand.Rand) func(*Op) bool {
	switch {
	case sub == "none" || sub == "before":
		return func(*Op) bool { return false }
	case sub == "all" || sub == "after":
		return func(*Op) bool { return true }
	case len(sub) > 4 && sub[:4] == "one:":
		return func(o *Op) bool { return o.Class == sub[4:] }
	case len(sub) > 4 && sub[:4] == "not:":
		return func(o *Op) bool { return o.Class != sub[4:] }
	}
	return func(*Op) bool { return r.Intn(2) == 0 }
}

// crashNow lets the chosen pending writes through and kills the instance.
func (d *D) crashNow(f func(*Op) bool) {
	d.Decide(func(o *Op) (Dec, bool) { return Apply, o.Inst == d.in && f(o) })
	d.in.Kill()
	d.Decide(func(o *Op) (Dec, bool) { return Reset, o.Inst == d.in })
	d.SetPolicy(nil)
}

func runCrash(c *Ctx, p crashPlan) {
	d := newD(c, WOpt{Base: getBase(p.base.size, p.base.off, 0), Mask: 1 + c.Rng.Intn(4), Flush: 80})
	d.in = d.MustUp(nil)
	d.m = d.StartMon("")
	if p.base.size%256 != 255 || p.again%2 == 0 {
		// something delivered before the crash, except where it would move the boundary
		if p.base.size != 254 {
			d.grow(1)
		}
	}
	d.crashRound(p)
	d.battery(1)
	d.cons.Expire(d.in)
	d.in = d.MustUp(nil)
	d.battery(1)
	d.again(2)
	d.grow(p.again)
	d.again(2)
	d.battery(1)
	if d.r.Intn(2) == 0 {
		d.restart()
		d.again(1)
	}
	d.Probe(d.in, "C08")
	d.battery(2)
}

func (d *D) crashRound(p crashPlan) {
	in := d.in
	subs := d.leaves(p.pool)
	if p.pool > 2 && d.r.Intn(3) == 0 {
		subs[1] = subs[0] // duplicates in one pool
	}
	var ps []*Pending
	switch p.phase {
	case "tiles":
		ps, _ = d.holdRound(roundClasses, subs)
		d.crashNow(chooser(p.sub, d.r))
	case "ded":
		ps, _ = d.holdRound(map[string]bool{"ded": true}, subs)
		d.crashNow(chooser(p.sub, d.r))
	default:
		cl := map[string]string{"sth": "sth", "ckpt": "ckpt", "idle-sth": "sth", "idle-ckpt": "ckpt"}[p.phase]
		seen := p.pool == 0
		var mu sync.Mutex
		d.SetPolicy(func(o *Op) Dec {
			mu.Lock()
			defer mu.Unlock()
			if o.Inst != in || o.Kind != "put" {
				return Apply
			}
			if o.Class == "data" {
				seen = true
			}
			if o.Class == cl && seen {
				if p.sub == "after" {
					return CrashAfter
				}
				return CrashBefore
			}
			return Apply
		})
		ps = d.submitAll(subs)
		in.WaitExit(10 * time.Second)
		d.crashNow(func(*Op) bool { return false })
	}
	d.wait(subs, ps)
}
