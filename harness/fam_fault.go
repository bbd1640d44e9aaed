package main

import (
	"fmt"
	"math/rand"
	"sync"
	"time"
)

// Failed storage operations of a leader: the instance must give up, a waiting instance takes
// over, nothing of the failed round is promised.
type faultPlan struct {
	base    baseSpec
	class   string // class of the failing write, or get-hidx get-ded head-iss (reads)
	mode    Dec    // Fail, FailApplied
	nth     int    // which operation of that class in the round fails
	pool    int
	warm    bool // a successful round before
	standby bool
	mask    int
	idle    bool   // the failing round has no entries
	others  string // what happens to the parallel writes of the round: apply, hold (they land late)
}

func (p faultPlan) name() string {
	m := map[Dec]string{Fail: "lost", FailApplied: "applied", FailCut: "cut", FailShort: "short"}[p.mode]
	n := fmt.Sprintf("fault-%d-%s-%s-n%d-p%d", p.base.size, p.class, m, p.nth, p.pool)
	if p.standby {
		n += "-standby"
	}
	if p.idle {
		n += "-idle"
	}
	return n
}

func init() {
	families["fault"] = func(r *rand.Rand, tier string) []Scenario {
		var plans []faultPlan
		bs := []baseSpec{{0, 0}, {254, 0}, {255, 0}, {511, 256}, {3, 0}}
		for i, cl := range []string{"data", "tree", "hidx", "iss", "sth", "ckpt", "ded"} {
			for j, m := range []Dec{Fail, FailApplied} {
				plans = append(plans, faultPlan{base: bs[(i+j)%len(bs)], class: cl, mode: m, nth: 1, pool: 2 + r.Intn(4), warm: (i+j)%2 == 0, standby: (i+j)%3 != 2, mask: 1 + r.Intn(3)})
			}
			if cl == "tree" || cl == "data" {
				// the second tile of a round that crosses a tile boundary
				plans = append(plans, faultPlan{base: baseSpec{254, 0}, class: cl, mode: Fail, nth: 2, pool: 4, standby: true, mask: 2},
					faultPlan{base: baseSpec{511, 256}, class: cl, mode: FailApplied, nth: 2, pool: 3, mask: 2})
			}
			if cl == "hidx" || cl == "ded" || cl == "iss" {
				plans = append(plans, faultPlan{base: bs[i%len(bs)], class: cl, mode: Fail, nth: 2 + r.Intn(2), pool: 5, standby: true, mask: 2})
			}
		}
		for _, cl := range []string{"sth", "ckpt"} {
			plans = append(plans, faultPlan{base: bs[r.Intn(len(bs))], class: cl, mode: Fail, nth: 1, idle: true, warm: true, standby: true, mask: 2},
				faultPlan{base: bs[r.Intn(len(bs))], class: cl, mode: FailApplied, nth: 1, idle: true, warm: true, mask: 2})
		}
		for _, cl := range []string{"get-hidx", "get-ded", "head-iss"} {
			plans = append(plans, faultPlan{base: bs[r.Intn(len(bs))], class: cl, mode: Fail, nth: 1, pool: 3, warm: true, standby: true, mask: 1})
		}
		plans = append(plans, faultPlan{base: bs[1], class: "get-ded2", mode: Fail, nth: 1, pool: 4, warm: true, standby: true, mask: 1},
			faultPlan{base: bs[0], class: "get-ded2", mode: Fail, nth: 2, pool: 12, mask: 1},
			faultPlan{base: bs[2], class: "get-hidx", mode: Fail, nth: 2, pool: 12, mask: 1})
		n := 0
		if tier == "thorough" {
			n = 150
		}
		for i := 0; i < n; i++ {
			cl := []string{"data", "tree", "hidx", "iss", "sth", "ckpt", "ded", "get-hidx", "get-ded", "get-ded2", "head-iss"}[r.Intn(11)]
			plans = append(plans, faultPlan{base: crashBases[r.Intn(len(crashBases))], class: cl, mode: []Dec{Fail, FailApplied}[r.Intn(2)], nth: 1 + r.Intn(3),
				pool: 1 + r.Intn(6), warm: r.Intn(2) == 0, standby: r.Intn(2) == 0, mask: 1 + r.Intn(3), idle: false})
		}
		var out []Scenario
		seen := map[string]int{}
		for _, p := range plans {
			p := p
			nm := p.name()
			seen[nm]++
			if seen[nm] > 1 {
				nm = fmt.Sprintf("%s#%d", nm, seen[nm])
			}
			out = append(out, Scenario{Name: nm, Run: func(c *Ctx) { runFault(c, p) }})
		}
		return out
	}
}

// Reads that fail while the log goes on.
func init() {
	families["rfault"] = func(r *rand.Rand, tier string) []Scenario {
		var out []Scenario
		n := 1
		if tier == "thorough" {
			n = 8
		}
		for k := 0; k < n; k++ {
			for _, p := range []faultPlan{
				{class: "head-iss", nth: 1, pool: 3, standby: true, mask: 1},
				{class: "head-iss", nth: 2 + k, pool: 4, warm: true, mask: 2},
				{class: "get-ded", nth: 1, pool: 3, warm: true, standby: true, mask: 1},
				{class: "get-ded2", nth: 1, pool: 4, warm: true, standby: true, mask: 1},
				{class: "get-ded2", nth: 2, pool: 12, mask: 1},
				{class: "get-hidx", nth: 1, pool: 8, warm: true, mask: 1},
				{class: "get-hidx", nth: 2, pool: 12, mask: 1},
			} {
				p := p
				p.base = []baseSpec{{0, 0}, {254, 0}, {255, 0}, {511, 256}, {3, 0}}[r.Intn(5)]
				for _, m := range []Dec{Fail, FailCut, FailShort} {
					p.mode = m
					if m == FailShort && p.class == "head-iss" {
						continue
					}
					if tier != "thorough" && m == FailCut && p.class != "head-iss" {
						continue
					}
					q := p
					out = append(out, Scenario{Name: fmt.Sprintf("r%s.%d", p.name(), k), Run: func(c *Ctx) { runFault(c, q) }})
				}
			}
		}
		return out
	}
}

func runFault(c *Ctx, p faultPlan) {
	d := newD(c, WOpt{Base: getBase(p.base.size, p.base.off, 0), Mask: p.mask, Flush: 80})
	d.in = d.MustUp(nil)
	d.m = d.StartMon("")
	var sb *Inst
	if p.standby {
		sb = d.Start(nil)
	}
	reads := p.class == "get-hidx" || p.class == "get-ded2" // reads of a file that is then rewritten
	if reads {
		d.grow(24)
	} else if p.warm {
		d.grow(1 + d.r.Intn(2))
	}
	in := d.in
	var mu sync.Mutex
	count, fired, key := 0, false, ""
	dataSeen := p.idle
	dedPut := false
	d.SetPolicy(func(o *Op) Dec {
		mu.Lock()
		defer mu.Unlock()
		if o.Inst == in && fired && p.mode == FailCut && o.Key == key {
			return FailCut // it is tried again
		}
		if o.Inst != in || fired {
			return Apply
		}
		kind, cl := "put", p.class
		switch p.class {
		case "get-hidx":
			kind, cl = "get", "hidx"
		case "get-ded", "get-ded2":
			kind, cl = "get", "ded"
		case "head-iss":
			kind, cl = "head", "iss"
		}
		if o.Kind == "put" && (o.Class == "data" || o.Class == "tree" || o.Class == "hidx") {
			dataSeen = true
		}
		if o.Kind == "put" && o.Class == "ckpt" && dataSeen {
			dedPut = true
		}
		if o.Kind != kind || o.Class != cl {
			return Apply
		}
		if (cl == "sth" || cl == "ckpt") && !dataSeen {
			return Apply
		}
		// get-ded: the look-up of a submission; get-ded2: the sequencer reading the file it updates
		if p.class == "get-ded2" && !dedPut {
			return Apply
		}
		if _, ok := d.lookup(o.Key); reads && !ok {
			return Apply
		}
		count++
		if count == p.nth {
			fired, key = true, o.Key
			return p.mode
		}
		return Apply
	})
	subs := d.leaves(p.pool)
	if p.class == "iss" || p.class == "head-iss" {
		subs[0] = makeLeaf(d.pki.Deep[2], leafOpts{Pre: d.r.Intn(2) == 0})
	}
	var ps []*Pending
	if !p.idle {
		ps = d.submitAll(subs)
	}
	d.until(func() bool { mu.Lock(); defer mu.Unlock(); return fired }, 4*time.Second)
	// submissions that arrive while it is failing
	if d.r.Intn(2) == 0 && in.Alive() {
		x := d.leaves(1)
		subs = append(subs, x...)
		ps = append(ps, d.submitAll(x)...)
	}
	d.wait(subs, ps)
	mu.Lock()
	f := fired
	mu.Unlock()
	if !f || p.class == "get-ded" {
		// a failed look-up only concerns its submission
		d.SetPolicy(nil)
		d.again(2)
		if in.Alive() {
			d.grow(1)
		}
		if !f {
			d.notes = append(d.notes, "the fault did not fire")
		}
	} else {
		in.WaitExit(12 * time.Second)
		d.Tick()
		d.SetPolicy(nil)
		if in.Alive() {
			d.Tick()
			in.Kill()
			d.cons.Expire(in)
		}
		d.battery(1)
		if sb != nil {
			d.in = sb
			if !sb.WaitUp(upBound) {
				d.Emit(Ev{"e": "upfail", "i": sb.ID, "pp": "C07"})
			}
		} else {
			d.upProp = "C07"
			d.in = d.MustUp(nil)
			d.upProp = "C08"
		}
	}
	d.again(2)
	d.grow(1 + d.r.Intn(3))
	d.again(2)
	d.Probe(d.in, "C07")
	d.battery(1)
}
