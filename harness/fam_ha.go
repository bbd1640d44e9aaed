package main

import (
	"fmt"
	"math/rand"
	"time"
)

// Several instances and the leader lock.
type haPlan struct {
	end   string // how the leader ends: kill expire expire-mid int down down-mid fail
	base  baseSpec
	n     int // standbys
	again int // hand-overs
}

func init() {
	families["ha"] = func(r *rand.Rand, tier string) []Scenario {
		var out []Scenario
		rep := 1
		if tier == "thorough" {
			rep = 8
		}
		bs := []baseSpec{{0, 0}, {254, 0}, {256, 0}, {511, 256}, {5, 0}}
		for k := 0; k < rep; k++ {
			for i, e := range []string{"kill", "expire", "expire-idle", "expire-mid", "expire-mid", "int", "int-mid", "down", "down-mid", "fail", "kill-mid", "mixed"} {
				p := haPlan{end: e, base: bs[(i+r.Intn(len(bs)))%len(bs)], n: 1 + r.Intn(2), again: 1 + r.Intn(2)}
				out = append(out, Scenario{Name: fmt.Sprintf("ha-%s-%d-n%d-%d.%d", e, p.base.size, p.n, k, i), Run: func(c *Ctx) { runHA(c, p) }})
			}
			out = append(out, Scenario{Name: fmt.Sprintf("ha-race-%d", k), Run: runHARace})
			out = append(out, Scenario{Name: fmt.Sprintf("ha-restarts-%d", k), Run: runHARestarts})
		}
		return out
	}
	// A write that is still under way when its leader is gone lands after the successor has
	// published. The store is not fenced, so this cannot be prevented by the programs.
	families["fencing"] = func(r *rand.Rand, tier string) []Scenario {
		return []Scenario{{Name: "fencing-sth", Run: func(c *Ctx) { runFencing(c, "sth") }}}
	}
}

func runHA(c *Ctx, p haPlan) {
	d := newD(c, WOpt{Base: getBase(p.base.size, p.base.off, 0), Flush: 60})
	d.in = d.MustUp(nil)
	d.m = d.StartMon("")
	var sb []*Inst
	for i := 0; i < p.n; i++ {
		sb = append(sb, d.Start(nil))
	}
	d.grow(1 + d.r.Intn(3))
	for k := 0; k < p.again; k++ {
		end := p.end
		if end == "mixed" || k > 0 {
			end = []string{"kill", "expire", "expire-mid", "int", "down-mid", "fail"}[d.r.Intn(6)]
		}
		in := d.in
		subs := d.leaves(2 + d.r.Intn(3))
		var ps []*Pending
		mid := func(cl map[string]bool) { ps, _ = d.holdRound(cl, subs) }
		cls := []map[string]bool{roundClasses, {"sth": true}, {"ckpt": true}, {"ded": true}, {"tree": true}}[d.r.Intn(5)]
		drop := func() {
			d.Decide(func(o *Op) (Dec, bool) { return Reset, o.Inst == in })
		}
		switch end {
		case "kill":
			ps = d.submitAll(subs)
			time.Sleep(time.Duration(d.r.Intn(120)) * time.Millisecond)
			in.Kill()
			drop()
			d.SetPolicy(nil)
			time.Sleep(100 * time.Millisecond)
			d.cons.Expire(in)
		case "kill-mid":
			mid(cls)
			d.crashNow(chooser("random", d.r))
			d.cons.Expire(in)
		case "expire":
			ps = d.submitAll(subs)
			time.Sleep(time.Duration(d.r.Intn(120)) * time.Millisecond)
			d.cons.Expire(in)
		case "expire-idle":
			time.Sleep(time.Duration(d.r.Intn(120)) * time.Millisecond)
			d.cons.Expire(in)
			if in.WaitExit(12 * time.Second) {
				break
			}
			// it goes on without the lock: whatever it does is judged
			ps = d.submitAll(subs)
		case "expire-mid":
			mid(cls)
			d.cons.Expire(in)
			in.WaitExit(12 * time.Second)
			drop()
			d.SetPolicy(nil)
		case "int":
			ps = d.submitAll(subs)
			time.Sleep(time.Duration(d.r.Intn(120)) * time.Millisecond)
			in.Interrupt()
		case "int-mid":
			mid(cls)
			in.Interrupt()
			in.WaitExit(12 * time.Second)
			drop()
			d.SetPolicy(nil)
		case "down", "down-mid":
			if end == "down-mid" {
				mid(cls)
			} else {
				ps = d.submitAll(subs)
			}
			d.Emit(Ev{"e": "intr", "i": in.ID})
			d.cons.Down(in, true)
			d.until(func() bool { return !in.Alive() }, 12*time.Second)
			drop()
			d.SetPolicy(nil)
			d.cons.Expire(in)
		case "fail":
			done := false
			d.SetPolicy(func(o *Op) Dec {
				if o.Inst == in && o.Kind == "put" && !done && (o.Class == "tree" || o.Class == "sth") {
					done = true
					return Fail
				}
				return Apply
			})
			ps = d.submitAll(subs)
		}
		in.WaitExit(12 * time.Second)
		d.Tick()
		if in.Alive() {
			in.Kill()
			d.cons.Expire(in)
		}
		d.SetPolicy(nil)
		d.wait(subs, ps)
		// the next leader
		var next *Inst
		d.until(func() bool {
			d.mu.Lock()
			defer d.mu.Unlock()
			for _, s := range sb {
				if s.upSeen && !s.dead {
					next = s
				}
			}
			return next != nil
		}, upBound)
		if next == nil {
			d.Emit(Ev{"e": "upfail", "i": sb[0].ID, "pp": "C09"})
			return
		}
		d.in = next
		d.again(2)
		d.grow(1 + d.r.Intn(3))
		d.battery(0)
		sb = append(sb, d.Start(nil))
	}
	d.again(2)
	d.Probe(d.in, "C08")
	d.battery(1)
	d.Tick()
}

// runHARace starts instances at the same time.
func runHARace(c *Ctx) {
	d := newD(c, WOpt{Base: getBase(255, 0, 0), Flush: 50})
	d.m = d.StartMon("")
	var all []*Inst
	for i := 0; i < 3; i++ {
		all = append(all, d.Start(nil))
	}
	for k := 0; k < 3; k++ {
		var next *Inst
		d.until(func() bool {
			d.mu.Lock()
			defer d.mu.Unlock()
			for _, s := range all {
				if s.upSeen && !s.dead {
					next = s
				}
			}
			return next != nil
		}, upBound)
		if next == nil {
			d.Emit(Ev{"e": "upfail", "i": all[0].ID, "pp": "C09"})
			return
		}
		d.in = next
		d.grow(2)
		d.again(1)
		time.Sleep(200 * time.Millisecond)
		if k < 2 {
			d.in.Kill()
			d.cons.Expire(d.in)
		}
	}
	d.battery(1)
}

// runHARestarts hands over through many short lives.
func runHARestarts(c *Ctx) {
	d := newD(c, WOpt{Base: getBase(253, 0, 0), Flush: 40})
	d.in = d.MustUp(nil)
	for k := 0; k < 5; k++ {
		subs := d.leaves(1 + d.r.Intn(3))
		ps := d.submitAll(subs)
		time.Sleep(time.Duration(d.r.Intn(90)) * time.Millisecond)
		if d.r.Intn(2) == 0 {
			d.in.Interrupt()
			d.in.WaitExit(12 * time.Second)
		}
		if d.in.Alive() {
			d.in.Kill()
		}
		d.cons.Expire(d.in)
		d.wait(subs, ps)
		d.in = d.MustUp(nil)
		d.again(1)
	}
	d.grow(2)
	d.m = d.StartMon("")
	d.battery(1)
}

func runFencing(c *Ctx, cl string) {
	d := newD(c, WOpt{Base: getBase(5, 0, 0), Flush: 60})
	d.in = d.MustUp(nil)
	d.grow(1)
	in := d.in
	subs := d.leaves(2)
	ps, ops := d.holdRound(map[string]bool{cl: true}, subs)
	sb := d.Start(nil)
	d.cons.Expire(in)
	in.WaitExit(12 * time.Second)
	d.SetPolicy(nil)
	d.wait(subs, ps)
	if !sb.WaitUp(upBound) {
		return
	}
	d.in = sb
	d.grow(4)
	// the write that was under way lands now
	d.Decide(func(o *Op) (Dec, bool) { return Apply, len(ops) > 0 && o == ops[0] })
}
