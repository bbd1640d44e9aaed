package main

import (
	"fmt"
	"math/rand"
	"time"
)

// Resubmissions: concurrent and later ones, through other chains, across restarts.
func init() {
	families["dup"] = func(r *rand.Rand, tier string) []Scenario {
		var out []Scenario
		rep := 1
		if tier == "thorough" {
			rep = 10
		}
		bs := []baseSpec{{0, 0}, {250, 0}, {254, 0}, {255, 0}, {510, 256}, {65534, 65280}}
		for k := 0; k < rep; k++ {
			for i, mode := range []string{"first", "first", "later", "later", "restart", "restart", "alternate", "alternate", "deep", "many", "samefile", "slowded", "twice", "latelook", "latelook"} {
				mode := mode
				b := bs[(i+r.Intn(len(bs)))%len(bs)]
				mask := []int{1, 2, 3, 4}[r.Intn(4)]
				if mode == "samefile" || mode == "latelook" {
					mask = 1
				}
				out = append(out, Scenario{Name: fmt.Sprintf("dup-%s-%d-%d.%d", mode, b.size, k, i), Run: func(c *Ctx) { runDup(c, b, mask, mode) }})
			}
		}
		return out
	}
}

// crossSigned returns the same certificate through the chain over I1/R1 and over I1b/R2.
func crossSigned(pre bool) (*Sub, *Sub) {
	p := getPKI()
	a := makeLeaf(p.I1, leafOpts{Pre: pre})
	b := &Sub{Pre: pre, Valid: true, Body: a.Body, IKH: a.IKH, DER: [][]byte{a.DER[0], p.I1b.Cert.Raw, p.R2.Cert.Raw}, Chain: [][]byte{p.I1b.Cert.Raw, p.R2.Cert.Raw}}
	return a, b
}

// droppedRoot is the same submission without the root certificate.
func droppedRoot(a *Sub) *Sub {
	b := *a
	b.ID = 0
	b.DER = a.DER[:len(a.DER)-1]
	return &b
}

func runDup(c *Ctx, b baseSpec, mask int, mode string) {
	d := newD(c, WOpt{Base: getBase(b.size, b.off, 0), Mask: mask, Flush: 50})
	d.in = d.MustUp(nil)
	d.m = d.StartMon("")
	switch mode {
	case "first":
		// concurrent first submissions of the same certificates
		for k := 0; k < 3; k++ {
			s := d.leaves(3)
			var subs []*Sub
			for i := 0; i < 12; i++ {
				subs = append(subs, s[d.r.Intn(3)])
			}
			ps := d.submitAll(subs)
			time.Sleep(time.Duration(d.r.Intn(80)) * time.Millisecond)
			ps = append(ps, d.submitAll(s)...)
			subs = append(subs, s...)
			d.wait(subs, ps)
			d.again(4)
		}
	case "later":
		for k := 0; k < 4; k++ {
			d.grow(1 + d.r.Intn(4))
			subs := d.leaves(2)
			for i := 0; i < 4; i++ {
				subs = append(subs, d.done[d.r.Intn(len(d.done))])
			}
			d.r.Shuffle(len(subs), func(i, j int) { subs[i], subs[j] = subs[j], subs[i] })
			d.wait(subs, d.submitAll(subs))
		}
		d.again(6)
	case "restart":
		for k := 0; k < 3; k++ {
			d.grow(1 + d.r.Intn(3))
			d.again(1)
			if k == 1 {
				// killed before the deduplication records are written
				subs := d.leaves(2)
				ps, _ := d.holdRound(map[string]bool{"ded": true}, subs)
				d.crashNow(chooser([]string{"none", "random"}[d.r.Intn(2)], d.r))
				d.wait(subs, ps)
				d.cons.Expire(d.in)
				d.in = d.MustUp(nil)
				d.wait(subs, d.submitAll(subs))
			} else {
				d.restart()
			}
			d.again(3)
		}
	case "alternate":
		var subs []*Sub
		for i := 0; i < 3; i++ {
			x, y := crossSigned(i == 1)
			subs = append(subs, x, y, droppedRoot(x), droppedRoot(y))
			x, y = makePrePair()
			subs = append(subs, x, y)
		}
		d.r.Shuffle(len(subs), func(i, j int) { subs[i], subs[j] = subs[j], subs[i] })
		for i := 0; i < len(subs); {
			n := 1 + d.r.Intn(3)
			if i+n > len(subs) {
				n = len(subs) - i
			}
			d.wait(subs[i:i+n], d.submitAll(subs[i:i+n]))
			i += n
		}
		for _, s := range subs {
			d.Do(d.in, s)
		}
		d.restart()
		for i := 0; i < 4; i++ {
			d.Do(d.in, subs[d.r.Intn(len(subs))])
		}
	case "deep":
		s := makeLeaf(d.pki.Deep[5], leafOpts{Pre: d.r.Intn(2) == 0})
		d.wait([]*Sub{s, s}, d.submitAll([]*Sub{s, s}))
		d.again(2)
	case "many":
		s := burst(400)
		d.wait(s, d.submitAll(s))
		d.again(20)
		d.grow(2)
		d.again(10)
	case "samefile":
		// many records in few files: insertion at the front, in the middle, at the end
		for k := 0; k < 6; k++ {
			d.grow(8)
			d.again(4)
		}
		for _, s := range d.done {
			d.Do(d.in, s)
		}
	case "twice":
		// the same certificates are sequenced in two rounds (both look-ups come before the first
		// record is stored); they come again between the two records and after them
		for k := 0; k < 2; k++ {
			subs := d.leaves(3)
			ps, _ := d.holdRound(map[string]bool{"ded": true}, subs)
			more := append([]*Sub{}, subs...)
			mp := d.submitAll(more)
			time.Sleep(150 * time.Millisecond)
			done := make(chan bool)
			go func() {
				// the records of the first round
				for {
					select {
					case <-done:
						return
					case <-time.After(2 * time.Millisecond):
						d.Decide(func(o *Op) (Dec, bool) { return Apply, true })
					}
				}
			}()
			d.wait(subs, ps)
			close(done)
			d.settle(func(p []*Op) bool { return len(p) > 0 }, 60*time.Millisecond, 4*time.Second) // those of the second are under way
			for _, s := range subs {
				d.Do(d.in, s)
			}
			d.ReleaseAll()
			d.wait(more, mp)
			for _, s := range subs {
				d.Do(d.in, s)
			}
			d.grow(1)
		}
		d.restart()
		d.again(6)
	case "latelook":
		// look-ups that were evaluated before a round and are answered after it; what they found
		// must not reach anyone else
		d.grow(2)
		for k := 0; k < 3; k++ {
			subs := d.leaves(4)
			n, in := 0, d.in
			d.SetPolicy(func(o *Op) Dec {
				if o.Inst == in && o.Kind == "get" && o.Class == "ded" && n < len(subs) {
					n++
					return HoldReply
				}
				return Apply
			})
			ps := d.submitAll(subs)
			d.settle(func(p []*Op) bool { return len(p) == len(subs) }, 10*time.Millisecond, 4*time.Second)
			// other requests are faster
			fast := append([]*Sub{}, subs...)
			if k == 1 {
				fast = d.leaves(8)
			}
			d.wait(fast, d.submitAll(fast))
			d.SetPolicy(func(o *Op) Dec {
				if o.Inst == in && o.Kind == "put" && roundClasses[o.Class] {
					return Hold
				}
				return Apply
			})
			d.Decide(func(o *Op) (Dec, bool) { return Apply, o.Kind == "get" })
			time.Sleep(40 * time.Millisecond)
			more := append([]*Sub{}, fast...)
			for i := 0; i < 4; i++ {
				more = append(more, d.done[d.r.Intn(len(d.done))])
			}
			mp := d.submitAll(more)
			time.Sleep(150 * time.Millisecond)
			d.ReleaseAll()
			d.wait(more, mp)
			d.wait(subs, ps)
			d.again(4)
		}
	case "slowded":
		// the deduplication records are being written while the certificates come again
		d.grow(2)
		for k := 0; k < 3; k++ {
			subs := d.leaves(3)
			ps, _ := d.holdRound(map[string]bool{"ded": true}, subs)
			more := append([]*Sub{}, subs...)
			mp := d.submitAll(more)
			time.Sleep(time.Duration(d.r.Intn(200)) * time.Millisecond)
			d.ReleaseAll()
			d.wait(subs, ps)
			d.wait(more, mp)
			d.again(3)
		}
	}
	d.battery(1)
	d.Probe(d.in, "C08")
}
