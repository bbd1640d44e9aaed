package main

import (
	"fmt"
	"math/rand"
	"sort"
	"time"
)

// D drives one world.
type D struct {
	*World
	r    *rand.Rand
	in   *Inst
	m    *Mon
	done []*Sub // submissions that were answered with an SCT
}

func newD(c *Ctx, o WOpt) *D { return &D{World: c.World(o), r: c.Rng} }

// anyLeaf makes a valid submission of a random shape.
func (d *D) anyLeaf() *Sub {
	p := d.pki
	switch d.r.Intn(9) {
	case 0:
		return makeLeaf(p.I2, leafOpts{Pre: true})
	case 1:
		return makeLeaf(p.P1, leafOpts{Pre: true})
	case 2:
		return makeLeaf(p.R2, leafOpts{DropRoot: d.r.Intn(2) == 0})
	case 3:
		return makeLeaf(p.I3, leafOpts{DropRoot: true, Pad: d.r.Intn(3000)})
	case 4:
		return makeLeaf(p.I1, leafOpts{Pre: true, DropRoot: true})
	default:
		return makeLeaf(p.I1, leafOpts{})
	}
}

func (d *D) leaves(n int) []*Sub {
	var out []*Sub
	for i := 0; i < n; i++ {
		out = append(out, d.anyLeaf())
	}
	return out
}

func (d *D) submitAll(subs []*Sub) []*Pending {
	var ps []*Pending
	for _, s := range subs {
		ps = append(ps, d.Submit(d.in, s, ReqOpt{}))
	}
	return ps
}

func (d *D) wait(subs []*Sub, ps []*Pending) int {
	n := 0
	for i, p := range ps {
		if p.Wait().Status == 200 {
			n++
			d.done = append(d.done, subs[i])
		}
	}
	return n
}

// grow submits n fresh certificates and waits for the answers.
func (d *D) grow(n int) int {
	s := d.leaves(n)
	return d.wait(s, d.submitAll(s))
}

// growDo submits n certificates one after the other.
func (d *D) growSeq(n int) {
	for i := 0; i < n; i++ {
		d.grow(1)
	}
}

func (d *D) again(k int) {
	for i := 0; i < k && len(d.done) > 0; i++ {
		s := d.done[d.r.Intn(len(d.done))]
		d.Do(d.in, s)
	}
}

// settle waits until f holds and the number of pending operations has not changed for q.
func (d *D) settle(f func([]*Op) bool, q, max time.Duration) []*Op {
	t0 := time.Now()
	last, at := -1, time.Now()
	for {
		p := d.Pending()
		if len(p) != last {
			last, at = len(p), time.Now()
		}
		if f(p) && time.Since(at) >= q {
			return p
		}
		if time.Since(t0) > max {
			return p
		}
		time.Sleep(3 * time.Millisecond)
	}
}

func (d *D) until(f func() bool, max time.Duration) bool {
	t0 := time.Now()
	for !f() {
		if time.Since(t0) > max {
			return false
		}
		time.Sleep(3 * time.Millisecond)
	}
	return true
}

func (d *D) size() int64 {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.pubSize
}

func (d *D) pubs() []int64 {
	d.mu.Lock()
	defer d.mu.Unlock()
	set := map[int64]bool{}
	for _, e := range d.evs {
		if e["e"] == "put" && e["k"] == "sth" {
			set[int64(e["size"].(int))+d.base.D] = true
		}
	}
	var out []int64
	for k := range set {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func (d *D) hashAt(i int64) (Hash, bool) {
	d.mu.Lock()
	defer d.mu.Unlock()
	if i >= d.pubSize {
		return Hash{}, false
	}
	h, ok := d.pubHash[i]
	return h, ok
}

// points returns interesting positions in [off, n).
func (d *D) points(n int64, k int) []int64 {
	set := map[int64]bool{}
	off := d.base.Off
	add := func(v int64) {
		if v >= off && v < n {
			set[v] = true
		}
	}
	add(off)
	add(n - 1)
	b := n / 256 * 256
	add(b - 1)
	add(b)
	add(d.base.Size - 1)
	add(d.base.Size)
	for i := 0; i < k && n > off; i++ {
		add(off + d.r.Int63n(n-off))
	}
	var out []int64
	for v := range set {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// battery asks the monitor everything once; k scales the random part.
func (d *D) battery(k int) {
	m := d.m
	n := d.size()
	off := d.base.Off
	pubs := d.pubs()
	q := func(x Q) { d.Query(m, x) }
	q(Q{Op: "sth"})
	// entries
	q(Q{Op: "ents", A: off, B: n + 3})
	if n > off {
		q(Q{Op: "ents", A: n - 1, B: n - 1})
		q(Q{Op: "ents", A: n - 1, B: n + 300})
		for i := 0; i < k; i++ {
			a := off + d.r.Int63n(n-off)
			q(Q{Op: "ents", A: a, B: a + d.r.Int63n(20)})
			q(Q{Op: "ents", A: a, B: a})
		}
	}
	if b := n / 256 * 256; b > off {
		q(Q{Op: "ents", A: b - 1, B: b})
		q(Q{Op: "ents", A: b - 2, B: b - 1})
	}
	q(Q{Op: "ents", A: n, B: n})
	q(Q{Op: "ents", A: n, B: n + 5})
	q(Q{Op: "ents", A: n + 1, B: n + 1})
	// proofs
	for _, i := range d.points(n, k) {
		h, ok := d.hashAt(i)
		if !ok {
			continue
		}
		sizes := map[int64]bool{i + 1: true, n: true, i + 1 + d.r.Int63n(n-i): true}
		if len(pubs) > 0 {
			sizes[pubs[d.r.Intn(len(pubs))]] = true
		}
		for s := range sizes {
			q(Q{Op: "proof", Hash: &h, B: s})
			q(Q{Op: "eap", A: i, B: s})
		}
		bad := h
		bad[16+d.r.Intn(16)] ^= 1 << d.r.Intn(8)
		q(Q{Op: "proof", Hash: &bad, B: n})
		bad = h
		bad[d.r.Intn(16)] ^= 1 << d.r.Intn(8)
		q(Q{Op: "proof", Hash: &bad, B: n})
		q(Q{Op: "proof", Hash: &h, B: n + 1})
		q(Q{Op: "proof", Hash: &h, B: i})
		q(Q{Op: "eap", A: i, B: n + 1})
		q(Q{Op: "eap", A: i, B: i})
	}
	q(Q{Op: "eap", A: n, B: n})
	q(Q{Op: "eap", A: n, B: n + 1})
	// stale and never committed hashes
	for _, h := range d.strangers() {
		h := h
		q(Q{Op: "proof", Hash: &h, B: n})
	}
	// consistency
	for i := 0; i < len(pubs); i++ {
		for j := i; j < len(pubs); j++ {
			if len(pubs) > 5 && d.r.Intn(len(pubs)*len(pubs)) > 12+4*k {
				continue
			}
			q(Q{Op: "cons", A: pubs[i], B: pubs[j]})
		}
	}
	q(Q{Op: "cons", A: 0, B: n})
	q(Q{Op: "cons", A: n, B: n})
	q(Q{Op: "cons", A: n, B: n + 1})
	q(Q{Op: "cons", A: n + 1, B: n + 1})
	if n > off+1 {
		a := off + 1 + d.r.Int63n(n-off-1)
		q(Q{Op: "cons", A: n, B: a})
		q(Q{Op: "cons", A: a, B: n})
		q(Q{Op: "cons", A: a, B: a + d.r.Int63n(n-a)})
	}
}

// strangers are leaf hashes the store knows of that are not in the published tree.
func (d *D) strangers() []Hash {
	d.mu.Lock()
	defer d.mu.Unlock()
	pub := map[Hash]bool{}
	for _, h := range d.pubHash {
		pub[h] = true
	}
	var out []Hash
	for _, h := range d.leafs {
		if !pub[h] {
			out = append(out, h)
		}
	}
	for _, h := range d.everLeaf {
		if !pub[h] {
			out = append(out, h)
		}
	}
	sort.Slice(out, func(i, j int) bool { return string(out[i][:]) < string(out[j][:]) })
	if len(out) > 6 {
		out = out[:6]
	}
	return out
}

func (d *D) restart() {
	d.in.Kill()
	d.Decide(func(o *Op) (Dec, bool) { return Reset, o.Inst == d.in })
	d.SetPolicy(nil)
	d.cons.Expire(d.in)
	d.in = d.MustUp(nil)
}

var roundClasses = map[string]bool{"data": true, "tree": true, "hidx": true, "iss": true}

// holdRound makes the next round's writes of the given classes wait and submits subs. It
// returns the pending answers and the waiting operations.
func (d *D) holdRound(classes map[string]bool, subs []*Sub) ([]*Pending, []*Op) {
	in := d.in
	d.SetPolicy(func(o *Op) Dec {
		if o.Inst == in && o.Kind == "put" && classes[o.Class] {
			return Hold
		}
		return Apply
	})
	ps := d.submitAll(subs)
	ops := d.settle(func(p []*Op) bool { return len(p) > 0 }, 60*time.Millisecond, 8*time.Second)
	return ps, ops
}

func opName(o *Op) string { return fmt.Sprintf("%s %s", o.Class, o.Key) }
