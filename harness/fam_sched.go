package main

import (
	"bufio"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"time"
)

// Behaviours of spec/Sched.tla (one JSON object per line of schedPath) realised with the real
// programs: the steps of the environment happen in the order of the behaviour.
type schedStep struct {
	A, K, Op   string
	I, L, N, W int
	S, X, Y, H int
	Ap         bool
}

type schedule struct {
	H    []schedStep
	Size int
	name string
	cost int
	deep int
}

func init() {
	families["sched"] = func(r *rand.Rand, tier string) []Scenario {
		if schedPath == "" {
			return nil
		}
		f, err := os.Open(schedPath)
		must(err)
		defer f.Close()
		sc := bufio.NewScanner(f)
		sc.Buffer(nil, 1<<22)
		var all []schedule
		seen := map[string]bool{}
		for sc.Scan() {
			var s schedule
			must(json.Unmarshal(sc.Bytes(), &s))
			h := sha256.Sum256(sc.Bytes())
			s.name = fmt.Sprintf("sched-%x", h[:5])
			kinds := map[string]bool{}
			for _, x := range s.H {
				switch x.A {
				case "crash", "expire", "fail", "failhead":
					s.cost++
					kinds[x.A+x.K] = true
				}
			}
			s.deep = s.Size*2 + len(kinds)*2
			if s.Size == 0 || seen[s.name] {
				continue
			}
			seen[s.name] = true
			all = append(all, s)
		}
		// the deepest first, then a random rest
		sort.SliceStable(all, func(i, j int) bool { return all[i].deep > all[j].deep })
		n, top := 18, 9
		if tier == "thorough" {
			n, top = 150, 60
		}
		if len(all) > top {
			rest := all[top:]
			r.Shuffle(len(rest), func(i, j int) { rest[i], rest[j] = rest[j], rest[i] })
		}
		if len(all) > n {
			all = all[:n]
		}
		bs := []baseSpec{{254, 0}, {0, 0}, {510, 256}, {254, 0}, {65534, 65280}, {253, 0}}
		var out []Scenario
		for k, s := range all {
			s, b := s, bs[k%len(bs)]
			out = append(out, Scenario{Name: s.name, Run: func(c *Ctx) { runSched(c, s, b) }})
		}
		return out
	}
}

// schedRun realises one schedule.
type schedRun struct {
	*D
	ins    map[int]*Inst // model instance -> process
	extra  []*Inst       // processes waiting for the lock, in the order of their start
	busy   map[*Inst]bool
	doomed map[*Inst]bool
	once   map[*Inst]map[string]Dec // decision for the next empty head
	subs   map[int]*Sub
	buf    []int
	ss     []*Sub
	ps     []*Pending
	miss   int
	query  chan struct{}
	gate   chan struct{}
}

func runSched(c *Ctx, s schedule, b baseSpec) {
	d := newD(c, WOpt{Base: getBase(b.size, b.off, 0), Mask: 1 + c.Rng.Intn(2), Flush: 50})
	x := &schedRun{D: d, ins: map[int]*Inst{}, busy: map[*Inst]bool{}, doomed: map[*Inst]bool{}, once: map[*Inst]map[string]Dec{}, subs: map[int]*Sub{}}
	d.Sick()
	d.SetPolicy(x.policy)
	d.m = d.StartMon("")
	d.m.gate = func(key string) {
		d.mu.Lock()
		g := x.gate
		d.mu.Unlock()
		if g != nil && key != "ct/v1/get-sth" {
			select {
			case <-g:
			case <-time.After(2 * time.Second):
			case <-d.stop:
			}
		}
	}
	for j, st := range s.H {
		t0, m := time.Now(), x.miss
		x.step(st, s.H[j+1:])
		if os.Getenv("VH_STEPS") != "" {
			fmt.Fprintln(os.Stderr, s.name, j, st, time.Since(t0).Milliseconds(), x.miss-m)
		}
	}
	x.endQuery()
	// everything under way completes, then the log has to be in order
	for _, in := range d.insts {
		if x.doomed[in] {
			in.WaitExit(12 * time.Second)
			d.Tick()
			if in.Alive() {
				in.Kill()
				d.cons.Expire(in)
			}
		}
	}
	d.mu.Lock()
	h := d.cons.holder
	dead := h != nil && h.dead
	d.mu.Unlock()
	if dead {
		d.cons.Expire(h)
	}
	d.ReleaseAll()
	d.in = nil
	d.until(func() bool {
		d.mu.Lock()
		defer d.mu.Unlock()
		for _, in := range d.insts {
			if in.upSeen && !in.dead && d.cons.holder == in {
				d.in = in
			}
		}
		return d.in != nil || len(x.waiting()) == 0
	}, upBound)
	if d.in == nil {
		d.in = d.MustUp(nil)
	}
	d.wait(x.ss, x.ps)
	d.Well()
	if x.miss > 0 {
		d.notes = append(d.notes, fmt.Sprintf("%d steps without a counterpart", x.miss))
	}
	d.again(3)
	d.battery(0)
	d.grow(1 + d.r.Intn(3))
	d.Probe(d.in, "C08")
	d.battery(1)
}

// waiting are the live processes that do not hold the lock. Called with mu held.
func (x *schedRun) waiting() []*Inst {
	var out []*Inst
	for _, in := range x.insts {
		if !in.dead && x.cons.holder != in && !x.doomed[in] {
			out = append(out, in)
		}
	}
	return out
}

// policy is called with mu held.
func (x *schedRun) policy(o *Op) Dec {
	if o.Kind != "put" {
		return Apply
	}
	if x.doomed[o.Inst] {
		return Fail
	}
	switch o.Class {
	case "data", "tree", "hidx", "iss":
		x.busy[o.Inst] = true
		return Hold
	case "ded":
		return Hold
	case "sth", "ckpt":
		if x.busy[o.Inst] {
			return Hold
		}
		if e, ok := x.once[o.Inst][o.Class]; ok {
			delete(x.once[o.Inst], o.Class)
			x.doomed[o.Inst] = true
			return e
		}
	}
	return Apply
}

func pick(ops []*Op, f func(*Op) bool) *Op {
	for _, o := range ops {
		if f(o) {
			return o
		}
	}
	return nil
}

// await waits for a pending operation of in with the property f.
func (x *schedRun) await(in *Inst, f func(*Op) bool) *Op {
	var o *Op
	t0 := time.Now()
	for in.Alive() && o == nil {
		ps := x.Pending()
		o = pick(ps, func(o *Op) bool { return o.Inst == in && f(o) })
		// the round is there but has no such write
		lim := 700 * time.Millisecond
		if pick(ps, func(o *Op) bool { return o.Inst == in }) != nil {
			lim = 80 * time.Millisecond
		}
		if time.Since(t0) > lim {
			break
		}
		time.Sleep(2 * time.Millisecond)
	}
	return o
}

func (x *schedRun) decideOp(o *Op, d Dec) {
	x.Decide(func(p *Op) (Dec, bool) { return d, p == o })
}

func isHead(c string) bool { return c == "sth" || c == "ckpt" }

// flushOthers applies what is pending of in besides the tree heads.
func (x *schedRun) applyRest(in *Inst) {
	x.Decide(func(o *Op) (Dec, bool) { return Apply, o.Inst == in && !isHead(o.Class) })
}

func (x *schedRun) drop(in *Inst) {
	x.Decide(func(o *Op) (Dec, bool) { return Reset, o.Inst == in })
}

func (x *schedRun) doom(in *Inst) {
	x.mu.Lock()
	x.doomed[in] = true
	x.mu.Unlock()
}

// target finds a pending write like the one of the behaviour.
func (x *schedRun) target(in *Inst, st schedStep) *Op {
	o := x.await(in, func(o *Op) bool { return o.Class == st.K })
	if o == nil {
		return nil
	}
	if st.K == "tree" {
		// the same level if there is one, now or in a moment
		for k := 0; k < 10; k++ {
			if y := pick(x.Pending(), func(o *Op) bool {
				t, ok := parseTile(o.Key)
				return o.Inst == in && o.Class == "tree" && ok && (t.L == 0) == (st.L == 0)
			}); y != nil {
				return y
			}
			time.Sleep(2 * time.Millisecond)
		}
	}
	var same []*Op
	for _, p := range x.Pending() {
		if p.Inst == in && p.Class == st.K {
			same = append(same, p)
		}
	}
	if len(same) > 0 {
		return same[x.r.Intn(len(same))]
	}
	return o
}

func (x *schedRun) submitBuf(in *Inst) {
	for _, k := range x.buf {
		s := x.subs[k]
		if s == nil {
			s = x.anyLeaf()
			x.subs[k] = s
		}
		x.ss = append(x.ss, s)
		x.ps = append(x.ps, x.Submit(in, s, ReqOpt{}))
	}
	x.buf = nil
}

func (x *schedRun) step(st schedStep, rest []schedStep) {
	in := x.ins[st.I]
	if in == nil && st.I != 0 && st.A != "start" {
		x.miss++
		return
	}
	gone := in != nil && (!in.Alive() || x.doomed[in])
	switch st.A {
	case "start":
		// a process that waits already, or a new one
		x.mu.Lock()
		ws := x.waiting()
		h := x.cons.holder
		used := map[*Inst]bool{}
		for _, i := range x.ins {
			used[i] = true
		}
		x.mu.Unlock()
		if h != nil && !used[h] {
			in = h
		} else if len(ws) > 0 {
			in = ws[0]
		} else {
			in = x.Start(nil)
		}
		x.ins[st.I] = in
		x.in = in
		if x.r.Intn(2) == 0 {
			x.Start(nil)
		}
	case "up":
		// whoever got the lock is the model's leader
		x.until(func() bool {
			x.mu.Lock()
			defer x.mu.Unlock()
			for _, i := range x.insts {
				if i.upSeen && !i.dead && x.cons.holder == i {
					in = i
					return true
				}
			}
			return false
		}, upBound)
		x.ins[st.I] = in
		x.in = in
	case "sub":
		x.buf = append(x.buf, st.S)
	case "flush":
		x.submitBuf(in)
		if st.N > 0 && !gone {
			time.Sleep(70 * time.Millisecond)
		}
	case "land":
		if gone {
			x.miss++
			return
		}
		if o := x.target(in, st); o != nil {
			x.decideOp(o, Apply)
		} else {
			x.miss++
		}
	case "head":
		if gone || st.N == 0 {
			return
		}
		x.head(in, st.K, Apply)
	case "ret":
		x.applyRest(in)
	case "fail", "failhead":
		if gone {
			x.miss++
			return
		}
		x.submitBuf(in)
		d := Fail
		if st.Ap {
			d = FailApplied
		}
		if st.A == "failhead" {
			if st.N == 0 {
				x.mu.Lock()
				x.once[in] = map[string]Dec{st.K: d}
				x.mu.Unlock()
				x.until(func() bool { x.mu.Lock(); defer x.mu.Unlock(); return x.doomed[in] || len(x.pend) > 0 }, 1500*time.Millisecond)
				x.drop(in)
				x.doom(in)
				return
			}
			x.head(in, st.K, d)
			return
		}
		o := x.target(in, st)
		if o == nil {
			x.miss++
			return
		}
		// writes of the round that complete although one has failed
		for _, r := range rest {
			if r.I != st.I || r.A == "q0" || r.A == "q1" {
				continue
			}
			if r.A != "land" {
				if r.A == "unlock" || r.A == "crash" || r.A == "expire" {
					break
				}
				continue
			}
			if y := pick(x.Pending(), func(p *Op) bool { return p.Inst == in && p != o && p.Class == r.K }); y != nil {
				x.decideOp(y, Apply)
			}
		}
		x.doom(in)
		x.decideOp(o, d)
		time.Sleep(time.Duration(x.r.Intn(10)) * time.Millisecond)
		x.drop(in)
	case "crash":
		if !in.Alive() {
			return
		}
		x.submitBuf(in)
		x.doom(in)
		in.Kill()
		x.drop(in)
	case "expire":
		if in.Alive() {
			x.submitBuf(in)
		}
		x.doom(in)
		x.cons.Expire(in)
		x.drop(in)
	case "exit":
		in.WaitExit(12 * time.Second)
		x.Tick()
	case "q0":
		x.endQuery()
		x.startQuery(st)
	case "q1":
		x.endQuery()
	}
}

// head lets the round of in come to its tree head k and decides it.
func (x *schedRun) head(in *Inst, k string, d Dec) {
	if d != Apply {
		defer x.drop(in)
		defer x.doom(in)
	}
	t0 := time.Now()
	for time.Since(t0) < 1500*time.Millisecond && in.Alive() {
		x.applyRest(in)
		if o := pick(x.Pending(), func(o *Op) bool { return o.Inst == in && isHead(o.Class) }); o != nil {
			if o.Class == k {
				if d != Apply {
					x.doom(in)
				}
				x.mu.Lock()
				if k == "ckpt" {
					x.busy[in] = false
				}
				x.mu.Unlock()
				x.decideOp(o, d)
				return
			}
			if k == "ckpt" {
				x.decideOp(o, Apply)
			} else {
				return
			}
		}
		time.Sleep(2 * time.Millisecond)
	}
	x.miss++
}

func (x *schedRun) startQuery(st schedStep) {
	b := x.base.Size
	q := Q{Op: st.Op, A: b + int64(st.X), B: b + int64(st.Y)}
	if st.Op == "proof" {
		x.mu.Lock()
		h, ok := x.leafs[b+int64(st.H)]
		x.mu.Unlock()
		if !ok {
			x.miss++
			return
		}
		q.Hash, q.A = &h, 0
	}
	g, done := make(chan struct{}), make(chan struct{})
	x.mu.Lock()
	x.gate = g
	x.mu.Unlock()
	x.query = done
	go func() {
		defer close(done)
		x.Query(x.m, q)
	}()
	time.Sleep(3 * time.Millisecond)
}

func (x *schedRun) endQuery() {
	x.mu.Lock()
	g := x.gate
	x.gate = nil
	x.mu.Unlock()
	if g != nil {
		close(g)
	}
	if x.query != nil {
		<-x.query
		x.query = nil
	}
}
