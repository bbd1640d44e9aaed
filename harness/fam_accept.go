package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"
	"os"
	"strings"
	"time"
)

// Acceptance (C12) and faithfulness of the entries (C13). The cases come from
// spec/Accept.tla.
type acase struct {
	Iss   string   `json:"iss"`
	Chain []string `json:"chain"`
	Kind  string   `json:"kind"`
	Na    int      `json:"na"`
	Sig   bool     `json:"sig"`
	Ep    string   `json:"ep"`
	Ok    bool     `json:"ok"`
	Full  []string `json:"full"`
	Near  int      `json:"near"`
}

func (p *PKI) byName(n string) *CA {
	return map[string]*CA{"R1": p.R1, "R2": p.R2, "RR": p.RR, "RP": p.RP, "RX": p.RX, "I1": p.I1, "I1b": p.I1b, "I1s": p.I1s, "I2": p.I2, "I3": p.I3,
		"IR": p.IR, "IX": p.IX, "NC": p.NC, "P1": p.P1, "P1n": p.P1n, "PR": p.PR, "R1t": p.R1t, "I1t": p.I1t}[n]
}

type window struct{ s, l string }

var windows = []window{{"2025-01-01T00:00:00Z", "2026-01-01T00:00:00Z"}, {"2025-03-01T02:30:00+02:30", "2025-07-01T00:00:00-05:00"}, {"2024-12-31T23:59:59Z", "2025-12-31T23:59:59Z"},
	{"2020-01-01T00:00:00Z", "2020-01-01T00:00:02Z"}, {"1990-01-01T00:00:00Z", "2040-01-01T00:00:00Z"}}

func (w window) at(na int, r *rand.Rand) time.Time {
	s, err := time.Parse(time.RFC3339, w.s)
	must(err)
	l, err := time.Parse(time.RFC3339, w.l)
	must(err)
	switch na {
	case 1:
		return s.Add(-time.Second)
	case 2:
		return s
	case 4:
		return l.Add(-time.Second)
	case 5:
		return l
	case 6:
		return l.Add(time.Duration(1+r.Intn(1000)) * time.Hour)
	}
	return s.Add(time.Duration(r.Int63n(int64(l.Sub(s)/time.Second)-1)+1) * time.Second)
}

func (c acase) make(p *PKI, w window, r *rand.Rand) *Sub {
	o := leafOpts{Pre: c.Kind == "pre", NotAfter: w.at(c.Na, r).UTC(), BadSig: !c.Sig, Order: r.Intn(3)}
	if strings.HasPrefix(c.Kind, "bad") {
		o.Kind = c.Kind
	}
	iss := p.byName(c.Iss)
	o.Path = []*CA{}
	for _, n := range c.Full {
		o.Path = append(o.Path, p.byName(n))
	}
	if len(o.Path) == 0 {
		o.Path = []*CA{iss}
	}
	s := makeLeaf(iss, o)
	s.Valid = c.Ok
	leaf := s.DER[0]
	s.DER = [][]byte{leaf}
	for _, n := range c.Chain {
		if n == "LEAF" {
			s.DER = append(s.DER, leaf)
		} else {
			s.DER = append(s.DER, p.byName(n).Cert.Raw)
		}
	}
	if !c.Ok {
		s.Body, s.Chain = nil, nil
	}
	return s
}

func loadCases() []acase {
	var cs []acase
	if casesPath == "" {
		return nil
	}
	b, err := os.ReadFile(casesPath)
	must(err)
	must(json.Unmarshal(b, &cs))
	return cs
}

func init() {
	families["accept"] = func(r *rand.Rand, tier string) []Scenario {
		var out []Scenario
		cs := loadCases()
		if cs == nil {
			panic("the family accept needs -cases")
		}
		// everything accepted and everything on the boundary, a sample of the rest
		var sel []acase
		per := 160
		lim := 1200
		if tier == "thorough" {
			lim = len(cs)
		}
		r.Shuffle(len(cs), func(i, j int) { cs[i], cs[j] = cs[j], cs[i] })
		for _, c := range cs {
			if c.Ok {
				sel = append(sel, c)
			}
		}
		for _, c := range cs {
			if !c.Ok && len(sel) < lim {
				sel = append(sel, c)
			}
		}
		r.Shuffle(len(sel), func(i, j int) { sel[i], sel[j] = sel[j], sel[i] })
		for i := 0; i*per < len(sel); i++ {
			part := sel[i*per : min((i+1)*per, len(sel))]
			w := windows[i%len(windows)]
			b := []baseSpec{{0, 0}, {200, 0}, {256, 256}}[i%3]
			out = append(out, Scenario{Name: fmt.Sprintf("accept-cases-%d", i), Run: func(c *Ctx) { runAcceptCases(c, part, w, b) }})
		}
		rep := 1
		if tier == "thorough" {
			rep = 6
		}
		for k := 0; k < rep; k++ {
			out = append(out, Scenario{Name: fmt.Sprintf("accept-http-%d", k), Run: runAcceptHTTP})
			out = append(out, Scenario{Name: fmt.Sprintf("accept-roots-%d", k), Run: runAcceptRoots})
		}
		return out
	}
	families["shape"] = func(r *rand.Rand, tier string) []Scenario {
		rep := 1
		if tier == "thorough" {
			rep = 8
		}
		var out []Scenario
		for k := 0; k < rep; k++ {
			out = append(out, Scenario{Name: fmt.Sprintf("shape-chains-%d", k), Run: runShapeChains})
			out = append(out, Scenario{Name: fmt.Sprintf("shape-big-%d", k), Run: runShapeBig})
			out = append(out, Scenario{Name: fmt.Sprintf("shape-ext-%d", k), Run: runShapeExt})
			out = append(out, Scenario{Name: fmt.Sprintf("shape-mixed-%d", k), Run: runShapeMixed})
		}
		return out
	}
}

func allRoots() []*CA { p := getPKI(); return []*CA{p.R1, p.R2, p.RR, p.RP, p.R1t} }

func runAcceptCases(c *Ctx, cs []acase, w window, b baseSpec) {
	d := newD(c, WOpt{Base: getBase(b.size, b.off, 0), Flush: 50, Roots: allRoots(), NAS: w.s, NAL: w.l})
	d.in = d.MustUp(nil)
	d.m = d.StartMon("")
	for i := 0; i < len(cs); {
		n := 1 + d.r.Intn(40)
		var subs []*Sub
		var ps []*Pending
		for ; n > 0 && i < len(cs); i, n = i+1, n-1 {
			s := cs[i].make(d.pki, w, d.r)
			subs = append(subs, s)
			ep := 1
			if cs[i].Ep == "pre" {
				ep = 2
			}
			ps = append(ps, d.Submit(d.in, s, ReqOpt{Ep: ep}))
		}
		d.wait(subs, ps)
	}
	p := d.Submit(d.in, makeLeaf(d.pki.I1, leafOpts{NotAfter: w.at(3, d.r).UTC()}), ReqOpt{Probe: "C12"})
	p.Wait()
	d.battery(2)
	d.restart()
	d.Submit(d.in, makeLeaf(d.pki.I1, leafOpts{NotAfter: w.at(3, d.r).UTC()}), ReqOpt{Probe: "C08"}).Wait()
	d.Tick()
}

// bad is a submission that is not one.
func badBody(b []byte) *Sub { return &Sub{Raw: b} }

func chainJSON(ders ...[]byte) []byte { b, _ := json.Marshal(map[string]any{"chain": ders}); return b }

func runAcceptHTTP(c *Ctx) {
	d := newD(c, WOpt{Base: getBase(5, 0, 0), Flush: 50, Roots: allRoots()})
	d.in = d.MustUp(nil)
	p := d.pki
	good := func() *Sub { return makeLeaf(p.I1, leafOpts{}) }
	var bodies [][]byte
	add := func(b string) { bodies = append(bodies, []byte(b)) }
	for _, x := range []string{"", "{", "null", "[]", "{}", "0", "\"x\"", "{\"chain\":null}", "{\"chain\":[]}", "{\"chain\":[null]}", "{\"chain\":[\"\"]}", "{\"chain\":\"AAAA\"}",
		"{\"chain\":{}}", "{\"chain\":[1,2]}", "{\"chain\":[[]]}", "{\"chain\":[\"%%%\"]}", "{\"chain\":[\"AAAA\"]}", "{\"chain\":[\"MAA=\"]}", "{\"chains\":[\"AAAA\"]}",
		"{\"chain\":true}", "\x00\x01\x02", "{\"chain\":[\"AAAA\",\"BBBB\"]", strings.Repeat("[", 5000), "{\"chain\":" + strings.Repeat("[", 100) + "}"} {
		add(x)
	}
	g := good()
	bodies = append(bodies, chainJSON(append(append([]byte(nil), g.DER[0]...), 0), g.DER[1], g.DER[2])) // trailing byte
	bodies = append(bodies, chainJSON(g.DER[0][:len(g.DER[0])-1], g.DER[1], g.DER[2]))                  // truncated
	bodies = append(bodies, chainJSON(g.DER[0][:len(g.DER[0])/2], g.DER[1], g.DER[2]))                  // truncated
	bodies = append(bodies, chainJSON(g.DER[0], g.DER[1][:len(g.DER[1])-3], g.DER[2]))                  // truncated issuer
	bodies = append(bodies, chainJSON(g.DER[0], []byte("not a certificate"), g.DER[1], g.DER[2]))       // garbage between
	bodies = append(bodies, chainJSON(g.DER[0], g.DER[1], g.DER[2], []byte{}))                          // garbage after
	bodies = append(bodies, chainJSON([]byte{}, g.DER[0], g.DER[1], g.DER[2]))                          // garbage before
	bodies = append(bodies, chainJSON(bytes.Join(g.DER, nil)))                                          // concatenated
	bodies = append(bodies, append(chainJSON(g.DER...), []byte(" trailing")...))                        // junk after the object
	bodies = append(bodies, append(chainJSON(g.DER...), chainJSON(good().DER...)...))                   // two objects
	bodies = append(bodies, chainJSON(g.DER[0], g.DER[1], g.DER[2])[:300])                              // cut
	bodies = append(bodies, append(chainJSON(good().DER...), bytes.Repeat([]byte(" "), 131072)...))     // over the limit
	bodies = append(bodies, chainJSON(makeLeaf(p.I1, leafOpts{Pad: 100000}).DER...))                    // over the limit
	bodies = append(bodies, chainJSON(makeLeaf(p.I1, leafOpts{Pre: true, Pad: 250000}).DER...))         // over the limit
	x := good()
	for i := 0; i < 30; i++ {
		m := append([]byte(nil), x.DER[0]...)
		// a change inside the signed part is never acceptable
		m[20+d.r.Intn(len(m)-110)] ^= 1 << d.r.Intn(8)
		bodies = append(bodies, chainJSON(m, x.DER[1], x.DER[2]))
	}
	var subs []*Sub
	var ps []*Pending
	for i, b := range bodies {
		s := badBody(b)
		subs = append(subs, s)
		ps = append(ps, d.Submit(d.in, s, ReqOpt{Ep: 1}))
		ps = append(ps, d.Submit(d.in, badBody(b), ReqOpt{Ep: 2}))
		subs = append(subs, nil)
		if i%10 == 9 {
			d.Probe(d.in, "C12")
		}
	}
	for _, p := range ps {
		p.Wait()
	}
	// requests the submission interface does not have
	for _, m := range []struct{ meth, path string }{{"GET", "/ct/v1/add-chain"}, {"PUT", "/ct/v1/add-chain"}, {"POST", "/ct/v1/add-chain/"}, {"POST", "/ct/v1/add-chainx"}, {"POST", "/"},
		{"GET", "/ct/v1/get-sth"}, {"POST", "/ct/v2/add-chain"}, {"DELETE", "/ct/v1/add-pre-chain"}} {
		req, _ := http.NewRequest(m.meth, "http://"+d.in.Addr+m.path, bytes.NewReader(good().body()))
		res, err := client.Do(req)
		if err != nil {
			d.Verdict("C12", "no-answer-to-other-request", false)
			continue
		}
		res.Body.Close()
		d.Verdict("C12", "other-request-accepted", res.StatusCode >= 400)
	}
	// a request that ends early
	d.partialBody(chainJSON(good().DER...))
	d.Probe(d.in, "C12")
	// unusual but valid
	s := good()
	s.Raw = append([]byte("\n {\"more\": {\"a\": [1]}, \"chain\":"), chainJSON(s.DER...)[len("{\"chain\":"):]...)
	d.Do(d.in, s)
	s = good()
	s.Raw = append(chainJSON(s.DER...), bytes.Repeat([]byte(" "), 131072-len(chainJSON(s.DER...)))...)
	d.Do(d.in, s)
	s = makeLeaf(p.I1, leafOpts{Pre: true})
	s.Raw = []byte(strings.ReplaceAll(string(chainJSON(s.DER...)), "/", "\\/"))
	d.Do(d.in, s)
	d.m = d.StartMon("")
	d.battery(2)
	d.Tick()
}

func (d *D) partialBody(b []byte) {
	c, err := dialTO(d.in.Addr)
	if err != nil {
		return
	}
	fmt.Fprintf(c, "POST /ct/v1/add-chain HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n\r\n", len(b))
	c.Write(b[:len(b)/2])
	time.Sleep(50 * time.Millisecond)
	c.Close()
}

// runAcceptRoots: the advertised roots decide, also after they change.
func runAcceptRoots(c *Ctx) {
	p := getPKI()
	d := newD(c, WOpt{Base: getBase(0, 0, 0), Flush: 50, Roots: []*CA{p.R1}})
	d.in = d.MustUp(nil)
	try := func(s *Sub, ok bool) {
		s.Valid = ok
		if !ok {
			s.Body, s.Chain = nil, nil
		}
		d.wait([]*Sub{s}, []*Pending{d.Submit(d.in, s, ReqOpt{})})
	}
	try(makeLeaf(p.I1, leafOpts{}), true)
	try(makeLeaf(p.R2, leafOpts{}), false)
	try(makeLeaf(p.R2, leafOpts{DropRoot: true}), false)
	try(makeLeaf(p.I1, leafOpts{Path: []*CA{p.I1b, p.R2}}), false)
	try(makeLeaf(p.IX, leafOpts{}), false)
	// other roots from the next start on
	d.in.Kill()
	d.cons.Expire(d.in)
	d.mu.Lock()
	rb, _ := json.Marshal(map[string]any{"certificates": [][]byte{p.R2.Cert.Raw, p.RX.Cert.Raw}})
	d.objs["ct/v1/get-roots"] = rb
	d.emitPut(nil, "ct/v1/get-roots", rb, now())
	d.mu.Unlock()
	d.in = d.MustUp(nil)
	d.done = nil
	try(makeLeaf(p.I1, leafOpts{}), false)
	try(makeLeaf(p.I1, leafOpts{DropRoot: true}), false)
	try(makeLeaf(p.R2, leafOpts{Pre: true}), true)
	try(makeLeaf(p.I1, leafOpts{Path: []*CA{p.I1b, p.R2}}), true)
	try(makeLeaf(p.IX, leafOpts{DropRoot: true}), true)
	d.again(4)
	d.m = d.StartMon("")
	d.Query(d.m, Q{Op: "roots"})
	d.battery(2)
}

// runShapeChains: every chain length.
func runShapeChains(c *Ctx) {
	d := newD(c, WOpt{Base: getBase(250, 0, 0), Flush: 50})
	d.in = d.MustUp(nil)
	d.m = d.StartMon("")
	p := d.pki
	var subs []*Sub
	for i := 0; i < len(p.Deep); i++ {
		subs = append(subs, makeLeaf(p.Deep[i], leafOpts{Pre: i%2 == 0, DropRoot: d.r.Intn(2) == 0, Order: d.r.Intn(3)}))
	}
	subs = append(subs, makeLeaf(p.R2, leafOpts{DropRoot: true}), makeLeaf(p.R2, leafOpts{Pre: true, DropRoot: true}))
	d.r.Shuffle(len(subs), func(i, j int) { subs[i], subs[j] = subs[j], subs[i] })
	d.wait(subs, d.submitAll(subs))
	d.again(5)
	d.Query(d.m, Q{Op: "ents", A: 250, B: d.size() - 1})
	for i := int64(248); i < d.size(); i++ {
		d.Query(d.m, Q{Op: "eap", A: i, B: d.size()})
		d.Query(d.m, Q{Op: "ents", A: i, B: i})
	}
	d.restart()
	d.grow(3)
	d.Query(d.m, Q{Op: "ents", A: 250, B: d.size() - 1})
	d.battery(1)
}

// runShapeBig: entries up to the size the interface takes.
func runShapeBig(c *Ctx) {
	d := newD(c, WOpt{Base: getBase(253, 0, 0), Flush: 50})
	d.in = d.MustUp(nil)
	d.m = d.StartMon("")
	p := d.pki
	for _, n := range []int{60000, 65400, 65535, 65536, 70000, 90000, 94000, 20000 + d.r.Intn(70000)} {
		for _, pre := range []bool{false, true} {
			s := makeLeaf(p.I1, leafOpts{Pre: pre, Pad: n, Order: d.r.Intn(3)})
			if len(s.body()) > 131072 {
				continue
			}
			d.wait([]*Sub{s}, d.submitAll([]*Sub{s}))
		}
	}
	// exactly at the limit
	s := makeLeaf(p.I1, leafOpts{Pad: 90000})
	for n := 90000; len(s.body()) < 131072 && n < 98400; n += 1 + (131072-len(s.body()))*3/4/2 {
		t := makeLeaf(p.I1, leafOpts{Pad: n})
		if len(t.body()) > 131072 {
			break
		}
		s = t
	}
	d.wait([]*Sub{s}, d.submitAll([]*Sub{s}))
	d.again(3)
	for i := int64(250); i < d.size(); i++ {
		d.Query(d.m, Q{Op: "eap", A: i, B: d.size()})
	}
	d.Query(d.m, Q{Op: "ents", A: 240, B: d.size()})
	d.restart()
	d.Probe(d.in, "C08")
	d.Query(d.m, Q{Op: "ents", A: 240, B: d.size()})
	d.battery(1)
}

// runShapeExt: precertificates and certificates with their extensions in every order, under
// issuers with every kind of key.
func runShapeExt(c *Ctx) {
	d := newD(c, WOpt{Base: getBase(0, 0, 0), Flush: 50, Roots: allRoots()})
	d.in = d.MustUp(nil)
	d.m = d.StartMon("")
	p := d.pki
	var subs []*Sub
	for _, iss := range []*CA{p.R2, p.RR, p.RP, p.I1, p.I3, p.IR, p.P1, p.PR} {
		for _, pre := range []bool{true, false} {
			if pre && iss == p.RP {
				continue
			}
			for ord := 0; ord < 3; ord++ {
				pad := 0
				if d.r.Intn(2) == 0 {
					pad = 1 + d.r.Intn(600)
				}
				subs = append(subs, makeLeaf(iss, leafOpts{Pre: pre, Order: ord, Pad: pad, Bare: d.r.Intn(3) == 0, DropRoot: d.r.Intn(2) == 0}))
			}
		}
	}
	d.wait(subs, d.submitAll(subs))
	d.again(5)
	d.Query(d.m, Q{Op: "ents", A: 0, B: d.size() - 1})
	for i := int64(0); i < d.size(); i++ {
		d.Query(d.m, Q{Op: "eap", A: i, B: d.size()})
	}
	d.restart()
	d.again(3)
	d.battery(1)
}

// runShapeMixed: random shapes across a tile boundary.
func runShapeMixed(c *Ctx) {
	d := newD(c, WOpt{Base: getBase(255, 0, 0), Flush: 50, Roots: allRoots()})
	d.in = d.MustUp(nil)
	d.m = d.StartMon("")
	p := d.pki
	for k := 0; k < 3; k++ {
		var subs []*Sub
		for i := 0; i < 12; i++ {
			iss := []*CA{p.R2, p.I1, p.I2, p.I3, p.IR, p.P1, p.PR, p.Deep[d.r.Intn(len(p.Deep))]}[d.r.Intn(8)]
			subs = append(subs, makeLeaf(iss, leafOpts{Pre: d.r.Intn(2) == 0, Order: d.r.Intn(3), Pad: d.r.Intn(2) * d.r.Intn(9000), Bare: d.r.Intn(4) == 0, DropRoot: d.r.Intn(2) == 0}))
		}
		d.wait(subs, d.submitAll(subs))
		d.Query(d.m, Q{Op: "ents", A: 250, B: d.size() - 1})
	}
	for i := int64(254); i < d.size(); i++ {
		d.Query(d.m, Q{Op: "eap", A: i, B: d.size()})
	}
	d.battery(1)
}
