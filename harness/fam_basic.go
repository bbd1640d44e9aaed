package main

import (
	"fmt"
	"math/rand"
)

var schedPath, casesPath string

type famGen func(r *rand.Rand, tier string) []Scenario

var families = map[string]famGen{}

func init() {
	families["smoke"] = func(r *rand.Rand, tier string) []Scenario {
		var out []Scenario
		for _, b := range [][2]int64{{0, 0}, {254, 0}, {256, 0}, {511, 256}} {
			b := b
			out = append(out, Scenario{Name: fmt.Sprintf("smoke-%d", b[0]), Run: func(c *Ctx) {
				w := c.World(WOpt{Base: getBase(b[0], b[1], 0)})
				in := w.MustUp(nil)
				m := w.StartMon("")
				p := w.pki
				subs := []*Sub{makeLeaf(p.I1, leafOpts{}), makeLeaf(p.I2, leafOpts{Pre: true}), makeLeaf(p.P1, leafOpts{Pre: true}), makeLeaf(p.R2, leafOpts{DropRoot: true})}
				for _, s := range subs {
					w.Do(in, s)
				}
				w.Do(in, subs[0])
				w.Query(m, Q{Op: "ents", A: b[1], B: b[0] + 4})
				for i := w.base.Off; i < w.pubSize; i += 3 {
					h := w.pubHash[i]
					w.Query(m, Q{Op: "proof", Hash: &h, B: w.pubSize})
					w.Query(m, Q{Op: "eap", A: i, B: w.pubSize})
				}
				w.Query(m, Q{Op: "cons", A: b[0], B: w.pubSize})
				in = w.Restart(in)
				w.Do(in, subs[1])
				w.Probe(in, "C08")
			}})
		}
		return out
	}
}
