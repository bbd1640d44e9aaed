package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"os/signal"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

var sutPath, binsPath string

// Scenario is one run of the real programs.
type Scenario struct {
	Name string
	Fam  string
	Run  func(c *Ctx)
}

// Ctx is what a scenario gets.
type Ctx struct {
	Name, Fam string
	Rng       *rand.Rand
	Tier      string
	W         *World
	Edge      int // monitors run at the edge (1; 2: its development server)
}

func (c *Ctx) World(o WOpt) *World {
	o.Name, o.Fam = c.Name, c.Fam
	if c.Edge != 0 {
		o.Mask = 5 // fixed in the program
	}
	c.W = newWorld(o)
	c.W.edgeMon = c.Edge
	return c.W
}

type result struct {
	Name   string   `json:"name"`
	Fam    string   `json:"fam"`
	Events int      `json:"events"`
	Ops    int      `json:"ops"`
	Err    string   `json:"err,omitempty"`
	Ms     int64    `json:"ms"`
	Notes  []string `json:"notes,omitempty"`
	evs    []Ev
}

func runScenario(s Scenario, seed int64, tier string) (res result) {
	res.Name, res.Fam = s.Name, s.Fam
	t0 := time.Now()
	h := int64(0)
	for _, c := range s.Name {
		h = h*31 + int64(c)
	}
	c := &Ctx{Name: s.Name, Fam: s.Fam, Rng: rand.New(rand.NewSource(seed*1000003 + h)), Tier: tier}
	defer func() {
		if p := recover(); p != nil {
			res.Err = fmt.Sprint(p)
			if _, ok := p.(worldErr); !ok {
				res.Err += "\n" + string(debug.Stack())
			}
		}
		if c.W != nil {
			func() {
				defer func() { recover() }()
				c.W.Close()
			}()
			res.evs = c.W.evs
			res.Events = len(res.evs)
			res.Ops = c.W.nOps
			res.Notes = c.W.notes
		}
		res.Ms = time.Since(t0).Milliseconds()
	}()
	s.Run(c)
	return
}

// match: "" everything, "=x" the scenario x, otherwise a substring.
func match(name, only string) bool {
	if x := os.Getenv("VH_ONLY"); x != "" && only == "" {
		only = x
	}
	if e, ok := strings.CutPrefix(only, "="); ok {
		return name == e
	}
	return strings.Contains(name, only)
}

func main() {
	fams := flag.String("fams", "", "comma separated families")
	only := flag.String("only", "", "substring of scenario names")
	seed := flag.Int64("seed", 1, "seed")
	tier := flag.String("tier", "quick", "tier")
	out := flag.String("out", "", "output directory")
	sut := flag.String("sut", "", "vsut binary")
	par := flag.Int("par", 6, "parallel scenarios")
	budget := flag.Duration("budget", 25*time.Second, "no new scenario is started after this")
	list := flag.Bool("list", false, "list scenarios")
	sched := flag.String("sched", "", "schedules generated from the specification")
	cases := flag.String("cases", "", "acceptance cases generated from the specification")
	flag.StringVar(&binsPath, "bins", "", "directory of the commands of /repo")
	flag.Parse()
	sutPath = *sut
	schedPath, casesPath = *sched, *cases
	var todo []Scenario
	for _, f := range strings.Split(*fams, ",") {
		g := families[f]
		if g == nil {
			fmt.Fprintln(os.Stderr, "no family", f)
			os.Exit(2)
		}
		for _, s := range g(rand.New(rand.NewSource(*seed*7919+int64(len(f)))), *tier) {
			s.Fam = f
			if match(s.Name, *only) {
				todo = append(todo, s)
			}
		}
	}
	if f, err := strconv.ParseFloat(os.Getenv("VH_SAMPLE"), 64); err == nil {
		// development: some of the scenarios
		r := rand.New(rand.NewSource(*seed))
		var some []Scenario
		for _, s := range todo {
			if r.Float64() < f {
				some = append(some, s)
			}
		}
		todo = some
	}
	if *list {
		for _, s := range todo {
			fmt.Println(s.Fam, s.Name)
		}
		return
	}
	must(os.MkdirAll(*out, 0755))
	var err error
	scratch, err = os.MkdirTemp("", "vh")
	must(err)
	cleanup := func() {
		if os.Getenv("VH_KEEP") == "" {
			os.RemoveAll(scratch)
		}
	}
	defer cleanup()
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, syscall.SIGTERM, syscall.SIGINT)
	go func() { <-sig; cleanup(); os.Exit(2) }()
	getPKI()
	t0 := time.Now()
	results := make([]*result, len(todo))
	var wg sync.WaitGroup
	idx := make(chan int)
	for i := 0; i < *par; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range idx {
				r := runScenario(todo[j], *seed, *tier)
				results[j] = &r
			}
		}()
	}
	skipped := 0
	for j := range todo {
		if time.Since(t0) > *budget {
			skipped = len(todo) - j
			break
		}
		idx <- j
	}
	close(idx)
	wg.Wait()
	tf, err := os.Create(filepath.Join(*out, "trace.ndjson"))
	must(err)
	enc := json.NewEncoder(tf)
	var rs []result
	bad := 0
	for _, r := range results {
		if r == nil {
			continue
		}
		if r.Err != "" {
			bad++
			fmt.Fprintln(os.Stderr, "ERROR", r.Name, r.Err)
		}
		for _, e := range r.evs {
			must(enc.Encode(e))
		}
		rs = append(rs, *r)
	}
	must(tf.Close())
	tb.write(filepath.Join(*out, "tables.json"))
	m, _ := json.MarshalIndent(map[string]any{"scenarios": rs, "skipped": skipped, "wall_ms": time.Since(t0).Milliseconds(), "errors": bad}, "", " ")
	must(os.WriteFile(filepath.Join(*out, "meta.json"), m, 0644))
	if bad > 0 {
		cleanup()
		os.Exit(3)
	}
}
