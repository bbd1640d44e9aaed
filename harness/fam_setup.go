package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

// Set-up (C23): root bundles and configurations of many shapes, on both backends, followed by
// an instance started from what the set-up left behind.

func certPEM(c *CA) string { return string(pemCert(c.Cert.Raw)) }

func init() {
	families["setup"] = func(r *rand.Rand, tier string) []Scenario {
		var out []Scenario
		n := 10
		if tier == "thorough" {
			n = 400
		}
		for i := 0; i < n; i++ {
			for _, b := range []string{"s3", "fs"} {
				i, b := i, b
				out = append(out, Scenario{Name: fmt.Sprintf("setup-%s-%d", b, i), Run: func(c *Ctx) { runSetup(c, b == "fs", i) }})
			}
		}
		return out
	}
}

// canon gives a JSON object a canonical form.
func canon(b []byte) int {
	var v map[string]any
	if json.Unmarshal(b, &v) != nil {
		return 0
	}
	x, _ := json.Marshal(v)
	return intern("cfg", string(x))
}

func runSetup(c *Ctx, onFs bool, variant int) {
	p := getPKI()
	o := WOpt{NoSTH: true, Tag: Ev{"setup": 1}, Flush: 30 + c.Rng.Intn(100), Mask: 1 + c.Rng.Intn(8)}
	if onFs {
		o.Fs = []string{"store", "a/b/c d", "störe"}[c.Rng.Intn(3)]
	}
	d := newD(c, o)
	w := d.World
	if onFs {
		d.Sick()
	}
	// nothing is there yet
	w.mu.Lock()
	w.objs = map[string][]byte{}
	w.mu.Unlock()
	if onFs {
		os.RemoveAll(w.fsDir)
	}
	pool := []*CA{p.R1, p.R2, p.RX, p.RR, p.RP, p.RXp, p.RFt, p.R1t}
	var roots []*CA
	switch variant {
	case 0:
		roots = []*CA{p.R1}
	case 1:
		roots = pool
	case 2:
		roots = []*CA{p.R1, p.R2, p.R1}
	default:
		for _, x := range pool {
			if d.r.Intn(2) == 0 {
				roots = append(roots, x)
			}
		}
		roots = append(roots, p.R2)
		d.r.Shuffle(len(roots), func(i, j int) { roots[i], roots[j] = roots[j], roots[i] })
	}
	if variant == 5 {
		for i := 0; i < 40; i++ {
			roots = append(roots, newCA(fmt.Sprintf("extra root %d", i), nil, nil, false))
		}
	}
	var sb strings.Builder
	fps := []int{}
	for i, x := range roots {
		switch (variant + i) % 4 {
		case 1:
			fmt.Fprintf(&sb, "# %s\nSubject: something\n\n", x.Cert.Subject.CommonName)
		case 2:
			sb.WriteString("-----BEGIN NONSENSE-----\nAAAA\n-----END NONSENSE-----\n")
		case 3:
			sb.WriteString("\r\n")
		}
		sb.WriteString(certPEM(x))
		f := sha256.Sum256(x.Cert.Raw)
		fps = append(fps, intern("f", string(f[:])))
	}
	rootsFile := filepath.Join(w.dir, "roots.pem")
	must(os.WriteFile(rootsFile, []byte(sb.String()), 0644))
	// the configuration
	w.origin = []string{"itko.test/log", "example.com/ct-2025", "o:rigin=?&", "Ünïcode/log", "a"}[d.r.Intn(5)]
	w.gc["name"] = w.origin
	w.gc["listenAddress"] = []string{"", "0.0.0.0:443", "[::1]:80"}[d.r.Intn(3)]
	w.gc["s3Bucket"] = []string{"bkt", "my-bucket.x"}[d.r.Intn(2)]
	w.gc["s3Region"] = []string{"us-east-1", "eu-central-2", "auto"}[d.r.Intn(3)]
	w.gc["s3StaticCredentialUserName"] = []string{"u", "AKIA/+=", "<user>&"}[d.r.Intn(3)]
	w.gc["s3StaticCredentialPassword"] = []string{"p", "p\"q\\r", "päss wörd\n"}[d.r.Intn(3)]
	if d.r.Intn(2) == 0 {
		w.gc["notAfterStart"], w.gc["notAfterLimit"] = "2025-05-31T23:59:59Z", "2025-06-01T00:00:01+00:00"
	}
	pse := &Inst{w: w, exited: make(chan struct{})} // nobody: what the set-up writes
	s3, a := serve(w.s3Handler(pse))
	defer s3.Close()
	w.gc["s3EndpointUrl"] = "http://" + a
	given, _ := json.Marshal(w.gc)
	cs, ca := serve(http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		time.Sleep(time.Duration(variant%3) * 5 * time.Millisecond)
		w.cons.handler(nil).ServeHTTP(rw, r)
	}))
	defer cs.Close()
	setUp := func(conf []byte, flt int) bool {
		t0 := now()
		cmd := exec.Command(sutPath, "setup", ca, "pfx", rootsFile, w.gc["keyPath"].(string), string(conf))
		var buf bytes.Buffer
		cmd.Stdout, cmd.Stderr = &buf, &buf
		tm := time.AfterFunc(40*time.Second, func() { cmd.Process.Kill() })
		err := cmd.Run()
		tm.Stop()
		ok := err == nil && strings.Contains(buf.String(), "SETUP DONE")
		if onFs {
			w.fsSync()
		}
		w.mu.Lock()
		stored := w.cons.Config
		w.mu.Unlock()
		w.Emit(Ev{"e": "setup", "ok": bi(ok), "roots": fps, "cfg": canon(given), "stored": canon(stored), "t0": t0, "flt": flt})
		return ok
	}
	// one of the writes fails first; then the same is run again
	if variant >= 3 {
		flt := []string{"roots", "sth", "config"}[variant%3]
		conf := given
		switch {
		case flt == "config":
			w.cons.noPut = true
		case onFs: // the directory can't be made
			f := filepath.Join(w.dir, "a-file")
			must(os.WriteFile(f, nil, 0644))
			gc := map[string]any{}
			for k, v := range w.gc {
				gc[k] = v
			}
			gc["rootDirectory"] = f + "/store"
			conf, _ = json.Marshal(gc)
		default:
			w.SetPolicy(func(op *Op) Dec {
				if op.Kind == "put" && op.Class == flt {
					return []Dec{Fail, FailApplied}[variant/3%2]
				}
				return Apply
			})
		}
		setUp(conf, 1)
		w.SetPolicy(nil)
		w.mu.Lock()
		w.cons.noPut = false
		w.mu.Unlock()
	}
	if !setUp(given, 0) {
		return
	}
	d.upProp = "C23"
	d.m = d.StartMon(w.fsDir)
	d.Query(d.m, Q{Op: "sth"})
	d.Query(d.m, Q{Op: "roots"})
	d.in = d.MustUp(nil)
	trusted := map[*CA]bool{}
	for _, x := range roots {
		trusted[x] = true
	}
	d.Probe2(makeLeaf(p.R2, leafOpts{}), trusted[p.R2], "C23")
	for _, x := range append(append([]*CA{}, pool[:5]...), p.I1, p.R1t) {
		d.Probe2(makeLeaf(x, leafOpts{}), trusted[x] || (x == p.I1 && trusted[p.R1]), "C23")
	}
	if trusted[p.R1] {
		d.grow(1 + d.r.Intn(4))
	}
	if onFs {
		d.quietBattery(0)
	} else {
		d.battery(0)
		d.restart()
	}
	d.Probe2(makeLeaf(p.R2, leafOpts{}), trusted[p.R2], "C23")
}

// Probe2 submits a certificate that has to be accepted, or refused.
func (d *D) Probe2(s *Sub, ok bool, prop string) {
	if !ok {
		s.Valid = false
		d.Do(d.in, s)
		return
	}
	d.Submit(d.in, s, ReqOpt{Probe: prop}).Wait()
}
