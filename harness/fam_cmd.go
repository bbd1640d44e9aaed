package main

import (
	"fmt"
	"math/rand"
	"net"
	"net/http"
	"os/exec"
	"sync"
	"time"
)

// The commands themselves (cmd/itko-submit, cmd/itko-monitor), with their flags.
func init() {
	families["cmd"] = func(r *rand.Rand, tier string) []Scenario {
		var out []Scenario
		rep := 1
		if tier == "thorough" {
			rep = 5
		}
		for k := 0; k < rep; k++ {
			for i, fs := range []bool{false, true} {
				b := []baseSpec{{0, 0}, {253, 0}, {511, 256}}[r.Intn(3)]
				if fs {
					b = baseSpec{}
				}
				out = append(out, Scenario{Name: fmt.Sprintf("cmd-%d-%d.%d", b.size, k, i), Run: func(c *Ctx) { runCmd(c, b, fs) }})
			}
		}
		return out
	}
}

// the address of the lock service is fixed in itko-submit
const consulAddr = "127.0.0.1:8500"

var consulMu sync.Mutex

func freeAddr() string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	defer l.Close()
	return l.Addr().String()
}

func (in *Inst) startReal() {
	w := in.w
	var l net.Listener
	for t0 := time.Now(); ; time.Sleep(10 * time.Millisecond) {
		var err error
		if l, err = net.Listen("tcp", consulAddr); err == nil {
			break
		}
		if time.Since(t0) > 20*time.Second {
			w.fatal("the port of the lock service is in use")
		}
	}
	in.cs = &http.Server{Handler: w.cons.handler(in), ErrorLog: quietLog}
	go in.cs.Serve(l)
	in.Addr = freeAddr()
	in.cmd = exec.Command(binsPath+"/itko-submit", "-kv-path", "pfx", "-listen-address", in.Addr)
	in.launch()
	go func() {
		for {
			select {
			case <-in.exited:
				return
			default:
			}
			// answered as soon as it serves
			if r, err := http.Get("http://" + in.Addr + "/"); err == nil {
				r.Body.Close()
				in.markUp()
				return
			}
			time.Sleep(5 * time.Millisecond)
		}
	}()
}

func runCmd(c *Ctx, b baseSpec, fs bool) {
	consulMu.Lock()
	defer consulMu.Unlock()
	for t0 := time.Now(); ; time.Sleep(20 * time.Millisecond) {
		if l, err := net.Listen("tcp", consulAddr); err == nil {
			l.Close()
			break
		}
		if time.Since(t0) > 10*time.Second {
			return // somebody else's lock service
		}
	}
	var d *D
	if fs {
		d = newFse(c, b.size)
	} else {
		d = newD(c, WOpt{Base: getBase(b.size, b.off, 0), Flush: 50})
	}
	d.real = true
	d.in = d.MustUp(nil)
	d.m = d.StartMon(d.fsDir)
	d.grow(3)
	d.again(1)
	d.grow(2)
	if fs {
		d.quietBattery(0)
	} else {
		d.battery(1)
	}
	d.Query(d.m, Q{Op: "sth"})
	d.Query(d.m, Q{Op: "roots"})
	d.in.Interrupt()
	d.in.WaitExit(12 * time.Second)
	d.Tick()
	if d.in.Alive() {
		d.in.Kill()
	}
	d.cons.Expire(d.in)
	d.in = d.MustUp(nil)
	d.again(2)
	d.grow(2)
	if fs {
		d.quietBattery(0)
	} else {
		d.Probe(d.in, "C08")
		d.battery(1)
	}
}
