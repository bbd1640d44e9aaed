package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"os/exec"
	"strings"
)

// Signatures for spec/SigTrace.tla: the signature function on generated jobs (family sign), and
// the signatures of running logs with keys of all kinds (family keys).

func octets(b []byte) []int {
	out := make([]int, len(b))
	for i, x := range b {
		out[i] = int(x)
	}
	return out
}

func sigEvOf(src string, k *ecdsa.PrivateKey, digest []byte, alg string, sig []byte) Ev {
	x := k.D.FillBytes(make([]byte, (k.Params().N.BitLen()+7)/8))
	c := k.Params().Name
	return Ev{"e": "sig", "src": src, "c": c, "x": octets(x), "h": octets(digest), "a": alg, "sig": octets(sig),
		"kid": intern("q", fmt.Sprintf("%s %x %x %s %v", c, x, digest, alg, src == "sign"))}
}

func (w *World) sigEv(src string, msg, ds []byte) Ev {
	d := sha256.Sum256(msg)
	return sigEvOf(src, w.key, d[:], "SHA256", ds)
}

var sigCurves = []elliptic.Curve{elliptic.P256(), elliptic.P384(), elliptic.P521()}
var sigAlgs = []struct {
	n string
	l int
}{{"SHA256", 32}, {"SHA1", 20}, {"SHA224", 28}, {"SHA384", 48}, {"SHA512", 64}}

func privKey(c elliptic.Curve, x *big.Int) *ecdsa.PrivateKey {
	k := &ecdsa.PrivateKey{D: x}
	k.Curve = c
	k.X, k.Y = c.ScalarBaseMult(x.Bytes())
	return k
}

// oddScalar makes keys with leading zero octets, extreme values and random ones.
func oddScalar(r *rand.Rand, n *big.Int) *big.Int {
	one := big.NewInt(1)
	switch r.Intn(8) {
	case 0:
		return big.NewInt(1 + r.Int63n(300))
	case 1:
		return new(big.Int).Sub(n, big.NewInt(1+r.Int63n(300)))
	case 2: // short
		return new(big.Int).Add(new(big.Int).Rand(r, new(big.Int).Lsh(one, uint(1+r.Intn(n.BitLen()-1)))), one)
	case 3:
		return new(big.Int).Lsh(one, uint(r.Intn(n.BitLen())))
	default:
		return new(big.Int).Add(new(big.Int).Rand(r, new(big.Int).Sub(n, one)), one)
	}
}

func oddDigest(r *rand.Rand, n *big.Int, l int) []byte {
	b := make([]byte, l)
	around := func(x *big.Int) []byte {
		// the left-most bits of the digest are about x
		sh := l*8 - n.BitLen()
		y := new(big.Int).Add(x, big.NewInt(r.Int63n(5)-2))
		if sh > 0 {
			y.Lsh(y, uint(sh))
			y.Add(y, new(big.Int).Rand(r, new(big.Int).Lsh(big.NewInt(1), uint(sh))))
		} else {
			y.Rsh(y, uint(-sh))
		}
		if y.Sign() < 0 {
			y.SetInt64(0)
		}
		if y.BitLen() > l*8 {
			y.Mod(y, new(big.Int).Lsh(big.NewInt(1), uint(l*8)))
		}
		return y.FillBytes(make([]byte, l))
	}
	switch r.Intn(9) {
	case 0:
		return b
	case 1:
		return bytes.Repeat([]byte{255}, l)
	case 2:
		return around(n)
	case 3:
		return around(big.NewInt(3))
	case 4: // leading zeros
		r.Read(b)
		for i := 0; i < r.Intn(l); i++ {
			b[i] = 0
		}
	case 5: // more than the order where that is possible
		r.Read(b)
		for i := 0; i < 8 && i < l; i++ {
			b[i] = 255
		}
	default:
		r.Read(b)
	}
	return b
}

type signJob struct {
	C, X, H, A string
	k          *ecdsa.PrivateKey
	d          []byte
}

// rejectKey and rejectMsgs: found by search, the first nonce candidate for SHA-256 of the eight
// octets of each of these numbers is not below the order of P-256 (chance 2^-32).
const rejectKey = "36501080449dab1d5cf7f67c0e1b2f778edf7bfe05b8398e8662c1ef810c4d1c"

var rejectMsgs = []uint64{1100453070222, 1101121398970}

// shortMsgs: found by search, r or s of the signature with rejectKey over SHA-256 of the eight
// octets of each of these numbers begins with two or three zero octets.
var shortMsgs = [3][]uint64{
	{223675, 1023910, 1060654, 1105187, 1001711, 1004744, 1034486},
	{40971, 28209, 77347, 83120},
	{104671, 39690, 62465, 118304},
}

func signJobs(r *rand.Rand, n int) []signJob {
	var js []signJob
	add := func(k *ecdsa.PrivateKey, d []byte, a string) {
		js = append(js, signJob{k.Params().Name, k.D.Text(16), hex.EncodeToString(d), a, k, d})
	}
	x, _ := new(big.Int).SetString(rejectKey, 16)
	for _, m := range rejectMsgs {
		d := sha256.Sum256(u64(m))
		add(privKey(sigCurves[0], x), d[:], "SHA256")
	}
	for i, ms := range shortMsgs {
		for _, m := range ms {
			d := sha256.Sum256(u64(m))
			add(privKey(sigCurves[i], x), d[:], "SHA256")
		}
	}
	for i := 0; i < n; i++ {
		c := sigCurves[r.Intn(3)]
		a := sigAlgs[0]
		if r.Intn(3) == 0 {
			a = sigAlgs[r.Intn(len(sigAlgs))]
		}
		l := a.l
		if r.Intn(6) == 0 { // a digest of another length than the hash
			l = []int{1, 16, 20, 32, 47, 48, 49, 64, 65, 66, 67, 80}[r.Intn(12)]
		}
		k := privKey(c, oddScalar(r, c.Params().N))
		d := oddDigest(r, c.Params().N, l)
		add(k, d, a.n)
		if r.Intn(12) == 0 {
			add(k, d, a.n)
		}
	}
	return js
}

func runSign(c *Ctx, n, workers int) {
	w := c.World(WOpt{NoSTH: true})
	js := signJobs(c.Rng, n)
	var in bytes.Buffer
	for _, j := range js {
		b, _ := json.Marshal(j)
		in.Write(append(b, '\n'))
	}
	cmd := exec.Command(os.Getenv("VH_SIGN"), fmt.Sprint(workers))
	cmd.Stdin = &in
	out, err := cmd.Output()
	lines := strings.Split(strings.TrimSpace(string(out)), "\n")
	if err != nil || len(lines) != len(js) {
		w.fatal(fmt.Sprintf("vsign: %v, %d answers", err, len(lines)))
	}
	for i, j := range js {
		var sig []byte
		if s, ok := strings.CutPrefix(lines[i], "sig "); ok {
			sig, err = hex.DecodeString(s)
			must(err)
		} else {
			w.notes = append(w.notes, fmt.Sprintf("%s %s %s %s: %s", j.C, j.X, j.H, j.A, lines[i]))
		}
		w.Emit(sigEvOf("sign", j.k, j.d, j.A, sig))
	}
}

func init() {
	families["sign"] = func(r *rand.Rand, tier string) []Scenario {
		reps, n := 6, 150
		if tier == "thorough" {
			reps, n = 60, 200
		}
		var out []Scenario
		for i := 0; i < reps; i++ {
			wk := []int{1, 8}[i%2]
			out = append(out, Scenario{Name: fmt.Sprintf("sign-%d", i), Run: func(c *Ctx) { runSign(c, n, wk) }})
		}
		return out
	}
	families["keys"] = func(r *rand.Rand, tier string) []Scenario {
		reps := 1
		if tier == "thorough" {
			reps = 8
		}
		var out []Scenario
		for i := 0; i < reps; i++ {
			for _, c := range sigCurves {
				for _, odd := range []bool{false, true} {
					out = append(out, Scenario{Name: fmt.Sprintf("keys-%s-%v-%d", c.Params().Name, odd, i), Run: func(x *Ctx) { runKeys(x, c, odd) }})
				}
			}
		}
		return out
	}
}

// runKeys drives a log with a key of the curve.
func runKeys(c *Ctx, cv elliptic.Curve, odd bool) {
	n := cv.Params().N
	x := new(big.Int).Add(new(big.Int).Rand(c.Rng, new(big.Int).Sub(n, big.NewInt(1))), big.NewInt(1))
	if odd {
		x = oddScalar(c.Rng, n)
		if c.Rng.Intn(2) == 0 { // leading zero octets
			x.Rsh(x, uint(9+c.Rng.Intn(20)))
			x.Add(x, big.NewInt(1))
		}
	}
	k := privKey(cv, x)
	d := newD(c, WOpt{Base: getBase([]int64{0, 254, 5}[c.Rng.Intn(3)], 0, 0), Flush: 40, Key: k, KeyPEM: keyPEM(k), Sigs: true})
	d.in = d.MustUp(nil)
	d.m = d.StartMon("")
	for i := 0; i < 4; i++ {
		d.grow(3)
	}
	d.again(3)
	d.restart()
	d.again(3)
	d.grow(2)
	d.Probe(d.in, "C08")
	d.battery(0)
}
