// Command vsign calls /repo's signature function on the jobs it reads: one JSON object per line,
// answered in order. It is compiled inside /repo's module through a build overlay.
package main

import (
	"bufio"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	_ "crypto/sha1"
	_ "crypto/sha256"
	_ "crypto/sha512"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"log"
	"math/big"
	"os"
	"strconv"
	"sync"

	"itko.dev/internal/rfc6979"
)

type job struct{ C, X, H, A string }

var curves = map[string]elliptic.Curve{"P-256": elliptic.P256(), "P-384": elliptic.P384(), "P-521": elliptic.P521()}
var hashes = map[string]crypto.Hash{"SHA1": crypto.SHA1, "SHA224": crypto.SHA224, "SHA256": crypto.SHA256, "SHA384": crypto.SHA384, "SHA512": crypto.SHA512}

func sign(j job) (res string) {
	defer func() {
		if p := recover(); p != nil {
			res = fmt.Sprint("panic ", p)
		}
	}()
	c := curves[j.C]
	x, ok := new(big.Int).SetString(j.X, 16)
	h, err := hex.DecodeString(j.H)
	if c == nil || !ok || err != nil {
		log.Fatal("bad job ", j)
	}
	k := &ecdsa.PrivateKey{D: x}
	k.Curve = c
	k.X, k.Y = c.ScalarBaseMult(x.Bytes())
	sig, err := rfc6979.Sign(k, h, hashes[j.A])
	if err != nil {
		return "error " + err.Error()
	}
	return "sig " + hex.EncodeToString(sig)
}

// vsign WORKERS
func main() {
	n, _ := strconv.Atoi(os.Args[1])
	var jobs []job
	in := bufio.NewScanner(os.Stdin)
	for in.Scan() {
		var j job
		if err := json.Unmarshal(in.Bytes(), &j); err != nil {
			log.Fatal(err)
		}
		jobs = append(jobs, j)
	}
	out := make([]string, len(jobs))
	next := make(chan int)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				out[i] = sign(jobs[i])
			}
		}()
	}
	for i := range jobs {
		next <- i
	}
	close(next)
	wg.Wait()
	for _, o := range out {
		fmt.Println(o)
	}
}
