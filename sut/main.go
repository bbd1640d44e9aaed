// Command vsut is the system under test: it only calls the exported entry points of
// /repo's packages. It is compiled inside /repo's module through a build overlay
// (cmd/vsut/main.go does not exist in /repo).
package main

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"net"
	"os"
	"strconv"
	"strings"
	"sync"
	"syscall"

	"itko.dev/internal/ctmonitor"
	"itko.dev/internal/ctsetup"
	"itko.dev/internal/ctsubmit"
)

func listen(addr string) net.Listener {
	l, err := net.Listen("tcp", addr)
	if err != nil {
		log.Fatal(err)
	}
	fmt.Println("LISTEN", l.Addr().String())
	return l
}

func upSignal() chan struct{} {
	c := make(chan struct{})
	go func() {
		<-c
		fmt.Println("UP")
	}()
	return c
}

func limits() {
	if v := os.Getenv("VSUT_NOFILE"); v != "" {
		n, _ := strconv.ParseUint(v, 10, 64)
		if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &syscall.Rlimit{Cur: n, Max: n}); err != nil {
			log.Fatal(err)
		}
	}
}

// res answers a command; a process that cannot answer has to be gone.
func res(a ...any) {
	if _, err := fmt.Println(append([]any{"RES"}, a...)...); err != nil {
		os.Exit(1)
	}
}

func main() {
	limits()
	a := os.Args[1:]
	switch a[0] {
	case "submit": // submit LISTEN KVPATH CONSUL
		l := listen(a[1])
		ctsubmit.MainMain(context.Background(), l, a[2], a[3], upSignal())
	case "monitor": // monitor LISTEN DIR URL MASK
		l := listen(a[1])
		mask, _ := strconv.Atoi(a[4])
		ctmonitor.MainMain(l, a[2], a[3], mask, upSignal())
	case "setup": // setup CONSUL KEY ROOTS SIGNINGKEY CONFIGJSON
		var gc ctsubmit.GlobalConfig
		if err := json.Unmarshal([]byte(a[5]), &gc); err != nil {
			log.Fatal(err)
		}
		ctsetup.MainMain(context.Background(), a[1], a[2], a[3], a[4], gc)
		fmt.Println("SETUP DONE")
	case "fs": // fs ROOT : commands on stdin, one per line: "set KEY SIZE FILL" / "fsize N" / "get KEY"
		fs := ctsubmit.NewFsStorage(a[1])
		in := bufio.NewScanner(os.Stdin)
		in.Buffer(make([]byte, 1<<20), 1<<26)
		for in.Scan() {
			var op, key, path string
			var n uint64
			line := in.Text()
			fmt.Sscanf(line, "%s", &op)
			switch op {
			case "set":
				fmt.Sscanf(line, "set %s %s", &key, &path)
				data, err := os.ReadFile(path)
				if err != nil {
					log.Fatal(err)
				}
				err = fs.Set(context.Background(), key, data)
				res(err == nil)
			case "get":
				fmt.Sscanf(line, "get %s", &key)
				d, err := fs.Get(context.Background(), key)
				res(err == nil, len(d))
			case "getto":
				fmt.Sscanf(line, "getto %s %s", &key, &path)
				d, err := fs.Get(context.Background(), key)
				if err == nil {
					if err := os.WriteFile(path, d, 0644); err != nil {
						log.Fatal(err)
					}
					res("true", len(d))
				} else if ok, err2 := fs.Exists(context.Background(), key); err2 == nil && !ok {
					res("false missing")
				} else {
					res("false error")
				}
			case "pset": // pset KEY PATH... : all at the same time
				f := strings.Fields(line)
				rs := make([]string, len(f)-2)
				var wg sync.WaitGroup
				for i, path := range f[2:] {
					data, err := os.ReadFile(path)
					if err != nil {
						log.Fatal(err)
					}
					wg.Add(1)
					go func() {
						defer wg.Done()
						rs[i] = strconv.FormatBool(fs.Set(context.Background(), f[1], data) == nil)
					}()
				}
				wg.Wait()
				res(strings.Join(rs, " "))
			case "exists":
				fmt.Sscanf(line, "exists %s", &key)
				ok, err := fs.Exists(context.Background(), key)
				res(err == nil, ok)
			case "fsize":
				fmt.Sscanf(line, "fsize %d", &n)
				var old syscall.Rlimit
				syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old)
				syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: old.Max})
				res("true")
			}
		}
	default:
		io.WriteString(os.Stderr, "usage\n")
		os.Exit(2)
	}
}
