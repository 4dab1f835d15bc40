package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"

	"vsim/harness"
)

// determinism executes the same runs twice, in batches of different sizes, with
// different degrees of real parallelism, and compares everything observed.
func determinism(args []string) {
	fs := flag.NewFlagSet("determinism", flag.ExitOnError)
	seed := fs.Uint64("seed", 1, "")
	n := fs.Int("n", 80, "runs per property")
	fs.Parse(args)
	props := harness.Props
	if fs.NArg() > 0 {
		props = fs.Args()
	}
	one := func(p string, from, to, procs int) map[int]string {
		c := exec.Command(self(), "batch", "-keep-going", "-prop", p, "-seed", strconv.FormatUint(*seed, 10), "-from", strconv.Itoa(from), "-to", strconv.Itoa(to))
		c.Env = append(os.Environ(), "GOMAXPROCS="+strconv.Itoa(procs))
		b, err := c.Output()
		if err != nil {
			die("%s %d-%d: %v", p, from, to, err)
		}
		m := map[int]string{}
		for _, l := range strings.Split(string(b), "\n") {
			var x Line
			if json.Unmarshal([]byte(l), &x) == nil && x.Report != nil {
				m[x.Run] = jsn(x.Report)
			}
		}
		return m
	}
	bad := 0
	for _, p := range props {
		a := map[int]string{}
		b := map[int]string{}
		var mu sync.Mutex
		var wg sync.WaitGroup
		part := func(dst map[int]string, size, procs int) {
			for i := 0; i < *n; i += size {
				j := i + size
				if j > *n {
					j = *n
				}
				wg.Add(1)
				go func(i, j int) {
					defer wg.Done()
					m := one(p, i, j, procs)
					mu.Lock()
					for k, v := range m {
						dst[k] = v
					}
					mu.Unlock()
				}(i, j)
			}
		}
		part(a, 40, 1)
		wg.Wait()
		part(b, 7, 4)
		wg.Wait()
		diff := 0
		for i := 0; i < *n; i++ {
			if a[i] == "" || a[i] != b[i] {
				diff++
				if diff < 3 {
					fmt.Printf("%s run %d differs:\n %.400s\n %.400s\n", p, i, a[i], b[i])
				}
			}
		}
		bad += diff
		fmt.Printf("%s: %d runs executed twice, %d differ\n", p, *n, diff)
	}
	if bad > 0 {
		os.Exit(1)
	}
}
