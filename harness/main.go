package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"sync"
	"sync/atomic"
)

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "harness: "+f+"\n", a...)
	os.Exit(3)
}

func readLines(path string, f func([]byte)) {
	fh, err := os.Open(path)
	if err != nil {
		die("%v", err)
	}
	defer fh.Close()
	sc := bufio.NewScanner(fh)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		if len(sc.Bytes()) > 0 {
			f(sc.Bytes())
		}
	}
	if sc.Err() != nil {
		die("%v", sc.Err())
	}
}

func main() {
	if len(os.Args) == 2 && os.Args[1] == "alone" {
		cmdAlone(os.Stdin, os.Stdout)
		return
	}
	if len(os.Args) < 5 {
		die("usage: harness run WORLDS_OUT TRACE_OUT SCENARIOS...")
	}
	switch os.Args[1] {
	case "run":
		cmdRun(os.Args[2], os.Args[3], os.Args[4:])
	default:
		die("unknown command %s", os.Args[1])
	}
}

// keep says which scenarios to run: all, or those whose number in their file
// is picked by KEEP=<modulus>:<remainder>.
func keep() func(n int) bool {
	var mod, rem int
	if _, err := fmt.Sscanf(os.Getenv("KEEP"), "%d:%d", &mod, &rem); err != nil || mod < 2 {
		return func(int) bool { return true }
	}
	return func(n int) bool { return n%mod == rem%mod }
}

func cmdRun(wp, tp string, files []string) {
	var wout bytes.Buffer
	worlds := map[string]*WorldRef{}
	var all []*Scenario
	k := keep()
	for _, f := range files {
		n := 0
		readLines(f, func(b []byte) {
			n++
			if !k(n) {
				return
			}
			sc := &Scenario{}
			if err := json.Unmarshal(b, sc); err != nil {
				die("scenario: %v: %s", err, b)
			}
			for _, ref := range []*WorldRef{&sc.W, &sc.W2} {
				key := string(ref.raw)
				if key == "" || key[0] != '{' {
					continue
				}
				w := worlds[key]
				if w == nil {
					w = &WorldRef{raw: json.RawMessage(key), idx: len(worlds) + 1, w: &World{}}
					if err := json.Unmarshal(ref.raw, w.w); err != nil {
						die("world: %v", err)
					}
					worlds[key] = w
					wout.WriteString(key)
					wout.WriteByte('\n')
				}
				*ref = *w
			}
			if sc.Id == 0 {
				sc.Id = len(all) + 1
			}
			all = append(all, sc)
		})
	}
	if err := os.WriteFile(wp, wout.Bytes(), 0o644); err != nil {
		die("%v", err)
	}
	var wg sync.WaitGroup
	next := int64(-1)
	par := runtime.NumCPU()
	if n, err := strconv.Atoi(os.Getenv("PAR")); err == nil && n > 0 {
		par = n
	}
	ran := make([]bool, len(all))
	// these mostly wait
	for j := range all {
		if all[j].Conc == "wall" {
			j := j
			wg.Add(1)
			go func() {
				defer wg.Done()
				runScenario(all[j].W.w, all[j])
				ran[j] = true
			}()
		}
	}
	for i := 0; i < par; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				j := int(atomic.AddInt64(&next, 1))
				if j >= len(all) || gaveUp() {
					return
				}
				if all[j].Conc == "wall" {
					continue
				}
				runScenario(all[j].W.w, all[j])
				ran[j] = true
			}
		}()
	}
	wg.Wait()
	out, err := os.Create(tp)
	if err != nil {
		die("%v", err)
	}
	bw := bufio.NewWriterSize(out, 1<<20)
	en := json.NewEncoder(bw)
	en.SetEscapeHTML(false)
	steps, n := 0, 0
	for j, sc := range all {
		if !ran[j] {
			continue
		}
		n++
		if err := en.Encode(sc); err != nil {
			die("%v", err)
		}
		steps += len(sc.Steps)
	}
	if err := bw.Flush(); err != nil {
		die("%v", err)
	}
	out.Close()
	fmt.Printf("{\"scenarios\":%d,\"steps\":%d,\"worlds\":%d,\"gaveup\":%v}\n", n, steps, len(worlds), gaveUp())
}
