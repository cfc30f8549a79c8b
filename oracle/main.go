package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"time"
)

// The oracle runs seeded cases of one property's profile against the real library and reports the
// first disagreement with the reference reading of the property. Cases are numbered; a case depends
// on (property, seed, number) only, so that a replay file needs nothing else.

type Result struct {
	Property string  `json:"property"`
	Seed     uint64  `json:"seed"`
	Cases    int64   `json:"cases"`
	Seconds  float64 `json:"seconds"`
	Iter     int64   `json:"iter"`
	Fail     *Fail   `json:"fail,omitempty"`
}

func main() {
	prop := flag.String("property", "", "")
	seed := flag.Uint64("seed", 1, "")
	n := flag.Int64("n", 20000, "number of cases")
	secs := flag.Float64("t", 60, "time limit in seconds")
	j := flag.Int("j", runtime.NumCPU(), "workers")
	caseT := flag.Float64("case", 20, "time limit of one case")
	worker := flag.Int("worker", -1, "")
	from := flag.Int64("from", 0, "")
	replay := flag.Int64("replay", -1, "run this case only")
	flag.Parse()
	debug.SetMaxStack(512 << 20)
	f := profiles[*prop]
	if f == nil {
		fmt.Println("unknown property")
		os.Exit(2)
	}
	if *worker >= 0 {
		debug.SetGCPercent(200)
		runWorker(f, *seed, *n, *from, *j)
		return
	}
	start := time.Now()
	deadline := start.Add(time.Duration(*secs * float64(time.Second)))
	res := Result{Property: *prop, Seed: *seed, Iter: -1}
	if *replay >= 0 {
		fail := runOne(*prop, *seed, *replay, *replay+1, 1, deadline.Add(time.Hour), *caseT, &res, 0, nil)
		res.Fail = fail
	} else {
		var mu sync.Mutex
		var wg sync.WaitGroup
		stop := make(chan struct{})
		for w := 0; w < *j; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				var local Result
				fail := runOne(*prop, *seed, int64(w), *n, *j, deadline, *caseT, &local, w, stop)
				mu.Lock()
				defer mu.Unlock()
				res.Cases += local.Cases
				if fail != nil && (res.Fail == nil || local.Iter < res.Iter) {
					if res.Fail == nil {
						close(stop)
					}
					res.Fail, res.Iter = fail, local.Iter
				}
			}()
		}
		wg.Wait()
	}
	res.Seconds = time.Since(start).Seconds()
	json.NewEncoder(os.Stdout).Encode(res)
	if res.Fail != nil {
		os.Exit(1)
	}
}

// runOne supervises one worker process.
func runOne(prop string, seed uint64, from, n int64, stride int, deadline time.Time, caseT float64, res *Result, w int, stop chan struct{}) *Fail {
	cmd := exec.Command(os.Args[0], "-property", prop, "-seed", fmt.Sprint(seed), "-n", fmt.Sprint(n), "-from", fmt.Sprint(from), "-j", fmt.Sprint(stride), "-worker", fmt.Sprint(w))
	prog, err := os.CreateTemp("", "oracle-progress")
	if err != nil {
		return nil
	}
	defer os.Remove(prog.Name())
	defer prog.Close()
	cmd.ExtraFiles = []*os.File{prog}
	cmd.Env = append(os.Environ(), "GOMEMLIMIT=1500MiB", "GOMAXPROCS="+map[bool]string{true: "8", false: "2"}[prop == "C10"], "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=single")
	out, _ := cmd.StdoutPipe()
	errOut, _ := cmd.StderrPipe()
	if err := cmd.Start(); err != nil {
		return nil
	}
	var tail []string
	var stdoutLine string
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		sc := bufio.NewScanner(errOut)
		sc.Buffer(make([]byte, 1<<20), 1<<20)
		for sc.Scan() {
			if len(tail) < 60 {
				tail = append(tail, sc.Text())
			}
		}
	}()
	go func() {
		defer wg.Done()
		sc := bufio.NewScanner(out)
		sc.Buffer(make([]byte, 1<<20), 1<<24)
		for sc.Scan() {
			stdoutLine = sc.Text()
		}
	}()
	done := make(chan error, 1)
	go func() { wg.Wait(); done <- cmd.Wait() }()
	read := func() (it, cnt int64) {
		var b [16]byte
		prog.ReadAt(b[:], 0)
		return int64(binary.LittleEndian.Uint64(b[:])), int64(binary.LittleEndian.Uint64(b[8:]))
	}
	tick := time.NewTicker(100 * time.Millisecond)
	defer tick.Stop()
	lastIt, lastAt := int64(-1), time.Now()
	hang, ended := false, false
	var werr error
loop:
	for {
		select {
		case werr = <-done:
			break loop
		case <-stop:
			ended = true
			stop = nil
			cmd.Process.Kill()
		case <-tick.C:
			it, _ := read()
			if it != lastIt {
				lastIt, lastAt = it, time.Now()
			} else if !hang && !ended && time.Since(lastAt).Seconds() > caseT {
				hang = true
				cmd.Process.Kill()
			}
			if !hang && !ended && time.Now().After(deadline) {
				ended = true
				cmd.Process.Kill()
			}
		}
	}
	it, cnt := read()
	res.Cases = cnt
	res.Iter = it
	switch {
	case stdoutLine != "":
		var f Fail
		if json.Unmarshal([]byte(stdoutLine), &f) == nil {
			return &f
		}
		return nil
	case hang:
		return &Fail{What: fmt.Sprintf("the call does not return within %v seconds", caseT)}
	case ended || werr == nil:
		return nil
	}
	what := "the process crashed"
	for _, l := range tail {
		if strings.Contains(l, "fatal error") || strings.Contains(l, "DATA RACE") || strings.Contains(l, "panic:") || strings.Contains(l, "unexpected fault") || strings.Contains(l, "goroutine stack exceeds") {
			what = strings.TrimSpace(l)
			break
		}
	}
	return &Fail{What: what + " (" + werr.Error() + ")", Detail: strings.Join(tail, "\n")}
}

func runWorker(f func(*rng) *Fail, seed uint64, n, from int64, stride int) {
	prog := os.NewFile(3, "progress")
	var b [16]byte
	var cnt uint64
	for i := from; i < n; i += int64(stride) {
		binary.LittleEndian.PutUint64(b[:], uint64(i))
		binary.LittleEndian.PutUint64(b[8:], cnt)
		prog.WriteAt(b[:], 0)
		if fail := f(newRng(seed, uint64(i))); fail != nil {
			json.NewEncoder(os.Stdout).Encode(fail)
			os.Exit(1)
		}
		cnt++
	}
	binary.LittleEndian.PutUint64(b[8:], cnt)
	prog.WriteAt(b[:], 0)
}
