package main

import (
	"bufio"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"
)

// The fixed documents of huge.go once more, in every size up to about a
// hundred, and around the round numbers beyond, for programs that are wrong at
// one size only. They are decided in eight processes; a case that is violated, or
// ends its process, is decided again in a process of its own.

type hugeReg struct {
	dims []string
	mk   hugeMake
}

var hugeRegs = map[string][]hugeReg{}

// noSweep are checks whose cases start processes of their own.
var noSweep = map[string]bool{"C20": true, "C21": true, "C22": true, "C23": true}

func around10(ns ...int) (r []int) {
	for _, n := range ns {
		r = append(r, n-1, n, n+1)
	}
	return
}

func upTo(a, b int) (r []int) {
	for n := a; n <= b; n++ {
		r = append(r, n)
	}
	return
}

// sweepSizes are the sizes of a dimension.
func sweepSizes(dim string, thorough bool) (r []int) {
	switch dim {
	case "runes":
		return nil
	case "fkgraph", "fkdag", "callgraph", "calldag", "wide":
		if thorough {
			return upTo(4, 48)
		}
		return upTo(4, 20)
	case "tree":
		return upTo(1, 9)
	case "deep", "parens":
		return upTo(4, 70)
	case "name", "str", "num", "esc", "sql", "lines", "blanks", "comment", "comments":
		r = append(upTo(8, 140), around10(200, 256, 500, 512, 1000, 1024, 2000, 2048, 4000, 4096, 5000, 8192, 10000, 16384, 32768, 65536)...)
		for _, n := range dictInts() {
			if n > 140 && n <= 70000 {
				r = append(r, around10(n)...)
			}
		}
	default:
		r = append(upTo(4, 132), around10(150, 200, 250, 256, 500, 512, 1000, 1024)...)
		for _, n := range dictInts() {
			if n > 132 && n <= 3000 {
				r = append(r, around10(n)...)
			}
		}
	}
	return
}

type sweepJob struct {
	reg int
	dim string
	n   int
}

func sweepJobs(id, tier string) (r []sweepJob) {
	for i, g := range hugeRegs[id] {
		for _, dim := range g.dims {
			for _, n := range sweepSizes(dim, tier == "thorough") {
				r = append(r, sweepJob{i, dim, n})
			}
		}
	}
	return
}

func sweepCase(id string, j sweepJob) *Case {
	d, mid := hugeDoc(j.dim, j.n)
	c := hugeRegs[id][j.reg].mk(d, j.dim, j.n, mid)
	if c != nil {
		c.Prop = id
		c.Labels = append(c.Labels, "sweep-"+j.dim)
	}
	return c
}

// sweepMain decides its share of the cases and says so line by line.
func sweepMain(id, tier string, shard, shards int) {
	attachHuge()
	p := props[id]
	if p.Setup != nil {
		if err := p.Setup(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	out := os.NewFile(3, "report")
	os.Stdout = null
	last := time.Now()
	var mu sync.Mutex
	go func() {
		var stuck stuckFor
		for range time.Tick(500 * time.Millisecond) {
			if stuck.look() > 16 {
				os.Exit(45)
			}
			mu.Lock()
			late := time.Since(last) > 60*time.Second
			mu.Unlock()
			if late {
				os.Exit(44)
			}
		}
	}()
	for i, j := range sweepJobs(id, tier) {
		if i%shards != shard {
			continue
		}
		mu.Lock()
		last = time.Now()
		mu.Unlock()
		c := sweepCase(id, j)
		if c == nil {
			continue
		}
		fmt.Fprintf(out, "%d\n", i)
		msg, internal := safeCheck(p, c)
		if msg != "" || internal != "" {
			os.Exit(1)
		}
	}
	if p.Cleanup != nil {
		p.Cleanup()
	}
	os.Exit(0)
}

// sweep runs the sweep of a check.
func sweep(e *env, id string) (int, int, *Failure, []string) {
	jobs := sweepJobs(id, e.tier)
	const shards = 8
	counts, suspects, errs := make([]int, shards), make([]int, shards), make([]string, shards)
	var wg sync.WaitGroup
	for k := 0; k < shards; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			suspects[k] = -1
			cmd := exec.Command(exeFor(id), "sweep", "-prop", id, "-tier", e.tier, "-shard", fmt.Sprint(k), "-shards", fmt.Sprint(shards))
			r, w, err := os.Pipe()
			if err != nil {
				errs[k] = err.Error()
				return
			}
			var se strings.Builder
			cmd.ExtraFiles, cmd.Stderr = []*os.File{w}, &se
			cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOMEMLIMIT=3000MiB", "GOTRACEBACK=single", "GORACE=halt_on_error=1 exitcode=66")
			err = cmd.Start()
			w.Close()
			if err != nil {
				errs[k] = err.Error()
				return
			}
			at := -1
			for sc := bufio.NewScanner(r); sc.Scan(); {
				fmt.Sscan(sc.Text(), &at)
				counts[k]++
			}
			r.Close()
			if err := cmd.Wait(); err != nil {
				suspects[k] = at
				errs[k] = fmt.Sprintf("%v %s", err, clip(se.String(), 500))
			}
		}()
	}
	wg.Wait()
	n := 0
	for _, c := range counts {
		n += c
	}
	for k, i := range suspects {
		if i < 0 {
			if errs[k] != "" {
				return n, n, nil, []string{"sweep: " + errs[k]}
			}
			continue
		}
		c := sweepCase(id, jobs[i])
		st, msg := runOne(c, scratchDir())
		switch st {
		case oneViolated:
			return n, n, &Failure{c, msg}, nil
		case oneError:
			return n, n, nil, []string{"sweep " + jobs[i].dim + ": " + clip(msg, 500)}
		}
		return n, n, nil, []string{fmt.Sprintf("sweep %s %d: ended its process, but holds alone: %s", jobs[i].dim, jobs[i].n, errs[k])}
	}
	return n, n, nil, []string{fmt.Sprintf("%d documents of every size up to about a hundred, and around round numbers beyond", n)}
}
