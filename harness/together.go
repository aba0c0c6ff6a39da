package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"
)

// Every property holds of calls made at the same time as others, too. Groups of
// generated cases, each of which holds on its own, are decided by several
// goroutines at once, again and again; what fails is decided once more in a
// process of its own before it counts.

// aloneOnly are checks that start processes of their own, measure, or use what
// a process has only one of.
var aloneOnly = map[string]bool{"C15": true, "C20": true, "C21": true, "C22": true, "C23": true, "C27": true}

const (
	groupSize   = 8
	roundsFind  = 12
	roundsAgain = 3000
)

// checkTogether decides the cases of a group alone and then at once.
func checkTogether(p *Prop, c *Case) string {
	for _, s := range c.Cases {
		if m := p.Check(s); m != "" {
			return m
		}
	}
	until := time.Now().Add(40 * time.Second)
	var mu sync.Mutex
	msg, internal := "", ""
	for r := 0; r < c.N && time.Now().Before(until) && (r < roundsFind || cpuSeconds() < hangCPU/2); r++ {
		var wg sync.WaitGroup
		start := make(chan bool)
		for k := range c.Cases {
			s := c.Cases[(k/(1+r%2)+r)%len(c.Cases)] // every other round two goroutines have the same case
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				m, in := safeCheck(p, s)
				for t0 := time.Now(); m+in == "" && time.Since(t0) < 300*time.Microsecond; { // quick ones for some time
					m, in = safeCheck(p, s)
				}
				if m != "" || in != "" {
					mu.Lock()
					if msg == "" && internal == "" {
						msg, internal = m, in
					}
					mu.Unlock()
				}
			}()
		}
		close(start)
		wg.Wait()
		if internal != "" {
			panic(internal)
		}
		if msg != "" {
			return fmt.Sprintf("together with %d others at the same time, though not alone: %s", len(c.Cases)-1, msg)
		}
	}
	return ""
}

// togetherMain decides its share of the groups and says which is under way.
func togetherMain(id string, seed uint64, shard, groups, seconds int) {
	p := props[id]
	if p.Setup != nil {
		if err := p.Setup(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	out := os.Stdout
	cur := os.NewFile(3, "report")
	os.Stdout = null
	var stuck stuckFor
	go func() {
		for range time.Tick(500 * time.Millisecond) {
			if stuck.look() > 16 {
				os.Exit(45)
			}
		}
	}()
	base := mix(mix(seed)^mix(uint64(shard)+77)) ^ binary.LittleEndian.Uint64(append([]byte(id), 0, 0, 0, 0, 0, 0, 0, 0)[:8])
	deadline := time.Now().Add(time.Duration(seconds) * time.Second)
	i := 0
	for ; i < groups && time.Now().Before(deadline); i++ {
		group := &Case{Prop: id, Kind: "together", N: roundsFind}
		failed, log := rapidCheck(mix(base+uint64(i)*104729), groupSize, func(t *rapid.T) {
			c := p.Gen(t)
			c.Prop = id
			group.Cases = append(group.Cases, c)
		})
		if failed {
			fmt.Fprintln(os.Stderr, strings.Join(log, "\n"))
			os.Exit(3)
		}
		b, err := json.Marshal(group)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		cur.Truncate(0)
		cur.WriteAt(b, 0)
		msg, internal := safeCheck(p, group)
		if internal != "" {
			fmt.Fprintln(os.Stderr, internal)
		}
		if msg != "" || internal != "" {
			os.Exit(1)
		}
	}
	if p.Cleanup != nil {
		p.Cleanup()
	}
	fmt.Fprintln(out, i)
	os.Exit(0)
}

// together is the concurrent part of a check.
func together(e *env, id string) (int, int, *Failure, []string) {
	const shards = 4
	groups, seconds := 150, 4
	if e.tier == "thorough" {
		groups, seconds = 3000, 60
	}
	states := make([]string, shards)
	failed := make([]string, shards)
	counts := make([]int, shards)
	var wg sync.WaitGroup
	for k := 0; k < shards; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			f, err := os.CreateTemp(scratchDir(), "group-*.json")
			if err != nil {
				failed[k] = err.Error()
				return
			}
			defer f.Close()
			states[k] = f.Name()
			var se strings.Builder
			cmd := exec.Command(exeFor(id), "together", "-prop", id, "-seed", fmt.Sprint(e.seed), "-shard", fmt.Sprint(k), "-shards", fmt.Sprint(groups), "-cap", fmt.Sprint(seconds))
			var so strings.Builder
			cmd.ExtraFiles, cmd.Stderr, cmd.Stdout = []*os.File{f}, &se, &so
			cmd.Env = append(os.Environ(), "GOMAXPROCS=4", "GOMEMLIMIT=3000MiB", "GOTRACEBACK=single")
			if err := cmd.Run(); err != nil {
				failed[k] = fmt.Sprintf("%v %s", err, clip(se.String(), 500))
			}
			fmt.Sscan(so.String(), &counts[k])
		}()
	}
	wg.Wait()
	n := 0
	for _, c := range counts {
		n += c * groupSize
	}
	var notes []string
	for k, why := range failed {
		if why == "" {
			continue
		}
		c, err := loadCase(states[k])
		if err != nil {
			notes = append(notes, "together: "+why)
			continue
		}
		c.N = roundsAgain
		st, msg := runOne(c, scratchDir())
		switch {
		case st == oneViolated && len(c.Cases) > 0:
			return n, n, &Failure{fewer(c), msg}, notes
		case st == oneError:
			notes = append(notes, "together: "+clip(msg, 500))
		default:
			notes = append(notes, "together: a group failed once but held later: "+why)
		}
	}
	return n, n, nil, append(notes, fmt.Sprintf("%d groups of %d cases were decided at once, %d rounds each", n/groupSize, groupSize, roundsFind))
}

// fewer is the smallest part of a group found to fail.
func fewer(c *Case) *Case {
	for _, s := range c.Cases { // alone
		if st, _ := runOne(s, scratchDir()); st == oneViolated {
			return s
		}
	}
	for i := range c.Cases { // the same one several times
		d := &Case{Prop: c.Prop, Kind: c.Kind, N: 200, Cases: []*Case{c.Cases[i], c.Cases[i]}}
		if st, _ := runOne(d, scratchDir()); st == oneViolated {
			return d
		}
	}
	return c
}
