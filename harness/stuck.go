package main

import (
	"bytes"
	"runtime"
	"strings"
)

// A program in which every goroutine waits for another one will never go on,
// but uses no CPU time. The runtime would notice; our own watchdog keeps it from
// that, so the watchdog looks itself.

var waits = []string{"chan receive", "chan send", "select", "sync.", "semacquire"}

// stuckFor counts the looks in a row at which nothing but the caller could run.
type stuckFor int

func (n *stuckFor) look() int {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	for i, g := range bytes.Split(buf, []byte("\n\n")) {
		if i == 0 { // the caller
			continue
		}
		head, _, _ := strings.Cut(string(g), "\n")
		_, state, _ := strings.Cut(head, "[")
		waiting := false
		for _, w := range waits {
			waiting = waiting || strings.HasPrefix(state, w)
		}
		if !waiting {
			*n = 0
			return 0
		}
	}
	*n++
	return int(*n)
}
