package main

import (
	"io"
	"sort"
	"strings"
)

func sortStrings(s []string) { sort.Strings(s) }

// squash keeps the ASCII letters and digits of a text, in lower case.
func squash(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c >= 'A' && c <= 'Z':
			b.WriteByte(c + 32)
		case c >= 'a' && c <= 'z', c >= '0' && c <= '9':
			b.WriteByte(c)
		}
	}
	return b.String()
}

// get follows a path of map keys and list indexes.
func get(v any, path ...any) any {
	for _, p := range path {
		switch k := p.(type) {
		case string:
			m, _ := v.(map[string]any)
			v = m[k]
		case int:
			l, _ := v.([]any)
			if k < 0 || k >= len(l) {
				return nil
			}
			v = l[k]
		}
	}
	return v
}

func list(v any) []any {
	l, _ := v.([]any)
	return l
}

func str(v any) string {
	s, _ := v.(string)
	return s
}

func uniq(xs []string) []string {
	sort.Strings(xs)
	var r []string
	for i, x := range xs {
		if i == 0 || x != xs[i-1] {
			r = append(r, x)
		}
	}
	return r
}

func hasStr(xs []string, s string) bool {
	for _, x := range xs {
		if x == s {
			return true
		}
	}
	return false
}

// FileSpec is a file, directory or symbolic link that exists before the runs.
type FileSpec struct {
	Path  string `json:"path"`
	Data  string `json:"data,omitempty"`
	Dir   bool   `json:"dir,omitempty"`
	Link  string `json:"link,omitempty"`
	Mode  uint32 `json:"mode,omitempty"`  // 0: the usual one
	Fifo  bool   `json:"fifo,omitempty"`  // a named pipe that delivers the data once
	Drain int    `json:"drain,omitempty"` // or one that is read from: all of it (-1) or so many bytes
	Hard  string `json:"hard,omitempty"`  // another name of this file
}

// RunSpec is one invocation of the command.
type RunSpec struct {
	Args   []string   `json:"args"`
	Before []FileSpec `json:"before,omitempty"`  // written just before the run
	Code   int        `json:"code"`              // expected exit status
	Out    string     `json:"out,omitempty"`     // file expected to be written
	Src    string     `json:"src,omitempty"`     // source text it must hold the JSON of
	Why    string     `json:"why,omitempty"`     // text the report of a failure must contain
	MayDir string     `json:"may_dir,omitempty"` // output directory a failing run may have made
	Limit  int        `json:"limit,omitempty"`   // file size limit + 1
	Inject string     `json:"inject,omitempty"`  // strace fault on the output file
	On     string     `json:"on,omitempty"`      // or on this path
	Cwd    string     `json:"cwd,omitempty"`     // directory to run in
	Env    []string   `json:"env,omitempty"`     // changes to the environment
	Umask  int        `json:"umask,omitempty"`   // file mode creation mask + 1
	Stdin  string     `json:"stdin,omitempty"`   // file to be standard input
	Stdout string     `json:"stdout,omitempty"`  // device to be standard output and error
	Note   string     `json:"note,omitempty"`
}

func readAll(r io.Reader) ([]byte, error) { return io.ReadAll(r) }
