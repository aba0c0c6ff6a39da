package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unicode/utf8"

	"github.com/kwilteam/kuneiform/version"
	"pgregory.net/rapid"
)

// C20 to C22: the command, run as an unprivileged user in a scratch directory.

const nobody = 65534

var cliUser = 0       // user the command runs as, 0: could not be changed
var cliStrace = false // faults can be injected with strace

func cliSetup() error {
	cli := os.Getenv("KF_CLI")
	if cli == "" {
		return fmt.Errorf("KF_CLI is not set")
	}
	cmd := exec.Command(cli, "-v")
	cmd.Dir = "/"
	cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}}
	if os.Getuid() == 0 && cmd.Run() == nil {
		cliUser = nobody
	}
	return nil
}

func probeStrace() {
	dir := caseDir()
	defer os.RemoveAll(dir)
	cmd := exec.Command("strace", "-f", "-o", filepath.Join(dir, "t"), "-e", "trace=write", "-e", "inject=write:error=ENOSPC", "-P", filepath.Join(dir, "x"), "/bin/true")
	cliStrace = cmd.Run() == nil
}

// limitedMain LIMIT PROGRAM ARGS...: runs a program under a file size limit.
func limitedMain(a []string) int {
	n, err := strconv.Atoi(a[0])
	if err != nil {
		return 125
	}
	signal.Ignore(syscall.SIGXFSZ)
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(n), Max: uint64(n)}); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 125
	}
	err = syscall.Exec(a[1], a[1:], os.Environ())
	fmt.Fprintln(os.Stderr, err)
	return 125
}

func (f *FileSpec) put(dir string) {
	p := filepath.Join(dir, f.Path)
	must(os.MkdirAll(filepath.Dir(p), 0o755))
	os.Chmod(p, 0o755)
	switch {
	case f.Dir:
		must(os.MkdirAll(p, 0o755))
	case f.Link != "":
		os.Remove(p)
		must(os.Symlink(f.Link, p))
	case f.Fifo:
		os.Remove(p)
		must(syscall.Mkfifo(p, 0o600))
	case f.Hard != "":
		os.Remove(p)
		must(os.Link(filepath.Join(dir, f.Hard), p))
	default:
		os.Remove(p)
		must(os.WriteFile(p, []byte(f.Data), 0o644))
	}
}

// own gives everything under dir to the user of the command, then sets modes.
func own(dir string, files []FileSpec) {
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && cliUser != 0 {
			os.Lchown(p, cliUser, cliUser)
		}
		return nil
	})
	for _, f := range files {
		if f.Mode != 0 {
			must(os.Chmod(filepath.Join(dir, f.Path), os.FileMode(f.Mode)))
		}
	}
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// snapshot maps every path under dir to what is there.
func snapshot(dir string) map[string]string {
	m := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		rel, _ := filepath.Rel(dir, p)
		if err != nil {
			m[rel] = "unreadable"
			return nil
		}
		switch {
		case fi.Mode()&os.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			m[rel] = "link " + l
		case fi.IsDir():
			m[rel] = fmt.Sprintf("dir %o", fi.Mode().Perm())
		case !fi.Mode().IsRegular():
			m[rel] = fmt.Sprintf("special %v", fi.Mode())
		default:
			b, _ := os.ReadFile(p)
			m[rel] = fmt.Sprintf("file %o %s", fi.Mode().Perm(), b)
		}
		return nil
	})
	return m
}

type ran struct {
	code     int
	out      string // standard output and error
	injected map[string]bool
	mute     bool   // what it printed is not known
	drained  string // what came out of the pipe in place of the output
}

// feed delivers data to the first reader of a named pipe.
func feed(p, data string) (stop func()) {
	done := make(chan bool)
	go func() {
		defer close(done)
		f, err := os.OpenFile(p, os.O_WRONLY, 0) // waits for the reader
		if err != nil {
			return
		}
		f.WriteString(data)
		f.Close()
	}()
	return func() {
		f, err := os.OpenFile(p, os.O_RDONLY|syscall.O_NONBLOCK, 0) // lets a writer go that nobody read from
		<-done
		if err == nil {
			f.Close()
		}
	}
}

// drain reads what a writer puts into a named pipe, all of it (n < 0) or the
// first n bytes before it closes the pipe.
func drain(p string, n int) (stop func() string) {
	fd, err := syscall.Open(p, syscall.O_RDONLY|syscall.O_NONBLOCK|syscall.O_CLOEXEC, 0)
	must(err)
	var ended atomic.Bool
	done := make(chan []byte, 1)
	go func() {
		var all []byte
		buf := make([]byte, 8192)
		for n < 0 || len(all) < n {
			b := buf
			if n > 0 {
				b = buf[:min(len(buf), n-len(all))]
			}
			last := ended.Load() // whatever was written has been written by now
			k, _ := syscall.Read(fd, b)
			if k > 0 {
				all = append(all, b[:k]...)
				continue
			}
			if last {
				break
			}
			time.Sleep(time.Millisecond)
		}
		syscall.Close(fd)
		done <- all
	}()
	return func() string {
		ended.Store(true)
		return string(<-done)
	}
}

func runCommand(dir string, r *RunSpec) (*ran, string) {
	cli := os.Getenv("KF_CLI")
	argv := []string{cli}
	for _, a := range r.Args {
		argv = append(argv, strings.ReplaceAll(a, "@DIR@", dir))
	}
	res := &ran{injected: map[string]bool{}}
	trace := ""
	switch {
	case r.Limit > 0:
		argv = append([]string{os.Getenv("KF_FRESH"), "limited", fmt.Sprint(r.Limit - 1)}, argv...)
	case r.Inject != "":
		trace = filepath.Join(filepath.Dir(dir), filepath.Base(dir)+".trace")
		must(os.WriteFile(trace, nil, 0o666))
		os.Chmod(trace, 0o666)
		defer os.Remove(trace)
		call, _, _ := strings.Cut(r.Inject, ":")
		on := r.Out
		if r.On != "" {
			on = r.On
		}
		argv = append([]string{"strace", "-f", "-o", trace, "-P", filepath.Join(dir, on), "-P", on, "-e", "trace=" + call, "-e", "inject=" + r.Inject}, argv...)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, argv[0], argv[1:]...)
	cmd.Dir = filepath.Join(dir, r.Cwd)
	cmd.Env = []string{"HOME=" + dir, "PATH=/usr/bin:/bin", "GOTRACEBACK=single"}
	for _, v := range r.Env {
		cmd.Env = append(cmd.Env, strings.ReplaceAll(v, "@DIR@", dir))
	}
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if r.Stdout != "" {
		f, err := os.OpenFile(r.Stdout, os.O_WRONLY, 0)
		must(err)
		defer f.Close()
		cmd.Stdout, cmd.Stderr = f, f
		res.mute = true
	}
	if r.Stdin != "" {
		f, err := os.Open(filepath.Join(dir, r.Stdin))
		must(err)
		defer f.Close()
		cmd.Stdin = f
	}
	for _, f := range r.Before {
		switch {
		case f.Fifo && f.Drain != 0:
			stop := drain(filepath.Join(dir, f.Path), f.Drain)
			defer func() { res.drained = stop() }()
		case f.Fifo:
			defer feed(filepath.Join(dir, f.Path), f.Data)()
		}
	}
	if r.Umask > 0 {
		cmd.Path, cmd.Args = "/bin/sh", append([]string{"sh", "-c", fmt.Sprintf("umask %03o; exec \"$@\"", r.Umask-1), "sh"}, cmd.Args...)
	}
	if cliUser != 0 {
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: uint32(cliUser), Gid: uint32(cliUser)}}
	}
	err := cmd.Run()
	if ctx.Err() != nil {
		return nil, "the command did not end within 120 s"
	}
	if _, ok := err.(*exec.ExitError); err != nil && !ok {
		panic(err)
	}
	res.code = cmd.ProcessState.ExitCode()
	res.out = so.String() + se.String()
	if trace != "" {
		b, _ := os.ReadFile(trace)
		for _, l := range strings.Split(string(b), "\n") {
			if strings.Contains(l, "(INJECTED)") {
				f := strings.Fields(l)
				if len(f) > 1 {
					n, _, _ := strings.Cut(f[1], "(")
					res.injected[n] = true
				}
			}
		}
	}
	return res, ""
}

// cliCase runs the invocations of a case one after another and compares the
// directory before and after each with what must have happened.
func cliCase(c *Case) string {
	dir := caseDir()
	defer func() {
		filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
			if err == nil && fi.IsDir() {
				os.Chmod(p, 0o755)
			}
			return nil
		})
		os.RemoveAll(dir)
	}()
	for i := range c.Files {
		c.Files[i].put(dir)
	}
	own(dir, c.Files)
	if c.Kind == "parallel" {
		return parallelRuns(c, dir)
	}
	for i := range c.Runs {
		r := &c.Runs[i]
		for j := range r.Before {
			r.Before[j].put(dir)
		}
		own(dir, append(append([]FileSpec{}, c.Files...), r.Before...)[:0])
		for _, f := range r.Before {
			if f.Mode != 0 {
				must(os.Chmod(filepath.Join(dir, f.Path), os.FileMode(f.Mode)))
			}
		}
		before := snapshot(dir)
		res, msg := runCommand(dir, r)
		if msg == "" {
			after := snapshot(dir)
			if c.Prop == "C22" {
				msg = judgeFault(r, res, before, after)
			} else {
				msg = judgeRun(r, res, before, after)
			}
		}
		if msg != "" {
			return fmt.Sprintf("run %d (%q, %s): %s", i, r.Args, r.Note, msg)
		}
	}
	return ""
}

// parallelRuns starts all invocations at once; none may disturb another.
func parallelRuns(c *Case, dir string) string {
	for i := range c.Runs {
		for j := range c.Runs[i].Before {
			c.Runs[i].Before[j].put(dir)
		}
	}
	own(dir, nil)
	want := snapshot(dir)
	res, msgs := make([]*ran, len(c.Runs)), make([]string, len(c.Runs))
	var wg sync.WaitGroup
	start := make(chan bool)
	for i := range c.Runs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			msgs[i] = call(func() { res[i], msgs[i] = runCommand(dir, &c.Runs[i]) }) + msgs[i]
		}()
	}
	close(start)
	wg.Wait()
	after := snapshot(dir)
	for i := range c.Runs {
		r := &c.Runs[i]
		if msgs[i] == "" {
			// judged alone: what the others made counts as there before
			before := map[string]string{}
			for k, v := range after {
				before[k] = v
			}
			msgs[i] = judgeRun(r, res[i], before, after)
		}
		if msgs[i] != "" {
			return fmt.Sprintf("run %d of %d at once (%q, %s): %s", i, len(c.Runs), r.Args, r.Note, msgs[i])
		}
		for _, p := range []string{r.Out, r.MayDir} {
			for d := filepath.Clean(p); p != "" && d != "."; d = filepath.Dir(d) {
				if _, ok := want[d]; d == filepath.Clean(r.Out) || !ok {
					if after[d] != "" {
						want[d] = after[d]
					}
				}
			}
		}
	}
	return sameTree(after, want)
}

func judgeRun(r *RunSpec, res *ran, before, after map[string]string) string {
	if res.code != r.Code {
		return fmt.Sprintf("exit status %d, want %d: %s", res.code, r.Code, clip(res.out, 400))
	}
	want := map[string]string{}
	for k, v := range before {
		want[k] = v
	}
	if r.Out != "" { // the written file
		o := compile(r.Src)
		if m := o.accepted(); m != "" {
			return m
		}
		p := filepath.Clean(r.Out)
		got, ok := after[p]
		if !ok {
			return "there is no output file " + p
		}
		_, data, _ := strings.Cut(strings.TrimPrefix(got, "file "), " ")
		if !strings.HasPrefix(got, "file ") || data != string(o.JSON) {
			return fmt.Sprintf("the output file %s does not hold exactly the JSON of the source %s", p, firstDiff(data, string(o.JSON)))
		}
		want[p] = got
		for d := filepath.Dir(p); d != "."; d = filepath.Dir(d) {
			if _, ok := want[d]; !ok {
				want[d] = after[d]
			}
		}
	} else if res.code != 0 || r.Note == "version" || r.Note == "help" {
		if !res.mute && !strings.Contains(res.out, r.Why) || !res.mute && strings.TrimSpace(res.out) == "" {
			return fmt.Sprintf("exit status %d, but what is printed does not say %q: %q", res.code, r.Why, clip(res.out, 400))
		}
	}
	if r.MayDir != "" {
		for d := filepath.Clean(r.MayDir); d != "."; d = filepath.Dir(d) {
			if _, ok := want[d]; !ok && strings.HasPrefix(after[d], "dir ") {
				want[d] = after[d]
			}
		}
	}
	return sameTree(after, want)
}

func sameTree(after, want map[string]string) string {
	for _, k := range sortedKeys(want) {
		if after[k] == "" {
			return fmt.Sprintf("%s is gone", k)
		}
		if after[k] != want[k] {
			return fmt.Sprintf("%s was changed: from %q to %q", k, clip(want[k], 120), clip(after[k], 120))
		}
	}
	for _, k := range sortedKeys(after) {
		if want[k] == "" {
			return fmt.Sprintf("%s was created: %q", k, clip(after[k], 120))
		}
	}
	return ""
}

// judgeFault decides a run during which the output could not be written.
func judgeFault(r *RunSpec, res *ran, before, after map[string]string) string {
	o := compile(r.Src)
	if m := o.accepted(); m != "" {
		return m
	}
	got := after[filepath.Clean(r.Out)]
	data := ""
	if strings.HasPrefix(got, "file ") {
		_, data, _ = strings.Cut(strings.TrimPrefix(got, "file "), " ")
	} else if strings.HasPrefix(got, "special ") {
		data = res.drained
	}
	switch {
	case res.code == 0 && data != string(o.JSON):
		return fmt.Sprintf("exit status 0, but the output file is incomplete (%d of %d bytes): %s", len(data), len(o.JSON), clip(res.out, 200))
	case res.code == 0 && res.injected["close"]:
		return "exit status 0 although closing the output file failed"
	case res.code == 0:
		return ""
	case r.Code == 0:
		return fmt.Sprintf("exit status %d without a fault: %s", res.code, clip(res.out, 300))
	case res.code != r.Code:
		return fmt.Sprintf("exit status %d, want %d: %s", res.code, r.Code, clip(res.out, 300))
	case strings.TrimSpace(res.out) == "" && !res.mute:
		return "the failure is not reported"
	}
	// apart from the output, nothing changes
	want := map[string]string{}
	for k, v := range before {
		want[k] = v
	}
	p := filepath.Clean(r.Out)
	if got != "" {
		want[p] = got
	} else {
		delete(want, p)
	}
	for d := filepath.Dir(p); d != "."; d = filepath.Dir(d) {
		if after[d] != "" {
			want[d] = after[d]
		}
	}
	return sameTree(after, want)
}

// ---- generators

var srcNames = []string{"s.kf", "schema.kf", "a.b.kf", "noext", ".kf", "a.kf", "b.kf", "x.json", "name with space.kf", "ünï-中.kf", "UP.KF", "a..kf", "a.", "tar.gz", "-dash.kf", "build.kf", "s", "s.json.kf", "%s.kf", "a.kf.kf", "s.tar.kf", "..kf",
	"[a].kf", "a*b.kf", "a?b.kf", "*.kf", "$x.kf", "$HOME.kf", "~.kf", "~", "a\\b.kf", "'q'.kf", "\"q\".kf", "#h.kf", "a;b.kf", "{a,b}.kf", "two\nlines.kf", "@f.kf", "a%20b.kf", "con.kf", "stdin", " a.kf", "a.kf ", "a .kf", "a. kf", "a.KF", "a:b.kf", "http:a.kf", "e\u0301.kf", "\xff.kf", "a&b.kf", "a|b.kf", "`a`.kf", "!a.kf", "-.kf", "a=b.kf", "a,b.kf", "s.json.json"}
var outDirs = []string{"", "", "build", "out", "out/deep/er", "./o", "o/", "src", ".", "a.b", "with space", "ünï", "build/sub", "-o", "out", "build", "o",
	"$x", "o$x", "$HOME", "~", "~/x", "o*", "[o]", "?", "%d", "-", "--", "a\\b", "'q'", "@x", "#o", "o ", " o", "a=b", "o//p", "./o/./p/", "a:b", "o,p", "\"q\"", "o.json", "e\u0301"}

// matched are files that the name of a source would match as a pattern, or
// that it would become by one expansion or another.
var matched = map[string]string{"[a].kf": "a.kf", "a*b.kf": "axb.kf", "a?b.kf": "axb.kf", "*.kf": "z.kf", "$x.kf": ".kf", "a\\b.kf": "ab.kf", "'q'.kf": "q.kf", "\"q\".kf": "q.kf", "a.kf ": "a.kf", " a.kf": "a.kf", "a%20b.kf": "a b.kf", "e\u0301.kf": "\u00e9.kf", "a.KF": "a.kf", "UP.KF": "up.kf", "@f.kf": "f.kf", "{a,b}.kf": "a.kf"}

func (g *G) validSrc() string {
	g.big = ""
	g.maxTabs, g.maxActs, g.maxExts = 2, 2, 2
	g.depth = 2
	switch g.n(0, 5) {
	case 0:
		return "database " + pickOf(g, "d", "tiny", "x1") + ";"
	case 1:
		g.big = pickOf(g, dims...)
	}
	d := g.doc()
	s := d.src(g.layout())
	if g.big == "depth" {
		s = limitSQLParens(s)
	}
	g.big = ""
	return s
}

// rejectedSrc draws a source that must be rejected and says with which error.
// muchToTell is a source that is rejected with a long error.
func (g *G) muchToTell() string {
	n := strings.Repeat(pickOf(g, "n", "long_", "x1y2"), g.n(100, 5000))
	q := "'" + strings.Repeat(pickOf(g, "q", "long text, ", "é"), g.n(100, 5000)) + "'"
	return pickOf(g, "database d; table "+n+" { a int } table "+n+" { a int }", "database d; table t { "+n+" int, "+n+" int }", "database d;\naction a() public { "+n+"(); }",
		"database d; action a() public { a($"+n+"); }", "database d; use e as "+n+"; use f as "+n+";", "database d; action a() { select "+q+", random(); }", "database d; action a() { select "+q+" from from; }", "database "+n+" "+n+"; ? ? ?", "database d; "+q)
}

func (g *G) rejectedSrc() string {
	if g.p(12) {
		return g.muchToTell()
	}
	switch g.n(0, 4) {
	case 0:
		return pickOf(g, "", "garbage", "database d", "table t { a int }", "database d; table t {", "database d; x", "\x00", "database é;", "'", "/*", "database d; table t { a int, } }",
			"database d; action a() public { select 1 }", "{}", "{\"name\": \"d\"}", "database d;; ")
	case 1:
		for i := 0; i < 5; i++ {
			if st := g.brokenStmt("") + ";"; !dialect(st) {
				return "database d;\naction a() public { " + st + " }"
			}
		}
		return "database d;\naction a() public { select random(); }"
	case 2:
		return g.validSrc() + "\n" + pickOf(g, " }", " garbage", " ;", " table", " é", " '")
	}
	g.maxTabs, g.maxActs, g.maxExts = 3, 3, 2
	g.depth = 1
	for {
		d := g.doc()
		g.mutate(d)
		if len(refErrs(d)) > 0 {
			return d.src(g.layout())
		}
		if g.p(4) {
			return "database d; table t { a int, a text }"
		}
	}
}

func outOf(src, dir string) string {
	b := filepath.Base(src)
	b = b[:len(b)-len(filepath.Ext(b))]
	if dir == "" {
		dir = "build"
	}
	return filepath.Join(dir, b+".json")
}

// flags spells the output directory and mixes it with the source argument.
func (g *G) cliArgs(src, out string) []string {
	var fl []string
	if out != "" {
		switch g.n(0, 3) {
		case 0:
			fl = []string{"-o", out}
		case 1:
			fl = []string{"--output", out}
		case 2:
			fl = []string{"--output=" + out}
		default:
			fl = []string{"-o" + out}
		}
	}
	if g.p(8) {
		fl = append(fl, pickOf(g, "-t", "--trace"))
	}
	if strings.HasPrefix(src, "-") {
		return append(append(fl, "--"), src)
	}
	if g.b() {
		return append([]string{src}, fl...)
	}
	return append(fl, src)
}

func (g *G) outDir() string {
	if g.p(8) {
		if n := g.dictFile(); n != "" && n != "." && n != ".." {
			return n
		}
	}
	return pickOf(g, outDirs...)
}

func (g *G) srcPath() string {
	n := pickOf(g, srcNames...)
	if g.p(6) {
		n = g.dictFile() + pickOf(g, ".kf", ".kf", "", ".x", "1.kf", ".kf.kf")
		if n == "" || n == "." || n == ".." {
			n = "s.kf"
		}
	}
	d := pickOf(g, "src", "src", "src/sub", "", "s.d")
	p := filepath.Join(d, n)
	return p
}

func (g *G) junk() string {
	return pickOf(g, "", "x", "{}", "old\n", strings.Repeat("{\"owner\": \"\"}\n", g.n(1, 600)), strings.Repeat("z", g.n(1, 9000)))
}

// stale is what an older output may hold: anything, or nearly the JSON of src.
func (g *G) stale(src string) string {
	o := compile(src)
	if g.b() || len(o.JSON) == 0 {
		return g.junk()
	}
	b := append([]byte{}, o.JSON...)
	switch g.n(0, 4) {
	case 0: // same size
		b[g.n(0, len(b)-1)] = '#'
	case 1:
		for i := range b {
			b[i] = 'x'
		}
	case 2:
		b = b[:g.n(0, len(b)-1)]
	case 3:
		return string(b) + pickOf(g, "\n", " ", "}", string(b))
	default: // up to date
	}
	return string(b)
}

// bystanders are files that no run may touch.
func (g *G) bystanders() (r []FileSpec) {
	for i := g.n(0, 5); i > 0; i-- {
		f := FileSpec{Path: pickOf(g, "build/other.json", "build/s.json.bak", "build/s.js", "build/a.json~", "out/keep.txt", "keep", "out/deep/er/z.json", "build/s", "src/unrelated.kf", "build/.hidden", "o/tmp", "build/s.json.tmp", "build/a.b.json.1"), Data: g.junk()}
		switch g.n(0, 5) {
		case 0:
			f.Mode = 0o600
		case 1:
			f.Mode = 0o755
		}
		r = append(r, f)
	}
	if g.p(6) || g.newTexts(2) { // files the code may know of
		w := strings.Map(func(c rune) rune {
			if c == '/' || c == 0 {
				return -1
			}
			return c
		}, g.dictText())
		if g.b() {
			w = g.dictName()
		}
		w = strings.TrimPrefix(clip(w, 60), "./")
		p := pickOf(g, ".", ".", "", "src/.", "src/", "build/.", "build/", "out/", "out/.") + w + pickOf(g, "", "", ".json", ".yaml", ".toml", ".env", "rc", ".kf", ".tmp", ".lock")
		if b := filepath.Base(p); b != "." && b != ".." && len(b) < 100 && !hasStr([]string{"nope", "missing", "a", "third", "other", "nw1", "nw2", "nw3", "ro", "blocked", "adir", "cw", "real", "lnk", "lnk2"}, b) && utf8.ValidString(p) {
			r = append(r, FileSpec{Path: p, Data: pickOf(g, g.junk(), "database other; action x() public { select 1; }", "{\"output\": \"out\", \"owner\": \"x\", \"trace\": true}", "output: out\ntrace: true\n", "output = out\n")})
		}
	}
	if g.p(3) {
		r = append(r, FileSpec{Path: pickOf(g, "build", "out", "out/deep", "o"), Dir: true})
	}
	seen := map[string]bool{} // no path twice, no file where a directory is
	var u []FileSpec
	for _, f := range r {
		if !seen[f.Path] {
			seen[f.Path] = true
			u = append(u, f)
		}
	}
	return u
}

// goodRun compiles a valid source.
func (g *G) goodRun() RunSpec {
	if g.p(20) {
		return g.selfRun()
	}
	for {
		p, out := g.srcPath(), g.outDir()
		o := filepath.Clean(outOf(p, out))
		if o == filepath.Clean(p) || filepath.Clean(p) == "build" || o == "." || strings.HasPrefix(o, "..") {
			continue
		}
		if p == "s" && strings.HasPrefix(filepath.Clean(out), "s/") {
			continue
		}
		src := g.validSrc()
		r := RunSpec{Out: outOf(p, out), Src: src, Note: "valid"}
		arg, argOut := p, out
		switch g.n(0, 7) {
		case 0, 1:
			arg = "./" + p
		case 2:
			arg = "@DIR@/" + p
		case 3:
			if out != "" {
				argOut = "@DIR@/" + out
			}
		}
		r.Before = []FileSpec{{Path: p, Data: src}}
		if g.p(10) { // the source is a symbolic link, the output is named like the link
			rel, err := filepath.Rel(filepath.Dir(p), "real/data.kf")
			must(err)
			r.Before = []FileSpec{{Path: "real/data.kf", Data: src}, {Path: p, Link: rel}}
			r.Note = "valid, by a link"
		}
		switch {
		case len(r.Before) > 1:
		case g.p(12): // or another name of the same file
			r.Before = []FileSpec{{Path: "real/data.kf", Data: src}, {Path: p, Hard: "real/data.kf"}}
			r.Note = "valid, by another name"
		case g.p(10) && len(src) < 60000:
			r.Before[0].Fifo = true
			r.Note = "valid, from a pipe"
		}
		if m := matched[filepath.Base(p)]; m != "" && g.p(2) {
			r.Before = append(r.Before, FileSpec{Path: filepath.Join(filepath.Dir(p), m), Data: "database other;"})
		}
		if g.p(10) && !strings.HasPrefix(arg, "@DIR@") && len(r.Before) == 1 { // up from a link to a directory
			if g.b() {
				arg = "lnk2/../" + p
				r.Before[0].Path = "real/" + p
			} else if out == "out" || out == "out/deep/er" {
				argOut = "lnk2/../" + out
				r.Out = "real/" + r.Out
			}
			r.Before = append(r.Before, FileSpec{Path: "real/deep", Dir: true}, FileSpec{Path: "lnk2", Link: "real/deep"})
			r.Note = "valid, up from a link"
		}
		if out == "out" && argOut == out && g.p(3) { // so is the output directory
			argOut = "lnk"
			r.Before = append(r.Before, FileSpec{Path: "out", Dir: true}, FileSpec{Path: "lnk", Link: "out"})
			r.Note = "valid, to a link"
		}
		g.setting(&r)
		if r.Cwd != "" {
			up := strings.Repeat("../", strings.Count(r.Cwd, "/")+1)
			if !strings.HasPrefix(arg, "@DIR@") {
				arg = up + arg
			}
			switch {
			case argOut == "":
				r.Out = filepath.Join(r.Cwd, r.Out)
			case !strings.HasPrefix(argOut, "@DIR@"):
				argOut = up + argOut
			}
			if r.Out == p {
				continue
			}
		}
		r.Args = g.cliArgs(arg, argOut)
		if strings.HasPrefix(r.Note, "valid, in") && r.Cwd == "" && g.p(4) { // read from standard input
			r.Args = g.cliArgs("/dev/stdin", argOut)
			r.Stdin, r.Out = r.Before[0].Path, strings.TrimSuffix(r.Out, filepath.Base(r.Out))+"stdin.json"
		}
		switch g.n(0, 3) {
		case 0:
			r.Before = append(r.Before, FileSpec{Path: r.Out, Data: g.stale(src), Mode: pickOf(g, uint32(0), 0o600, 0o644)})
		case 1:
			if g.p(3) && len(r.Before) == 1 && !r.Before[0].Fifo && r.Stdin == "" {
				r.Before[0].Mode = 0o444
			}
		}
		return r
	}
}

// selfRun compiles a source that lies where its output goes: what is there
// afterwards is the JSON.
func (g *G) selfRun() RunSpec {
	out := pickOf(g, "build", "out", "out/deep/er", "o", "src")
	p := out + "/" + pickOf(g, "s.json", "a.b.json", "x.json", ".json")
	src := g.validSrc()
	r := RunSpec{Out: p, Src: src, Note: "valid, over itself", Before: []FileSpec{{Path: p, Data: src}}}
	arg, argOut := p, out
	switch g.n(0, 3) {
	case 0:
		arg = "./" + p
	case 1:
		arg = "@DIR@/" + p
	case 2:
		argOut = "@DIR@/" + out
	}
	if g.p(4) { // by a link of the same name
		r.Before = append(r.Before, FileSpec{Path: "s.d/" + filepath.Base(p), Link: "../" + p})
		arg = "s.d/" + filepath.Base(p)
	}
	if out == "build" && argOut == out && g.b() {
		argOut = ""
	}
	g.setting(&r)
	if r.Cwd != "" {
		up := strings.Repeat("../", strings.Count(r.Cwd, "/")+1)
		if !strings.HasPrefix(arg, "@DIR@") {
			arg = up + arg
		}
		if !strings.HasPrefix(argOut, "@DIR@") {
			argOut = up + out
		}
	}
	r.Args = g.cliArgs(arg, argOut)
	return r
}

// setting changes what should not matter about the surroundings of a run.
func (g *G) setting(r *RunSpec) {
	if g.p(6) || g.newTexts(2) { // variables the code may know of
		for i := g.n(1, 3); i > 0; i-- {
			n := strings.ToUpper(g.dictName())
			if g.b() {
				n = strings.TrimFunc(strings.Map(func(c rune) rune {
					if c == '=' || c == 0 || c < 32 {
						return -1
					}
					return c
				}, g.dictText()), func(c rune) bool { return c == ' ' })
			}
			if n != "" && !strings.HasPrefix(n, "GO") && !strings.HasPrefix(n, "LD_") {
				r.Env = append(r.Env, n+"="+pickOf(g, "1", "other", "true", "false", "", "0", "out", "/nonexistent", "2020-01-01", g.dictName()))
			}
		}
		r.Note += ", in a setting"
		if g.b() {
			return
		}
	}
	if g.p(4) {
		switch g.n(0, 6) {
		case 6: // variables that name another directory
			r.Before = append(r.Before, FileSpec{Path: "cw", Dir: true})
			for i := g.n(1, 3); i > 0; i-- {
				r.Env = append(r.Env, pickOf(g, "PWD", "PWD", "OLDPWD", "HOME", "TMPDIR", "XDG_CONFIG_HOME", "XDG_CACHE_HOME", "XDG_DATA_HOME", "KUNEIFORM_HOME", "KUNEIFORM_OUTPUT", "OUTPUT", "OUT", "OUT_DIR", "OUTPUT_DIR", "BUILD_DIR")+"="+pickOf(g, "@DIR@/cw", "@DIR@/cw", "cw", "@DIR@/cw/"))
			}
		case 0:
			r.Env = append(r.Env, "TMPDIR=/nonexistent", "HOME=/nonexistent")
		case 1:
			r.Env = append(r.Env, pickOf(g, "LANG=tr_TR.UTF-8", "LC_ALL=C", "PWD=/nonexistent", "PATH=", "TERM=dumb", "NO_COLOR=1", "KUNEIFORM_OUTPUT=other", "OUTPUT=other", "TRACE=1", "DEBUG=1", "GOMAXPROCS=1"))
		case 2:
			r.Umask = 1 + pickOf(g, 0o077, 0, 0o027, 0o002)
		case 3:
			r.Stdout = pickOf(g, "/dev/null", "/dev/full")
		default: // another directory to run in
			r.Cwd = pickOf(g, "cw", "cw/d")
			r.Before = append(r.Before, FileSpec{Path: r.Cwd, Dir: true})
			if g.b() {
				r.Before = append(r.Before, FileSpec{Path: r.Cwd + "/s.kf", Data: "database other;"})
			}
		}
		if !strings.HasSuffix(r.Note, ", in a setting") {
			r.Note += ", in a setting"
		}
	}
}

// badRun fails for one reason.
func (g *G) badRun() RunSpec {
	r := g.badRun1()
	if r.Note != "version" && r.Note != "help" {
		g.setting(&r)
		if r.Cwd != "" { // all paths are relative: make them so from there
			r.Cwd, r.Before = "", slices.DeleteFunc(r.Before, func(f FileSpec) bool { return strings.HasPrefix(f.Path, "cw") })
			r.Note = strings.TrimSuffix(r.Note, ", in a setting")
		}
	}
	return r
}

func (g *G) badRun1() RunSpec {
	p, out := g.srcPath(), g.outDir()
	if filepath.Clean(outOf(p, out)) == filepath.Clean(p) || filepath.Clean(p) == "build" {
		p, out = "src/s.kf", "out"
	}
	older := []FileSpec{}
	if g.b() {
		older = []FileSpec{{Path: outOf(p, out), Data: g.junk()}}
	}
	src := FileSpec{Path: p, Data: g.validSrc()}
	args := g.cliArgs(p, out)
	may := out
	if may == "" {
		may = "build"
	}
	r := RunSpec{Args: args, MayDir: may}
	switch k := g.n(0, 14); k {
	case 13, 14: // the source cannot be read to its end
		r.Code, r.Note = 4, "read error"
		r.Before = append(older, src)
		if !cliStrace {
			r.Args = g.cliArgs("adir/s", out)
			r.Before = append(r.Before, FileSpec{Path: "adir/s", Dir: true})
			break
		}
		r.On = filepath.Clean(p)
		r.Inject = pickOf(g, "read:error=EIO:when=1", "read:error=EIO:when=2", "read:error=ESTALE:when=2", "read:error=EIO", "openat:error=EACCES", "openat:error=EMFILE", "openat:error=EIO", "openat:error=ELOOP")
	case 12: // help: like the version
		r.Code, r.Note, r.MayDir, r.Why = 0, "help", "", "kuneiform <file>"
		r.Before = append(older, src)
		r.Args = append([]string{pickOf(g, "-h", "--help")}, r.Args...)
		if g.b() {
			r.Args = r.Args[:1]
		}
	case 0, 1, 2: // rejected
		src.Data = g.rejectedSrc()
		o := compile(src.Data)
		r.Code, r.Note = 5, "rejected source"
		if o.Err != nil {
			r.Why = o.Err.Error()
		}
		r.Before = append(older, src)
	case 3: // missing
		r.Args = g.cliArgs(filepath.Join(filepath.Dir(p), "missing-"+filepath.Base(p)), out)
		r.Code, r.Note, r.Why = 4, "missing source", "missing-"
		r.Before = append(older, src)
	case 4:
		r.Args = g.cliArgs(pickOf(g, "nodir/s.kf", "src/nope/nope.kf", "nope"), out)
		r.Code, r.Note = 4, "missing source"
		r.Before = older
	case 5: // a directory
		r.Args = g.cliArgs("adir/"+pickOf(g, "s", "d.kf"), out)
		r.Before = append(older, FileSpec{Path: "adir/s", Dir: true}, FileSpec{Path: "adir/d.kf", Dir: true})
		r.Code, r.Note = 4, "a directory as source"
	case 6: // unreadable
		src.Mode = 0o200 // writable only
		r.Code, r.Note = 4, "unreadable source"
		r.Before = append(older, src)
		if cliUser == 0 {
			r.Before[len(r.Before)-1] = FileSpec{Path: "adir/s", Dir: true}
			r.Args = g.cliArgs("adir/s", out)
		}
	case 7: // too few or too many arguments
		r.Before = append(older, src)
		r.Code, r.Note = 2, "number of arguments"
		if g.b() {
			r.Args = []string{}
			if out != "" {
				r.Args = []string{"-o", out}
			}
		} else {
			r.Args = append([]string{pickOf(g, "other", "src/other.kf", "./"+p)}, r.Args...)
			if g.p(3) {
				r.Args = append([]string{"third"}, r.Args...)
			}
		}
	case 8: // bad flags
		r.Before = append(older, src)
		r.Code, r.Note, r.MayDir = 1, "bad flag", ""
		bad := pickOf(g, "--nope", "-x", "--outputs=a", "--trace=maybe", "-q", "--version=nope", "--out", "-tz")
		if g.p(3) || g.newTexts(2) {
			if w := g.dictName(); !hasStr([]string{"help", "output", "trace", "version"}, w) {
				bad = "--" + w + pickOf(g, "", "=", "=1", "=out", "=true")
			}
		}
		if bad == "--out" {
			r.Args = []string{p, pickOf(g, "-o", "--output")}
		} else {
			r.Args = append([]string{bad}, r.Args...)
		}
	case 9: // unusable output directory
		r.Before = []FileSpec{src, {Path: "blocked", Data: g.junk()}}
		r.Args = g.cliArgs(p, pickOf(g, "blocked", "blocked/x", "blocked/x/y"))
		r.Code, r.Note, r.MayDir = 3, "output directory is a file", ""
	case 10: // unwritable parent
		if cliStrace && g.b() {
			r.Before = []FileSpec{src}
			r.On = pickOf(g, "nw1", "nw2/x", "nw3/x/y")
			r.Args = g.cliArgs(p, r.On[:3]+"/x/y")
			r.Inject = "mkdirat,mkdir:error=" + pickOf(g, "ENOSPC", "EIO", "EROFS", "EACCES", "EDQUOT")
			r.Code, r.Note, r.MayDir = 3, "output directory cannot be made", filepath.Dir(r.On)
			if r.MayDir == "." {
				r.MayDir = ""
			}
			break
		}
		r.Before = []FileSpec{src, {Path: "ro", Dir: true, Mode: 0o555}}
		r.Args = g.cliArgs(p, pickOf(g, "ro/x", "ro/x/y"))
		r.Code, r.Note, r.MayDir = 3, "output directory cannot be made", ""
		if cliUser == 0 {
			r.Before = []FileSpec{src, {Path: "blocked", Data: g.junk()}}
			r.Args = g.cliArgs(p, "blocked/x")
		}
	default:
		r.Code, r.Note, r.MayDir, r.Why = 0, "version", "", version.Version
		r.Before = append(older, src)
		switch g.n(0, 2) {
		case 0:
			r.Args = []string{pickOf(g, "-v", "--version", "--version=true")}
		case 1:
			r.Args = append([]string{pickOf(g, "-v", "--version")}, r.Args...)
		default:
			r.Args = []string{"-v", pickOf(g, "missing", "adir", "a")}
		}
	}
	return r
}

func init() {
	assume := []string{"the command runs as an unprivileged user where that is possible; otherwise the cases about missing permissions are replaced by others"}
	register(&Prop{ID: "C20", Quick: 2500, Thorough: 80000, Extra: everyName, Setup: func() error { err := cliSetup(); probeStrace(); return err }, Assume: assume,
		Rule: "sequences of 1 to 6 runs of the command in one directory: valid sources under all sorts of file names, output directories (default, existing, nested, missing), older output of any length, and failing runs in between, paths relative, absolute or through symbolic links; or two to four runs at once; sources as links, pipes, standard input, or where the output goes; names a shell would expand, .. after a link, other working directories, umasks and environments; after every run the whole directory tree is compared with the model. Non-trivial: a successful run with something already there.",
		Gen: func(t *rapid.T) *Case {
			g := newG(t)
			c := &Case{Kind: "runs", Files: g.bystanders(), Plain: true}
			if g.p(6) {
				return g.parallel(c)
			}
			for i := g.n(1, 5); i > 0; i-- {
				if g.p(4) {
					c.Runs = append(c.Runs, g.badRun())
				} else {
					c.Runs = append(c.Runs, g.goodRun())
					if g.p(3) { // again, perhaps with a shorter or longer source
						r := g.goodRun()
						p := c.Runs[len(c.Runs)-1]
						b := p.Before[0]
						b.Data = r.Src
						p.Src, p.Before = r.Src, append([]FileSpec{b}, slices.DeleteFunc(slices.Clone(p.Before), func(f FileSpec) bool { return f.Hard == "" })...)
						c.Runs = append(c.Runs, p)
						c.label("same-output-again")
					}
				}
			}
			finishCli(c)
			for _, r := range c.Runs {
				if r.Code == 0 && r.Out != "" {
					c.Plain = c.Plain && len(c.Files) == 0 && len(c.Runs) == 1 && len(r.Before) == 1
				}
			}
			return c
		},
		Check: cliCase,
	})

	register(&Prop{ID: "C21", Quick: 5000, Thorough: 150000, Setup: func() error { err := cliSetup(); probeStrace(); return err }, Assume: assume,
		Rule: "sequences of 1 to 5 runs of the command, most of them failing for one known reason each (rejected, missing, unreadable source, directory as source, wrong number of arguments, bad flags, unusable output directory, injected read and mkdir errors) or asking for the version or for help, with files already present; exit status, report and the directory tree are compared with the model. Non-trivial: all.",
		Gen: func(t *rapid.T) *Case {
			g := newG(t)
			c := &Case{Kind: "failures", Files: g.bystanders()}
			for i := g.n(0, 3); i > 0; i-- {
				if g.p(3) {
					c.Runs = append(c.Runs, g.goodRun())
				} else {
					c.Runs = append(c.Runs, g.badRun())
				}
			}
			c.Runs = append(c.Runs, g.badRun())
			if g.p(3) && len(c.Runs[0].Before) > 0 && c.Runs[0].Note == "valid" { // the source goes bad: the older output stays
				r := c.Runs[0]
				f := r.Before[0]
				f.Data, f.Mode = g.rejectedSrc(), 0
				r.Before, r.Src, r.Code, r.Note, r.Out = []FileSpec{f}, "", 5, "rejected source", ""
				c.Runs = append(c.Runs, r)
				c.label("older-output-kept")
			}
			finishCli(c)
			return c
		},
		Check: cliCase,
	})

	register(&Prop{ID: "C22", Quick: 2500, Thorough: 60000, Setup: func() error { err := cliSetup(); probeStrace(); return err }, Extra: everyByte, Assume: append(assume, "write faults come from file size limits, /dev/full, file modes and, where strace works, injected system call errors"),
		Rule:  "every byte at which writing the output of several sources can fail, by a file size limit; random sources and limits, also over older output; injected errors of every system call that may touch the output file; a directory, a read-only file, /dev/full, a dangling link, a named pipe whose reader stays or goes away in place of the output, an unwritable directory, a name that is too long. Non-trivial: a fault that lies within the document.",
		Gen:   genFault,
		Check: cliCase,
	})
}

// parallel makes a case of several runs that start at the same time: different
// sources, mostly into the same directory.
func (g *G) parallel(c *Case) *Case {
	c.Kind, c.Plain = "parallel", false
	out := pickOf(g, "", "out", "out/deep/er", "build")
	used := map[string]bool{}
	for i := g.n(2, 4); i > 0; i-- {
		n := pickOf(g, "s.kf", "schema.kf", "a.b.kf", "noext", "a.kf", "b.kf", "UP.KF", "s.txt.kf", "x1.kf", "x2.kf")
		o := out
		if g.p(6) {
			o = "o"
		}
		p := pickOf(g, "src/", "src/sub/") + n
		if used[outOf(p, o)] || used[p] {
			continue
		}
		used[outOf(p, o)], used[p] = true, true
		src := g.validSrc()
		r := RunSpec{Out: outOf(p, o), Src: src, Note: "valid", Args: g.cliArgs(p, o), Before: []FileSpec{{Path: p, Data: src}}}
		if len(c.Runs) > 0 && g.p(4) {
			src = g.rejectedSrc()
			may := o
			if may == "" {
				may = "build"
			}
			r = RunSpec{Note: "rejected source", Code: 5, Args: r.Args, Before: []FileSpec{{Path: p, Data: src}}, MayDir: may}
			if e := compile(src).Err; e != nil {
				r.Why = e.Error()
			}
		}
		if g.p(3) && r.Out != "" {
			r.Before = append(r.Before, FileSpec{Path: r.Out, Data: g.stale(src)})
		}
		c.Runs = append(c.Runs, r)
	}
	c.label("parallel")
	finishCli(c)
	return c
}

// finishCli drops files that stand in the way of each other.
func finishCli(c *Case) {
	dirs, files := map[string]bool{}, map[string]bool{}
	note := func(f FileSpec) bool {
		p := filepath.Clean(f.Path)
		if f.Dir {
			if files[p] {
				return false
			}
		} else if dirs[p] {
			return false
		}
		for d := filepath.Dir(p); d != "."; d = filepath.Dir(d) {
			if files[d] {
				return false
			}
		}
		if f.Dir {
			dirs[p] = true
		} else {
			files[p] = true
		}
		for d := filepath.Dir(p); d != "."; d = filepath.Dir(d) {
			dirs[d] = true
		}
		return true
	}
	var runs []RunSpec
	var fs []FileSpec
	clear := func(r RunSpec) bool {
		// the run alone must fit what is there
		saveD, saveF := copyMap(dirs), copyMap(files)
		ok := true
		for _, f := range r.Before {
			ok = ok && note(f)
		}
		if r.Out != "" {
			ok = ok && note(FileSpec{Path: r.Out})
		}
		if r.MayDir != "" {
			ok = ok && note(FileSpec{Path: r.MayDir, Dir: true})
		}
		if !ok {
			dirs, files = saveD, saveF
		}
		return ok
	}
	for _, r := range c.Runs {
		if clear(r) {
			runs = append(runs, r)
		}
	}
	for _, f := range c.Files {
		if note(f) {
			fs = append(fs, f)
		}
	}
	// a run may be the one that makes files[...] of another: later runs see
	// earlier outputs, which note has registered as files
	c.Runs, c.Files = runs, fs
	if len(c.Runs) == 0 {
		c.Plain = true
	}
	var notes []string
	for _, r := range c.Runs {
		notes = append(notes, r.Note)
	}
	sort.Strings(notes)
	c.Labels = append(c.Labels, uniq(notes)...)
}

func copyMap(m map[string]bool) map[string]bool {
	r := map[string]bool{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

func genFault(t *rapid.T) *Case {
	g := newG(t)
	c := &Case{Kind: "fault"}
	src := g.validSrc()
	p, out := "src/"+pickOf(g, "s.kf", "a.b.kf", "noext"), pickOf(g, "", "out", "out/deep")
	r := RunSpec{Args: g.cliArgs(p, out), Before: []FileSpec{{Path: p, Data: src}}, Out: outOf(p, out), Src: src, Code: 7}
	size := len(compile(src).JSON)
	old := FileSpec{Path: r.Out, Data: g.junk()}
	k := g.n(0, 13)
	if k >= 8 && k <= 10 && !cliStrace {
		k = 0
	}
	if (k == 3 || k == 4) && cliUser == 0 {
		k = 0
	}
	switch k {
	case 0, 1, 2:
		r.Note = "file size limit"
		r.Limit = 1 + g.n(0, size+2)
		if g.p(3) {
			r.Limit = size - g.n(0, 2) + 1
		}
		if r.Limit-1 >= size {
			r.Code = 0
			c.Plain = true
		}
		if g.b() {
			r.Before = append(r.Before, old)
		}
	case 3:
		r.Note = "read-only file in place"
		old.Mode = 0o444
		r.Before = append(r.Before, old)
	case 4:
		r.Note = "unwritable directory"
		r.Before = append(r.Before, FileSpec{Path: filepath.Dir(r.Out), Dir: true, Mode: 0o555})
	case 5:
		r.Note = "directory in place"
		r.Before = append(r.Before, FileSpec{Path: r.Out, Dir: true})
		if g.b() {
			r.Before = append(r.Before, FileSpec{Path: r.Out + "/x", Data: "x"})
		}
	case 6:
		r.Note = "full device in place"
		r.Before = append(r.Before, FileSpec{Path: r.Out, Link: "/dev/full"})
	case 7:
		r.Note = "dangling or circular link in place"
		r.Before = append(r.Before, FileSpec{Path: r.Out, Link: pickOf(g, "nodir/x", filepath.Base(r.Out))})
	case 8, 9, 10:
		call := pickOf(g, "write", "close", "openat", "write")
		r.Inject = call + ":error=" + map[string]string{"write": pickOf(g, "ENOSPC", "EIO", "EDQUOT", "EFBIG", "EPERM"), "close": pickOf(g, "EIO", "ENOSPC", "EDQUOT"), "openat": pickOf(g, "EACCES", "EMFILE", "ENOSPC", "EROFS", "ENOENT", "EISDIR")}[call]
		if g.p(8) { // calls that need not be made at all
			r.Inject = "ftruncate,fsync,fdatasync,rename,renameat,renameat2,fallocate,pwrite64,lseek,linkat:error=" + pickOf(g, "EIO", "ENOSPC", "EPERM")
			c.Plain = true
		}
		if g.p(3) && call == "write" {
			r.Inject += ":when=" + pickOf(g, "1", "2", "1+2")
		}
		if g.p(6) {
			r.Inject = "write:error=EINTR:when=1"
			r.Code = 0 // the call is made again
		}
		r.Note = "injected " + r.Inject
		if strings.Contains(r.Inject, "when=2") { // may be past the last write
			c.Plain = true
		}
		if g.b() {
			r.Before = append(r.Before, old)
		}
	case 11:
		r.Note = "name too long"
		n := strings.Repeat("n", g.n(251, 255))
		r.Before = []FileSpec{{Path: "src/" + n, Data: src}}
		r.Args = g.cliArgs("src/"+n, out)
		r.Out = outOf("src/"+n, out)
	case 13: // a reader that goes away with most of the document unwritten, or that does not
		r.Note, r.Code = "pipe in place, read to the end", 0
		f := FileSpec{Path: r.Out, Fifo: true, Drain: -1}
		if g.p(3) {
			r.Note, r.Code = "pipe in place, reader goes", 7
			f.Drain = pickOf(g, 1, 10, 4096, g.n(1, 60000))
			r.Src = wide(g.n(200000, 400000))
			r.Before[0].Data = r.Src
		}
		r.Before = append(r.Before, f)
	default:
		r.Note = "no fault"
		r.Code = 0
		c.Plain = true
	}
	c.Runs = []RunSpec{r}
	if g.p(3) { // a good run before and after
		ok := r
		ok.Limit, ok.Inject, ok.Code, ok.Note = 0, "", 0, "no fault"
		ok.Before = r.Before[:1]
		if r.Limit > 0 || r.Inject != "" {
			c.Runs = []RunSpec{ok, r, ok}
		}
	}
	n, _, _ := strings.Cut(r.Note, " write:")
	c.label(n)
	return c
}

// wide is a document with actions enough for about n bytes of JSON.
func wide(n int) string {
	var b strings.Builder
	b.WriteString("database wide;\n")
	for i := 0; i*200 < n+20000; i++ {
		fmt.Fprintf(&b, "action wide_%d($a) public {\n  select %d, '%s';\n}\n", i, i, strings.Repeat("w", 100))
	}
	return b.String()
}

// everyByte lets the writing fail at every single byte of some outputs.
func everyByte(e *env) (int, int, *Failure, []string) {
	if err := cliSetup(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	srcs := []string{"database d;", "database d;\ntable t { a int primary, b text maxlen(5), #i index(a), fk (a) ref t(a) on_delete cascade }\naction f($a) public view { select 1; }\n"}
	if e.tier == "thorough" {
		srcs = append(srcs, "database d;\nuse e { k: 'v' } as x;\n"+strings.Repeat("/* c */", 3)+"\ninit() { $r = x.m(@caller); insert into t values ('é中'); }\naction g($p, $q) owner { x.m($p + 1); f($q); }\naction f($a) { f('"+strings.Repeat("long ", 300)+"'); }\n")
	}
	type job struct{ c *Case }
	var jobs []*Case
	for _, s := range srcs {
		size := len(compile(s).JSON)
		for _, old := range []int{-1, size * 2} {
			for k := 0; k <= size; k++ {
				r := RunSpec{Args: []string{"s.kf", "-o", "out"}, Before: []FileSpec{{Path: "s.kf", Data: s}}, Out: "out/s.json", Src: s, Code: 7, Limit: k + 1, Note: fmt.Sprintf("limit at byte %d of %d", k, size)}
				if k == size {
					r.Code = 0
				}
				if old >= 0 {
					if k%3 != 0 && e.tier != "thorough" {
						continue
					}
					r.Before = append(r.Before, FileSpec{Path: "out/s.json", Data: strings.Repeat("o", old)})
				}
				jobs = append(jobs, &Case{Prop: "C22", Kind: "every-byte", Runs: []RunSpec{r}})
			}
		}
	}
	limited := len(jobs)
	if probeStrace(); cliStrace { // every call that may touch the output fails
		calls := []string{"write", "pwrite64", "writev", "close", "openat", "ftruncate", "fsync", "fdatasync", "rename,renameat,renameat2", "fchmod", "unlink,unlinkat", "linkat", "fstat,newfstatat", "lseek", "fallocate", "chmod,fchmodat", "symlinkat", "copy_file_range", "sendfile", "fcntl", "flock", "epoll_ctl"}
		errs := []string{"EIO", "ENOSPC", "EPERM"}
		if e.tier == "thorough" {
			errs = append(errs, "EACCES", "EINVAL", "ENOENT", "EBADF", "EEXIST", "ENOSYS", "EROFS", "EDQUOT")
		}
		for _, call := range calls {
			for _, er := range errs {
				s := srcs[1]
				j := string(compile(s).JSON)
				for _, old := range []string{"", j[:len(j)/2], strings.Repeat("o", 2*len(j)), j + "}"} {
					r := RunSpec{Args: []string{"s.kf", "-o", "out"}, Before: []FileSpec{{Path: "s.kf", Data: s}}, Out: "out/s.json", Src: s, Code: 7, Inject: call + ":error=" + er, Note: "injected " + call + " " + er}
					if old != "" {
						r.Before = append(r.Before, FileSpec{Path: "out/s.json", Data: old})
					}
					jobs = append(jobs, &Case{Prop: "C22", Kind: "every-call", Runs: []RunSpec{r}})
				}
			}
		}
	}
	if f := cliJobs(jobs); f != nil {
		return len(jobs), len(jobs), f, nil
	}
	b, _ := json.Marshal(jobs[len(jobs)/2].Runs)
	return len(jobs), len(jobs), nil, []string{fmt.Sprintf("every byte of %d documents: %d runs; every of several system calls on the output, with several errors and older outputs: %d runs; for example %s", len(srcs), limited, len(jobs)-limited, clip(string(b), 400))}
}

// everyName compiles a source under names with every ASCII character, and
// every character that is special somewhere, at every place, and likewise to
// output directories of such names.
func everyName(e *env) (int, int, *Failure, []string) {
	if err := cliSetup(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var chars []string
	for c := 1; c < 128; c++ {
		if c != '/' {
			chars = append(chars, string(rune(c)))
		}
	}
	for _, c := range runeSet() {
		if c >= 128 && (c < 0x100 || c >= 0x2000 && c < 0x2070 || c == 0xFEFF || c == 0xFFFD || c == 0x3000 || c%257 == 0) {
			chars = append(chars, string(c))
		}
	}
	chars = append(chars, "..", "  ", "%s", "%2e", "%20", "\\n", "é", "e\u0301", "中", "json", ".json", ".kf", "build", "-o", "--")
	var names []string
	for _, c := range chars {
		names = append(names, c+"ab.kf", "a"+c+"b.kf", "ab"+c+".kf", "ab.k"+c, "ab.kf"+c, c+".kf", c)
	}
	seen := map[string]bool{".": true, "..": true}
	var jobs []*Case
	add := func(p, out string, args ...string) {
		k := p + "\x00" + out
		if seen[k] {
			return
		}
		seen[k] = true
		src := fmt.Sprintf("database d%d;", len(seen))
		r := RunSpec{Args: args, Before: []FileSpec{{Path: p, Data: src}}, Out: outOf(p, out), Src: src, Note: "valid"}
		if n := len(jobs); n == 0 || len(jobs[n-1].Runs) >= 8 {
			jobs = append(jobs, &Case{Prop: "C20", Kind: "runs"})
		}
		c := jobs[len(jobs)-1]
		c.Runs = append(c.Runs, r)
	}
	for _, n := range names {
		if len(n) < 200 && n != "." && n != ".." {
			add("src/"+n, "", "src/"+n)
		}
	}
	for _, c := range chars {
		for _, o := range []string{c + "o", "o" + c, "o" + c + "p", "o/" + c + "q", c} {
			if o != "." && o != ".." && !strings.HasSuffix(o, "/..") && !strings.HasSuffix(o, "/.") && filepath.Clean(o) != "src" {
				add("src/s.kf", o, "src/s.kf", "--output="+o)
			}
		}
	}
	runs := 0
	for _, c := range jobs {
		runs += len(c.Runs)
	}
	if f := cliJobs(jobs); f != nil {
		for _, r := range f.Case.Runs { // the one run, if it fails alone
			c := &Case{Prop: "C20", Kind: "runs", Runs: []RunSpec{r}}
			if m := cliCase(c); m != "" {
				f = &Failure{c, m}
				break
			}
		}
		return runs, runs, f, nil
	}
	return runs, runs, nil, []string{fmt.Sprintf("%d runs with sources and output directories named by every special character at every place", runs)}
}

// cliJobs decides cases of runs, several at a time.
func cliJobs(jobs []*Case) *Failure {
	results := make([]string, len(jobs))
	next := make(chan int)
	done := make(chan bool)
	for w := 0; w < 8; w++ {
		go func() {
			for i := range next {
				results[i] = cliCase(jobs[i])
			}
			done <- true
		}()
	}
	for i := range jobs {
		next <- i
	}
	close(next)
	for w := 0; w < 8; w++ {
		<-done
	}
	for i, m := range results {
		if m != "" {
			return &Failure{jobs[i], m}
		}
	}
	return nil
}
