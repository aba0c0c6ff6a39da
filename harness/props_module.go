package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"syscall"
	"time"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// C23: the module runs in node; a line of JSON per call goes in, one comes out.

const nodeDriver = `"use strict";
globalThis.require = require;
globalThis.fs = require("fs");
globalThis.path = require("path");
globalThis.TextEncoder = require("util").TextEncoder;
globalThis.TextDecoder = require("util").TextDecoder;
globalThis.performance ??= require("perf_hooks").performance;
globalThis.crypto ??= require("crypto").webcrypto;
require(process.argv[2]);
const ascii = (s) => s.replace(/[^\x20-\x7e]/g, (c) => "\\u" + c.charCodeAt(0).toString(16).padStart(4, "0"));
const say = (o) => fs.writeSync(1, "\n@@" + ascii(JSON.stringify(o)) + "\n");
(async () => {
  const go = new Go();
  go.exit = (code) => say({ fatal: "the module exited with " + code });
  const mod = await WebAssembly.compile(fs.readFileSync(process.argv[3]));
  const inst = await WebAssembly.instantiate(mod, go.importObject);
  go.run(inst).then(() => say({ fatal: "the module ended" }));
  for (let i = 0; i < 6000 && globalThis.parseKuneiform === undefined; i++)
    await new Promise((ok) => setTimeout(ok, 5));
  say({ ready: typeof globalThis.parseKuneiform });
  const rl = require("readline").createInterface({ input: process.stdin, crlfDelay: Infinity });
  rl.on("line", (l) => {
    let r;
    try {
      r = globalThis.parseKuneiform(...JSON.parse(l));
    } catch (e) {
      say({ fatal: "the call threw: " + e });
      return;
    }
    if (r !== null && typeof r === "object") {
      say({ type: "object", json: r.json === undefined ? null : typeof r.json === "string" ? r.json : "not a string: " + String(r.json),
        error: r.error === undefined ? null : String(r.error) });
    } else say({ type: typeof r, text: String(r) });
  });
  rl.on("close", () => process.exit(0));
})();
`

type wasmReply struct {
	Fatal string  `json:"fatal"`
	Ready string  `json:"ready"`
	Type  string  `json:"type"`
	Text  string  `json:"text"`
	JSON  *string `json:"json"`
	Error *string `json:"error"`
}

type wasmModule struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	past []string // calls so far
}

var wasmMod *wasmModule

func startWasm() (*wasmModule, string) {
	dir := caseDir()
	js := dir + "/drive.js"
	must(os.WriteFile(js, []byte(nodeDriver), 0o644))
	m := &wasmModule{cmd: exec.Command("node", "--stack-size=3000", js, os.Getenv("KF_WASM_EXEC"), os.Getenv("KF_WASM"))}
	m.cmd.Dir = dir
	m.cmd.Env = []string{"PATH=" + os.Getenv("PATH"), "HOME=" + dir}
	m.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	in, err := m.cmd.StdinPipe()
	must(err)
	out, err := m.cmd.StdoutPipe()
	must(err)
	m.cmd.Stderr = os.Stderr
	m.in, m.out = in, bufio.NewReaderSize(out, 1<<20)
	must(m.cmd.Start())
	r, msg := m.read()
	if msg != "" {
		m.stop()
		return nil, "loading the module: " + msg
	}
	if r.Ready != "function" {
		m.stop()
		return nil, "after loading, parseKuneiform is: " + r.Ready
	}
	return m, ""
}

func (m *wasmModule) stop() {
	m.in.Close()
	m.cmd.Process.Kill()
	m.cmd.Wait()
}

func (m *wasmModule) read() (*wasmReply, string) {
	type res struct {
		l   string
		err error
	}
	ch := make(chan res, 1)
	go func() {
		for {
			l, err := m.out.ReadString('\n')
			if err != nil || strings.HasPrefix(l, "@@") {
				ch <- res{l, err}
				return
			}
		}
	}()
	select {
	case r := <-ch:
		if r.err != nil {
			return nil, "the module died"
		}
		w := &wasmReply{}
		if err := json.Unmarshal([]byte(r.l[2:]), w); err != nil {
			panic(fmt.Sprintf("reply %q: %v", r.l, err))
		}
		if w.Fatal != "" {
			return nil, w.Fatal
		}
		return w, ""
	case <-time.After(200 * time.Second):
		return nil, "no answer within 200 s"
	}
}

// jsText is a JavaScript string literal; "\x01D" and a hex digit stand for a
// lone surrogate, which no Go string can hold.
func jsText(s string) string {
	b, _ := json.Marshal(s)
	t := string(b)
	return strings.NewReplacer(loneHi, `\ud83d`, loneLo, `\udc00`).Replace(t)
}

// private characters that stand for lone surrogates
const loneHi, loneLo = "\U0010FF01", "\U0010FF02"

// asRead is what the text of a JavaScript string is in UTF-8.
func asRead(s string) string {
	return strings.NewReplacer(loneHi+loneLo, "\U0001f400", loneHi, "�", loneLo, "�").Replace(s)
}

// wasmCall makes one call; a call is a source, or "n:..." of a number of
// arguments other than one.
func (m *wasmModule) call(c string) string {
	m.past = append(m.past, c)
	kind, src := c[0], c[1:]
	var line string
	switch kind {
	case 's':
		line = "[" + jsText(src) + "]"
	case 'n': // wrong number of arguments
		n := int(src[0] - '0')
		var a []string
		for i := 0; i < n; i++ {
			a = append(a, jsText(src[1:]))
		}
		line = "[" + strings.Join(a, ",") + "]"
	case 'v': // something that is not a text
		line = "[" + src + "]"
	}
	if _, err := io.WriteString(m.in, line+"\n"); err != nil {
		return "the module died"
	}
	r, msg := m.read()
	if msg != "" {
		return msg
	}
	switch kind {
	case 'n':
		if r.Type != "string" || strings.TrimSpace(r.Text) == "" {
			return fmt.Sprintf("a wrong number of arguments gives no explaining string: %+v", *r)
		}
		return ""
	case 'v':
		return ""
	}
	if r.Type != "object" {
		return fmt.Sprintf("the result is not an object: %s %q", r.Type, r.Text)
	}
	js, es := "", ""
	if r.JSON != nil {
		js = *r.JSON
	}
	if r.Error != nil {
		es = *r.Error
	}
	o := compile(asRead(src))
	switch {
	case o.Panicked != "":
		return "native: " + o.Panicked
	case o.Err != nil:
		if js != "" {
			return fmt.Sprintf("native gives error %q, the module JSON %s", clip(o.Err.Error(), 300), clip(js, 300))
		}
		text := o.Err.Error()
		if !utf8.ValidString(text) {
			text = ""
		}
		if es == "" || !strings.Contains(es, text) {
			return fmt.Sprintf("the module's error is not the native one %s", firstDiff(es, text))
		}
	default:
		if es != "" {
			return fmt.Sprintf("native accepts, the module gives error %q", clip(es, 300))
		}
		if js != string(o.JSON) {
			return fmt.Sprintf("the module's JSON is not the native one %s", firstDiff(js, string(o.JSON)))
		}
	}
	return ""
}

func runCalls(m *wasmModule, calls []string) string {
	for i, c := range calls {
		if msg := m.call(c); msg != "" {
			return fmt.Sprintf("call %d of %d: %s", i+1, len(calls), msg)
		}
	}
	return ""
}

func init() {
	register(&Prop{ID: "C23", Quick: 1500, Thorough: 40000,
		Rule: "sequences of 1 to 6 calls of one loaded module: valid, rule-breaking, corrupted and arbitrary sources with any Unicode (lone surrogates included), wrong numbers of arguments, other values in between; a module serves up to 40 sequences before a new one is loaded. Non-trivial: more than one call, or a source that is not empty.",
		Setup: func() error {
			if os.Getenv("KF_WASM") == "" {
				return fmt.Errorf("KF_WASM is not set")
			}
			for _, f := range []string{"KF_WASM", "KF_WASM_EXEC"} {
				if _, err := os.Stat(os.Getenv(f)); err != nil {
					return err
				}
			}
			return exec.Command("node", "--version").Run()
		},
		Cleanup: func() {
			if wasmMod != nil {
				wasmMod.stop()
			}
		},
		Gen: func(t *rapid.T) *Case {
			g := newG(t)
			c := &Case{Kind: "calls"}
			for i := g.n(1, 6); i > 0; i-- {
				src, kind := "", ""
				g.big = ""
				switch g.n(0, 9) {
				case 0:
					kind = "corrupted"
					src, _ = g.syntaxCase(true)
				case 1:
					kind = "soup"
					src = g.soupText(g.n(0, 20))
					if g.b() {
						src = "database d;" + src
					}
				case 2:
					kind = "rule-breaking"
					if g.p(4) {
						src = pickOf(g, g.rejectedSrc(), g.muchToTell())
						break
					}
					src = g.denseDoc(dense{true, true, true, true, true, true, 2, 2, 2, 3}).src(g.layout())
				case 3:
					kind = "sql"
					src = "database d; action a($a) { " + g.brokenStmt("") + "; }"
				case 4:
					kind = "text"
					lit := rapid.StringN(0, 40, -1).Draw(t, "text")
					if g.p(3) {
						lit += pickOf(g, loneHi, loneLo, loneHi+loneLo, loneLo+loneHi, "\ufeff", "\u2028", "\u0000", "�")
					}
					lit = strings.NewReplacer("'", "", "\\", "").Replace(lit)
					src = pickOf(g, "database d; table t { a text default('"+lit+"') }", "database d; use e { k: '"+lit+"' } as x;", "database d; /* "+lit+" */", lit, lit+"database d;", "database d; @a(b='"+lit+"') action a() { a('"+lit+"'); select '"+strings.ReplaceAll(lit, ";", "")+"'; }")
				case 5:
					kind = "wrong-count"
					c.Srcs = append(c.Srcs, "n"+pickOf(g, "0", "2", "3")+pickOf(g, "", "database d;", "x"))
					c.label(kind)
					continue
				case 6:
					if g.p(3) {
						kind = "other-value"
						c.Srcs = append(c.Srcs, "v"+pickOf(g, "1", "null", "true", "{}", "[]", "[\"database d;\"]", "1.5e300"))
						c.label(kind)
						continue
					}
					fallthrough
				default:
					kind = "valid"
					g.chooseBig(3, "tables", "acts", "cols", "stmts", "lit")
					src = g.doc().src(g.layout())
				}
				src = limitSQLParens(src)
				if !utf8.ValidString(src) {
					src = strings.ToValidUTF8(src, "?")
				}
				c.Srcs = append(c.Srcs, "s"+src)
				c.label(kind)
			}
			c.Plain = len(c.Srcs) == 1 && c.Srcs[0] == "s"
			return c
		},
		Check: func(c *Case) string {
			if wasmMod != nil && len(wasmMod.past) > 140 {
				wasmMod.stop()
				wasmMod = nil
			}
			if wasmMod == nil {
				m, msg := startWasm()
				if msg != "" {
					return msg
				}
				wasmMod = m
			}
			before := append([]string{}, wasmMod.past...)
			msg := runCalls(wasmMod, c.Srcs)
			if msg == "" {
				return ""
			}
			wasmMod.stop()
			wasmMod = nil
			// alone in a new module?
			m, smsg := startWasm()
			if smsg != "" {
				return smsg
			}
			alone := runCalls(m, c.Srcs)
			m.stop()
			if alone != "" {
				return alone
			}
			c.Srcs = append(before, c.Srcs...) // it needs the earlier calls
			return "after earlier calls: " + msg
		},
	})
}
