package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"runtime/debug"
	"strings"

	"github.com/kwilteam/kuneiform/kfparser"
	"github.com/kwilteam/kuneiform/kfparser/ast"
	"github.com/kwilteam/kuneiform/schema"
	"github.com/kwilteam/kuneiform/utils"
)

// Out is what the code under test did with one source.
type Out struct {
	Sch      *schema.Schema
	Err      error
	JSON     []byte
	JSONErr  error
	Panicked string
}

func call(f func()) (panicked string) {
	defer func() {
		if r := recover(); r != nil {
			panicked = fmt.Sprintf("panic: %v\n%s", r, clip(string(debug.Stack()), 2500))
		}
	}()
	f()
	return ""
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func compileMode(src string, mode kfparser.Mode, def bool) *Out {
	o := &Out{}
	o.Panicked = call(func() {
		var a ast.Ast
		if def {
			a, o.Err = kfparser.Parse(src)
		} else {
			a, o.Err = kfparser.ParseKF(src, nil, mode)
		}
		if o.Err == nil {
			if s, ok := a.(*schema.Schema); ok {
				o.Sch = s
			}
			if a != nil && !(reflect.ValueOf(a).Kind() == reflect.Ptr && reflect.ValueOf(a).IsNil()) {
				o.JSON, o.JSONErr = a.ToJSON()
			}
		}
	})
	return o
}

func compile(src string) *Out { return compileMode(src, 0, true) }

// accepted says why the outcome is not an accepted schema with JSON.
func (o *Out) accepted() string {
	switch {
	case o.Panicked != "":
		return "compilation panicked: " + o.Panicked
	case o.Err != nil:
		return "a valid source was rejected: " + clip(o.Err.Error(), 600)
	case o.JSON == nil || o.JSONErr != nil:
		return fmt.Sprintf("accepted, but there is no JSON (error %v)", o.JSONErr)
	}
	return ""
}

var errKinds = map[string]error{
	"syntax":           utils.ErrInvalidSyntax,
	"multi-init":       schema.ErrMultiInit,
	"visibility":       schema.ErrActionVisibilityAlreadySet,
	"mutability":       schema.ErrActionMutabilityAlreadySet,
	"auxiliary":        schema.ErrActionAuxiliaryAlreadySet,
	"attr-not-allowed": schema.ErrAttributeNotAllow,
	"dup-table":        schema.ErrDuplicateTable,
	"dup-ext":          schema.ErrDuplicateExtension,
	"dup-column":       schema.ErrDuplicateColumn,
	"dup-attr":         schema.ErrDuplicateAttribute,
	"dup-index":        schema.ErrDuplicateIndex,
	"dup-action":       schema.ErrDuplicateAction,
	"dup-param":        schema.ErrDuplicateParam,
	"dup-fk-action":    schema.ErrDupFKAction,
	"dup-var":          schema.ErrDuplicateVariable,
	"no-table":         schema.ErrTableNotFound,
	"no-column":        schema.ErrColumnNotFound,
	"no-action":        schema.ErrActionNotFound,
	"no-var":           schema.ErrVariableNotFound,
	"no-ext":           schema.ErrExtensionNotFound,
}

// kindsOf names the documented error kinds that err is.
func kindsOf(err error) (r []string) {
	for _, k := range sortedKeys(errKinds) {
		if errors.Is(err, errKinds[k]) {
			r = append(r, k)
		}
	}
	return
}

// verdict compares an outcome with the acceptable error kinds (none: must be
// accepted; "any": any error).
func (o *Out) verdict(errs []string) string {
	if o.Panicked != "" {
		return "compilation panicked: " + o.Panicked
	}
	if len(errs) == 0 {
		return o.accepted()
	}
	if o.Err == nil {
		return fmt.Sprintf("accepted, but must be rejected as %s", strings.Join(errs, " or "))
	}
	got := kindsOf(o.Err)
	for _, e := range errs {
		if e == "any" {
			return ""
		}
		for _, k := range got {
			if k == e {
				return ""
			}
		}
	}
	return fmt.Sprintf("must be rejected as %s, but the error is: %s", strings.Join(errs, " or "), clip(o.Err.Error(), 500))
}

func decode(b []byte) (any, error) {
	v, err := decodeRaw(b)
	return normal(v), err
}

// decodeRaw tells empty lists, nulls and missing fields apart.
func decodeRaw(b []byte) (any, error) {
	var v any
	d := json.NewDecoder(strings.NewReader(string(b)))
	d.UseNumber()
	if err := d.Decode(&v); err != nil {
		return nil, err
	}
	if d.More() {
		return nil, errors.New("trailing data")
	}
	return v, nil
}

// diff finds the first difference of two decoded JSON values.
func diff(path string, got, want any) string {
	switch w := want.(type) {
	case map[string]any:
		g, ok := got.(map[string]any)
		if !ok {
			return fmt.Sprintf("%s: got %s, want %s", path, show(got), show(want))
		}
		for _, k := range sortedKeys(w) {
			if _, ok := g[k]; !ok {
				return fmt.Sprintf("%s.%s: missing, want %s", path, k, show(w[k]))
			}
			if d := diff(path+"."+k, g[k], w[k]); d != "" {
				return d
			}
		}
		for _, k := range sortedKeys(g) {
			if _, ok := w[k]; !ok {
				return fmt.Sprintf("%s.%s: unexpected %s", path, k, show(g[k]))
			}
		}
		return ""
	case []any:
		g, ok := got.([]any)
		if !ok {
			return fmt.Sprintf("%s: got %s, want %s", path, show(got), show(want))
		}
		for i := range w {
			if i >= len(g) {
				return fmt.Sprintf("%s[%d]: missing, want %s", path, i, show(w[i]))
			}
			if d := diff(fmt.Sprintf("%s[%d]", path, i), g[i], w[i]); d != "" {
				return d
			}
		}
		if len(g) > len(w) {
			return fmt.Sprintf("%s[%d]: unexpected %s", path, len(w), show(g[len(w)]))
		}
		return ""
	}
	if !reflect.DeepEqual(got, want) {
		return fmt.Sprintf("%s: got %s, want %s", path, show(got), show(want))
	}
	return ""
}

func show(v any) string {
	b, _ := json.Marshal(v)
	return clip(string(b), 300)
}

func sortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sortStrings(r)
	return r
}

// jsonMatches compares the JSON of an outcome with the expected document,
// restricted to the given top-level keys (none: everything).
func (o *Out) jsonMatches(want json.RawMessage, keys ...string) string {
	if m := o.accepted(); m != "" {
		return m
	}
	g, err := decode(o.JSON)
	if err != nil {
		return "output is not valid JSON: " + err.Error()
	}
	w, err := decode(want)
	if err != nil {
		panic(err)
	}
	gm, ok := g.(map[string]any)
	if !ok {
		return "output is not a JSON object"
	}
	wm := w.(map[string]any)
	if len(keys) == 0 {
		return diff("$", gm, wm)
	}
	for _, k := range keys {
		if d := diff("$."+k, gm[k], wm[k]); d != "" && !(gm[k] == nil && wm[k] == nil) {
			return d
		}
	}
	return ""
}
