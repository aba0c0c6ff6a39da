package main

import (
	"encoding/json"
	"os"

	"github.com/kwilteam/kuneiform/schema"
)

func scratchDir() string {
	if d := os.Getenv("KF_SCRATCH"); d != "" {
		return d
	}
	return os.TempDir()
}

// schemaAny is the document a schema stands for, with the field names written
// down here.
func schemaAny(s *schema.Schema) map[string]any {
	var ts, as, xs []any
	for i := range s.Tables {
		ts = append(ts, tableAny(&s.Tables[i]))
	}
	for i := range s.Actions {
		as = append(as, actionAny(&s.Actions[i]))
	}
	for i := range s.Extensions {
		xs = append(xs, extAny(&s.Extensions[i]))
	}
	return map[string]any{"owner": s.Owner, "name": s.Name, "tables": ts, "actions": as, "extensions": xs}
}

func extAny(x *schema.Extension) map[string]any {
	var cfg []any
	for _, c := range x.Config {
		cfg = append(cfg, map[string]any{"argument": c.Argument, "value": c.Value})
	}
	return map[string]any{"name": x.Name, "alias": x.Alias, "config": cfg}
}

func columnAny(c *schema.Column) map[string]any {
	var as []any
	for i := range c.Attributes {
		as = append(as, attrAny(&c.Attributes[i]))
	}
	return map[string]any{"name": c.Name, "type": string(c.Type), "attributes": as}
}

func attrAny(a *schema.Attribute) map[string]any {
	m := map[string]any{"type": string(a.Type)}
	if a.Value != nil {
		m["value"] = a.Value
		if _, ok := a.Value.(string); !ok {
			b, err := json.Marshal(a.Value)
			must(err)
			v, err := decodeRaw(b)
			must(err)
			m["value"] = v
		}
	}
	return m
}

func indexAny(x *schema.Index) map[string]any {
	return map[string]any{"name": x.Name, "type": string(x.Type), "columns": strs(x.Columns)}
}

func fkAny(f *schema.ForeignKey) map[string]any {
	var acts []any
	for _, a := range f.Actions {
		acts = append(acts, map[string]any{"on": string(a.On), "do": string(a.Do)})
	}
	return map[string]any{"child_keys": strs(f.ChildKeys), "parent_keys": strs(f.ParentKeys), "parent_table": f.ParentTable, "actions": acts}
}

func tableAny(t *schema.Table) map[string]any {
	var cols, idx, fks []any
	for i := range t.Columns {
		cols = append(cols, columnAny(&t.Columns[i]))
	}
	for i := range t.Indexes {
		idx = append(idx, indexAny(&t.Indexes[i]))
	}
	for i := range t.ForeignKeys {
		fks = append(fks, fkAny(&t.ForeignKeys[i]))
	}
	return map[string]any{"name": t.Name, "columns": cols, "indexes": idx, "foreign_keys": fks}
}

func actionAny(a *schema.Action) map[string]any {
	var aux []any
	for _, x := range a.Auxiliaries {
		aux = append(aux, string(x))
	}
	return map[string]any{"name": a.Name, "annotations": strs(a.Annotations), "inputs": strs(a.Inputs), "public": a.Public,
		"mutability": string(a.Mutability), "auxiliaries": aux, "statements": strs(a.Statements)}
}
