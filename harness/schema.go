package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/bokwoon95/sqddl/ddl"
)

// The abstract catalog shared with spec/Schema.tla.

type ACol struct {
	B    string   `json:"b"`    // base type
	A    []string `json:"a"`    // type arguments
	NN   bool     `json:"nn"`   // NOT NULL
	Def  string   `json:"def"`  // default
	ID   string   `json:"id"`   // identity clause
	Coll string   `json:"coll"` // collation
	Gen  string   `json:"gen"`  // generated expression
	AI   bool     `json:"ai"`   // auto increment
}

type ACon struct {
	K    string   `json:"k"` // PK, UQ, FK, CK
	Cols []string `json:"cols"`
	RT   string   `json:"rt"` // referenced table (key)
	RC   []string `json:"rc"`
	Upd  string   `json:"upd"`
	Del  string   `json:"del"`
	Dfr  bool     `json:"dfr"`
	Idf  bool     `json:"idf"`
	NV   bool     `json:"nv"` // not validated
	Expr string   `json:"expr"`
	Full bool     `json:"full,omitempty"` // MATCH FULL
	Excl *AExcl   `json:"excl,omitempty"` // a CK that is an exclusion
}

// AExcl is what an exclusion constraint of Postgres consists of.
type AExcl struct {
	Kind  string   `json:"kind"`
	Elems []string `json:"elems"`
	Ops   []string `json:"ops"`
	Pred  string   `json:"pred"`
}

// canon is an exclusion in one spelling, and the columns it mentions.
func (x *AExcl) canon(d string) (string, []string) {
	var parts []string
	refs := []string{}
	for i, e := range x.Elems {
		e, r := canonExpr(d, e)
		parts, refs = append(parts, e+" WITH "+x.Ops[i]), append(refs, r...)
	}
	pred, r := canonExpr(d, x.Pred)
	return "EXCLUDE USING " + x.Kind + " (" + strings.Join(parts, ", ") + ") WHERE (" + pred + ")", append(refs, r...)
}

type AIdx struct {
	U    bool     `json:"u"`
	Cols []string `json:"cols"`
	Desc []bool   `json:"desc"`
	Pred string   `json:"pred"`
	Inc  []string `json:"inc"`
	Kind string   `json:"kind"`
}

type ATab struct {
	O  []string        `json:"o"` // column order
	C  map[string]ACol `json:"c"`
	K  map[string]ACon `json:"k"`
	I  map[string]AIdx `json:"i"`
	IG []string        `json:"ig"` // constraints and indexes declared but not for this dialect
}

type ACat struct {
	S []string        `json:"s"`
	T map[string]ATab `json:"t"`
}

func (t ATab) norm() ATab {
	t.O, t.IG = strs(t.O), strs(t.IG)
	if t.C == nil {
		t.C = map[string]ACol{}
	}
	for n, c := range t.C {
		c.A = strs(c.A)
		t.C[n] = c
	}
	if t.K == nil {
		t.K = map[string]ACon{}
	}
	for n, c := range t.K {
		c.Cols, c.RC = strs(c.Cols), strs(c.RC)
		t.K[n] = c
	}
	if t.I == nil {
		t.I = map[string]AIdx{}
	}
	for n, x := range t.I {
		x.Cols, x.Inc = strs(x.Cols), strs(x.Inc)
		for len(x.Desc) < len(x.Cols) {
			x.Desc = append(x.Desc, false)
		}
		if x.Desc == nil {
			x.Desc = []bool{}
		}
		t.I[n] = x
	}
	return t
}

func (c ACat) norm() ACat {
	c.S = strs(c.S)
	if c.T == nil {
		c.T = map[string]ATab{}
	}
	for n, t := range c.T {
		c.T[n] = t.norm()
	}
	return c
}

func (c ACat) clone() ACat {
	b, err := json.Marshal(c)
	must(err)
	var d ACat
	must(json.Unmarshal(b, &d))
	return d.norm()
}

func (c ACat) keys() []string {
	var out []string
	for k := range c.T {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func sortedKeys[T any](m map[string]T) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func splitKey(key string) (schema, name string) {
	schema, name, _ = strings.Cut(key, ".")
	return
}

func curSchema(dialect string) string {
	switch dialect {
	case "postgres":
		return "public"
	case "mysql":
		return "db"
	case "sqlserver":
		return "dbo"
	}
	return ""
}

func defColl(dialect string) string {
	switch dialect {
	case "postgres":
		return "en_US.utf8"
	case "mysql":
		return "utf8mb4_0900_ai_ci"
	case "sqlserver":
		return "SQL_Latin1_General_CP1_CI_AS"
	}
	return ""
}

// typeText is a type in SQL, the arguments of which stand before what follows
// the name proper.
func typeText(c ACol) string {
	if len(c.A) == 0 {
		return c.B
	}
	base, rest := c.B, ""
	for _, s := range []string{"[]", " UNSIGNED", " WITH TIME ZONE", " WITHOUT TIME ZONE"} {
		if len(base) > len(s) && strings.EqualFold(base[len(base)-len(s):], s) {
			base, rest = base[:len(base)-len(s)], base[len(base)-len(s):]
		}
	}
	return base + "(" + strings.Join(c.A, ",") + ")" + rest
}

func conType(k string) string {
	switch k {
	case "PK":
		return ddl.PRIMARY_KEY
	case "UQ":
		return ddl.UNIQUE
	case "FK":
		return ddl.FOREIGN_KEY
	}
	return ddl.CHECK
}

// catalog builds the ddl.Catalog that describes c, the way the struct parser
// (declared) or a database introspection (not declared) would.
func (c ACat) catalog(dialect, version string, implicitSchema, declared bool) *ddl.Catalog {
	cur := curSchema(dialect)
	cat := &ddl.Catalog{Dialect: dialect, CurrentSchema: cur}
	if !declared {
		cat.DefaultCollation, cat.DefaultCollationValid = defColl(dialect), true
		for _, p := range strings.Split(version, ".") {
			n := 0
			fmt.Sscan(p, &n)
			cat.VersionNums = append(cat.VersionNums, n)
		}
	}
	byName := map[string]int{}
	schema := func(name string) int {
		if i, ok := byName[name]; ok {
			return i
		}
		cat.Schemas = append(cat.Schemas, ddl.Schema{SchemaName: name})
		byName[name] = len(cat.Schemas) - 1
		return len(cat.Schemas) - 1
	}
	for _, s := range c.S {
		schema(s)
	}
	for _, key := range c.keys() {
		s, name := splitKey(key)
		t := c.T[key]
		tab := ddl.Table{TableSchema: s, TableName: name}
		ig := map[string]bool{}
		for _, n := range t.IG {
			ig[n] = true
		}
		pkcols := map[string]bool{}
		for _, n := range sortedKeys(t.K) {
			if k := t.K[n]; k.K == "PK" {
				for _, col := range k.Cols {
					pkcols[col] = true
				}
			}
		}
		for _, n := range t.O {
			col := t.C[n]
			d := ddl.Column{TableSchema: s, TableName: name, ColumnName: n, ColumnType: typeText(col), IsNotNull: col.NN, ColumnDefault: col.Def,
				ColumnIdentity: col.ID, CollationName: col.Coll, GeneratedExpr: col.Gen, IsGenerated: col.Gen != "", IsAutoincrement: col.AI}
			if col.Gen != "" {
				d.GeneratedExprStored = true
			}
			if dialect != "sqlite" && pkcols[n] {
				d.IsNotNull = true
			}
			tab.Columns = append(tab.Columns, d)
		}
		column := func(n string) *ddl.Column {
			for i := range tab.Columns {
				if tab.Columns[i].ColumnName == n {
					return &tab.Columns[i]
				}
			}
			panic("no column " + n)
		}
		for _, n := range sortedKeys(t.K) {
			k := t.K[n]
			rs, rt := splitKey(k.RT)
			if implicitSchema && rs == cur {
				rs = ""
			}
			con := ddl.Constraint{TableSchema: s, TableName: name, ConstraintName: n, ConstraintType: conType(k.K), Columns: k.Cols, ReferencesSchema: rs, ReferencesTable: rt,
				ReferencesColumns: k.RC, UpdateRule: k.Upd, DeleteRule: k.Del, CheckExpr: k.Expr, IsDeferrable: k.Dfr, IsInitiallyDeferred: k.Idf, Ignore: ig[n], IsNotValid: k.NV}
			if k.Excl != nil {
				con.ConstraintType, con.Columns, con.ExclusionIndexType, con.ExclusionOperators, con.ExclusionPredicate = ddl.EXCLUDE, k.Excl.Elems, k.Excl.Kind, k.Excl.Ops, k.Excl.Pred
			}
			if k.Full {
				con.MatchOption = "MATCH FULL"
			}
			tab.Constraints = append(tab.Constraints, con)
			if len(k.Cols) != 1 || ig[n] {
				continue
			}
			col := column(k.Cols[0])
			switch k.K {
			case "PK":
				col.IsPrimaryKey = true
			case "UQ":
				col.IsUnique = true
			case "FK":
				col.ReferencesSchema, col.ReferencesTable, col.ReferencesColumn = rs, rt, k.RC[0]
				col.UpdateRule, col.DeleteRule, col.IsDeferrable, col.IsInitiallyDeferred = k.Upd, k.Del, k.Dfr, k.Idf
			}
		}
		for _, n := range sortedKeys(t.I) {
			x := t.I[n]
			tab.Indexes = append(tab.Indexes, ddl.Index{TableSchema: s, TableName: name, IndexName: n, IndexType: x.Kind, IsUnique: x.U, Columns: x.Cols,
				Descending: x.Desc, IncludeColumns: x.Inc, Predicate: x.Pred, Ignore: ig[n]})
		}
		i := schema(s)
		cat.Schemas[i].Tables = append(cat.Schemas[i].Tables, tab)
	}
	return cat
}

// canon is the catalog as TLC reads it.
func (c ACat) canon() ACat { return c.clone() }

func jsonEqual(a, b any) bool {
	x, err := json.Marshal(a)
	must(err)
	y, err := json.Marshal(b)
	must(err)
	return bytes.Equal(x, y)
}
