package main

import (
	"math/rand"
	"strings"
)

// sgen draws abstract catalogs.
type sgen struct {
	r *rand.Rand
	d string // dialect
	p string // profile
}

type atype struct {
	class string // num, text, time, bin
	b     string
	a     []string
}

var schemaTypes = map[string][]atype{
	"sqlite": {{"num", "INT", nil}, {"num", "BIGINT", nil}, {"num", "REAL", nil}, {"num", "NUMERIC", []string{"10", "2"}}, {"text", "TEXT", nil}, {"text", "VARCHAR", []string{"50"}},
		{"text", "VARCHAR", []string{"255"}}, {"time", "DATETIME", nil}, {"num", "BOOLEAN", nil}, {"bin", "BLOB", nil}},
	"postgres": {{"num", "INT", nil}, {"num", "BIGINT", nil}, {"num", "SMALLINT", nil}, {"num", "NUMERIC", []string{"10", "2"}}, {"num", "NUMERIC", []string{"12", "2"}}, {"num", "NUMERIC", []string{"10", "4"}}, {"num", "NUMERIC", []string{"10"}}, {"num", "NUMERIC", nil},
		{"text", "TEXT", nil}, {"text", "VARCHAR", []string{"50"}}, {"text", "VARCHAR", []string{"255"}}, {"text", "VARCHAR", nil}, {"time", "TIMESTAMPTZ", nil}, {"time", "TIMESTAMP", nil}, {"bool", "BOOLEAN", nil}, {"bin", "BYTEA", nil}, {"text", "CHAR", []string{"3"}},
		{"arr", "VARCHAR[]", []string{"50"}}, {"arr", "TEXT[]", nil}, {"arr", "INT[]", nil}, {"time", "TIMESTAMPTZ", []string{"3"}}},
	"mysql": {{"num", "INT", nil}, {"num", "BIGINT", nil}, {"num", "SMALLINT", nil}, {"num", "NUMERIC", []string{"10", "2"}}, {"num", "INT UNSIGNED", nil}, {"num", "NUMERIC UNSIGNED", []string{"10", "2"}}, {"text", "VARCHAR", []string{"50"}}, {"text", "VARCHAR", []string{"255"}}, {"text", "VARCHAR", []string{"256"}}, {"text", "VARCHAR", []string{"300"}},
		{"time", "DATETIME", nil}, {"time", "TIMESTAMP", nil}, {"num", "TINYINT", []string{"1"}}, {"text", "CHAR", []string{"3"}}},
	"sqlserver": {{"num", "INT", nil}, {"num", "BIGINT", nil}, {"num", "SMALLINT", nil}, {"num", "NUMERIC", []string{"10", "2"}}, {"text", "NVARCHAR", []string{"50"}}, {"text", "NVARCHAR", []string{"255"}}, {"text", "VARCHAR", []string{"50"}},
		{"time", "DATETIMEOFFSET", nil}, {"time", "DATETIME2", nil}, {"num", "BIT", nil}, {"text", "CHAR", []string{"3"}}},
}

// Other spellings of the same type.
var typeAliases = map[string]map[string][]string{
	"sqlite": {},
	"postgres": {"INT": {"INTEGER", "INT4", "integer"}, "BIGINT": {"INT8", "bigint"}, "SMALLINT": {"INT2"}, "NUMERIC": {"DECIMAL", "numeric"}, "VARCHAR": {"CHARACTER VARYING", "character varying"}, "CHAR": {"CHARACTER"}, "TIMESTAMPTZ": {"TIMESTAMP WITH TIME ZONE", "timestamp with time zone"}, "TIMESTAMP": {"TIMESTAMP WITHOUT TIME ZONE"}, "BOOLEAN": {"BOOL", "boolean"},
		"VARCHAR[]": {"CHARACTER VARYING[]", "character varying[]"}, "TEXT[]": {"text[]"}, "INT[]": {"INTEGER[]", "integer[]"}},
	"mysql":     {"INT": {"INTEGER", "int"}, "INT UNSIGNED": {"INTEGER UNSIGNED", "int unsigned"}, "NUMERIC": {"DECIMAL", "DEC", "decimal"}, "NUMERIC UNSIGNED": {"DECIMAL UNSIGNED", "decimal unsigned"}, "VARCHAR": {"varchar"}, "TINYINT": {"tinyint"}},
	"sqlserver": {"INT": {"INTEGER", "int"}, "NUMERIC": {"DECIMAL", "DEC", "decimal"}, "VARCHAR": {"CHARACTER VARYING"}, "CHAR": {"CHARACTER"}, "NVARCHAR": {"nvarchar"}},
}

func classOf(d, b string) string {
	for _, t := range schemaTypes[d] {
		if t.b == b {
			return t.class
		}
		for _, a := range typeAliases[d][t.b] {
			if a == b {
				return t.class
			}
		}
	}
	return "num"
}

func (g *sgen) one(n int) bool { return g.r.Intn(n) == 0 }

func (g *sgen) typ() (string, []string) {
	t := schemaTypes[g.d][g.r.Intn(len(schemaTypes[g.d]))]
	return t.b, t.a
}

func (g *sgen) def(class string) string {
	switch class {
	case "num":
		if g.d == "postgres" && g.one(8) {
			return "nextval('s'::regclass)"
		}
		return pick(g.r, []string{"", "", "1", "42", "0"})
	case "text":
		return pick(g.r, []string{"", "", "'x'", "'it''s'", "'a b'"})
	case "time":
		return pick(g.r, []string{"", "", "CURRENT_TIMESTAMP"})
	case "bool":
		return pick(g.r, []string{"", "", "TRUE", "FALSE"})
	}
	return ""
}

func (g *sgen) colls() []string {
	switch g.d {
	case "postgres":
		return []string{"C", "de_DE"}
	case "mysql":
		return []string{"latin1_swedish_ci", "utf8mb4_bin"}
	case "sqlserver":
		return []string{"Latin1_General_CS_AS"}
	}
	return nil
}

func (g *sgen) col() ACol {
	b, a := g.typ()
	c := ACol{B: b, A: a, NN: g.one(3)}
	class := classOf(g.d, b)
	c.Def = g.def(class)
	if class == "text" && g.one(6) && g.colls() != nil {
		c.Coll = pick(g.r, g.colls())
	}
	if g.d == "sqlserver" && c.Def == "TRUE" {
		c.Def = "1"
	}
	return c
}

var (
	tableNames  = []string{"users", "posts", "tags", "Order Lines", "group", "t1"}
	columnNames = []string{"name", "email", "Full Name", "order", "n1", "n2", "ref", "x_y", "Check"}
)

func (g *sgen) conName(key, kind string, cols []string) string {
	if g.d == "sqlite" {
		return kind + "(" + strings.Join(cols, ",") + ")"
	}
	if g.d == "mysql" && kind == "PK" {
		return "PRIMARY"
	}
	_, t := splitKey(key)
	suffix := map[string]string{"PK": "_pkey", "UQ": "_key", "FK": "_fkey", "CK": "_check", "IX": "_idx"}[kind]
	n := strings.ReplaceAll(t+"_"+strings.Join(cols, "_"), " ", "_") + suffix
	return n
}

func (g *sgen) idxName(key string, cols []string) string {
	_, t := splitKey(key)
	return strings.ReplaceAll(t+"_"+strings.Join(cols, "_"), " ", "_") + "_idx"
}

func (g *sgen) subset(cols []string, n int) []string {
	p := g.r.Perm(len(cols))
	if n > len(cols) {
		n = len(cols)
	}
	var out []string
	for _, i := range p[:n] {
		out = append(out, cols[i])
	}
	return out
}

func (g *sgen) addCol(t *ATab, n string, c ACol) {
	if _, ok := t.C[n]; ok {
		return
	}
	t.O = append(t.O, n)
	t.C[n] = c
}

func (g *sgen) table(key string) ATab {
	t := ATab{}.norm()
	idType := "INT"
	if g.d == "sqlite" {
		idType = "INTEGER"
	}
	switch g.r.Intn(5) {
	case 0: // composite key
		g.addCol(&t, "k1", ACol{B: "INT", NN: true})
		g.addCol(&t, "k2", ACol{B: "INT", NN: true})
		g.addCon(&t, key, ACon{K: "PK", Cols: []string{"k1", "k2"}})
	case 1: // text key
		b := map[string]string{"sqlite": "TEXT", "postgres": "TEXT", "mysql": "VARCHAR", "sqlserver": "NVARCHAR"}[g.d]
		c := ACol{B: b, NN: true}
		if b != "TEXT" {
			c.A = []string{"50"}
		}
		g.addCol(&t, "id", c)
		g.addCon(&t, key, ACon{K: "PK", Cols: []string{"id"}})
	case 2: // no key
		g.addCol(&t, "id", ACol{B: "INT", NN: g.one(2)})
	default:
		c := ACol{B: idType, NN: g.d != "sqlite"}
		if g.d == "postgres" && g.one(2) {
			c.ID = "GENERATED BY DEFAULT AS IDENTITY"
		}
		if g.d == "sqlserver" && g.one(2) {
			c.ID = "IDENTITY"
		}
		if g.d == "mysql" && g.one(2) {
			c.AI = true
		}
		g.addCol(&t, "id", c)
		g.addCon(&t, key, ACon{K: "PK", Cols: []string{"id"}})
	}
	for i := 1 + g.r.Intn(3); i > 0; i-- {
		g.addCol(&t, pick(g.r, columnNames), g.col())
	}
	if g.one(6) {
		g.addGen(&t)
	}
	if g.one(3) {
		g.addUnique(&t, key)
	}
	for i := g.r.Intn(3); i > 0; i-- {
		g.addIndex(&t, key)
	}
	return t
}

func (g *sgen) addGen(t *ATab) {
	base := ""
	for _, n := range t.O {
		if t.C[n].Gen == "" && classOf(g.d, t.C[n].B) == "num" {
			base = n
		}
	}
	if base == "" {
		return
	}
	q := `"` + base + `"`
	switch g.d {
	case "mysql":
		q = "`" + base + "`"
	case "sqlserver":
		q = "[" + base + "]"
	}
	c := ACol{B: "INT", Gen: "(" + q + " + 1)"}
	if g.d == "sqlserver" {
		c.B = ""
	}
	g.addCol(t, "gcol", c)
}

func (t ATab) plainCols() []string {
	var out []string
	for _, n := range t.O {
		if t.C[n].Gen == "" {
			out = append(out, n)
		}
	}
	return out
}

// keyable columns may take part in keys and indexes.
func (g *sgen) keyable(t *ATab) []string {
	var out []string
	for _, n := range t.plainCols() {
		if classOf(g.d, t.C[n].B) != "bin" && !t.C[n].AI && t.C[n].ID == "" {
			out = append(out, n)
		}
	}
	return out
}

func (g *sgen) addCon(t *ATab, key string, c ACon) string {
	n := g.conName(key, c.K, c.Cols)
	if _, ok := t.K[n]; ok {
		return ""
	}
	if _, ok := t.I[n]; ok {
		return ""
	}
	t.K[n] = c
	return n
}

func (g *sgen) addUnique(t *ATab, key string) {
	cols := g.subset(g.keyable(t), 1+g.r.Intn(2))
	if len(cols) == 0 {
		return
	}
	for _, k := range t.K {
		if k.K != "FK" && sameSet(k.Cols, cols) {
			return
		}
	}
	n := g.addCon(t, key, ACon{K: "UQ", Cols: cols})
	if n != "" && g.d == "postgres" && g.one(8) {
		c := t.K[n]
		c.Dfr, c.Idf = false, false
		t.K[n] = c
	}
}

func (g *sgen) addIndex(t *ATab, key string) {
	cols := g.subset(g.keyable(t), 1+g.r.Intn(2))
	if len(cols) == 0 {
		return
	}
	x := AIdx{Cols: cols, U: g.one(5)}
	if g.one(4) {
		x.Desc = make([]bool, len(cols))
		x.Desc[g.r.Intn(len(cols))] = true
	}
	if g.d != "mysql" && g.one(6) {
		x.Pred = `"` + cols[0] + `" IS NOT NULL`
		if g.d == "sqlserver" {
			x.Pred = "[" + cols[0] + "] IS NOT NULL"
		}
	}
	if (g.d == "postgres" || g.d == "sqlserver") && g.one(8) {
		for _, c := range g.keyable(t) {
			if !contains(cols, c) {
				x.Inc = []string{c}
			}
		}
	}
	if g.d == "postgres" && g.one(8) && !x.U && len(cols) == 1 && x.Desc == nil {
		x.Kind, x.Inc = "HASH", nil
	}
	if g.d == "mysql" && g.one(8) && !x.U && len(cols) == 1 && x.Desc == nil {
		x.Kind = "HASH"
		if classOf(g.d, t.C[cols[0]].B) == "text" && g.one(2) {
			x.Kind = "FULLTEXT"
		}
	}
	n := g.idxName(key, cols)
	if _, ok := t.I[n]; ok {
		return
	}
	if g.d == "mysql" && len(cols) == 0 {
		return
	}
	t.I[n] = x
	*t = t.norm()
}

func contains(s []string, x string) bool {
	for _, y := range s {
		if x == y {
			return true
		}
	}
	return false
}

func sameSet(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for _, x := range a {
		if !contains(b, x) {
			return false
		}
	}
	return true
}

// addFK makes the table refer to a key of some table of the catalog.
func (g *sgen) addFK(c *ACat, key string) {
	t := c.T[key]
	keys := c.keys()
	rk := keys[g.r.Intn(len(keys))]
	rt := c.T[rk]
	var cand []ACon
	for _, n := range sortedKeys(rt.K) {
		if k := rt.K[n]; (k.K == "PK" || k.K == "UQ") && !contains(rt.IG, n) {
			cand = append(cand, k)
		}
	}
	if len(cand) == 0 {
		return
	}
	k := cand[g.r.Intn(len(cand))]
	var cols []string
	for i, rc := range k.Cols {
		_, rname := splitKey(rk)
		n := strings.ToLower(strings.ReplaceAll(rname, " ", "")) + "_" + rc
		if i == 0 && g.one(4) {
			n = "ref"
		}
		rcol := rt.C[rc]
		b := rcol.B
		if b == "INTEGER" && g.d == "sqlite" {
			b = "INT"
		}
		if old, ok := t.C[n]; ok {
			if old.B != b {
				c.T[key] = t.norm()
				return
			}
		} else {
			g.addCol(&t, n, ACol{B: b, A: rcol.A, Coll: rcol.Coll})
		}
		cols = append(cols, n)
	}
	f := ACon{K: "FK", Cols: cols, RT: rk, RC: append([]string{}, k.Cols...)}
	rules := []string{"", "", "CASCADE", "RESTRICT", "SET NULL"}
	if g.d == "sqlserver" {
		rules = []string{"", "", "CASCADE", "SET NULL"}
	}
	f.Upd, f.Del = pick(g.r, rules[:3]), pick(g.r, rules)
	if (g.d == "postgres" || g.d == "sqlite") && g.one(4) {
		f.Dfr = true
		f.Idf = g.one(2)
	}
	g.addCon(&t, key, f)
	c.T[key] = t.norm()
}

func (g *sgen) catalog() ACat {
	c := ACat{}.norm()
	cur := curSchema(g.d)
	if cur != "" {
		c.S = []string{cur}
		if g.one(3) {
			c.S = append(c.S, "app")
		}
	}
	for i := 1 + g.r.Intn(3); i > 0; i-- {
		c.T[g.newKey(&c)] = ATab{}
	}
	for _, k := range c.keys() {
		c.T[k] = g.table(k)
	}
	for _, k := range c.keys() {
		for g.one(2) {
			g.addFK(&c, k)
		}
	}
	g.uniqueNames(&c)
	return c.norm()
}

func (g *sgen) newKey(c *ACat) string {
	s := curSchema(g.d)
	if len(c.S) > 0 {
		s = c.S[g.r.Intn(len(c.S))]
	}
	return s + "." + pick(g.r, tableNames)
}

// repair removes what no longer makes sense after an edit.
func (g *sgen) repair(c *ACat) {
	for again := true; again; {
		again = false
		for key, t := range c.T {
			for n, k := range t.K {
				bad := false
				for _, col := range k.Cols {
					if _, ok := t.C[col]; !ok {
						bad = true
					}
				}
				if k.K == "FK" {
					rt, ok := c.T[k.RT]
					if !ok {
						bad = true
					} else {
						found := false
						for rn, rk := range rt.K {
							if (rk.K == "PK" || rk.K == "UQ") && sameSet(rk.Cols, k.RC) && !contains(rt.IG, rn) {
								found = true
							}
						}
						if !found {
							bad = true
						}
					}
				}
				if k.K == "UQ" {
					// SQLite does not keep a unique key on the columns of the primary key
					for _, k2 := range t.K {
						if k2.K == "PK" && sameSet(k2.Cols, k.Cols) {
							bad = true
						}
					}
				}
				if bad {
					delete(t.K, n)
					again = true
				}
			}
			for n, x := range t.I {
				for _, col := range append(append([]string{}, x.Cols...), x.Inc...) {
					if _, ok := t.C[col]; !ok {
						delete(t.I, n)
						again = true
						break
					}
				}
			}
			for n, col := range t.C {
				if col.Gen == "" {
					continue
				}
				ok := false
				for m := range t.C {
					if m != n && strings.Contains(col.Gen, m) {
						ok = true
					}
				}
				if !ok {
					g.dropCol(&t, n)
					again = true
				}
			}
			if len(t.O) == 0 {
				g.addCol(&t, "only", ACol{B: "INT"})
			}
			var ig []string
			for _, n := range t.IG {
				_, a := t.K[n]
				_, b := t.I[n]
				if a || b {
					ig = append(ig, n)
				}
			}
			t.IG = ig
			c.T[key] = t.norm()
		}
	}
}

// uniqueNames drops indexes whose name is taken in their schema: Postgres
// keeps index names (including those of keys) in one namespace per schema.
func (g *sgen) uniqueNames(c *ACat) {
	for _, key := range c.keys() {
		s, _ := splitKey(key)
		taken := map[string]bool{}
		for _, k2 := range c.keys() {
			s2, n2 := splitKey(k2)
			if s2 != s {
				continue
			}
			taken[n2] = true
			for n, k := range c.T[k2].K {
				if k2 != key || k.K != "FK" {
					taken[n] = true
				}
			}
			if k2 != key {
				for n := range c.T[k2].I {
					taken[n] = true
				}
			}
		}
		for n := range c.T[key].I {
			if taken[n] && g.d != "sqlite" {
				delete(c.T[key].I, n)
			}
		}
	}
}

func (g *sgen) dropCol(t *ATab, n string) {
	delete(t.C, n)
	var o []string
	for _, m := range t.O {
		if m != n {
			o = append(o, m)
		}
	}
	t.O = o
}

// inKey tells whether the column takes part in a foreign key, on either side.
func (c ACat) inFK(key, col string) bool {
	for k2, t := range c.T {
		for _, k := range t.K {
			if k.K != "FK" {
				continue
			}
			if k2 == key && contains(k.Cols, col) || k.RT == key && contains(k.RC, col) {
				return true
			}
		}
	}
	return false
}

func (g *sgen) someCol(t ATab) string {
	if len(t.O) == 0 {
		return ""
	}
	return t.O[g.r.Intn(len(t.O))]
}

// mutate makes one edit.
func (g *sgen) mutate(c *ACat) {
	keys := c.keys()
	if len(keys) == 0 || g.one(12) {
		k := g.newKey(c)
		if _, ok := c.T[k]; !ok {
			c.T[k] = g.table(k)
			if g.one(2) {
				g.addFK(c, k)
			}
		}
		return
	}
	key := keys[g.r.Intn(len(keys))]
	t := c.T[key]
	col := g.someCol(t)
	switch g.r.Intn(16) {
	case 0:
		if len(keys) > 1 {
			delete(c.T, key)
		}
	case 1, 2:
		g.addCol(&t, pick(g.r, columnNames), g.col())
		c.T[key] = t
	case 3, 4:
		if len(t.O) > 1 {
			g.dropCol(&t, col)
			c.T[key] = t
		}
	case 5, 6: // type
		x := t.C[col]
		if x.Gen == "" && !c.inFK(key, col) && !(g.d == "sqlite" && x.B == "INTEGER") && x.ID == "" && !x.AI {
			class := classOf(g.d, x.B)
			for try := 0; try < 20; try++ {
				b, a := g.typ()
				if classOf(g.d, b) == class || (g.one(4) && x.Def == "" && x.Coll == "" && !g.usedInKey(t, col)) {
					x.B, x.A = b, a
					break
				}
			}
			t.C[col] = x
		}
	case 7: // another spelling of the same type
		x := t.C[col]
		if al := typeAliases[g.d][x.B]; len(al) > 0 && x.Gen == "" {
			x.B = pick(g.r, al)
			t.C[col] = x
		}
	case 8: // nullability
		x := t.C[col]
		if x.Gen == "" && !g.usedIn(t, col, "PK") && x.ID == "" && !x.AI {
			x.NN = !x.NN
			t.C[col] = x
		}
	case 9: // default
		x := t.C[col]
		if x.Gen == "" && x.ID == "" && !x.AI {
			x.Def = g.def(classOf(g.d, x.B))
			t.C[col] = x
		}
	case 10:
		g.addUnique(&t, key)
		c.T[key] = t
	case 11:
		g.addIndex(&t, key)
		c.T[key] = t
	case 12:
		g.addFK(c, key)
	case 13: // drop a constraint or an index
		ns := append(sortedKeys(t.K), sortedKeys(t.I)...)
		if len(ns) > 0 {
			n := ns[g.r.Intn(len(ns))]
			delete(t.K, n)
			delete(t.I, n)
		}
	case 14: // change the primary key
		for n, k := range t.K {
			if k.K == "PK" {
				delete(t.K, n)
			}
		}
		if ks := g.keyable(&t); len(ks) > 0 && !g.one(4) {
			cols := g.subset(ks, 1+g.r.Intn(2))
			for _, n := range cols {
				x := t.C[n]
				x.NN = true
				t.C[n] = x
			}
			g.addCon(&t, key, ACon{K: "PK", Cols: cols})
		}
		for n, x := range t.C {
			if (x.AI || x.ID != "" && g.d == "sqlserver") && !g.usedIn(t, n, "PK") {
				x.AI, x.ID = false, ""
				t.C[n] = x
			}
		}
	case 15: // attributes of one dialect
		x := t.C[col]
		switch {
		case classOf(g.d, x.B) == "text" && g.colls() != nil && x.Gen == "" && !c.inFK(key, col):
			x.Coll = pick(g.r, append(g.colls(), ""))
			t.C[col] = x
		case g.d == "postgres" && x.B == "INT" && x.Def == "" && x.Gen == "":
			if x.ID == "" {
				x.ID, x.NN = pick(g.r, []string{"GENERATED BY DEFAULT AS IDENTITY", "GENERATED ALWAYS AS IDENTITY"}), true
			} else {
				x.ID = ""
			}
			t.C[col] = x
		case len(c.S) > 0 && g.one(2):
			if len(c.S) == 1 {
				c.S = append(c.S, "app")
			} else {
				for k := range c.T {
					if s, _ := splitKey(k); s == "app" {
						delete(c.T, k)
					}
				}
				c.S = c.S[:1]
			}
		default:
			for _, n := range sortedKeys(t.K) {
				if k := t.K[n]; k.K == "FK" && g.d == "postgres" {
					k.Dfr = !k.Dfr
					k.Idf = k.Dfr && g.one(2)
					t.K[n] = k
					break
				}
			}
		}
	}
	g.repair(c)
	g.uniqueNames(c)
	*c = c.norm()
}

func (g *sgen) usedIn(t ATab, col, kind string) bool {
	for _, k := range t.K {
		if k.K == kind && contains(k.Cols, col) {
			return true
		}
	}
	return false
}

func (g *sgen) usedInKey(t ATab, col string) bool {
	for _, k := range t.K {
		if contains(k.Cols, col) {
			return true
		}
	}
	for _, x := range t.I {
		if contains(x.Cols, col) {
			return true
		}
	}
	return false
}

// ignoreSome declares some constraints and indexes for other dialects only.
func (g *sgen) ignoreSome(c *ACat) {
	for _, key := range c.keys() {
		t := c.T[key]
		for _, n := range sortedKeys(t.I) {
			if g.one(4) {
				t.IG = append(t.IG, n)
			}
		}
		for _, n := range sortedKeys(t.K) {
			if t.K[n].K != "PK" && g.one(6) {
				t.IG = append(t.IG, n)
			}
		}
		c.T[key] = t
	}
	g.repair(c)
}
