package main

import (
	"bytes"
	"database/sql"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"math/rand"
	"strconv"
	"strings"
	"testing/fstest"

	"github.com/bokwoon95/sqddl/ddl"
)

// StItem is a field of a struct: a column, or an item that stands for the
// table (no column).
type StItem struct {
	Field string `json:"field"`
	Col   string `json:"col"`
	Type  string `json:"type"`
	Tag   string `json:"tag"`
}

// StStruct declares a table (see spec/Struct.tla).
type StStruct struct {
	Go     string   `json:"go"`
	Schema string   `json:"schema"`
	Name   string   `json:"name"`
	Items  []StItem `json:"items"`
}

type StCol struct {
	Name      string `json:"name"`
	Type      string `json:"type"`
	NotNull   bool   `json:"notnull"`
	Default   string `json:"default"`
	Identity  string `json:"identity"`
	Auto      bool   `json:"auto"`
	OnUpdate  bool   `json:"onupdate"`
	Collate   string `json:"collate"`
	Generated bool   `json:"generated"`
}

type StCon struct {
	Kind string   `json:"kind"`
	Name string   `json:"name"`
	Cols []string `json:"cols"`
	RS   string   `json:"rs"`
	RT   string   `json:"rt"`
	RC   []string `json:"rc"`
	Upd  string   `json:"upd"`
	Del  string   `json:"del"`
	Dfr  bool     `json:"dfr"`
	Dfd  bool     `json:"dfd"`
}

type StIdx struct {
	Name   string   `json:"name"`
	Cols   []string `json:"cols"`
	Unique bool     `json:"unique"`
	Using  string   `json:"using"`
}

type StTable struct {
	Schema  string  `json:"schema"`
	Name    string  `json:"name"`
	Virtual bool    `json:"virtual"`
	Cols    []StCol `json:"cols"`
	Cons    []StCon `json:"cons"`
	Idx     []StIdx `json:"idx"`
}

type StScen struct {
	ID      string     `json:"id"`
	Kind    string     `json:"kind"` // decl, catalog or database
	Current string     `json:"current"`
	Dialect string     `json:"dialect"` // of catalog and database
	Structs []StStruct `json:"structs"`
	Order   int        `json:"order"`  // how the source is laid out
	Shared  bool       `json:"shared"` // one parser for all dialects
	DB      []StTable  `json:"db"`
}

var stDialects = []string{"sqlite", "postgres", "mysql", "sqlserver"}

// source renders the declarations, one file per entry.
func (sc *StScen) source() []string {
	r := rand.New(rand.NewSource(int64(sc.Order)))
	var parts []string
	for _, s := range sc.Structs {
		var b strings.Builder
		if r.Intn(6) == 0 {
			b.WriteString("// " + s.Go + " is a table.\n")
		}
		fmt.Fprintf(&b, "type %s struct {\n", s.Go)
		name := s.Name
		if s.Schema != "" {
			name = s.Schema + "." + s.Name
		}
		skip := 0
		for i, it := range s.Items {
			if skip > 0 {
				skip--
				continue
			}
			tag := ""
			if i == 0 {
				if name != strings.ToLower(s.Go) {
					tag = "sq:" + strconv.Quote(name)
				}
			} else if it.Col != "" && it.Col != strings.ToLower(it.Field) {
				tag = "sq:" + strconv.Quote(it.Col)
			}
			if it.Tag != "" {
				if tag != "" {
					tag += " "
				}
				tag += "ddl:" + strconv.Quote(it.Tag)
			}
			if tag != "" {
				tag = " `" + tag + "`"
			}
			switch {
			case i == 0:
				b.WriteString("\tsq.TableStruct" + tag + "\n")
			case it.Col == "":
				b.WriteString("\t_ struct{}" + tag + "\n")
			default:
				names := it.Field
				// Fields alike may share a line.
				if r.Intn(2) == 0 && it.Col == strings.ToLower(it.Field) {
					for k := i + 1; k < len(s.Items); k++ {
						o := s.Items[k]
						if o.Type != it.Type || o.Tag != it.Tag || o.Col == "" || o.Col != strings.ToLower(o.Field) {
							break
						}
						names += ", " + o.Field
						skip++
					}
				}
				b.WriteString("\t" + names + " " + it.Type + tag + "\n")
			}
		}
		b.WriteString("}\n")
		parts = append(parts, b.String())
	}
	if r.Intn(4) == 0 {
		parts = append(parts, "type other struct {\n\tID int\n}\n\nconst N = 1\n")
	}
	r.Shuffle(len(parts), func(i, k int) { parts[i], parts[k] = parts[k], parts[i] })
	head := "package tables\n\nimport \"github.com/bokwoon95/sq\"\n\n"
	if r.Intn(3) == 0 {
		for i := range parts {
			parts[i] = head + parts[i]
		}
		return parts
	}
	if r.Intn(5) == 0 {
		for i := range parts {
			parts[i] = strings.Replace(parts[i], "type ", "type (\n", 1) + ")\n"
			parts[i] = strings.Replace(parts[i], "}\n\nconst N = 1\n)\n", "}\n)\n", 1)
		}
	}
	return []string{head + strings.Join(parts, "\n")}
}

func parseSources(files []string) (*ddl.StructParser, error) {
	p := ddl.NewStructParser(nil)
	fsys := fstest.MapFS{}
	for i, f := range files {
		fsys[fmt.Sprintf("f%d.go", i)] = &fstest.MapFile{Data: []byte(f), Mode: 0644}
	}
	for i := range files {
		f, err := fsys.Open(fmt.Sprintf("f%d.go", i))
		must(err)
		err = p.ParseFile(f)
		f.Close()
		if err != nil {
			return nil, err
		}
	}
	return p, nil
}

// seen is what can be seen of a catalog.
func seenCatalog(c *ddl.Catalog) []StTable {
	out := []StTable{}
	for i := range c.Schemas {
		s := &c.Schemas[i]
		if s.Ignore {
			continue
		}
		for k := range s.Tables {
			t := &s.Tables[k]
			if t.Ignore {
				continue
			}
			x := StTable{Schema: t.TableSchema, Name: t.TableName, Virtual: t.IsVirtual, Cols: []StCol{}, Cons: []StCon{}, Idx: []StIdx{}}
			for _, c := range t.Columns {
				if !c.Ignore {
					x.Cols = append(x.Cols, StCol{c.ColumnName, c.ColumnType, c.IsNotNull, c.ColumnDefault, c.ColumnIdentity, c.IsAutoincrement, c.OnUpdateCurrentTimestamp, c.CollationName, c.IsGenerated})
				}
			}
			for _, c := range t.Constraints {
				if !c.Ignore {
					x.Cons = append(x.Cons, StCon{c.ConstraintType, c.ConstraintName, strs(c.Columns), c.ReferencesSchema, c.ReferencesTable, strs(c.ReferencesColumns), c.UpdateRule, c.DeleteRule, c.IsDeferrable, c.IsInitiallyDeferred})
				}
			}
			for _, c := range t.Indexes {
				if !c.Ignore {
					x.Idx = append(x.Idx, StIdx{c.IndexName, strs(c.Columns), c.IsUnique, c.IndexType})
				}
			}
			out = append(out, x)
		}
	}
	return out
}

func (sc *StScen) runDecl() []obj {
	files := sc.source()
	var p *ddl.StructParser
	var events []obj
	for _, d := range stDialects {
		cat := &ddl.Catalog{Dialect: d, CurrentSchema: sc.Current}
		msg, crashed := guard(func() (err error) {
			if p == nil || !sc.Shared {
				p, err = parseSources(files)
				if err != nil {
					p = nil
					return err
				}
			}
			return p.WriteCatalog(cat)
		})
		if msg != "" || crashed {
			// A parser keeps its complaints.
			p = nil
		}
		events = append(events, obj{"e": "decl", "dialect": d, "current": sc.Current, "structs": sc.Structs, "crashed": crashed, "err": trunc(msg, 300), "cat": seenCatalog(cat)})
	}
	return events
}

// ---------------------------------------------------------------------------

var sqPackage *types.Package

type sqImporter struct{}

func (sqImporter) Import(path string) (*types.Package, error) {
	if path == "github.com/bokwoon95/sq" {
		return sqPackage, nil
	}
	return nil, fmt.Errorf("unknown package %s", path)
}

func init() {
	src := "package sq\ntype TableStruct struct{}\ntype ViewStruct struct{}\n"
	for _, f := range []string{"Any", "Array", "Binary", "Boolean", "Enum", "JSON", "Number", "String", "Time", "UUID"} {
		src += "type " + f + "Field struct{}\n"
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "sq.go", src, 0)
	must(err)
	sqPackage, err = (&types.Config{}).Check("github.com/bokwoon95/sq", fset, []*ast.File{f}, nil)
	must(err)
}

// compiles tells whether src is a Go package.
func compiles(src string) error {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "tables.go", src, 0)
	if err != nil {
		return err
	}
	_, err = (&types.Config{Importer: sqImporter{}}).Check("tables", fset, []*ast.File{f}, nil)
	return err
}

func (sc *StScen) catalog() *ddl.Catalog {
	c := &ddl.Catalog{Dialect: sc.Dialect, CurrentSchema: sc.Current}
	for _, t := range sc.DB {
		name := t.Schema
		if name == "" {
			name = sc.Current
		}
		var s *ddl.Schema
		for i := range c.Schemas {
			if c.Schemas[i].SchemaName == name {
				s = &c.Schemas[i]
			}
		}
		if s == nil {
			c.Schemas = append(c.Schemas, ddl.Schema{SchemaName: name})
			s = &c.Schemas[len(c.Schemas)-1]
		}
		x := ddl.Table{TableSchema: name, TableName: t.Name, IsVirtual: t.Virtual}
		if t.Virtual {
			x.SQL = "CREATE VIRTUAL TABLE " + quoteID(t.Name) + " USING fts5(x)"
		}
		for _, k := range t.Cols {
			col := ddl.Column{TableSchema: name, TableName: t.Name, ColumnName: k.Name, ColumnType: k.Type, IsNotNull: k.NotNull, ColumnDefault: k.Default,
				ColumnIdentity: k.Identity, IsAutoincrement: k.Auto, OnUpdateCurrentTimestamp: k.OnUpdate, CollationName: k.Collate, IsGenerated: k.Generated}
			x.Columns = append(x.Columns, col)
		}
		for _, k := range t.Cons {
			con := ddl.Constraint{TableSchema: name, TableName: t.Name, ConstraintName: k.Name, ConstraintType: k.Kind, Columns: k.Cols, ReferencesTable: k.RT, UpdateRule: k.Upd, DeleteRule: k.Del, IsDeferrable: k.Dfr, IsInitiallyDeferred: k.Dfd}
			if k.Kind == "FOREIGN KEY" {
				con.ReferencesSchema, con.ReferencesColumns = k.RS, k.RC
				if con.ReferencesSchema == "" {
					con.ReferencesSchema = sc.Current
				}
			}
			x.Constraints = append(x.Constraints, con)
		}
		for _, k := range t.Idx {
			x.Indexes = append(x.Indexes, ddl.Index{TableSchema: name, TableName: t.Name, IndexName: k.Name, Columns: k.Cols, IsUnique: k.Unique, IndexType: k.Using})
		}
		s.Tables = append(s.Tables, x)
	}
	return c
}

func quoteID(s string) string { return `"` + strings.ReplaceAll(s, `"`, `""`) + `"` }

func quoteIDs(s []string) string {
	var out []string
	for _, x := range s {
		out = append(out, quoteID(x))
	}
	return strings.Join(out, ", ")
}

// statements creates the tables in SQLite.
func (sc *StScen) statements() []string {
	r := rand.New(rand.NewSource(int64(sc.Order)))
	var out, after []string
	for _, t := range sc.DB {
		if t.Virtual {
			var names []string
			for _, c := range t.Cols {
				names = append(names, quoteID(c.Name))
			}
			out = append(out, "CREATE VIRTUAL TABLE "+quoteID(t.Name)+" USING fts5("+strings.Join(names, ", ")+")")
			continue
		}
		var parts []string
		inline := map[int]bool{}
		for _, c := range t.Cols {
			s := quoteID(c.Name) + " " + c.Type
			if c.NotNull {
				s += " NOT NULL"
			}
			if c.Default != "" {
				s += " DEFAULT " + c.Default
			}
			for i, k := range t.Cons {
				if len(k.Cols) != 1 || k.Cols[0] != c.Name {
					continue
				}
				if k.Kind == "PRIMARY KEY" && (c.Auto || r.Intn(2) == 0) {
					inline[i] = true
					s += " PRIMARY KEY"
					if c.Auto {
						s += " AUTOINCREMENT"
					}
				} else if k.Kind == "UNIQUE" && r.Intn(2) == 0 {
					inline[i] = true
					s += " UNIQUE"
				} else if k.Kind == "FOREIGN KEY" && r.Intn(2) == 0 {
					inline[i] = true
					s += references(k, r, sc.DB)
				}
			}
			parts = append(parts, s)
		}
		for i, k := range t.Cons {
			if inline[i] {
				continue
			}
			s := ""
			if r.Intn(2) == 0 {
				s = "CONSTRAINT " + quoteID(k.Name) + " "
			}
			s += k.Kind + " (" + quoteIDs(k.Cols) + ")"
			if k.Kind == "FOREIGN KEY" {
				s += references(k, r, sc.DB)
			}
			parts = append(parts, s)
		}
		out = append(out, "CREATE TABLE "+quoteID(t.Name)+" ("+strings.Join(parts, ", ")+")")
		for _, x := range t.Idx {
			u := ""
			if x.Unique {
				u = "UNIQUE "
			}
			after = append(after, "CREATE "+u+"INDEX "+quoteID(x.Name)+" ON "+quoteID(t.Name)+" ("+quoteIDs(x.Cols)+")")
		}
	}
	return append(out, after...)
}

func references(k StCon, r *rand.Rand, db []StTable) string {
	s := " REFERENCES " + quoteID(k.RT)
	implicit := false
	for _, t := range db {
		for _, c := range t.Cons {
			if t.Name == k.RT && c.Kind == "PRIMARY KEY" && strings.Join(c.Cols, ",") == strings.Join(k.RC, ",") {
				implicit = r.Intn(4) == 0
			}
		}
	}
	if !implicit {
		s += " (" + quoteIDs(k.RC) + ")"
	}
	if k.Upd != "" {
		s += " ON UPDATE " + k.Upd
	}
	if k.Del != "" {
		s += " ON DELETE " + k.Del
	}
	if k.Dfd {
		s += " DEFERRABLE INITIALLY DEFERRED"
	} else if k.Dfr {
		s += " DEFERRABLE"
	}
	return s
}

func (sc *StScen) runTrip() obj {
	ev := obj{"e": "trip", "dialect": sc.Dialect, "current": sc.Current, "db": sc.DB, "generr": "", "goerr": "", "err": "", "cat": []StTable{}}
	var src string
	if sc.Kind == "database" {
		db, err := sql.Open("sqlite3", fmt.Sprintf("file:%s?mode=memory&cache=shared", sc.ID))
		must(err)
		defer db.Close()
		keep, err := db.Begin()
		must(err)
		for _, s := range sc.statements() {
			if _, err := keep.Exec(s); err != nil {
				keep.Rollback()
				return obj{"unsupported": s + ": " + err.Error()}
			}
		}
		must(keep.Commit())
		db.SetConnMaxLifetime(0)
		db.SetMaxIdleConns(4)
		msg, crashed := guard(func() error {
			var buf bytes.Buffer
			cmd := &ddl.TablesCmd{DB: db, Dialect: "sqlite", Stdout: &buf, PackageName: "tables"}
			if err := cmd.Run(); err != nil {
				return err
			}
			src = buf.String()
			return nil
		})
		ev["generr"], ev["crashed"] = trunc(msg, 300), crashed
	} else {
		msg, crashed := guard(func() error {
			var ts ddl.TableStructs
			if err := ts.ReadCatalog(sc.catalog()); err != nil {
				return err
			}
			text, err := ts.MarshalText()
			src = "package tables\n\nimport \"github.com/bokwoon95/sq\"\n\n" + string(text)
			return err
		})
		ev["generr"], ev["crashed"] = trunc(msg, 300), crashed
	}
	if ev["generr"] != "" || ev["crashed"] == true {
		return ev
	}
	ev["src"] = src
	if err := compiles(src); err != nil {
		ev["goerr"] = trunc(err.Error(), 300)
		return ev
	}
	cat := &ddl.Catalog{Dialect: sc.Dialect, CurrentSchema: sc.Current}
	msg, crashed := guard(func() error {
		p, err := parseSources([]string{src})
		if err != nil {
			return err
		}
		return p.WriteCatalog(cat)
	})
	ev["err"], ev["crashed"] = trunc(msg, 300), crashed
	ev["cat"] = seenCatalog(cat)
	return ev
}

func (sc *StScen) run() obj {
	if sc.Kind == "decl" {
		return obj{"id": sc.ID, "events": sc.runDecl(), "scenario": sc, "source": sc.source()}
	}
	ev := sc.runTrip()
	if u, ok := ev["unsupported"]; ok {
		return obj{"id": sc.ID, "events": []obj{}, "scenario": sc, "unsupported": u}
	}
	return obj{"id": sc.ID, "events": []obj{ev}, "scenario": sc}
}

// ---------------------------------------------------------------------------

type stGen struct {
	r    *rand.Rand
	used map[string]bool
}

// prefix chooses the dialects of a modifier; what is declared for a dialect is
// declared once.
func (g *stGen) prefix(key string) (string, bool) {
	var ds []string
	if g.r.Intn(3) == 0 {
		for _, d := range stDialects {
			if g.r.Intn(2) == 0 {
				ds = append(ds, d)
			}
		}
		g.r.Shuffle(len(ds), func(i, k int) { ds[i], ds[k] = ds[k], ds[i] })
	}
	all := ds
	if len(all) == 0 {
		all = stDialects
	}
	if key != "" {
		for _, d := range all {
			if g.used[key+"|"+d] {
				return "", false
			}
		}
		for _, d := range all {
			g.used[key+"|"+d] = true
		}
	}
	if len(ds) == 0 {
		return "", true
	}
	return strings.Join(ds, ",") + ":", true
}

func (g *stGen) bracesSub(name, value string, subs []string) string {
	if len(subs) == 0 {
		switch {
		case value == "":
			return name
		case strings.Contains(value, " "):
			return name + "={{" + value + "}}"
		case g.r.Intn(8) == 0:
			return name + "={" + value + "}"
		}
		return name + "=" + value
	}
	if value == "" {
		value = "."
	} else if strings.Contains(value, " ") {
		value = "{" + value + "}"
	}
	return name + "={" + value + " " + strings.Join(subs, " ") + "}"
}

func (g *stGen) sub(s string) string {
	if g.r.Intn(6) == 0 {
		p, _ := g.prefix("")
		return p + s
	}
	return s
}

func (g *stGen) indexSubs() []string {
	var subs []string
	if g.r.Intn(2) == 0 {
		subs = append(subs, g.sub("unique"))
	}
	if g.r.Intn(4) == 0 {
		subs = append(subs, g.sub("using="+pick(g.r, []string{"HASH", "GIN", "FULLTEXT"})))
	}
	g.r.Shuffle(len(subs), func(i, k int) { subs[i], subs[k] = subs[k], subs[i] })
	return subs
}

var stRules = []string{"cascade", "restrict", "noaction", "setnull", "setdefault"}

func (g *stGen) fkSubs(tkey string, cols []string) []string {
	var subs []string
	if g.r.Intn(3) == 0 {
		subs = append(subs, g.sub("onupdate="+pick(g.r, stRules)))
	}
	if g.r.Intn(3) == 0 {
		subs = append(subs, g.sub("ondelete="+pick(g.r, stRules)))
	}
	if g.r.Intn(5) == 0 {
		subs = append(subs, g.sub(pick(g.r, []string{"deferrable", "deferred"})))
	}
	if g.r.Intn(3) == 0 {
		if p, ok := g.prefix(tkey + "index" + strings.Join(cols, ",")); ok {
			subs = append(subs, p+g.bracesSub("index", "", g.indexSubs()))
		}
	}
	g.r.Shuffle(len(subs), func(i, k int) { subs[i], subs[k] = subs[k], subs[i] })
	return subs
}

var stFieldTypes = []string{"sq.NumberField", "sq.NumberField", "sq.NumberField", "sq.StringField", "sq.StringField", "sq.TimeField", "sq.BooleanField", "sq.BinaryField", "sq.ArrayField", "sq.EnumField", "sq.JSONField", "sq.UUIDField", "sq.AnyField"}
var stTypes = []string{"INT", "BIGINT", "INTEGER", "TEXT", "VARCHAR(50)", "NUMERIC(10,2)", "TIMESTAMP", "{TIMESTAMP WITH TIME ZONE}", "JSON", "{DOUBLE PRECISION}", "DATE"}
var stDefaults = []string{"0", "-1", "4.99", "TRUE", "FALSE", "true", "False", "NULL", "null", "CURRENT_TIMESTAMP", "current_timestamp", "'x'", "''", "{'a b'}", "'{}'", "{1 + 1}", "(1+1)", "DATETIME('now')", "{DATETIME('now', 'localtime')}", "{(1) + (2)}", "NOW()", "{'a' || 'b'}"}

func genDecl(r *rand.Rand, id string) *StScen {
	g := &stGen{r: r, used: map[string]bool{}}
	sc := &StScen{ID: id, Kind: "decl", Current: pick(r, []string{"", "", "public", "dbo"}), Order: r.Intn(1 << 20), Shared: r.Intn(3) == 0}
	n := 1 + r.Intn(3)
	type tbl struct {
		st   *StStruct
		cols []string
		ds   string // dialects it is there for
	}
	var ts []tbl
	names := r.Perm(7)
	for i := 0; i < n; i++ {
		nm := [][3]string{{"ACTOR", "", "actor"}, {"FILM", "", "film"}, {"FILM_ACTOR", "", "film_actor"}, {"Rental", "", "rental"}, {"THING", "", "My Thing"}, {"S1_FILM", "s1", "film"}, {"PUBLIC_USERS", "s1", "users"}}[names[i]]
		st := StStruct{Go: nm[0], Schema: nm[1], Name: nm[2]}
		if st.Schema == "" && sc.Current != "" && r.Intn(6) == 0 {
			st.Schema = sc.Current
		}
		cols := []string{}
		perm := r.Perm(7)
		for k := 0; k < 1+r.Intn(4); k++ {
			cols = append(cols, []string{"id", "name", "film_id", "actor_id", "Odd Name", "last_update", "x"}[perm[k]])
		}
		sc.Structs = append(sc.Structs, st)
		ts = append(ts, tbl{cols: cols})
	}
	for i := range ts {
		ts[i].st = &sc.Structs[i]
	}
	gone := map[int]bool{} // restricted tables are not referred to
	goneCol := map[string]bool{}
	for i := range ts {
		gone[i] = r.Intn(8) == 0
		for k, c := range ts[i].cols {
			goneCol[fmt.Sprint(i, c)] = k > 0 && r.Intn(10) == 0
		}
	}
	there := func(i int) []string {
		var out []string
		for _, c := range ts[i].cols {
			if !goneCol[fmt.Sprint(i, c)] {
				out = append(out, c)
			}
		}
		return out
	}
	some := func(i, n int) []string {
		t := there(i)
		p := r.Perm(len(t))
		if n > len(t) {
			n = len(t)
		}
		var out []string
		for k := 0; k < n; k++ {
			out = append(out, t[p[k]])
		}
		return out
	}
	wrong := r.Intn(12) == 0
	for i := range ts {
		t := &ts[i]
		key := fmt.Sprint(i, "/")
		colMods := map[string][]string{}
		var tableMods []string
		add := func(col, m string) {
			if col == "" {
				tableMods = append(tableMods, m)
			} else {
				colMods[col] = append(colMods[col], m)
			}
		}
		constraint := func() {
			kind := pick(r, []string{"primarykey", "primarykey", "unique", "index", "index", "foreignkey", "foreignkey", "references"})
			cols := some(i, 1+r.Intn(2))
			if len(cols) == 0 {
				return
			}
			at := "" // where the modifier stands
			if r.Intn(2) == 0 || kind == "references" {
				cols = cols[:1]
				at = cols[0]
				if kind != "references" && r.Intn(8) == 0 {
					at = pick(r, there(i))
				}
			}
			value := ""
			if at == "" || len(cols) > 1 || at != cols[0] || r.Intn(6) == 0 {
				value = strings.Join(cols, ",")
			}
			switch kind {
			case "primarykey", "unique", "index":
				k := key + kind + strings.Join(cols, ",")
				if kind == "primarykey" {
					k = key + kind
				}
				p, ok := g.prefix(k)
				if !ok {
					return
				}
				var subs []string
				if kind == "index" {
					subs = g.indexSubs()
				} else if r.Intn(6) == 0 {
					subs = append(subs, "postgres:"+pick(r, []string{"deferrable", "deferred"}))
				}
				add(at, p+g.bracesSub(kind, value, subs))
			default:
				var refs []int
				for j := range ts {
					if (!gone[j] || j == i) && len(there(j)) >= len(cols) {
						refs = append(refs, j)
					}
				}
				if len(refs) == 0 {
					return
				}
				j := refs[r.Intn(len(refs))]
				p, ok := g.prefix(key + "fk" + strings.Join(cols, ","))
				if !ok {
					return
				}
				rc := some(j, len(cols))
				ref := ts[j].st.Name
				same := strings.Join(rc, ",") == strings.Join(cols, ",")
				if ts[j].st.Schema != "" {
					ref = ts[j].st.Schema + "." + ref
				}
				if !same || ts[j].st.Schema != "" || r.Intn(3) == 0 {
					ref += "." + strings.Join(rc, ",")
				}
				subs := g.fkSubs(key, cols)
				if kind == "references" {
					add(at, p+g.bracesSub("references", ref, subs))
				} else {
					if strings.Contains(ref, " ") {
						ref = "{" + ref + "}"
					}
					add(at, p+g.bracesSub("foreignkey", strings.Join(cols, ","), append(subs, "references="+ref)))
				}
			}
		}
		for k := r.Intn(5); k > 0; k-- {
			constraint()
		}
		if r.Intn(20) == 0 {
			add("", pick(r, []string{"", "sqlite:"})+"virtual")
		}
		for _, c := range t.cols {
			for k := r.Intn(4); k > 0; k-- {
				m := pick(r, []string{"type", "type", "len", "auto_increment", "autoincrement", "identity", "alwaysidentity", "notnull", "notnull", "onupdatecurrenttimestamp", "collate", "default", "default", "generated"})
				p, _ := g.prefix("")
				switch m {
				case "type":
					m += "=" + pick(r, stTypes)
				case "len":
					m += "=" + pick(r, []string{"50", "500"})
				case "collate":
					m += "=" + pick(r, []string{"nocase", "C", "utf8mb4_bin"})
				case "default":
					m += "=" + pick(r, stDefaults)
				}
				add(c, p+m)
			}
			r.Shuffle(len(colMods[c]), func(a, b int) { colMods[c][a], colMods[c][b] = colMods[c][b], colMods[c][a] })
			// A character limit is kept by a following character type without one.
			if r.Intn(8) == 0 && !strings.Contains(strings.Join(colMods[c], " "), "type=") {
				add(c, "len="+pick(r, []string{"3", "20"}))
				add(c, pick(r, []string{"postgres:", "postgres,mysql:", "mysql,sqlserver:"})+"type="+pick(r, []string{"CHAR", "VARCHAR"}))
			}
			// What follows the restriction of a column is restricted as well.
			if goneCol[fmt.Sprint(i, c)] && r.Intn(2) == 0 {
				add(c, pick(r, []string{"index", "unique", "references=" + strings.ReplaceAll(t.st.Name, " ", "_") + "." + t.cols[0]}))
			}
		}
		if wrong {
			wrong = false
			c := pick(r, t.cols)
			switch r.Intn(9) {
			case 0:
				add(c, "nonsense")
			case 1:
				add("", "nonsense=1")
			case 2:
				add(c, "index=nowhere")
			case 3:
				add("", "unique={nowhere}")
			case 4:
				add(c, "references=nowhere.id")
			case 5:
				add(c, "references="+strings.ReplaceAll(t.st.Name, " ", "_")+".nowhere")
			case 6:
				add(c, "index={. clustered}")
			case 7:
				add(c, "references={"+strings.ReplaceAll(t.st.Name, " ", "_")+".id onupdate=never}")
			case 8:
				add("", "foreignkey={{"+c+"} onupdate=cascade}")
			}
		}
		restrict := func() string {
			ds := []string{}
			for _, d := range stDialects {
				if r.Intn(2) == 0 {
					ds = append(ds, d)
				}
			}
			if len(ds) == 0 {
				ds = []string{"postgres"}
			}
			return "dialect=" + strings.Join(ds, ",")
		}
		// Table-level modifiers may be spread over several items.
		first := StItem{}
		var rest []StItem
		for _, m := range tableMods {
			if r.Intn(2) == 0 {
				if first.Tag != "" {
					first.Tag += " "
				}
				first.Tag += m
			} else {
				rest = append(rest, StItem{Tag: m})
			}
		}
		if gone[i] {
			first.Tag = strings.TrimSpace(restrict() + " " + first.Tag)
		}
		items := []StItem{}
		for _, c := range t.cols {
			it := StItem{Field: strings.ToUpper(strings.ReplaceAll(c, " ", "_")), Col: c, Type: pick(r, stFieldTypes), Tag: strings.Join(colMods[c], strings.Repeat(" ", 1+r.Intn(2)))}
			if goneCol[fmt.Sprint(i, c)] {
				it.Tag = strings.TrimSpace(restrict() + " " + it.Tag)
			}
			items = append(items, it)
		}
		for _, it := range rest {
			k := r.Intn(len(items) + 1)
			items = append(items[:k], append([]StItem{it}, items[k:]...)...)
		}
		t.st.Items = append([]StItem{first}, items...)
	}
	return sc
}

var stColTypes = map[string][]string{
	"sqlite":    {"INT", "INT", "INTEGER", "BIGINT", "TEXT", "VARCHAR(50)", "VARCHAR(255)", "VARCHAR", "DATETIME", "TIMESTAMP", "DATE", "BOOLEAN", "BLOB", "JSON", "UUID", "NUMERIC(10,2)", "REAL", "BINARY(16)", "TINYINT(1)", "", "DOUBLE PRECISION"},
	"postgres":  {"INT", "BIGINT", "TEXT", "VARCHAR(50)", "VARCHAR(255)", "VARCHAR", "TIMESTAMPTZ", "TIMESTAMP", "DATE", "BOOLEAN", "BYTEA", "JSON", "JSONB", "UUID", "TEXT[]", "INT[]", "NUMERIC(10,2)", "TSVECTOR", "CHAR(3)", "DOUBLE PRECISION"},
	"mysql":     {"INT", "BIGINT", "TEXT", "VARCHAR(50)", "VARCHAR(255)", "DATETIME", "TIMESTAMP", "DATE", "BOOLEAN", "TINYINT(1)", "MEDIUMBLOB", "BLOB", "JSON", "BINARY(16)", "NUMERIC(10,2)", "YEAR"},
	"sqlserver": {"INT", "BIGINT", "NVARCHAR(50)", "NVARCHAR(255)", "NVARCHAR(MAX)", "BIT", "DATETIMEOFFSET", "DATETIME2", "DATE", "VARBINARY(MAX)", "VARBINARY(20)", "BINARY(16)", "UNIQUEIDENTIFIER", "NUMERIC(10,2)"},
}

var stDBDefaults = []string{"0", "-1", "4.99", "'x'", "''", "'a b'", "'{}'", "'{\"a\": [1, 2]}'", "'it''s'", "CURRENT_TIMESTAMP", "(1 + 1)", "((1) + (2))", "(abs(-1))", "('a' || ')')", "NULL", "'a=b'", "'\\'", "'é'", "' x '", "'`'", "'\"'"}

func genTrip(r *rand.Rand, id string) *StScen {
	sc := &StScen{ID: id, Kind: "catalog", Dialect: pick(r, stDialects), Order: r.Intn(1 << 20)}
	if r.Intn(3) == 0 {
		sc.Kind, sc.Dialect = "database", "sqlite"
	}
	d := sc.Dialect
	if d != "sqlite" {
		sc.Current = map[string]string{"postgres": "public", "mysql": "db", "sqlserver": "dbo"}[d]
	}
	odd := r.Intn(3) == 0
	pool := []string{"film", "actor", "film_actor", "order", "t2"}
	colPool := []string{"id", "name", "film_id", "actor_id", "type", "x1"}
	if odd {
		pool = append(pool, "Film Actor", "my-table", "2fast", "日本", "Film", "a$b", "_t", "a`b")
		colPool = append(colPool, "my col", "my_col", "my-col", "1st", "Name2", "日本", "a.b", "_x", "é", "col#", "_", "my key", "a`b", `a"b`, "a{", "a=b")
	}
	perm := r.Perm(len(pool))
	lower := map[string]bool{}
	for i := 0; len(sc.DB) < 1+r.Intn(3) && i < len(perm); i++ {
		t := StTable{Name: pool[perm[i]], Cols: []StCol{}, Cons: []StCon{}, Idx: []StIdx{}}
		if lower[strings.ToLower(t.Name)] && d == "sqlite" {
			continue
		}
		lower[strings.ToLower(t.Name)] = true
		if d != "sqlite" && d != "mysql" && r.Intn(4) == 0 {
			t.Schema = "s1"
		}
		cp := r.Perm(len(colPool))
		for k := 0; k < 1+r.Intn(5); k++ {
			c := StCol{Name: colPool[cp[k]], Type: pick(r, stColTypes[d]), NotNull: r.Intn(2) == 0}
			if r.Intn(3) == 0 {
				c.Default = pick(r, stDBDefaults)
			}
			if sc.Kind == "catalog" && r.Intn(10) == 0 {
				c.Collate = pick(r, []string{"nocase", "C", "Latin1_General_CI_AS"})
			}
			switch d {
			case "postgres":
				if c.Default == "" && r.Intn(10) == 0 {
					c.Identity = pick(r, []string{"GENERATED BY DEFAULT AS IDENTITY", "GENERATED ALWAYS AS IDENTITY"})
				}
			case "sqlserver":
				if c.Default == "" && r.Intn(10) == 0 {
					c.Identity = "IDENTITY"
				}
			case "mysql":
				if c.Default == "" && r.Intn(10) == 0 {
					c.Auto = true
				} else if strings.Contains(c.Type, "TIME") && r.Intn(3) == 0 {
					c.OnUpdate = true
				}
			}
			t.Cols = append(t.Cols, c)
		}
		if d == "sqlite" && sc.Kind == "catalog" && r.Intn(25) == 0 {
			t.Virtual = true
			for k := range t.Cols {
				t.Cols[k] = StCol{Name: []string{"a", "b", "c", "d", "e"}[k]}
			}
		}
		sc.DB = append(sc.DB, t)
	}
	some := func(t *StTable, n int) []string {
		var names []string
		for _, c := range t.Cols {
			// Dots mean something in keys, spaces become underscores in names.
			if c.Name != "a.b" && c.Name != "my col" && c.Name != "a{" {
				names = append(names, c.Name)
			}
		}
		r.Shuffle(len(names), func(i, k int) { names[i], names[k] = names[k], names[i] })
		if n > len(names) {
			n = len(names)
		}
		return names[:n]
	}
	for i := range sc.DB {
		t := &sc.DB[i]
		if t.Virtual || r.Intn(4) == 0 {
			continue
		}
		cols := some(t, 1+r.Intn(5)/3)
		if len(cols) == 0 {
			continue
		}
		t.Cons = append(t.Cons, StCon{Kind: "PRIMARY KEY", Name: "pk" + fmt.Sprint(i), Cols: cols, RC: []string{}})
		for k := range t.Cols {
			for _, c := range cols {
				if t.Cols[k].Name != c {
					continue
				}
				if d != "sqlite" {
					t.Cols[k].NotNull = true
				} else if len(cols) == 1 && t.Cols[k].Type == "INTEGER" && sc.Kind == "catalog" && r.Intn(3) == 0 {
					t.Cols[k].Auto, t.Cols[k].Default = true, ""
				}
			}
		}
	}
	for i := range sc.DB {
		t := &sc.DB[i]
		if t.Virtual {
			continue
		}
		used := map[string]bool{}
		for k := r.Intn(5); k > 0; k-- {
			cols := some(t, 1+r.Intn(2))
			if len(cols) == 0 {
				continue
			}
			kind := pick(r, []string{"UNIQUE", "FOREIGN KEY", "FOREIGN KEY", "INDEX"})
			key := kind + strings.Join(cols, ",")
			if used[key] || (kind == "UNIQUE" && len(t.Cons) > 0 && t.Cons[0].Kind == "PRIMARY KEY" && strings.Join(t.Cons[0].Cols, ",") == strings.Join(cols, ",")) {
				continue
			}
			used[key] = true
			switch kind {
			case "UNIQUE":
				c := StCon{Kind: kind, Name: fmt.Sprintf("u%d_%d", i, k), Cols: cols, RC: []string{}}
				if d == "postgres" && r.Intn(4) == 0 {
					c.Dfr, c.Dfd = true, r.Intn(2) == 0
				}
				t.Cons = append(t.Cons, c)
			case "INDEX":
				x := StIdx{Name: fmt.Sprintf("i%d_%d", i, k), Cols: cols, Unique: r.Intn(2) == 0}
				if sc.Kind == "catalog" && r.Intn(4) == 0 && d != "sqlite" {
					x.Using = map[string]string{"postgres": "GIN", "mysql": "FULLTEXT", "sqlserver": ""}[d]
				}
				t.Idx = append(t.Idx, x)
			default:
				o := &sc.DB[r.Intn(len(sc.DB))]
				if o.Virtual {
					continue
				}
				rc := some(o, len(cols))
				if len(rc) != len(cols) {
					continue
				}
				c := StCon{Kind: kind, Name: fmt.Sprintf("f%d_%d", i, k), Cols: cols, RS: o.Schema, RT: o.Name, RC: rc}
				rules := []string{"", "NO ACTION", "CASCADE", "SET NULL", "SET DEFAULT", "RESTRICT"}
				if d == "sqlserver" {
					rules = rules[:5]
				}
				c.Upd, c.Del = pick(r, rules), pick(r, rules)
				if (d == "postgres" || d == "sqlite" && sc.Kind == "catalog") && r.Intn(4) == 0 {
					c.Dfr, c.Dfd = true, r.Intn(2) == 0
				}
				t.Cons = append(t.Cons, c)
			}
		}
	}
	return sc
}

func runStructs(j *job) {
	if j.in != "" {
		i := 0
		readLines(j.in, func(line []byte) {
			i++
			if i%shards != shard {
				return
			}
			var sc StScen
			must(json.Unmarshal(line, &sc))
			enter(sc.ID)
			j.w.write(sc.run())
		})
	}
	each(j.n, func(i int) {
		r := rand.New(rand.NewSource(j.seed*1000003 + int64(i)))
		id := fmt.Sprintf("structs-%d-%d", j.seed, i)
		sc := genDecl(r, id)
		if i%2 == 0 {
			sc = genTrip(r, id)
		}
		enter(sc.ID)
		j.w.write(sc.run())
	})
}
