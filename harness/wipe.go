package main

import (
	"bytes"
	"context"
	"database/sql"
	"fmt"
	"hash/crc32"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"github.com/bokwoon95/sqddl/ddl"

	"verifharness/vdb"
)

// WObj is an object of the database that is wiped (see spec/Wipe.tla).
type WObj struct {
	K   string `json:"k"`
	S   string `json:"s"`
	N   string `json:"n"`
	A   string `json:"a"`
	Own int    `json:"own"`
	On  []int  `json:"on"`
	Del string `json:"del"` // referential action of a foreign key
	NN  bool   `json:"nn"`  // foreign key column is NOT NULL
}

// At is a fault at one call.
type At struct {
	N    int    `json:"n"`
	Kind string `json:"kind"` // err, errafter, crash, crashafter
}

// WipeScen is one database and one way of wiping it.
type WipeScen struct {
	ID    string `json:"id"`
	D     string `json:"d"`
	Objs  []WObj `json:"objs"`
	Rows  bool   `json:"rows"`  // SQLite: every table has rows that refer to each other
	FK    bool   `json:"fk"`    // SQLite: foreign keys enforced
	Fault *At    `json:"fault"` // at the n-th call that is not a query
	Upto  int    `json:"upto"`  // statements executed before the failing one
	CLI   bool   `json:"cli"`   // SQLite: by the command line
	Shuf  int64  `json:"shuf"`  // order in which the catalog lists things
}

func (sc *WipeScen) catalog() *ddl.Catalog {
	cat := &ddl.Catalog{Dialect: sc.D, CurrentSchema: curSchema(sc.D)}
	schema := func(name string) *ddl.Schema {
		for i := range cat.Schemas {
			if cat.Schemas[i].SchemaName == name {
				return &cat.Schemas[i]
			}
		}
		cat.Schemas = append(cat.Schemas, ddl.Schema{SchemaName: name})
		return &cat.Schemas[len(cat.Schemas)-1]
	}
	for i, o := range sc.Objs {
		s := schema(o.S)
		switch o.K {
		case "table":
			t := ddl.Table{TableSchema: o.S, TableName: o.N, Columns: []ddl.Column{{TableSchema: o.S, TableName: o.N, ColumnName: "id", ColumnType: "INT", IsNotNull: true}},
				Constraints: []ddl.Constraint{{TableSchema: o.S, TableName: o.N, ConstraintName: o.N + "_pk", ConstraintType: ddl.PRIMARY_KEY, Columns: []string{"id"}}}}
			for j, f := range sc.Objs {
				if f.K == "fk" && f.Own == i+1 {
					r := sc.Objs[f.On[0]-1]
					col := fmt.Sprintf("r%d", j)
					t.Columns = append(t.Columns, ddl.Column{TableSchema: o.S, TableName: o.N, ColumnName: col, ColumnType: "INT"})
					t.Constraints = append(t.Constraints, ddl.Constraint{TableSchema: o.S, TableName: o.N, ConstraintName: f.N, ConstraintType: ddl.FOREIGN_KEY, Columns: []string{col},
						ReferencesSchema: r.S, ReferencesTable: r.N, ReferencesColumns: []string{"id"}, DeleteRule: f.Del})
				}
			}
			s.Tables = append(s.Tables, t)
		case "view", "matview":
			s.Views = append(s.Views, ddl.View{ViewSchema: o.S, ViewName: o.N, IsMaterialized: o.K == "matview", SQL: "CREATE VIEW x AS SELECT 1 AS x", Columns: []string{"x"}, ColumnTypes: []string{"INT"}})
		case "function", "procedure":
			s.Routines = append(s.Routines, ddl.Routine{RoutineSchema: o.S, RoutineName: o.N, RoutineType: strings.ToUpper(o.K), IdentityArguments: o.A, SQL: "CREATE"})
		case "enum":
			s.Enums = append(s.Enums, ddl.Enum{EnumSchema: o.S, EnumName: o.N, EnumLabels: []string{"a"}})
		case "domain":
			s.Domains = append(s.Domains, ddl.Domain{DomainSchema: o.S, DomainName: o.N, UnderlyingType: "INT"})
		case "extension":
			cat.Extensions = append(cat.Extensions, o.N)
		}
	}
	return cat
}

func (sc *WipeScen) specObjs() []obj {
	out := []obj{}
	for _, o := range sc.Objs {
		on := o.On
		if on == nil {
			on = []int{}
		}
		out = append(out, obj{"k": o.K, "s": o.S, "n": o.N, "a": o.A, "own": o.Own, "on": on})
	}
	return out
}

func (sc *WipeScen) runServer() obj {
	tr := obj{"id": sc.ID, "scenario": sc}
	events := []obj{{"e": "init", "d": sc.D, "objs": sc.specObjs()}}
	cat := sc.catalog()
	r := rand.New(rand.NewSource(sc.Shuf))
	for i := range cat.Schemas {
		s := &cat.Schemas[i]
		r.Shuffle(len(s.Tables), func(i, j int) { s.Tables[i], s.Tables[j] = s.Tables[j], s.Tables[i] })
		r.Shuffle(len(s.Views), func(i, j int) { s.Views[i], s.Views[j] = s.Views[j], s.Views[i] })
	}
	srv := &catServer{d: sc.D, version: map[string]string{"postgres": "15.4", "mysql": "8.0.31", "sqlserver": "15.0.2000"}[sc.D], cat: cat}
	cur := curSchema(sc.D)
	unsupported := ""
	parse := func(s string) []obj {
		stmts, why := parseScript(sc.D, cur, s)
		if why != "" {
			unsupported = why
		}
		return opsOf(stmts)
	}
	for _, dry := range []bool{true, false} {
		var log []recorded
		w := srv.world(&log)
		n := 0
		w.Fault = func(_ int, c *vdb.Call) string {
			if c.Kind == "query" || c.Kind == "next" || dry {
				return ""
			}
			n++
			if sc.Fault != nil && sc.Fault.N == n {
				if c.Kind == "rollback" {
					return ""
				}
				return sc.Fault.Kind
			}
			return ""
		}
		db := w.DB()
		var out bytes.Buffer
		cmd := &ddl.WipeCmd{DB: db, Dialect: sc.D, DryRun: dry, Stdout: &out}
		msg, _ := guard(cmd.Run)
		db.Close()
		if w.Unsupported != "" {
			unsupported = w.Unsupported
		}
		events = append(events, obj{"e": "run", "dry": dry})
		for _, c := range log {
			switch c.Kind {
			case "exec":
				ops := parse(c.SQL)
				upto := sc.Upto
				if upto > len(ops) {
					upto = len(ops)
				}
				events = append(events, obj{"e": "do", "ops": ops, "fail": c.Failed, "upto": upto})
			default:
				events = append(events, obj{"e": c.Kind, "fail": c.Failed})
			}
		}
		printed := []obj{}
		if s := out.String(); strings.TrimSpace(s) != "" {
			printed = parse(s)
		}
		events = append(events, obj{"e": "end", "err": trunc(msg, 200), "printed": printed, "dried": sc.Fault == nil})
	}
	tr["events"] = events
	if unsupported != "" {
		tr["unsupported"] = trunc(unsupported, 300)
	}
	return tr
}

func (sc *WipeScen) setup(db *sql.DB) (err error) {
	exec := func(s string) {
		if err == nil {
			if _, e := db.Exec(s); e != nil {
				err = fmt.Errorf("%s: %w", s, e)
			}
		}
	}
	ref := func(ids []int) []string {
		var out []string
		for _, i := range ids {
			out = append(out, q(sc.Objs[i-1].N))
		}
		return out
	}
	for i, o := range sc.Objs {
		if o.K != "table" {
			continue
		}
		if o.A != "" { // a virtual table
			exec("CREATE VIRTUAL TABLE " + q(o.N) + " USING " + o.A)
			continue
		}
		s := "CREATE TABLE " + q(o.N) + " (id INTEGER PRIMARY KEY AUTOINCREMENT"
		cols, vals := []string{"id"}, []string{"1"}
		for j, f := range sc.Objs {
			if f.K == "fk" && f.Own == i+1 {
				s += fmt.Sprintf(", r%d INT", j)
				if f.NN {
					s += " NOT NULL"
				}
				s += " REFERENCES " + ref(f.On)[0] + " (id)"
				if f.Del != "" {
					s += " ON DELETE " + f.Del
				}
				cols, vals = append(cols, fmt.Sprintf("r%d", j)), append(vals, "1")
			}
		}
		exec(s + ")")
		if sc.Rows {
			exec("INSERT INTO " + q(o.N) + " (" + strings.Join(cols, ", ") + ") VALUES (" + strings.Join(vals, ", ") + ")")
		}
	}
	for i, o := range sc.Objs {
		switch o.K {
		case "view":
			from := ""
			if r := ref(o.On); len(r) > 0 {
				from = " FROM " + strings.Join(r, ", ")
			}
			if o.A == "broken" { // it refers to a table that is no longer there
				exec("CREATE TABLE gone (id INT)")
				exec("CREATE VIEW " + q(o.N) + " AS SELECT id FROM gone")
				exec("PRAGMA legacy_alter_table = 1")
				exec("DROP TABLE gone")
				continue
			}
			exec("CREATE VIEW " + q(o.N) + " AS SELECT 1 AS x" + from)
		case "trigger":
			own := sc.Objs[o.Own-1]
			if own.K == "view" {
				exec("CREATE TRIGGER " + q(o.N) + " INSTEAD OF INSERT ON " + q(own.N) + " BEGIN SELECT 1; END")
			} else {
				exec("CREATE TRIGGER " + q(o.N) + " AFTER DELETE ON " + q(own.N) + " BEGIN SELECT RAISE(ABORT, 'no'); END")
			}
		case "index":
			exec(fmt.Sprintf("CREATE INDEX %s ON %s (id, %d)", q(o.N), q(sc.Objs[o.Own-1].N), i))
		}
	}
	return err
}

// sqliteNames lists the objects and the content of a database.
func sqliteNames(db *sql.DB) []string {
	out := []string{}
	for _, r := range queryAll(db, `SELECT type, name, sql FROM sqlite_schema WHERE name NOT LIKE 'sqlite\_%' ESCAPE '\' ORDER BY type, name`) {
		s := str(r[0]) + " " + str(r[1])
		if str(r[0]) == "table" && !strings.HasPrefix(strings.ToUpper(str(r[2])), "CREATE VIRTUAL") {
			content := fmt.Sprint(queryAll(db, "SELECT * FROM "+q(str(r[1]))))
			s += fmt.Sprintf(" %d %x", len(content), crc32.ChecksumIEEE([]byte(content)))
		}
		out = append(out, s)
	}
	return out
}

// broken tells whether a view refers to a table that is not there.
func (sc *WipeScen) broken() bool {
	for _, o := range sc.Objs {
		if o.K == "view" && o.A == "broken" {
			return true
		}
	}
	return false
}

func copyFile(from, to string) {
	b, err := os.ReadFile(from)
	must(err)
	must(os.WriteFile(to, b, 0o644))
}

func removeDB(path string) {
	for _, suffix := range []string{"", "-journal", "-wal", "-shm"} {
		must(os.RemoveAll(path + suffix))
	}
}

func (sc *WipeScen) runSQLite(dir string) obj {
	tr := obj{"id": sc.ID, "scenario": sc}
	events := []obj{{"e": "init", "d": "sqlite", "objs": sc.specObjs()}}
	path, twin := filepath.Join(dir, "wipe.db"), filepath.Join(dir, "twin.db")
	removeDB(path)
	plain, err := sql.Open("sqlite3", "file:"+path+"?_foreign_keys=false")
	must(err)
	defer plain.Close()
	if err := sc.setup(plain); err != nil {
		tr["events"], tr["unsupported"] = events, "setup: "+err.Error()
		return tr
	}
	opts := fmt.Sprintf("_foreign_keys=%v", sc.FK)
	for _, dry := range []bool{true, false} {
		before := sqliteNames(plain)
		w := &vdb.World{Path: path, Dialect: "sqlite", Options: opts}
		n := 0
		faulted, late := false, false
		w.Fault = func(_ int, c *vdb.Call) string {
			if c.Kind == "query" || c.Kind == "next" || dry {
				return ""
			}
			n++
			if sc.Fault != nil && sc.Fault.N == n {
				if c.Kind == "rollback" || c.Kind == "exec" && !c.InTx {
					return ""
				}
				faulted = true
				late = c.Kind == "commit" && strings.HasSuffix(sc.Fault.Kind, "after")
				return sc.Fault.Kind
			}
			return ""
		}
		db := w.DB()
		var out bytes.Buffer
		cmd := &ddl.WipeCmd{DB: db, Dialect: "sqlite", DryRun: dry, Stdout: &out}
		if sc.CLI {
			args := []string{"-db", "sqlite:" + path}
			if dry {
				args = append(args, "-dry-run")
			}
			cmd, err = ddl.WipeCommand(args...)
			must(err)
			cmd.Stdout = &out
		}
		msg, _ := guard(cmd.Run)
		w.Revive()
		fks := true
		var held []*sql.Conn
		for i := 0; i < 3 && sc.FK; i++ {
			c, err := db.Conn(context.Background())
			must(err)
			held = append(held, c)
			on := false
			must(c.QueryRowContext(context.Background(), "PRAGMA foreign_keys").Scan(&on))
			fks = fks && on
		}
		for _, c := range held {
			c.Close()
		}
		db.Close()
		e := obj{"e": "sqlite", "dry": dry, "err": trunc(msg, 200), "faulted": faulted, "late": late, "before": before, "after": sqliteNames(plain), "fks": fks, "brk": sc.broken(), "replayed": true, "copy": []string{}}
		if dry && msg == "" {
			removeDB(twin)
			copyFile(path, twin)
			t, err := sql.Open("sqlite3", "file:"+twin+"?"+opts)
			must(err)
			_, err = t.Exec(out.String())
			e["replayed"] = err == nil
			e["copy"] = sqliteNames(t)
			t.Close()
		}
		if os.Getenv("VH_DEBUG") != "" {
			e["text"] = out.String()
		}
		events = append(events, e)
	}
	tr["events"] = events
	return tr
}

func (sc *WipeScen) run(dir string) obj {
	if sc.D == "sqlite" {
		return sc.runSQLite(dir)
	}
	return sc.runServer()
}

var wipeNames = []string{"a", "b", "users", "Order", "user name", "sqddl_history", "it's", "group", "é", "a;b", `a"b`, "a]b", "a`b", "--x", "sqlite"}

func genWipe(r *rand.Rand, d string) *WipeScen {
	sc := &WipeScen{D: d, Rows: r.Intn(2) == 0, FK: r.Intn(2) == 0, Shuf: r.Int63n(1000)}
	one := func(n int) bool { return r.Intn(n) == 0 }
	used := map[string]bool{}
	name := func(prefix, schema string) string {
		for k := 0; ; k++ {
			n := wipeNames[r.Intn(len(wipeNames))]
			if one(3) || k > 20 {
				n = fmt.Sprintf("%s%d", prefix, k)
			}
			if !used[schema+"."+strings.ToLower(n)] {
				used[schema+"."+strings.ToLower(n)] = true
				return n
			}
		}
	}
	cur := curSchema(d)
	schema := func() string {
		if d != "sqlite" && one(4) {
			return "other"
		}
		return cur
	}
	add := func(o WObj) int {
		sc.Objs = append(sc.Objs, o)
		return len(sc.Objs)
	}
	var tables, views, funcs []int
	for i := r.Intn(6); i > 0; i-- {
		s := schema()
		o := WObj{K: "table", S: s, N: name("t", s)}
		if d == "sqlite" && one(8) {
			o.A = pick(r, []string{"fts5(body)", "fts5(body, content='')", "rtree(id, lo, hi)"})
			o.N = fmt.Sprintf("vt%d", i)
		}
		id := add(o)
		if o.A == "" {
			tables = append(tables, id)
		}
	}
	for i := r.Intn(2*len(tables) + 1); i > 0; i-- {
		own, on := tables[r.Intn(len(tables))], tables[r.Intn(len(tables))]
		add(WObj{K: "fk", S: sc.Objs[own-1].S, N: fmt.Sprintf("fk %d", len(sc.Objs)), Own: own, On: []int{on}, Del: pick(r, []string{"", "CASCADE", "SET NULL", "RESTRICT", "NO ACTION"}), NN: one(2)})
	}
	if d == "postgres" {
		for i := r.Intn(3); i > 0; i-- {
			s := schema()
			o := WObj{K: pick(r, []string{"enum", "domain"}), S: s, N: name("e", s)}
			id := add(o)
			if len(tables) > 0 && one(2) {
				sc.Objs[tables[0]-1].On = append(sc.Objs[tables[0]-1].On, id)
			}
		}
	}
	if d != "sqlite" {
		for i := r.Intn(4); i > 0; i-- {
			s := schema()
			o := WObj{K: pick(r, []string{"function", "procedure"}), S: s}
			if d == "postgres" && len(funcs) > 0 && one(2) {
				p := sc.Objs[funcs[len(funcs)-1]-1]
				o = WObj{K: p.K, S: p.S, N: p.N, A: p.A + ", x text"}
			} else {
				o.N = name("f", s)
				if d == "postgres" {
					o.A = pick(r, []string{"", "integer", "a integer, b text", "VARIADIC x integer[]", `x "Type"`})
				}
			}
			if o.A == ", x text" {
				o.A = "x text"
			}
			funcs = append(funcs, add(o))
		}
	}
	for i := r.Intn(4); i > 0; i-- {
		s := schema()
		var on []int
		for _, pool := range [][]int{tables, views, funcs} {
			if len(pool) > 0 && one(2) {
				on = append(on, pool[r.Intn(len(pool))])
			}
		}
		k := "view"
		if d == "postgres" && one(3) {
			k = "matview"
		}
		if d == "sqlite" {
			var seen []int
			for _, x := range on {
				if !strings.Contains(sc.Objs[x-1].N, "`") {
					seen = append(seen, x)
				}
			}
			on = seen
		}
		o := WObj{K: k, S: s, N: name("v", s), On: on}
		if d == "sqlite" && one(25) {
			o.A, o.On = "broken", nil
			add(o)
			continue
		}
		views = append(views, add(o))
	}
	if d == "postgres" {
		for _, e := range []string{"plpgsql", "pgcrypto", "uuid-ossp"} {
			if one(2) {
				add(WObj{K: "extension", N: e})
			}
		}
		for _, t := range tables {
			if len(funcs) > 0 && one(3) {
				add(WObj{K: "trigger", N: fmt.Sprintf("trg%d", t), Own: t, On: []int{funcs[r.Intn(len(funcs))]}})
			}
		}
	}
	if d == "sqlite" {
		for _, t := range append(append([]int{}, tables...), views...) {
			if one(4) {
				add(WObj{K: "trigger", N: name("trg", ""), Own: t})
			}
		}
		for _, t := range tables {
			if one(4) {
				add(WObj{K: "index", N: name("idx", ""), Own: t})
			}
		}
	}
	if sc.CLI = d == "sqlite" && one(3); sc.CLI {
		sc.FK = true
	} else if one(2) {
		sc.Fault = &At{N: 1 + r.Intn(4), Kind: pick(r, []string{"err", "errafter", "crash", "crashafter"})}
		if d != "sqlite" {
			sc.Fault.Kind = "err"
		}
		sc.Upto = r.Intn(6)
	}
	return sc
}

func runWipe(j *job) {
	dir := fmt.Sprintf("%s/wipe%d", scratch(), shard)
	must(os.MkdirAll(dir, 0o755))
	if j.in != "" {
		i := 0
		readLines(j.in, func(line []byte) {
			i++
			if i%shards != shard {
				return
			}
			var sc WipeScen
			lenient(line, &sc)
			j.w.write(sc.run(dir))
		})
	}
	each(j.n, func(i int) {
		r := rand.New(rand.NewSource(j.seed*1000003 + int64(i)))
		d := []string{"sqlite", "postgres", "mysql", "sqlserver"}[i/8%4]
		sc := genWipe(r, d)
		sc.ID = fmt.Sprintf("wipe-%s-%d-%d", d, j.seed, i)
		j.w.write(sc.run(dir))
	})
}
