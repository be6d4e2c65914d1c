package main

import (
	"bytes"
	"database/sql"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"testing/fstest"

	"github.com/bokwoon95/sqddl/ddl"

	"verifharness/vdb"
)

// AutoScen is one SQLite database followed through successive auto-migrations.
type AutoScen struct {
	ID    string                          `json:"id"`
	FK    bool                            `json:"fk"`    // foreign keys enforced
	Style int                             `json:"style"` // how the initial DDL is written
	Init  ACat                            `json:"init"`
	Rows  map[string][]map[string]*string `json:"rows"`
	Extra []Extra                         `json:"extra"`
	Steps []AutoStep                      `json:"steps"`
}

// Extra is an object the tool does not manage.
type Extra struct {
	Kind string   `json:"kind"` // view, trigger, fts, history
	Name string   `json:"name"`
	On   string   `json:"on"` // table
	Cols []string `json:"cols"`
	SQL  string   `json:"sql"`
}

type AutoStep struct {
	Virtual []string `json:"virtual"` // declared virtual tables
	Decl    ACat     `json:"decl"`
	Drop    bool     `json:"drop"`
	Dry     bool     `json:"dry"`
	Via     string   `json:"via"` // catalog, json, db, struct
}

func q(s string) string { return `"` + strings.ReplaceAll(s, `"`, `""`) + `"` }

func qs(ss []string) string {
	var out []string
	for _, s := range ss {
		out = append(out, q(s))
	}
	return strings.Join(out, ", ")
}

// style bits: 1 column constraints inline, 2 bare names, 4 lower case keywords.
func sqliteDDL(c ACat, style int) []string {
	var out []string
	bare := regexp.MustCompile(`^[a-z_][a-z0-9_]*$`)
	reserved := map[string]bool{"group": true, "order": true}
	id := func(s string) string {
		if style&2 != 0 && bare.MatchString(s) && !reserved[s] {
			return s
		}
		return q(s)
	}
	ids := func(ss []string) string {
		var out []string
		for _, s := range ss {
			out = append(out, id(s))
		}
		return strings.Join(out, ", ")
	}
	kw := func(s string) string {
		if style&4 != 0 {
			return strings.ToLower(s)
		}
		return s
	}
	fkTail := func(k ACon) string {
		_, rt := splitKey(k.RT)
		s := kw("REFERENCES ") + id(rt) + " (" + ids(k.RC) + ")"
		if k.Upd != "" {
			s += kw(" ON UPDATE ") + k.Upd
		}
		if k.Del != "" {
			s += kw(" ON DELETE ") + k.Del
		}
		if k.Dfr {
			s += kw(" DEFERRABLE")
			if k.Idf {
				s += kw(" INITIALLY DEFERRED")
			}
		}
		return s
	}
	for _, key := range c.keys() {
		_, name := splitKey(key)
		t := c.T[key]
		var parts []string
		inline := map[string]bool{}
		for _, n := range t.O {
			col := t.C[n]
			s := id(n) + " " + typeText(col)
			if style&1 != 0 || col.AI {
				for _, kn := range sortedKeys(t.K) {
					if k := t.K[kn]; len(k.Cols) == 1 && k.Cols[0] == n && !contains(t.IG, kn) {
						switch k.K {
						case "PK":
							s += kw(" PRIMARY KEY")
							if col.AI {
								s += kw(" AUTOINCREMENT")
							}
							inline[kn] = true
						case "UQ":
							s += kw(" UNIQUE")
							inline[kn] = true
						}
					}
				}
			}
			if col.NN {
				s += kw(" NOT NULL")
			}
			if col.Def != "" {
				s += kw(" DEFAULT ") + col.Def
			}
			if col.Gen != "" {
				s += kw(" GENERATED ALWAYS AS ") + col.Gen + kw(" STORED")
			}
			if style&1 != 0 {
				for _, kn := range sortedKeys(t.K) {
					if k := t.K[kn]; k.K == "FK" && len(k.Cols) == 1 && k.Cols[0] == n && !contains(t.IG, kn) {
						s += " " + fkTail(k)
						inline[kn] = true
					}
				}
			}
			parts = append(parts, s)
		}
		for _, kn := range sortedKeys(t.K) {
			k := t.K[kn]
			if inline[kn] || contains(t.IG, kn) {
				continue
			}
			switch k.K {
			case "PK":
				parts = append(parts, kw("PRIMARY KEY")+" ("+ids(k.Cols)+")")
			case "UQ":
				parts = append(parts, kw("UNIQUE")+" ("+ids(k.Cols)+")")
			case "FK":
				parts = append(parts, kw("FOREIGN KEY")+" ("+ids(k.Cols)+") "+fkTail(k))
			case "CK":
				parts = append(parts, kw("CHECK")+" ("+k.Expr+")")
			}
		}
		out = append(out, kw("CREATE TABLE ")+id(name)+" (\n    "+strings.Join(parts, "\n    ,")+"\n)")
		for _, in := range sortedKeys(t.I) {
			x := t.I[in]
			if contains(t.IG, in) {
				continue
			}
			s := kw("CREATE ")
			if x.U {
				s += kw("UNIQUE ")
			}
			s += kw("INDEX ") + id(in) + kw(" ON ") + id(name) + " ("
			for i, col := range x.Cols {
				if i > 0 {
					s += ", "
				}
				s += id(col)
				if x.Desc[i] {
					s += kw(" DESC")
				}
			}
			s += ")"
			if x.Pred != "" {
				s += kw(" WHERE ") + x.Pred
			}
			out = append(out, s)
		}
	}
	return out
}

var typeRe = regexp.MustCompile(`^\s*([^()]*?)\s*(?:\(([^()]*)\))?\s*$`)

func splitType(s string) (string, []string) {
	m := typeRe.FindStringSubmatch(s)
	if m == nil {
		return strings.ToUpper(s), nil
	}
	var args []string
	if strings.TrimSpace(m[2]) != "" {
		for _, a := range strings.Split(m[2], ",") {
			args = append(args, strings.TrimSpace(a))
		}
	}
	return strings.ToUpper(strings.Join(strings.Fields(m[1]), " ")), args
}

// stripParens removes redundant outer parentheses.
func stripParens(s string) string {
	s = strings.TrimSpace(s)
	for len(s) >= 2 && s[0] == '(' && s[len(s)-1] == ')' {
		depth, ok := 0, true
		for i := 0; i < len(s); i++ {
			switch s[i] {
			case '\'':
				for i++; i < len(s) && s[i] != '\''; i++ {
				}
			case '(':
				depth++
			case ')':
				depth--
				if depth == 0 && i < len(s)-1 {
					ok = false
				}
			}
		}
		if !ok {
			break
		}
		s = strings.TrimSpace(s[1 : len(s)-1])
	}
	return s
}

// collapse removes the differences in white space outside of quotes.
func collapse(s string) string {
	var b strings.Builder
	space := false
	for i := 0; i < len(s); i++ {
		switch c := s[i]; c {
		case ' ', '\t', '\n', '\r':
			space = true
		case '\'', '"', '`':
			if space && b.Len() > 0 {
				b.WriteByte(' ')
			}
			space = false
			b.WriteByte(c)
			for i++; i < len(s); i++ {
				b.WriteByte(s[i])
				if s[i] == c {
					break
				}
			}
		default:
			if space && b.Len() > 0 {
				b.WriteByte(' ')
			}
			space = false
			b.WriteByte(c)
		}
	}
	return b.String()
}

func queryAll(db *sql.DB, query string, args ...any) [][]any {
	rows, err := db.Query(query, args...)
	if err != nil {
		panic(fmt.Errorf("%s: %w", query, err))
	}
	defer rows.Close()
	cols, err := rows.Columns()
	must(err)
	var out [][]any
	for rows.Next() {
		vals := make([]any, len(cols))
		ptrs := make([]any, len(cols))
		for i := range vals {
			ptrs[i] = &vals[i]
		}
		must(rows.Scan(ptrs...))
		for i, v := range vals {
			if b, ok := v.([]byte); ok {
				vals[i] = string(b)
			}
		}
		out = append(out, vals)
	}
	must(rows.Err())
	return out
}

func str(v any) string {
	if v == nil {
		return ""
	}
	return fmt.Sprint(v)
}

// rule is a referential action with the default made explicit.
func rule(s string) string {
	if s == "" {
		return "NO ACTION"
	}
	return s
}

// sqliteState reads the managed part of the database from the pragmas.
func sqliteState(db *sql.DB, history string) (cat ACat, rows map[string][]map[string]string, extra []Extra) {
	cat = ACat{S: []string{""}}.norm()
	rows = map[string][]map[string]string{}
	extra = []Extra{}
	virtual := map[string]bool{}
	for _, r := range queryAll(db, `SELECT name, sql FROM sqlite_schema WHERE type = 'table' ORDER BY name`) {
		if strings.HasPrefix(strings.ToUpper(str(r[1])), "CREATE VIRTUAL TABLE") {
			virtual[str(r[0])] = true
		}
	}
	shadow := func(name string) bool {
		for v := range virtual {
			if strings.HasPrefix(name, v+"_") {
				return true
			}
		}
		return false
	}
	for _, r := range queryAll(db, `SELECT type, name, tbl_name, sql FROM sqlite_schema ORDER BY type, name`) {
		typ, name, tbl, text := str(r[0]), str(r[1]), str(r[2]), str(r[3])
		text = strings.TrimSuffix(collapse(text), ";")
		switch {
		case strings.HasPrefix(name, "sqlite_") || typ == "index":
			continue
		case typ == "view" || typ == "trigger":
			e := Extra{Kind: typ, Name: name, SQL: text}
			if typ == "trigger" {
				e.On = "." + tbl
			}
			extra = append(extra, e)
			continue
		case virtual[name]:
			for _, row := range queryAll(db, `SELECT * FROM `+q(name)+` ORDER BY rowid`) {
				text += fmt.Sprint(row)
			}
			extra = append(extra, Extra{Kind: "virtual", Name: name, SQL: text})
			continue
		case shadow(name):
			continue
		case name == history:
			for _, row := range queryAll(db, `SELECT * FROM `+q(name)+` ORDER BY rowid`) {
				text += fmt.Sprint(row)
			}
			extra = append(extra, Extra{Kind: "history", Name: name, SQL: text})
			continue
		}
		key := "." + name
		t := ATab{}.norm()
		var pk []struct {
			n   string
			pos int64
		}
		for _, c := range queryAll(db, `SELECT name, type, "notnull", dflt_value, pk, hidden FROM pragma_table_xinfo(?) ORDER BY cid`, name) {
			n := str(c[0])
			b, a := splitType(str(c[1]))
			col := ACol{B: b, A: a, NN: c[2].(int64) != 0, Def: stripParens(str(c[3]))}
			if h := c[5].(int64); h == 2 || h == 3 {
				// the pragma reports the type of a generated column with the words
				// GENERATED ALWAYS attached
				col.B = strings.TrimSpace(strings.TrimSuffix(col.B, "GENERATED ALWAYS"))
				col.Gen = "gen"
			}
			if p := c[4].(int64); p > 0 {
				pk = append(pk, struct {
					n   string
					pos int64
				}{n, p})
			}
			t.O = append(t.O, n)
			t.C[n] = col
		}
		if len(pk) > 0 {
			sort.Slice(pk, func(i, j int) bool { return pk[i].pos < pk[j].pos })
			var cols []string
			for _, p := range pk {
				cols = append(cols, p.n)
			}
			t.K["PK("+strings.Join(cols, ",")+")"] = ACon{K: "PK", Cols: cols}
		}
		for _, x := range queryAll(db, `SELECT name, "unique", origin, partial FROM pragma_index_list(?)`, name) {
			xn, origin := str(x[0]), str(x[2])
			var cols []string
			var desc []bool
			for _, c := range queryAll(db, `SELECT name, "desc" FROM pragma_index_xinfo(?) WHERE key = 1 ORDER BY seqno`, xn) {
				cols = append(cols, str(c[0]))
				desc = append(desc, c[1].(int64) != 0)
			}
			switch origin {
			case "u":
				t.K["UQ("+strings.Join(cols, ",")+")"] = ACon{K: "UQ", Cols: cols}
			case "c":
				ix := AIdx{Cols: cols, Desc: desc, U: x[1].(int64) != 0}
				text := collapse(str(queryAll(db, `SELECT sql FROM sqlite_schema WHERE type = 'index' AND name = ?`, xn)[0][0]))
				if i := strings.Index(strings.ToUpper(text), " WHERE "); i >= 0 && x[3].(int64) != 0 {
					ix.Pred = strings.ReplaceAll(stripParens(text[i+7:]), `"`, "")
				}
				t.I[xn] = ix
			}
		}
		fks := map[int64]*ACon{}
		for _, f := range queryAll(db, `SELECT id, seq, "table", "from", "to", on_update, on_delete FROM pragma_foreign_key_list(?) ORDER BY id, seq`, name) {
			k := fks[f[0].(int64)]
			if k == nil {
				k = &ACon{K: "FK", RT: "." + str(f[2]), Upd: str(f[5]), Del: str(f[6])}
				fks[f[0].(int64)] = k
			}
			k.Cols = append(k.Cols, str(f[3]))
			k.RC = append(k.RC, str(f[4]))
		}
		for _, k := range fks {
			t.K["FK("+strings.Join(k.Cols, ",")+")"] = *k
		}
		cat.T[key] = t.norm()
		var sel []string
		var plain []string
		for _, n := range t.O {
			if t.C[n].Gen == "" {
				plain = append(plain, n)
				sel = append(sel, "CAST("+q(n)+" AS TEXT)")
			}
		}
		rows[key] = []map[string]string{}
		if len(sel) > 0 {
			for _, r := range queryAll(db, "SELECT "+strings.Join(sel, ", ")+" FROM "+q(name)+" ORDER BY rowid") {
				m := map[string]string{}
				for i, n := range plain {
					if r[i] == nil {
						m[n] = "NULL"
					} else {
						m[n] = "=" + canonValue(str(r[i]))
					}
				}
				rows[key] = append(rows[key], m)
			}
		}
	}
	return cat, rows, extra
}

// canonValue makes numbers comparable whatever the affinity of their column.
func canonValue(s string) string {
	if f, err := strconv.ParseFloat(s, 64); err == nil {
		return strconv.FormatFloat(f, 'g', -1, 64)
	}
	return s
}

// declared is what the declared schema asks of SQLite, in the terms that
// sqliteState reports.
func declared(c ACat) ACat {
	c = c.clone()
	c.S = []string{""}
	for key, t := range c.T {
		for _, n := range t.IG {
			delete(t.K, n)
			delete(t.I, n)
		}
		t.IG = []string{}
		for n, col := range t.C {
			col.B, _ = splitType(col.B)
			col.Def = stripParens(col.Def)
			col.AI, col.ID = false, ""
			if col.Gen != "" {
				col.Gen = "gen"
			}
			t.C[n] = col
		}
		for n, k := range t.K {
			if k.K == "FK" {
				k.Upd, k.Del, k.Dfr, k.Idf = rule(k.Upd), rule(k.Del), false, false
				t.K[n] = k
			}
			if k.K == "CK" {
				delete(t.K, n)
			}
		}
		for n, x := range t.I {
			x.Pred = strings.ReplaceAll(stripParens(collapse(x.Pred)), `"`, "")
			t.I[n] = x
		}
		c.T[key] = t
	}
	return c.norm()
}

// destCatalog hands the declared schema to the tool.
func destCatalog(st AutoStep, dir string) (cat *ddl.Catalog, files fstest.MapFS, names []string) {
	switch st.Via {
	case "json":
		c := st.catalog()
		var buf bytes.Buffer
		must(encodeJSON(&buf, c))
		return nil, fstest.MapFS{"schema.json": &fstest.MapFile{Data: buf.Bytes(), Mode: 0644}}, []string{"schema.json"}
	case "db":
		path := filepath.Join(dir, "decl.db")
		must(os.RemoveAll(path))
		db, err := sql.Open("sqlite3", "file:"+path)
		must(err)
		defer db.Close()
		for _, s := range sqliteDDL(st.Decl, 0) {
			if _, err := db.Exec(s); err != nil {
				panic(fmt.Errorf("%s: %w", s, err))
			}
		}
		for _, n := range st.Virtual {
			if _, err := db.Exec("CREATE VIRTUAL TABLE " + n + " USING fts5(body)"); err != nil {
				panic(err)
			}
		}
		cat := &ddl.Catalog{}
		dbi := ddl.NewDatabaseIntrospector("sqlite", db)
		dbi.ObjectTypes = []string{"TABLES"}
		must(dbi.WriteCatalog(cat))
		return cat, nil, nil
	case "struct":
		src := structSource(st.Decl)
		for _, n := range st.Virtual {
			src += "\ntype " + strings.ToUpper(n) + " struct {\n\tsq.TableStruct `ddl:\"virtual\"`\n\tBODY sq.StringField\n}\n"
		}
		return nil, fstest.MapFS{"tables.go": &fstest.MapFile{Data: []byte(src), Mode: 0644}}, []string{"tables.go"}
	}
	return st.catalog(), nil, nil
}

// catalog is the declared schema with the declared virtual tables.
func (st AutoStep) catalog() *ddl.Catalog {
	c := st.Decl.catalog("sqlite", "", false, true)
	for i, n := range st.Virtual {
		if len(c.Schemas) == 0 {
			c.Schemas = append(c.Schemas, ddl.Schema{})
		}
		t := ddl.Table{TableName: n, IsVirtual: true, Columns: []ddl.Column{{TableName: n, ColumnName: "body"}}}
		if i%2 == 1 {
			t.IsVirtual, t.SQL = false, "CREATE VIRTUAL TABLE "+n+" USING fts5(body)"
		}
		c.Schemas[0].Tables = append(c.Schemas[0].Tables, t)
	}
	return c
}

func (sc *AutoScen) setup(db *sql.DB) error {
	for _, s := range sqliteDDL(sc.Init, sc.Style) {
		if _, err := db.Exec(s); err != nil {
			return fmt.Errorf("%s: %w", s, err)
		}
	}
	for _, key := range sortedKeys(sc.Rows) {
		_, name := splitKey(key)
		for _, row := range sc.Rows[key] {
			var cols, marks []string
			var args []any
			for _, n := range sortedKeys(row) {
				cols = append(cols, q(n))
				marks = append(marks, "?")
				if row[n] == nil {
					args = append(args, nil)
				} else {
					args = append(args, *row[n])
				}
			}
			s := "INSERT INTO " + q(name) + " (" + strings.Join(cols, ", ") + ") VALUES (" + strings.Join(marks, ", ") + ")"
			if _, err := db.Exec(s, args...); err != nil {
				return fmt.Errorf("%s: %w", s, err)
			}
		}
	}
	for _, e := range sc.Extra {
		if _, err := db.Exec(e.SQL); err != nil {
			return fmt.Errorf("%s: %w", e.SQL, err)
		}
	}
	return nil
}

// run follows the scenario.
func (sc *AutoScen) run(dir string) obj {
	events := []obj{}
	tr := obj{"id": sc.ID, "scenario": sc}
	path := filepath.Join(dir, "auto.db")
	for _, suffix := range []string{"", "-journal", "-wal", "-shm"} {
		must(os.RemoveAll(path + suffix))
	}
	plain, err := sql.Open("sqlite3", "file:"+path+"?_foreign_keys=false")
	must(err)
	defer plain.Close()
	if err := sc.setup(plain); err != nil {
		tr["events"], tr["unsupported"] = events, "setup: "+err.Error()
		return tr
	}
	const history = "sqddl_history"
	state := func(e obj) obj {
		cat, rows, extra := sqliteState(plain, history)
		// what the extra objects refer to is known from the scenario
		for i := range extra {
			extra[i].Cols = []string{}
			for _, x := range sc.Extra {
				if x.Name == extra[i].Name {
					extra[i].On, extra[i].Cols = x.On, strs(x.Cols)
				}
			}
		}
		e["cat"], e["rows"], e["extra"] = cat, rows, extra
		return e
	}
	events = append(events, state(obj{"e": "init", "fk": sc.FK}))
	for i, st := range sc.Steps {
		w := &vdb.World{Path: path, Dialect: "sqlite", Options: fmt.Sprintf("_foreign_keys=%v", sc.FK)}
		var sent []string
		w.Observe = func(c *vdb.Call) {
			if c.Kind != "exec" {
				return
			}
			s := strings.ToUpper(strings.TrimSpace(c.SQL))
			if strings.HasPrefix(s, "SELECT") || s == "" || strings.HasPrefix(s, "PRAGMA") && !strings.Contains(s, ";") {
				return
			}
			sent = append(sent, c.SQL)
		}
		db := w.DB()
		dest, files, names := destCatalog(st, dir)
		var stdout, stderr bytes.Buffer
		cmd := &ddl.AutomigrateCmd{DB: db, Dialect: "sqlite", DestCatalog: dest, Filenames: names, DropObjects: st.Drop, DryRun: st.Dry, Stdout: &stdout, Stderr: &stderr, MaxAttempts: 1}
		if files != nil {
			cmd.DirFS = files
		}
		var runErr error
		panicked := ""
		func() {
			defer func() {
				if p := recover(); p != nil {
					panicked = fmt.Sprint(p)
				}
			}()
			runErr = cmd.Run()
		}()
		db.Close()
		e := obj{"e": "auto", "n": i, "decl": declared(st.Decl), "drop": st.Drop, "dry": st.Dry, "err": "", "panic": panicked, "chg": len(sent),
			"printed": fingerprint(stdout.String()), "sent": fingerprint(strings.Join(sent, "\n"))}
		if runErr != nil {
			e["err"] = trunc(runErr.Error(), 300)
		}
		if os.Getenv("VH_DEBUG") != "" {
			e["text"] = strings.Join(sent, "\n")
			e["out"] = stdout.String()
		}
		events = append(events, state(e))
	}
	tr["events"] = events
	return tr
}

// fingerprint is the text without comment lines and white space.
func fingerprint(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(strings.TrimSpace(l), "--") {
			continue
		}
		if f := strings.Join(strings.Fields(l), " "); f != "" {
			out = append(out, f)
		}
	}
	return strings.Join(out, " ")
}
