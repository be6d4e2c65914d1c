package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/bokwoon95/sqddl/ddl"
)

// GenScen is a pair of schemas for which migrations are generated.
type GenScen struct {
	ID       string `json:"id"`
	D        string `json:"d"`
	Ver      string `json:"ver"`
	Implicit bool   `json:"implicit"` // foreign keys into the current schema are declared without naming it
	Src      ACat   `json:"src"`
	Dest     ACat   `json:"dest"`
	Drop     bool   `json:"drop"`
	Via      string `json:"via"`    // catalog or cli
	Others   bool   `json:"others"` // the current schema is a declared one
	Spell    bool   `json:"spell"`  // the current schema is spelled the way the database reports it
	Prefix   string `json:"prefix"` // "" for the timestamp
}

// canonDef is a default in one spelling.
func canonDef(d, s string) string {
	s = strings.TrimSpace(s)
	if d == "sqlserver" {
		for wrapped(s) {
			s = strings.TrimSpace(s[1 : len(s)-1])
		}
	}
	if d == "postgres" && strings.HasPrefix(s, "'") {
		if i := strings.LastIndex(s, "'::"); i > 0 {
			s = s[:i+1]
		}
	}
	if !strings.HasPrefix(s, "'") {
		s = strings.ToUpper(s)
	}
	return s
}

func colObj(d string, c ACol) obj {
	gen, refs := canonExpr(d, c.Gen)
	b := strings.ToUpper(strings.Join(strings.Fields(c.B), " "))
	if d == "sqlserver" && gen != "" {
		b = ""
	}
	return obj{"b": b, "a": strs(c.A), "nn": c.NN, "def": canonDef(d, c.Def), "id": strings.ToUpper(c.ID), "coll": c.Coll, "gen": gen, "refs": refs, "ai": c.AI}
}

func conObj(d string, c ACon) obj {
	expr, refs := canonExpr(d, c.Expr)
	if c.Excl != nil {
		expr, refs = c.Excl.canon(d)
	} else if c.Full {
		expr = "MATCH FULL"
	}
	return obj{"k": c.K, "cols": strs(c.Cols), "rt": c.RT, "rc": strs(c.RC), "upd": c.Upd, "del": c.Del, "dfr": c.Dfr, "idf": c.Idf, "nv": c.NV, "expr": expr, "refs": refs}
}

func idxObj(d string, x AIdx) obj {
	pred, refs := canonExpr(d, x.Pred)
	cols := []string{}
	for _, c := range x.Cols {
		if wrapped(c) {
			e, r := canonExpr(d, c)
			c = "(" + e + ")"
			refs = append(refs, r...)
		} else {
			refs = append(refs, c)
		}
		cols = append(cols, c)
	}
	desc := append([]bool{}, x.Desc...)
	for len(desc) < len(cols) {
		desc = append(desc, false)
	}
	kind := strings.ToUpper(x.Kind)
	if kind == "BTREE" {
		kind = ""
	}
	return obj{"u": x.U, "cols": cols, "desc": desc, "pred": pred, "inc": strs(x.Inc), "kind": kind, "refs": append(refs, x.Inc...)}
}

func tabObj(d string, t ATab) obj {
	c, k, i := obj{}, obj{}, obj{}
	for n, x := range t.C {
		c[n] = colObj(d, x)
	}
	for n, x := range t.K {
		k[n] = conObj(d, x)
	}
	for n, x := range t.I {
		i[n] = idxObj(d, x)
	}
	return obj{"c": c, "k": k, "i": i, "ig": strs(t.IG)}
}

func catObj(d string, c ACat) obj {
	t := obj{}
	for key, x := range c.T {
		t[key] = tabObj(d, x)
	}
	return obj{"s": strs(c.S), "t": t}
}

// widths are the display widths that MySQL reports before version 8.
var widths = map[string]string{"INT": "11", "INTEGER": "11", "BIGINT": "20", "SMALLINT": "6", "INT UNSIGNED": "10", "BIGINT UNSIGNED": "20"}

func splitColumnType(s string) (base string, args []string) {
	i, j := strings.Index(s, "("), strings.LastIndex(s, ")")
	if i < 0 || j < i {
		return s, nil
	}
	return s[:i] + s[j+1:], strings.Split(s[i+1:j], ",")
}

// reported spells a schema the way the database would report it.
func reported(d, version string, c *ddl.Catalog) {
	for i := range c.Schemas {
		for j := range c.Schemas[i].Tables {
			t := &c.Schemas[i].Tables[j]
			for k := range t.Columns {
				col := &t.Columns[k]
				base, args := splitColumnType(col.ColumnType)
				for _, a := range typeAliases[d][base] {
					if strings.ToLower(a) == a {
						base = a
					}
				}
				if w := widths[strings.ToUpper(base)]; d == "mysql" && strings.HasPrefix(version, "5") && w != "" && args == nil {
					args = []string{w}
				}
				col.ColumnType = typeText(ACol{B: base, A: args})
				if d == "postgres" && strings.HasPrefix(col.ColumnDefault, "'") {
					col.ColumnDefault += "::" + strings.ToLower(base)
				}
			}
		}
	}
}

// declareOthers adds what the tables of a declared schema have in databases of
// other dialects.
func declareOthers(c *ddl.Catalog) {
	for i := range c.Schemas {
		for j := range c.Schemas[i].Tables {
			t := &c.Schemas[i].Tables[j]
			if len(t.Columns) == 0 {
				continue
			}
			cols := []string{t.Columns[0].ColumnName}
			t.Indexes = append(t.Indexes, ddl.Index{TableSchema: t.TableSchema, TableName: t.TableName, IndexName: t.TableName + "_other_idx", Columns: cols, Ignore: true})
			t.Constraints = append(t.Constraints,
				ddl.Constraint{TableSchema: t.TableSchema, TableName: t.TableName, ConstraintName: t.TableName + "_other_key", ConstraintType: ddl.UNIQUE, Columns: cols, Ignore: true},
				ddl.Constraint{TableSchema: t.TableSchema, TableName: t.TableName, ConstraintName: t.TableName + "_other_fkey", ConstraintType: ddl.FOREIGN_KEY, Columns: cols,
					ReferencesSchema: t.TableSchema, ReferencesTable: t.TableName, ReferencesColumns: cols, Ignore: true})
			t.Columns = append(t.Columns, ddl.Column{TableSchema: t.TableSchema, TableName: t.TableName, ColumnName: "other_column", ColumnType: "INT", Ignore: true})
		}
		s := &c.Schemas[i]
		s.Tables = append(s.Tables, ddl.Table{TableSchema: s.SchemaName, TableName: "other_table", Ignore: true,
			Columns: []ddl.Column{{TableSchema: s.SchemaName, TableName: "other_table", ColumnName: "id", ColumnType: "INT"}}})
	}
}

func (sc *GenScen) cmd(dir, out string, src ACat, drop, accept, dry bool, stdout io.Writer) *ddl.GenerateCmd {
	s := src.catalog(sc.D, sc.Ver, false, false)
	if sc.Spell {
		reported(sc.D, sc.Ver, s)
	}
	if sc.Others {
		declareOthers(s)
	}
	t := sc.Dest.catalog(sc.D, sc.Ver, sc.Implicit, true)
	if sc.Via == "cli" {
		for n, c := range map[string]*ddl.Catalog{"src.json": s, "dest.json": t} {
			var buf bytes.Buffer
			must(encodeJSON(&buf, c))
			must(os.WriteFile(filepath.Join(dir, n), buf.Bytes(), 0o644))
		}
		args := []string{"-dialect", sc.D, "-src", filepath.Join(dir, "src.json"), "-dest", filepath.Join(dir, "dest.json"), "-output-dir", out}
		if sc.Prefix != "" {
			args = append(args, "-prefix", sc.Prefix)
		}
		if drop {
			args = append(args, "-drop-objects")
		}
		if accept {
			args = append(args, "-accept-warnings")
		}
		if dry {
			args = append(args, "-dry-run")
		}
		cmd, err := ddl.GenerateCommand(args...)
		must(err)
		cmd.Stdout, cmd.Stderr = stdout, io.Discard
		return cmd
	}
	return &ddl.GenerateCmd{SrcCatalog: s, DestCatalog: t, OutputDir: out, Stdout: stdout, Stderr: io.Discard, Prefix: sc.Prefix, DropObjects: drop, DryRun: dry, Dialect: sc.D, AcceptWarnings: accept}
}

func emptyDir(d string) {
	must(os.RemoveAll(d))
	must(os.MkdirAll(d, 0o755))
}

func listDir(d string) []string {
	es, err := os.ReadDir(d)
	must(err)
	out := []string{}
	for _, e := range es {
		out = append(out, e.Name())
	}
	sort.Strings(out)
	return out
}

// guard runs f and reports its error or panic.
func guard(f func() error) (msg string, crashed bool) {
	if current != "" && dead[current] {
		return "panic", true
	}
	defer func() {
		if e := recover(); e != nil {
			msg, crashed = fmt.Sprint(e), true
		}
	}()
	if err := f(); err != nil {
		return err.Error(), false
	}
	return "", false
}

var stampRe = regexp.MustCompile(`^[0-9]{14}_`)

func opsOf(stmts []obj) []obj {
	out := []obj{}
	for _, s := range stmts {
		out = append(out, s["ops"].([]obj)...)
	}
	return out
}

func (sc *GenScen) run(dir string) (tr obj) {
	var evs []obj
	unsupported := ""
	tr = obj{"id": sc.ID, "scenario": sc}
	defer func() {
		if unsupported != "" {
			tr["unsupported"] = unsupported
		}
		tr["events"] = evs
	}()
	cur := curSchema(sc.D)
	out := filepath.Join(dir, "out")
	major := 0
	fmt.Sscan(sc.Ver, &major)
	evs = append(evs, obj{"e": "start", "d": sc.D, "ver": major, "cat": catObj(sc.D, sc.Src), "decl": catObj(sc.D, sc.Dest), "drop": sc.Drop})

	emptyDir(out)
	nwarn := 0
	msg, crashed := guard(func() error {
		files, warnings, err := sc.cmd(dir, out, sc.Src, sc.Drop, false, false, io.Discard).Results()
		for _, f := range files {
			f.Close()
		}
		nwarn = len(warnings)
		return err
	})
	evs = append(evs, obj{"e": "plan", "err": msg, "crashed": crashed, "warned": nwarn > 0})
	if crashed {
		return
	}

	var printed bytes.Buffer
	msg, crashed = guard(sc.cmd(dir, out, sc.Src, sc.Drop, false, true, &printed).Run)
	stmts, why := parseBatches(sc.D, cur, printed.String(), true)
	if why != "" {
		unsupported = why
		return
	}
	pre := canonJSON(opsOf(stmts))
	evs = append(evs, obj{"e": "dry", "err": msg, "crashed": crashed, "files": len(listDir(out))})

	strict := nwarn > 0
	if strict {
		msg, crashed = guard(sc.cmd(dir, out, sc.Src, sc.Drop, false, false, io.Discard).Run)
		evs = append(evs, obj{"e": "gen", "accept": false, "err": msg, "crashed": crashed, "files": len(listDir(out))})
	}
	emptyDir(out)
	msg, crashed = guard(sc.cmd(dir, out, sc.Src, sc.Drop, strict, false, io.Discard).Run)
	names := listDir(out)
	evs = append(evs, obj{"e": "gen", "accept": strict, "err": msg, "crashed": crashed, "files": len(names)})
	if msg != "" {
		return
	}
	all := []obj{}
	text := map[string]string{}
	for _, n := range names {
		b, err := os.ReadFile(filepath.Join(out, n))
		must(err)
		text[n] = string(b)
	}
	for _, n := range names {
		if strings.HasSuffix(n, ".undo.sql") {
			continue
		}
		stmts, why := parseScript(sc.D, cur, text[n])
		if why != "" {
			unsupported = n + ": " + why
			return
		}
		base := strings.TrimSuffix(n, ".sql")
		kind := ""
		for _, k := range []string{"tx", "txoff"} {
			if strings.HasSuffix(base, "."+k) {
				kind, base = k, strings.TrimSuffix(base, "."+k)
			}
		}
		ok := strings.HasPrefix(n, sc.Prefix+"_")
		if sc.Prefix == "" {
			ok = stampRe.MatchString(n)
		}
		ev := obj{"e": "file", "name": n, "kind": kind, "named": ok, "stmts": len(stmts), "undo": []obj{}, "hasundo": false}
		if u, has := text[base+".undo.sql"]; has {
			us, why := parseScript(sc.D, cur, u)
			if why != "" {
				unsupported = n + ": " + why
				return
			}
			ev["undo"], ev["hasundo"] = opsOf(us), true
			delete(text, base+".undo.sql")
		}
		if os.Getenv("VH_DEBUG") != "" {
			ev["text"] = text[n]
		}
		delete(text, n)
		evs = append(evs, ev)
		for _, s := range stmts {
			s["e"] = "stmt"
			evs = append(evs, s)
		}
		all = append(all, opsOf(stmts)...)
	}
	evs = append(evs, obj{"e": "end", "strayundo": len(text), "previewed": pre == canonJSON(all)})

	// Once more, from the declared schema as the database would report it.
	settled := sc.Dest.clone()
	for key, t := range settled.T {
		for _, n := range t.IG {
			delete(t.K, n)
			delete(t.I, n)
		}
		t.IG = nil
		settled.T[key] = t
	}
	emptyDir(out)
	for _, drop := range []bool{sc.Drop} {
		again := *sc
		again.Spell = !sc.Spell
		msg, crashed = guard(again.cmd(dir, out, settled, drop, true, false, io.Discard).Run)
		evs = append(evs, obj{"e": "again", "err": msg, "crashed": crashed, "files": len(listDir(out))})
	}
	auto, why := sc.automigrate(settled)
	if why != "" {
		auto = []obj{{"e": "autolimit", "why": trunc(why, 200)}}
	}
	evs = append(evs, auto...)
	return
}

// automigrate previews the same migration on a database that has the current
// schema, runs it, runs it with warnings accepted, and runs it on a database
// that has the declared schema.
func (sc *GenScen) automigrate(settled ACat) (evs []obj, unsupported string) {
	cur := curSchema(sc.D)
	src := sc.Src.catalog(sc.D, sc.Ver, false, false)
	reported(sc.D, sc.Ver, src)
	printed := ""
	for _, mode := range []string{"dry", "plain", "accept", "again"} {
		if mode == "accept" && evs[1]["err"] == "" {
			continue
		}
		if mode == "again" {
			src = settled.catalog(sc.D, sc.Ver, false, false)
			reported(sc.D, sc.Ver, src)
		}
		srv := &catServer{d: sc.D, version: sc.Ver, cat: src}
		var log []recorded
		w := srv.world(&log)
		db := w.DB()
		var out bytes.Buffer
		cmd := &ddl.AutomigrateCmd{DB: db, Dialect: sc.D, DestCatalog: sc.Dest.catalog(sc.D, sc.Ver, sc.Implicit, true), DropObjects: sc.Drop, DryRun: mode == "dry", AcceptWarnings: mode == "accept" || mode == "again",
			Stdout: &out, Stderr: io.Discard}
		msg, crashed := guard(cmd.Run)
		db.Close()
		if w.Unsupported != "" {
			return nil, w.Unsupported
		}
		stmts := [][]obj{}
		tx := []bool{}
		all := []obj{}
		for _, c := range log {
			if c.Kind != "exec" || reSession.MatchString(c.SQL) {
				continue
			}
			parsed, why := parseScript(sc.D, cur, c.SQL)
			if why != "" {
				return nil, why
			}
			for _, s := range parsed {
				stmts, tx = append(stmts, s["ops"].([]obj)), append(tx, c.InTx || len(parsed) > 1)
			}
			all = append(all, opsOf(parsed)...)
		}
		if mode == "dry" {
			parsed, why := parseBatches(sc.D, cur, out.String(), true)
			if why != "" {
				return nil, why
			}
			printed = canonJSON(opsOf(parsed))
		}
		if mode == "again" {
			evs = append(evs, obj{"e": "autoagain", "err": trunc(msg, 200), "crashed": crashed, "stmts": stmts})
			break
		}
		evs = append(evs, obj{"e": "auto", "dry": mode == "dry", "accept": mode == "accept", "err": trunc(msg, 200), "crashed": crashed, "stmts": stmts, "tx": tx, "previewed": mode == "dry" || printed == canonJSON(all)})
	}
	return evs, ""
}

var reSession = regexp.MustCompile(`(?is)^\s*SET\s`)

func canonJSON(v any) string {
	b, err := json.Marshal(v)
	must(err)
	return string(b)
}
