package main

import (
	"archive/tar"
	"archive/zip"
	"compress/gzip"
	"database/sql"
	"encoding/hex"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/bokwoon95/sqddl/ddl"

	"verifharness/vdb"
)

// DumpScen is a SQLite database that is dumped and loaded into another one
// (see spec/Dump.tla). Values are written as in observeValues.
type DumpScen struct {
	ID      string                `json:"id"`
	Init    ACat                  `json:"init"`
	Style   int                   `json:"style"`
	Rows    map[string][][]string `json:"data"` // by table, in column order without generated columns
	Kind    string                `json:"kind"` // dir, zip, tgz
	Schema  bool                  `json:"schemaonly"`
	Data    bool                  `json:"dataonly"`
	Tables  []string              `json:"tables"`
	Exclude []string              `json:"exclude"`
	Null    string                `json:"null"`
	Bin     string                `json:"bin"`
	History bool                  `json:"history"` // there is a history table
	Fault   int                   `json:"fault"`
	Next    bool                  `json:"next"` // the failing call fetches a row
	Size    int                   `json:"size"` // batch size of the load
}

// value reads i:1, r:1.5, t:text, x:00ff and ~.
func value(s string) any {
	switch {
	case strings.HasPrefix(s, "i:"):
		n, err := strconv.ParseInt(s[2:], 10, 64)
		must(err)
		return n
	case strings.HasPrefix(s, "r:"):
		f, err := strconv.ParseFloat(s[2:], 64)
		must(err)
		return f
	case strings.HasPrefix(s, "x:"):
		b, err := hex.DecodeString(s[2:])
		must(err)
		return b
	case strings.HasPrefix(s, "t:"):
		return s[2:]
	}
	return nil
}

var timeFormats = []string{
	"2006-01-02 15:04:05.999999999-07:00", "2006-01-02T15:04:05.999999999-07:00", "2006-01-02T15:04:05.999999999Z", "2006-01-02 15:04:05.999999999Z",
	"2006-01-02 15:04:05.999999999", "2006-01-02T15:04:05.999999999", "2006-01-02 15:04", "2006-01-02T15:04", "2006-01-02",
}

// instant is the moment a value of a timestamp column stands for.
func instant(v any) (string, bool) {
	switch v := v.(type) {
	case int64:
		if v > 1e12 || v < -1e12 {
			return time.UnixMilli(v).UTC().Format(time.RFC3339Nano), true
		}
		return time.Unix(v, 0).UTC().Format(time.RFC3339Nano), true
	case string:
		for _, f := range timeFormats {
			if t, err := time.Parse(f, v); err == nil {
				return t.UTC().Format(time.RFC3339Nano), true
			}
		}
	}
	return "", false
}

// observeValues reads the rows of the tables as they are stored.
func observeValues(db *sql.DB, cat ACat) obj {
	out := obj{}
	for _, key := range cat.keys() {
		_, name := splitKey(key)
		t := cat.T[key]
		var exprs []string
		var cols []string
		for _, n := range t.O {
			if t.C[n].Gen == "" {
				cols = append(cols, n)
				exprs = append(exprs, "typeof("+q(n)+")", "CASE WHEN typeof("+q(n)+") = 'real' THEN printf('%!.17g', "+q(n)+") WHEN typeof("+q(n)+") IN ('text', 'blob') THEN hex("+q(n)+") ELSE CAST("+q(n)+" AS TEXT) END")
			}
		}
		rows := []obj{}
		if len(cols) > 0 {
			for _, r := range queryAll(db, "SELECT "+strings.Join(exprs, ", ")+" FROM "+q(name)) {
				row := obj{}
				for i, n := range cols {
					v := str(r[2*i+1])
					stamp := false
					switch t.C[n].B {
					case "DATETIME", "TIMESTAMP", "DATE":
						stamp = true
					}
					switch str(r[2*i]) {
					case "null":
						v = "~"
					case "integer":
						x, err := strconv.ParseInt(v, 10, 64)
						must(err)
						v = "i:" + v
						if at, ok := instant(x); ok && stamp {
							v = "d:" + at
						}
					case "real":
						f, err := strconv.ParseFloat(v, 64)
						must(err)
						v = "r:" + strconv.FormatFloat(f, 'g', -1, 64)
					case "text":
						b, err := hex.DecodeString(v)
						must(err)
						v = "t:" + strings.Trim(strconv.QuoteToASCII(string(b)), `"`)
						if at, ok := instant(string(b)); ok && stamp {
							v = "d:" + at
						}
					case "blob":
						v = "x:" + strings.ToLower(v)
					}
					row[n] = v
				}
				rows = append(rows, row)
			}
		}
		out[key] = rows
	}
	return out
}

func (sc *DumpScen) fill(db *sql.DB) error {
	for _, key := range sc.Init.keys() {
		_, name := splitKey(key)
		t := sc.Init.T[key]
		var cols, marks []string
		for _, n := range t.O {
			if t.C[n].Gen == "" {
				cols, marks = append(cols, q(n)), append(marks, "?")
			}
		}
		for _, row := range sc.Rows[key] {
			var args []any
			for _, v := range row {
				args = append(args, value(v))
			}
			// Rows that do not fit a constraint are left out.
			db.Exec("INSERT INTO "+q(name)+" ("+strings.Join(cols, ", ")+") VALUES ("+strings.Join(marks, ", ")+")", args...)
		}
	}
	if sc.History {
		if _, err := db.Exec("CREATE TABLE sqddl_history (filename VARCHAR(255) PRIMARY KEY, checksum VARCHAR(64)); INSERT INTO sqddl_history VALUES ('1.sql', 'ab')"); err != nil {
			return err
		}
	}
	return nil
}

func (sc *DumpScen) setup(path string) (*sql.DB, error) {
	for _, suffix := range []string{"", "-journal", "-wal", "-shm"} {
		must(os.RemoveAll(path + suffix))
	}
	db, err := sql.Open("sqlite3", "file:"+path)
	must(err)
	db.SetMaxOpenConns(1)
	for _, s := range sqliteDDL(sc.Init, sc.Style) {
		if _, err := db.Exec(s); err != nil {
			return db, fmt.Errorf("%s: %w", s, err)
		}
	}
	return db, nil
}

// dumped lists the files of a dump.
func dumped(kind, dir string) []string {
	out := []string{}
	switch kind {
	case "zip":
		r, err := zip.OpenReader(filepath.Join(dir, "dump.zip"))
		if err != nil {
			return nil
		}
		for _, f := range r.File {
			out = append(out, f.Name)
		}
		r.Close()
	case "tgz":
		f, err := os.Open(filepath.Join(dir, "dump.tgz"))
		if err != nil {
			return nil
		}
		defer f.Close()
		g, err := gzip.NewReader(f)
		if err != nil {
			return nil
		}
		t := tar.NewReader(g)
		for {
			h, err := t.Next()
			if err == io.EOF {
				break
			}
			if err != nil {
				return nil
			}
			out = append(out, h.Name)
		}
	default:
		entries, err := os.ReadDir(filepath.Join(dir, "dump"))
		if err != nil {
			return nil
		}
		for _, e := range entries {
			out = append(out, e.Name())
		}
	}
	sort.Strings(out)
	return out
}

func (sc *DumpScen) run(base string) obj {
	tr := obj{"id": sc.ID, "scenario": sc}
	dir := filepath.Join(base, "dump")
	must(os.RemoveAll(dir))
	must(os.MkdirAll(dir, 0o755))
	src := filepath.Join(base, "src.db")
	plain, err := sc.setup(src)
	if err == nil {
		err = sc.fill(plain)
	}
	if err != nil {
		plain.Close()
		tr["unsupported"] = "setup: " + err.Error()
		tr["events"] = []obj{}
		return tr
	}
	cat, _, _ := sqliteState(plain, "sqddl_history")
	opts := obj{"schemaonly": sc.Schema, "dataonly": sc.Data, "tables": strs(sc.Tables), "exclude": strs(sc.Exclude), "null": defStr(sc.Null, `\N`)}
	events := []obj{{"e": "init", "cat": cat, "rows": observeValues(plain, cat), "opts": opts}}
	plain.Close()

	w := &vdb.World{Path: src, Dialect: "sqlite"}
	n, faulted, faultSQL := 0, "", ""
	w.Fault = func(_ int, c *vdb.Call) string {
		switch c.Kind {
		case "query", "prepare":
			if sc.Next {
				return ""
			}
		case "next":
			if !sc.Next {
				return ""
			}
		default:
			return ""
		}
		n++
		if n == sc.Fault {
			faulted, faultSQL = c.Kind, trunc(c.SQL, 200)
			return "err"
		}
		return ""
	}
	db := w.DB()
	cmd := &ddl.DumpCmd{DB: db, Dialect: "sqlite", Stderr: &lockedBuffer{}, SchemaOnly: sc.Schema, DataOnly: sc.Data, Nullstring: sc.Null, Binaryprefix: sc.Bin,
		Tables: append([]string{}, sc.Tables...), ExcludeTables: append([]string{}, sc.Exclude...), OutputDir: dir}
	name := "dump"
	switch sc.Kind {
	case "zip":
		cmd.Zip, name = "dump", "dump.zip"
	case "tgz":
		cmd.Tgz, name = "dump.tgz", "dump.tgz"
	default:
		cmd.OutputDir = filepath.Join(dir, "dump")
	}
	msg, crashed := guard(cmd.Run)
	for i := 0; i < 2000 && db.Stats().InUse > 0; i++ {
		time.Sleep(time.Millisecond)
	}
	db.Close()
	files := dumped(sc.Kind, dir)
	events = append(events, obj{"e": "dump", "err": trunc(msg, 200), "crashed": crashed, "fault": faulted, "at": faultSQL, "files": strs(files),
		"data": anySuffix(files, ".csv"), "schema": anySuffix(files, ".sql")})
	if msg == "" && !crashed {
		dst := filepath.Join(base, "dst.db")
		empty := *sc
		if !sc.Data {
			empty.Init = ACat{}.norm()
		}
		to, err := empty.setup(dst)
		must(err)
		load := &ddl.LoadCmd{DB: to, Dialect: "sqlite", DirFS: os.DirFS(dir), Filenames: []string{name}, Stderr: &lockedBuffer{}, Nullstring: sc.Null, Binaryprefix: sc.Bin, Batchsize: sc.Size}
		msg, crashed := guard(load.Run)
		events = append(events, obj{"e": "load", "err": trunc(msg, 200), "crashed": crashed})
		if msg == "" {
			cat, _, _ := sqliteState(to, "sqddl_history")
			events = append(events, obj{"e": "final", "cat": cat, "rows": observeValues(to, cat)})
		}
		to.Close()
	}
	tr["events"] = events
	return tr
}

func anySuffix(names []string, suffix string) bool {
	for _, n := range names {
		if strings.HasSuffix(n, suffix) {
			return true
		}
	}
	return false
}

func defStr(s, def string) string {
	if s == "" {
		return def
	}
	return s
}

// rename gives a table another name.
func (c ACat) rename(from, to string) {
	if _, ok := c.T[to]; ok {
		return
	}
	c.T[to] = c.T[from]
	delete(c.T, from)
	for _, t := range c.T {
		for n, k := range t.K {
			if k.RT == from {
				k.RT = to
				t.K[n] = k
			}
		}
	}
}

func genDump(r *rand.Rand) *DumpScen {
	g := &sgen{r: r, d: "sqlite"}
	sc := &DumpScen{Style: r.Intn(8), Kind: pick(r, []string{"dir", "zip", "tgz"}), Null: pick(r, []string{"", "", "NULL", "<nil>"}), Bin: pick(r, []string{"", "", "hex:"}), Size: []int{0, 1, 2}[r.Intn(3)], History: g.one(6)}
	sc.Init = g.catalog()
	for _, key := range sc.Init.keys() {
		if g.one(6) {
			sc.Init.rename(key, "."+pick(r, []string{"_t", "1_t", "20_x_y", "a.b", "schema", "T t", "x-y", "über", "main.t", "__"}))
		}
	}
	for _, key := range sc.Init.keys() {
		t := sc.Init.T[key]
		for _, n := range t.O {
			c := t.C[n]
			if c.Gen == "" && c.Def == "" && !sc.Init.inFK(key, n) && !g.usedInKey(t, n) && g.one(3) {
				c.B, c.A = pick(r, []string{"DATE", "TIMESTAMP", "UUID", "JSON", "BLOB", "INTEGER", "REAL", "TEXT", "DOUBLE PRECISION"}), nil
				t.C[n] = c
			}
		}
	}
	sc.Rows = map[string][][]string{}
	for _, key := range sc.Init.keys() {
		t := sc.Init.T[key]
		unique := map[string]bool{}
		pk := map[string]bool{}
		for _, k := range t.K {
			if k.K == "PK" || k.K == "UQ" {
				for _, n := range k.Cols {
					unique[n] = true
					if k.K == "PK" {
						pk[n] = true
					}
				}
			}
		}
		for _, x := range t.I {
			if x.U {
				for _, n := range x.Cols {
					unique[n] = true
				}
			}
		}
		for i := r.Intn(5); i > 0; i-- {
			row := []string{}
			for _, n := range t.O {
				c := t.C[n]
				if c.Gen != "" {
					continue
				}
				v := g.stored(c.B, i, unique[n], defStr(sc.Null, `\N`))
				if !c.NN && !pk[n] && g.one(4) {
					v = "~"
				}
				row = append(row, v)
			}
			sc.Rows[key] = append(sc.Rows[key], row)
		}
	}
	switch r.Intn(6) {
	case 0:
		sc.Schema = true
	case 1:
		sc.Data = true
	}
	var names []string
	for _, key := range sc.Init.keys() {
		_, n := splitKey(key)
		names = append(names, n)
	}
	if g.one(4) {
		sc.Tables = append(sc.Tables, names[r.Intn(len(names))])
		if g.one(2) {
			sc.Tables = append(sc.Tables, names[r.Intn(len(names))])
		}
		if g.one(4) {
			sc.Tables = append(sc.Tables, "nosuch")
		}
	}
	if n := names[r.Intn(len(names))]; g.one(4) && !contains(sc.Tables, n) {
		sc.Exclude = append(sc.Exclude, n)
	}
	if g.one(3) {
		sc.Next = g.one(2)
		sc.Fault = 1 + r.Intn(30)
		if sc.Next {
			sc.Fault = 1 + r.Intn(60)
		}
	}
	return sc
}

// stored is a value for a column of type b; null is the text that stands for
// NULL in the dump and is no value.
func (g *sgen) stored(b string, i int, unique bool, null string) string {
	r := g.r
	switch b {
	case "DATETIME", "TIMESTAMP":
		if unique {
			return fmt.Sprintf("t:2020-01-%02d 00:00:0%d.%d", i+1, i, i)
		}
		if g.one(40) {
			return pick(r, []string{"t:soon", "t:", "t:12:30"})
		}
		return pick(r, []string{"t:2020-01-02 03:04:05", "t:2021-12-31T23:59:59Z", "t:2021-06-01 12:00:00+02:00", "i:1577934245", "t:1999-05-06", "t:2020-01-02 03:04:05.25", "t:2020-01-02 03:04:05.123456", "i:0", "i:-86400"})
	case "DATE":
		return pick(r, []string{"t:2020-01-02", "t:1999-12-31", "t:0001-01-02"})
	case "UUID":
		return pick(r, []string{"t:267f4bdb-50a0-4139-9704-c26a16f8f019", "x:267f4bdb50a041399704c26a16f8f019"})
	case "BLOB":
		if unique {
			return fmt.Sprintf("x:%02x", i)
		}
		return pick(r, []string{"x:", "x:00", "x:616263", "x:fffe", "x:3078", "x:0d0a", "x:5c4e"})
	case "BOOLEAN":
		if unique {
			return "i:" + fmt.Sprint(i%2)
		}
		return pick(r, []string{"i:0", "i:1"})
	case "REAL", "DOUBLE PRECISION":
		if unique {
			return fmt.Sprintf("r:%d.5", i)
		}
		return pick(r, []string{"r:0.1", "r:1e300", "r:-2.5e-10", "r:123456789.12345679", "r:2", "r:-0.30000000000000004"})
	case "INT", "BIGINT", "INTEGER", "NUMERIC", "SMALLINT":
		if unique {
			return fmt.Sprintf("i:%d", i*1000003)
		}
		v := []string{"i:0", "i:-1", "i:9223372036854775807", "i:-9223372036854775808", "i:7"}
		if b == "NUMERIC" {
			v = append(v, "r:0.1", "r:1e20", "t:abc")
		}
		return pick(r, v)
	}
	v := pick(r, []string{"", "a", "it's", "x,y", "two\nlines", `"q"`, `"`, `""`, "0x41", `\N`, "NULL", "null", `\n`, " padded ", "ünï", "日本", "\t", "'", `\`, "1", "1.0", "007", "true", "\x00", "a\rb", "\n", " ", ",", "#c", "--", ";", "{*}", "hex:61", "\xff\xfe", "2020-01-02 03:04:05", strings.Repeat("long ", 50)})
	if g.one(40) {
		v = pick(r, []string{"a\r\nb", "\r\n", "\r\r\n"})
	}
	if unique {
		v = fmt.Sprint(i) + v
	}
	if v == null {
		v += "."
	}
	return "t:" + v
}

func runDump(j *job) {
	dir := fmt.Sprintf("%s/dump%d", scratch(), shard)
	must(os.MkdirAll(dir, 0o755))
	if j.in != "" {
		i := 0
		readLines(j.in, func(line []byte) {
			i++
			if i%shards != shard {
				return
			}
			var sc DumpScen
			lenient(line, &sc)
			enter(sc.ID)
			j.w.write(sc.run(dir))
		})
	}
	each(j.n, func(i int) {
		r := rand.New(rand.NewSource(j.seed*1000003 + int64(i)))
		sc := genDump(r)
		sc.ID = fmt.Sprintf("dump-%d-%d", j.seed, i)
		enter(sc.ID)
		j.w.write(sc.run(dir))
	})
}
