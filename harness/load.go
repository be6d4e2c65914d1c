package main

import (
	"archive/tar"
	"archive/zip"
	"bytes"
	"compress/gzip"
	"database/sql"
	"database/sql/driver"
	"encoding/csv"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/bokwoon95/sqddl/ddl"

	"verifharness/vdb"
)

// LCol is a column of a table to load into.
type LCol struct {
	N  string `json:"n"`
	Ty string `json:"ty"`
	NN bool   `json:"nn"`
}

// LTab is a table to load into.
type LTab struct {
	N    string     `json:"n"`
	Cols []LCol     `json:"cols"`
	Key  []string   `json:"key"`
	Rows [][]string `json:"rows"`
}

// LFile is a file to load.
type LFile struct {
	Name  string     `json:"name"` // path within the archive or directory
	Kind  string     `json:"kind"` // csv, create, unique, mark, blank
	T     string     `json:"t"`
	Cols  []string   `json:"cols"`
	Recs  [][]string `json:"recs"`
	Tab   *LTab      `json:"tab,omitempty"`
	Empty bool       `json:"empty"` // a CSV file without a header
	Raw   bool       `json:"raw"`   // fields are quoted only where they have to be
}

// LItem is an argument of the load.
type LItem struct {
	Kind  string  `json:"kind"` // file, dir, zip, tgz, tar.gz
	Name  string  `json:"name"`
	Files []LFile `json:"files"`
}

// LoadScen is one load (see spec/Load.tla).
type LoadScen struct {
	ID      string  `json:"id"`
	D       string  `json:"d"`
	Tabs    []LTab  `json:"tabs"`
	Items   []LItem `json:"items"`
	Null    string  `json:"null"`
	Bin     string  `json:"bin"`
	NoNull  bool    `json:"nonull"`
	NoBin   bool    `json:"nobin"`
	TSInt   bool    `json:"tsint"`
	Size    int     `json:"size"`
	FK      bool    `json:"fk"`
	Verbose bool    `json:"verbose"`
	Twice   bool    `json:"twice"`
	Fault   int     `json:"fault"`
}

func (t *LTab) create(d string) string {
	s := "CREATE TABLE " + ddl.QuoteIdentifier(d, t.N) + " ("
	for i, c := range t.Cols {
		if i > 0 {
			s += ", "
		}
		s += ddl.QuoteIdentifier(d, c.N) + " " + c.Ty
		if c.NN {
			s += " NOT NULL"
		}
	}
	if len(t.Key) > 0 {
		var k []string
		for _, c := range t.Key {
			k = append(k, ddl.QuoteIdentifier(d, c))
		}
		s += ", PRIMARY KEY (" + strings.Join(k, ", ") + ")"
	}
	return s + ");"
}

func (t *LTab) spec() obj {
	o := obj{"cols": []string{}, "key": strs(t.Key), "nn": []string{}, "rows": [][]string{}, "uniq": [][]string{}}
	ty := obj{}
	for _, c := range t.Cols {
		o["cols"] = append(o["cols"].([]string), c.N)
		ty[c.N] = c.Ty
		if c.NN {
			o["nn"] = append(o["nn"].([]string), c.N)
		}
	}
	o["ty"] = ty
	if t.Rows != nil {
		o["rows"] = t.Rows
	}
	return o
}

func (f *LFile) content(d string) string {
	switch f.Kind {
	case "csv":
		if f.Empty {
			return ""
		}
		var buf bytes.Buffer
		w := csv.NewWriter(&buf)
		must(w.Write(f.Cols))
		for _, r := range f.Recs {
			if len(r) == 1 && r[0] == "" {
				w.Flush()
				buf.WriteString("\"\"\n")
				continue
			}
			if f.Raw { // no more quotes than needed
				w.Flush()
				for i, v := range r {
					if i > 0 {
						buf.WriteString(",")
					}
					if v == "" && len(r) == 1 || strings.ContainsAny(v, ",\r\n") || strings.HasPrefix(v, `"`) {
						v = `"` + strings.ReplaceAll(v, `"`, `""`) + `"`
					}
					buf.WriteString(v)
				}
				buf.WriteString("\n")
				continue
			}
			must(w.Write(r))
		}
		w.Flush()
		return buf.String()
	case "create":
		return f.Tab.create(d)
	case "unique":
		var cols []string
		for _, c := range f.Cols {
			cols = append(cols, ddl.QuoteIdentifier(d, c))
		}
		return "CREATE UNIQUE INDEX " + ddl.QuoteIdentifier(d, f.T+"_"+strings.Join(f.Cols, "_")+"_ux") + " ON " + ddl.QuoteIdentifier(d, f.T) + " (" + strings.Join(cols, ", ") + ");"
	case "mark":
		return "INSERT INTO zlog (what, n) SELECT '" + f.Name + "', COUNT(*) FROM " + ddl.QuoteIdentifier(d, f.T) + ";"
	}
	return ""
}

func (it *LItem) write(dir, d string) {
	put := func(name, content string) {
		name = filepath.Join(dir, filepath.FromSlash(name))
		must(os.MkdirAll(filepath.Dir(name), 0o755))
		must(os.WriteFile(name, []byte(content), 0o644))
	}
	var buf bytes.Buffer
	switch it.Kind {
	case "file":
		put(it.Name, it.Files[0].content(d))
	case "dir":
		must(os.MkdirAll(filepath.Join(dir, it.Name), 0o755))
		for _, f := range it.Files {
			put(it.Name+"/"+f.Name, f.content(d))
		}
	case "zip":
		w := zip.NewWriter(&buf)
		for _, f := range it.Files {
			e, err := w.Create(f.Name)
			must(err)
			e.Write([]byte(f.content(d)))
		}
		must(w.Close())
		put(it.Name, buf.String())
	default:
		g := gzip.NewWriter(&buf)
		w := tar.NewWriter(g)
		for _, f := range it.Files {
			c := f.content(d)
			must(w.WriteHeader(&tar.Header{Name: f.Name, Mode: 0o644, Size: int64(len(c))}))
			w.Write([]byte(c))
		}
		must(w.Close())
		must(g.Close())
		put(it.Name, buf.String())
	}
}

// stem is the name of a directory that stands for the whole archive.
func (it *LItem) stem() string {
	for _, s := range []string{".zip", ".tgz", ".tar.gz"} {
		if strings.HasSuffix(it.Name, s) {
			return strings.TrimSuffix(filepath.Base(it.Name), s)
		}
	}
	return ""
}

func (f *LFile) spec() obj {
	o := obj{"name": f.Name, "kind": f.Kind, "t": f.T, "cols": strs(f.Cols), "recs": f.Recs, "empty": f.Empty, "tab": obj{"cols": []string{}}}
	if f.Recs == nil {
		o["recs"] = [][]string{}
	}
	if f.Tab != nil {
		o["tab"] = f.Tab.spec()
	}
	return o
}

var zlog = LTab{N: "zlog", Cols: []LCol{{N: "what", Ty: "TEXT"}, {N: "n", Ty: "TEXT"}}}

type lockedBuffer struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockedBuffer) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.Write(p)
}

func observeTables(db *sql.DB) obj {
	out := obj{}
	for _, t := range queryAll(db, "SELECT name FROM sqlite_schema WHERE type = 'table' ORDER BY name") {
		var exprs []string
		for _, c := range queryAll(db, "SELECT name FROM pragma_table_info("+sqlText(str(t[0]))+") ORDER BY cid") {
			n := q(str(c[0]))
			exprs = append(exprs, "CASE typeof("+n+") WHEN 'null' THEN '~' WHEN 'blob' THEN 'x:' || lower(hex("+n+")) ELSE CAST("+n+" AS TEXT) END")
		}
		rows := [][]string{}
		for _, r := range queryAll(db, "SELECT "+strings.Join(exprs, ", ")+" FROM "+q(str(t[0]))) {
			row := []string{}
			for _, v := range r {
				row = append(row, str(v))
			}
			rows = append(rows, row)
		}
		out[str(t[0])] = rows
	}
	return out
}

var stamps = []string{"2020-01-02 03:04:05", "2021-12-31T23:59:59Z", "1999-05-06", "2020-01-02 03:04:05.123", "2020-01-02T03:04:05.5", "2020-01-02T03:04:05.5+02:00",
	"2020-01-02 03:04:05-07:00", "2020-01-02 03:04", "2020-01-02T03:04Z", "2020-01-02T03:04:05", "soon"}

var textArrays = []string{"[]", `["a","b c"]`, `["x,y","q\"q","back\\slash"]`, `["two\nlines"]`, `["\u003cb\u003e"]`, `[null,"null"]`, `["",""]`, `["{x}"]`, `{a,"b c"}`, "{}"}

// columnType is a type the way a database reports it.
func columnType(ty string) string {
	switch ty {
	case "BINARY":
		return "binary(16)"
	case "INT[]":
		return "integer[]"
	case "TEXT[]":
		return "character varying(50)[]"
	}
	return strings.ToLower(ty)
}

// arrayOf is what a Postgres array literal stands for, however it is quoted.
func arrayOf(s string) string {
	i := 0
	var list func() ([]any, bool)
	list = func() ([]any, bool) {
		out := []any{}
		i++ // {
		for i < len(s) {
			switch c := s[i]; {
			case c == '}':
				i++
				return out, true
			case c == ',' || c == ' ':
				i++
			case c == '{':
				l, ok := list()
				if !ok {
					return nil, false
				}
				out = append(out, l)
			case c == '"':
				v := ""
				for i++; i < len(s) && s[i] != '"'; i++ {
					if s[i] == '\\' {
						i++
						if i == len(s) {
							return nil, false
						}
					}
					v += s[i : i+1]
				}
				if i >= len(s) {
					return nil, false
				}
				i++
				out = append(out, v)
			default:
				j := i
				for i < len(s) && !strings.ContainsRune(`,{}"`, rune(s[i])) {
					i++
				}
				if v := strings.TrimSpace(s[j:i]); strings.EqualFold(v, "NULL") {
					out = append(out, nil)
				} else {
					out = append(out, v)
				}
			}
		}
		return nil, false
	}
	if !strings.HasPrefix(s, "{") {
		return s
	}
	l, ok := list()
	if !ok || i != len(s) {
		return s
	}
	var buf bytes.Buffer
	e := json.NewEncoder(&buf)
	e.SetEscapeHTML(false)
	must(e.Encode(l))
	return "a:" + strings.TrimSpace(buf.String())
}

func sqlText(s string) string { return "'" + strings.ReplaceAll(s, "'", "''") + "'" }

func (sc *LoadScen) run(base string) obj {
	tr := obj{"id": sc.ID, "scenario": sc}
	dir := filepath.Join(base, "load")
	must(os.RemoveAll(dir))
	must(os.MkdirAll(dir, 0o755))
	cur := curSchema(sc.D)
	tabs := append([]LTab{zlog}, sc.Tabs...)
	stabs := obj{}
	known := map[string]*LTab{}
	for i := range tabs {
		stabs[tabs[i].N] = tabs[i].spec()
		if sc.D != "sqlite" {
			stabs[tabs[i].N].(obj)["nn"] = []string{}
		}
		known[tabs[i].N] = &tabs[i]
	}
	items := []obj{}
	contents := map[string]*LFile{}
	var names []string
	for i := range sc.Items {
		it := &sc.Items[i]
		if it.Kind == "dir" {
			sort.Slice(it.Files, func(a, b int) bool { return it.Files[a].Name < it.Files[b].Name })
		}
		it.write(dir, sc.D)
		files := []obj{}
		for j := range it.Files {
			f := &it.Files[j]
			o := f.spec()
			if f.Tab != nil && sc.D != "sqlite" {
				o["tab"].(obj)["nn"] = []string{}
			}
			parent := filepath.Dir(f.Name)
			o["top"] = parent == "." || (it.Kind != "dir" && parent == it.stem())
			o["base"] = filepath.Base(f.Name)
			files = append(files, o)
			if f.Kind != "csv" {
				contents[f.content(sc.D)] = f
			}
		}
		items = append(items, obj{"kind": it.Kind, "files": files})
		names = append(names, it.Name)
	}
	null, bin := sc.Null, sc.Bin
	if null == "" {
		null = `\N`
	}
	if bin == "" {
		bin = "0x"
	}
	opts := obj{"null": null, "bin": bin, "nonull": sc.NoNull, "nobin": sc.NoBin, "tsint": sc.TSInt, "pg": sc.D == "postgres"}
	events := []obj{{"e": "init", "d": sc.D, "tabs": stabs, "items": items, "opts": opts, "fk": sc.FK, "cur": cur}}
	w := &vdb.World{Path: ":memory:", Dialect: sc.D}
	real := sc.D == "sqlite"
	if real {
		w.Path = filepath.Join(base, "load.db")
		removeDB(w.Path)
		plain, err := sql.Open("sqlite3", "file:"+w.Path)
		must(err)
		for _, t := range tabs {
			_, err = plain.Exec(t.create("sqlite"))
			must(err)
			for _, row := range t.Rows {
				var args []any
				for _, v := range row {
					if v == "~" {
						args = append(args, nil)
					} else {
						args = append(args, v)
					}
				}
				_, err = plain.Exec("INSERT INTO "+q(t.N)+" VALUES ("+strings.TrimSuffix(strings.Repeat("?, ", len(row)), ", ")+")", args...)
				must(err)
			}
		}
		plain.Close()
		w.Options = "_busy_timeout=1000"
		if sc.FK {
			w.Options += "&_foreign_keys=1"
		}
	}
	unsupported := ""
	session := map[int]map[string]string{}
	sess := func(c int) map[string]string {
		if session[c] == nil {
			session[c] = map[string]string{"foreign_key_checks": "1", "timezone": "Asia/Tokyo"}
		}
		return session[c]
	}
	if !real {
		w.Affected = func(string) int64 { return 1 }
		w.Server = func(c int, query string, args []driver.NamedValue, isQuery bool) (*vdb.FakeRows, error) {
			if !isQuery {
				return nil, nil
			}
			switch u := strings.ToUpper(query); {
			case strings.HasPrefix(u, "SHOW TIMEZONE"):
				return &vdb.FakeRows{Cols: []string{"v"}, Rows: [][]driver.Value{{sess(c)["timezone"]}}}, nil
			case strings.Contains(u, "@@FOREIGN_KEY_CHECKS"), strings.Contains(u, "@@SESSION.FOREIGN_KEY_CHECKS"):
				return &vdb.FakeRows{Cols: []string{"v"}, Rows: [][]driver.Value{{sess(c)["foreign_key_checks"]}}}, nil
			case strings.Contains(query, "is_key_column") && len(args) == 2:
				cols := selected(query)
				fr := &vdb.FakeRows{Cols: cols}
				t := known[fmt.Sprint(args[1].Value)]
				if t == nil || fmt.Sprint(args[0].Value) != cur {
					return fr, nil
				}
				for _, c := range t.Cols {
					vals := row{"column_name": c.N, "column_type": columnType(c.Ty), "is_key_column": contains(t.Key, c.N), "is_identity_column": false}
					var r []driver.Value
					for _, n := range cols {
						v, ok := vals[n]
						if !ok {
							return nil, nil
						}
						r = append(r, v)
					}
					fr.Rows = append(fr.Rows, r)
				}
				return fr, nil
			}
			s := catServer{d: sc.D, version: "16.0", cat: &ddl.Catalog{Dialect: sc.D, CurrentSchema: cur}}
			return s.answer(query), nil
		}
	}
	n, quiet := 0, false
	faulted := ""
	w.Fault = func(_ int, c *vdb.Call) string {
		if quiet {
			return ""
		}
		switch c.Kind {
		case "exec", "query", "begin", "commit", "prepare":
			n++
			if n == sc.Fault {
				faulted = c.Kind
				if isSession(c.SQL) {
					faulted = "session"
				}
				return "err"
			}
		}
		return ""
	}
	w.Observe = func(c *vdb.Call) {
		if real || c.Err != nil && c.Kind != "commit" && c.Kind != "rollback" {
			return
		}
		e := obj{"e": "call", "kind": c.Kind, "conn": fmt.Sprint(c.Conn), "fail": c.Err != nil, "var": "", "val": "", "was": ""}
		switch c.Kind {
		case "begin", "commit", "rollback":
		case "exec":
			if name, val := setting(c.SQL); name != "" {
				e["kind"], e["var"], e["val"], e["was"] = "set", name, val, sess(c.Conn)[name]
				sess(c.Conn)[name] = val
				break
			}
			if f := contents[c.SQL]; f != nil {
				o := f.spec()
				if f.Tab != nil {
					o["tab"].(obj)["nn"] = []string{}
				}
				e["kind"], e["file"] = "sql", o
				if f.Tab != nil {
					known[f.Tab.N] = f.Tab
				}
				break
			}
			vals := append([]driver.Value{}, c.Args...)
			for i, v := range vals {
				if s, ok := v.(string); ok && sc.D == "postgres" {
					vals[i] = arrayOf(s)
				}
			}
			op, why := dml(sc.D, cur, c.SQL, vals)
			if why != "" {
				unsupported = why + "\n" + c.SQL
				return
			}
			e["op"] = op
		default:
			return
		}
		events = append(events, e)
	}
	db := w.DB()
	defer db.Close()
	if real {
		db.SetMaxOpenConns(1)
	}
	times := 1
	if sc.Twice {
		times = 2
	}
	for k := 0; k < times; k++ {
		cmd := &ddl.LoadCmd{DB: db, Dialect: sc.D, DirFS: os.DirFS(dir), Filenames: append([]string{}, names...), Stderr: &lockedBuffer{}, Batchsize: sc.Size,
			Nullstring: sc.Null, Binaryprefix: sc.Bin, NoNullstring: sc.NoNull, NoBinaryprefix: sc.NoBin, TimestampAsInteger: sc.TSInt, Verbose: sc.Verbose}
		if k > 0 {
			events = append(events, obj{"e": "again"})
		}
		faulted = ""
		msg, crashed := guard(cmd.Run)
		for i := 0; i < 2000 && db.Stats().InUse > 0; i++ {
			// Transactions cancelled by a failure elsewhere.
			time.Sleep(time.Millisecond)
		}
		e := obj{"e": "end", "err": trunc(msg, 200), "crashed": crashed, "real": real, "fault": faulted, "tabs": obj{"none": [][]string{}}, "fk": sc.FK}
		if real {
			quiet = true
			e["fk"] = str(queryAll(db, "PRAGMA foreign_keys")[0][0]) == "1"
			plain, err := sql.Open("sqlite3", "file:"+w.Path)
			must(err)
			e["tabs"] = observeTables(plain)
			plain.Close()
			quiet = false
		}
		events = append(events, e)
		if faulted != "" || crashed {
			break
		}
	}
	if w.Unsupported != "" {
		unsupported = w.Unsupported
	}
	tr["events"] = events
	if unsupported != "" {
		tr["unsupported"] = trunc(unsupported, 300)
	}
	return tr
}

// setting reads a statement that sets a session variable.
func setting(query string) (name, val string) {
	s := strings.TrimRight(strings.TrimSpace(query), ";")
	if len(s) > 200 || !strings.HasPrefix(strings.ToUpper(s), "SET ") {
		return "", ""
	}
	s = strings.TrimSpace(s[4:])
	for _, p := range []string{"SESSION ", "LOCAL ", "@@SESSION.", "@@"} {
		if strings.HasPrefix(strings.ToUpper(s), p) {
			s = strings.TrimSpace(s[len(p):])
		}
	}
	name, val, ok := strings.Cut(s, "=")
	if !ok {
		if name, val, ok = strings.Cut(s, " TO "); !ok {
			return "", ""
		}
	}
	name = strings.ToLower(strings.TrimSpace(name))
	if name != "foreign_key_checks" && name != "timezone" {
		return "", ""
	}
	return name, strings.Trim(strings.TrimSpace(val), "'")
}

func isSession(query string) bool {
	name, _ := setting(query)
	u := strings.ToUpper(strings.TrimSpace(query))
	return name != "" || strings.HasPrefix(u, "PRAGMA FOREIGN_KEYS")
}

func genLoad(r *rand.Rand, d string) *LoadScen {
	one := func(n int) bool { return r.Intn(n) == 0 }
	real := d == "sqlite"
	sc := &LoadScen{D: d, Size: []int{0, 1, 2, 3, 7}[r.Intn(5)], FK: one(2), Verbose: one(6)}
	sc.Null = pick(r, []string{"", "", "NULL", "nil"})
	sc.Bin = pick(r, []string{"", "", "hex:"})
	sc.NoNull, sc.NoBin, sc.TSInt = one(8), one(8), real && one(4)
	null, bin := sc.Null, sc.Bin
	if null == "" {
		null = `\N`
	}
	if bin == "" {
		bin = "0x"
	}
	binType := map[string]string{"sqlite": "BLOB", "postgres": "BYTEA", "mysql": "BLOB", "sqlserver": "VARBINARY"}[d]
	types := []string{"TEXT", "TEXT", binType}
	switch d {
	case "sqlite":
		types = append(types, "INTEGER", "TIMESTAMP", pick(r, []string{"DATETIME", "DATE", "UUID"}))
	case "postgres":
		types = append(types, "UUID", "TEXT[]", "INT[]")
	default:
		types = append(types, "BINARY")
	}
	value := func(c LCol, key bool) string {
		if key {
			return fmt.Sprint(1 + r.Intn(6))
		}
		if !c.NN && !sc.NoNull && one(5) || real && c.NN && one(200) {
			return null
		}
		switch c.Ty {
		case "INTEGER":
			return fmt.Sprint(r.Intn(100))
		case "TIMESTAMP", "DATETIME", "DATE":
			return pick(r, stamps)
		case "UUID":
			if one(60) {
				return bin + "6162"
			}
			return pick(r, []string{bin + "267f4bdb50a041399704c26a16f8f019", bin + "00000000000000000000000000000000", "267f4bdb-50a0-4139-9704-c26a16f8f019"})
		case "TEXT[]":
			return pick(r, textArrays)
		case "INT[]":
			return pick(r, []string{"[]", "[1,2]", "[[1,2],[3,4]]", "[null, -7]", "{1,2}", "{}"})
		case binType, "BINARY":
			if one(150) {
				return bin + pick(r, []string{"4z", "616", "6162zz"})
			}
			return pick(r, []string{bin + "6162", bin + "00ff", bin, "plain", "hex:61", "0x61"})
		}
		return pick(r, []string{"a", "b", "", "it's", "x,y", "two\nlines", `"q"`, "0x41", `\N`, "NULL", "null", `\n`, "Nil", " padded ", "ünï", ` 6" pipe `})
	}
	names := []string{"t", "users", "Order", "a_b", "user name", "x2"}
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	var tabs []*LTab
	var fresh []*LTab
	for k := 1 + r.Intn(3); k > 0; k-- {
		t := &LTab{N: names[k]}
		cols := []string{"id", "x", "Code", "user name", "group"}
		r.Shuffle(len(cols), func(i, j int) { cols[i], cols[j] = cols[j], cols[i] })
		nk := r.Intn(3)
		for i, c := range cols[:1+r.Intn(len(cols))] {
			col := LCol{N: c, Ty: pick(r, types), NN: one(4)}
			if i < nk {
				col.Ty, col.NN = "TEXT", true
				t.Key = append(t.Key, c)
			}
			t.Cols = append(t.Cols, col)
		}
		r.Shuffle(len(t.Cols), func(i, j int) { t.Cols[i], t.Cols[j] = t.Cols[j], t.Cols[i] })
		tabs = append(tabs, t)
		if len(fresh) == 0 && one(4) {
			fresh = append(fresh, t)
			continue
		}
		seen := map[string]bool{}
		for i := r.Intn(4); i > 0; i-- {
			row, key := []string{}, ""
			for _, c := range t.Cols {
				v := "p"
				if contains(t.Key, c.N) {
					v = fmt.Sprint(1 + r.Intn(6))
					key += v + "/"
				} else if c.Ty == "INTEGER" {
					v = "7"
				} else if !c.NN && one(4) {
					v = "~"
				}
				row = append(row, v)
			}
			if len(t.Key) > 0 && seen[key] {
				continue
			}
			seen[key] = true
			t.Rows = append(t.Rows, row)
		}
		sc.Tabs = append(sc.Tabs, *t)
	}
	file := func(t *LTab) LFile {
		name := t.N + ".csv"
		switch r.Intn(6) {
		case 0:
			name = fmt.Sprintf("%02d_", r.Intn(20)) + name
		case 1:
			if c := curSchema(d); c != "" {
				name = c + "." + name
			} else {
				name = "main." + name
			}
		}
		f := LFile{Name: name, Kind: "csv", T: t.N, Empty: one(100), Raw: one(3)}
		for _, c := range t.Cols {
			if !one(6) || (c.NN || contains(t.Key, c.N)) && !(real && one(20)) {
				f.Cols = append(f.Cols, c.N)
			}
		}
		if real && one(100) {
			f.Cols = append(f.Cols, "nosuch")
		}
		if len(f.Cols) == 0 {
			f.Cols = []string{t.Cols[0].N}
		}
		r.Shuffle(len(f.Cols), func(i, j int) { f.Cols[i], f.Cols[j] = f.Cols[j], f.Cols[i] })
		seen := map[string]bool{}
		for k := r.Intn(9); k > 0; k-- {
			var rec []string
			key := ""
			for _, c := range f.Cols {
				col := LCol{N: c, Ty: "TEXT"}
				for _, x := range t.Cols {
					if x.N == c {
						col = x
					}
				}
				v := value(col, contains(t.Key, c))
				if contains(t.Key, c) {
					key += c + v + "/"
				}
				rec = append(rec, v)
			}
			if len(t.Key) > 0 && seen[key] && !real {
				continue
			}
			seen[key] = true
			if one(250) {
				rec = append(rec, "extra")
			}
			f.Recs = append(f.Recs, rec)
		}
		return f
	}
	sqlFile := func(name string) LFile {
		t := tabs[r.Intn(len(tabs))]
		f := LFile{Name: name, Kind: "mark", T: t.N}
		switch {
		case one(8) && len(fresh) == 0:
			f.Kind = "blank"
		case name == "schema.sql" && len(fresh) > 0:
			f.Kind, f.Tab, f.T = "create", fresh[0], fresh[0].N
			fresh = fresh[1:]
		case name == "indexes.sql" && real:
			f.Kind, f.Cols = "unique", []string{t.Cols[r.Intn(len(t.Cols))].N}
			if !one(4) {
				f.Cols = t.Key
			}
			if len(f.Cols) == 0 {
				f.Kind = "mark"
			}
		}
		return f
	}
	for k := 1 + r.Intn(2); k > 0; k-- {
		it := LItem{Kind: pick(r, []string{"file", "dir", "zip", "tgz", "tar.gz"})}
		if it.Kind == "file" && len(fresh) > 0 {
			it.Kind = "dir"
		}
		base := fmt.Sprintf("%s%d", pick(r, []string{"dump", "db"}), k)
		if it.Kind == "file" {
			f := file(tabs[r.Intn(len(tabs))])
			if one(3) {
				f = sqlFile(pick(r, []string{"schema.sql", "indexes.sql", "constraints.sql", "other.sql"}))
			}
			it.Name, it.Files = fmt.Sprintf("d%d/", k)+f.Name, []LFile{f}
			sc.Items = append(sc.Items, it)
			continue
		}
		prefix := ""
		it.Name = base
		if it.Kind != "dir" {
			it.Name += "." + it.Kind
			if one(3) {
				prefix = base + "/"
			}
		}
		if one(4) {
			it.Name = "sub/" + it.Name
		}
		used := map[string]bool{}
		for i := r.Intn(4); i > 0; i-- {
			t := tabs[r.Intn(len(tabs))]
			f := file(t)
			if used[f.Name] || (!real && used[t.N]) {
				continue
			}
			used[f.Name], used[t.N] = true, true
			it.Files = append(it.Files, f)
		}
		for _, n := range []string{"schema.sql", "indexes.sql", "constraints.sql"} {
			if !one(3) || n == "schema.sql" && len(fresh) > 0 {
				it.Files = append(it.Files, sqlFile(n))
			}
		}
		if one(4) {
			it.Files = append(it.Files, LFile{Name: "other.sql", Kind: "mark", T: tabs[0].N})
		}
		if one(6) {
			it.Files = append(it.Files, LFile{Name: "readme.txt", Kind: "blank"})
		}
		for i := range it.Files {
			it.Files[i].Name = prefix + it.Files[i].Name
		}
		if one(4) {
			f := file(tabs[0])
			f.Name = pick(r, []string{"nested/", "__MACOSX/", "__MACOSX/" + base + "/"}) + f.Name
			it.Files = append(it.Files, f)
		}
		r.Shuffle(len(it.Files), func(i, j int) { it.Files[i], it.Files[j] = it.Files[j], it.Files[i] })
		sc.Items = append(sc.Items, it)
	}
	if one(3) {
		sc.Fault = 1 + r.Intn(25)
	}
	sc.Twice = one(4)
	for _, it := range sc.Items {
		for _, f := range it.Files {
			if !real && f.Kind == "create" {
				sc.Twice = false
			}
		}
	}
	return sc
}

func runLoad(j *job) {
	dir := fmt.Sprintf("%s/load%d", scratch(), shard)
	must(os.MkdirAll(dir, 0o755))
	if j.in != "" {
		i := 0
		readLines(j.in, func(line []byte) {
			i++
			if i%shards != shard {
				return
			}
			var sc LoadScen
			must(json.Unmarshal(line, &sc))
			enter(sc.ID)
			j.w.write(sc.run(dir))
		})
	}
	each(j.n, func(i int) {
		r := rand.New(rand.NewSource(j.seed*1000003 + int64(i)))
		d := []string{"sqlite", "postgres", "sqlite", "mysql", "sqlite", "sqlserver"}[i/8%6]
		sc := genLoad(r, d)
		sc.ID = fmt.Sprintf("load-%s-%d-%d", d, j.seed, i)
		enter(sc.ID)
		j.w.write(sc.run(dir))
	})
}
