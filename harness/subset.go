package main

import (
	"database/sql"
	"encoding/csv"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"github.com/bokwoon95/sqddl/ddl"

	"verifharness/vdb"
)

// SubCol is a column; its values are written as a dump writes them, ~ is NULL.
type SubCol struct {
	N  string `json:"n"`
	Ty string `json:"ty"`
}

type SubFK struct {
	Cols []string `json:"cols"`
	RT   string   `json:"rt"`
	RC   []string `json:"rc"`
}

type SubTab struct {
	N    string     `json:"n"`
	Cols []SubCol   `json:"cols"`
	PK   []string   `json:"pk"`
	FK   []SubFK    `json:"fk"`
	Rows [][]string `json:"rows"`
	Gen  bool       `json:"gen"` // there is a generated column, too
}

// SubQuery selects rows of a table.
type SubQuery struct {
	T    string `json:"t"`
	Ext  bool   `json:"ext"`
	Op   string `json:"op"` // all, none, eq, ne, null
	C    string `json:"c"`
	V    string `json:"v"`
	Form string `json:"form"` // plain, distinct, order, twice, or what is wrong with it
}

// SubScen is a dump of a subset (see spec/Subset.tla).
type SubScen struct {
	ID      string     `json:"id"`
	Tabs    []SubTab   `json:"tabs"`
	Queries []SubQuery `json:"queries"`
	Exclude []string   `json:"exclude"`
	Fault   int        `json:"fault"`
	Next    bool       `json:"next"`
}

func (c SubCol) value(v string) any {
	if v == "~" {
		return nil
	}
	switch c.Ty {
	case "INTEGER", "BIGINT":
		n, err := strconv.ParseInt(v, 10, 64)
		must(err)
		return n
	case "REAL":
		f, err := strconv.ParseFloat(v, 64)
		must(err)
		return f
	case "BLOB":
		b, err := hex.DecodeString(v[2:])
		must(err)
		return b
	}
	return v
}

func (c SubCol) literal(v string) string {
	switch c.Ty {
	case "INTEGER", "BIGINT", "REAL":
		return v
	case "BLOB":
		return "x'" + v[2:] + "'"
	}
	return "'" + strings.ReplaceAll(v, "'", "''") + "'"
}

func quoteAll(names []string) string {
	var out []string
	for _, n := range names {
		out = append(out, q(n))
	}
	return strings.Join(out, ", ")
}

func (t *SubTab) col(n string) SubCol {
	for _, c := range t.Cols {
		if c.N == n {
			return c
		}
	}
	return SubCol{}
}

func (t *SubTab) ddl(sc *SubScen) []string {
	var defs []string
	for _, c := range t.Cols {
		defs = append(defs, q(c.N)+" "+c.Ty)
	}
	if t.Gen {
		defs = append(defs, `"gen" TEXT GENERATED ALWAYS AS (`+q(t.Cols[0].N)+` || 'g')`)
	}
	if len(t.PK) > 0 {
		defs = append(defs, "PRIMARY KEY ("+quoteAll(t.PK)+")")
	}
	for _, f := range t.FK {
		defs = append(defs, "FOREIGN KEY ("+quoteAll(f.Cols)+") REFERENCES "+q(f.RT)+" ("+quoteAll(f.RC)+")")
	}
	return []string{"CREATE TABLE " + q(t.N) + " (" + strings.Join(defs, ", ") + ")"}
}

func (sc *SubScen) tab(n string) *SubTab {
	for i := range sc.Tabs {
		if sc.Tabs[i].N == n {
			return &sc.Tabs[i]
		}
	}
	return nil
}

func (sc *SubScen) setup(path string) error {
	for _, suffix := range []string{"", "-journal", "-wal", "-shm"} {
		must(os.RemoveAll(path + suffix))
	}
	db, err := sql.Open("sqlite3", "file:"+path)
	must(err)
	defer db.Close()
	db.SetMaxOpenConns(1)
	for i := range sc.Tabs {
		t := &sc.Tabs[i]
		for _, s := range t.ddl(sc) {
			if _, err := db.Exec(s); err != nil {
				return fmt.Errorf("%s: %w", s, err)
			}
		}
		var names, marks []string
		for _, c := range t.Cols {
			names, marks = append(names, c.N), append(marks, "?")
		}
		for _, row := range t.Rows {
			var args []any
			for i, v := range row {
				args = append(args, t.Cols[i].value(v))
			}
			if _, err := db.Exec("INSERT INTO "+q(t.N)+" ("+quoteAll(names)+") VALUES ("+strings.Join(marks, ", ")+")", args...); err != nil {
				return fmt.Errorf("%s: %w", t.N, err)
			}
		}
	}
	return nil
}

func (sc *SubScen) query(sq SubQuery) string {
	t := sc.tab(sq.T)
	where := ""
	switch sq.Op {
	case "none":
		where = " WHERE 1 = 0"
	case "eq", "ne":
		op := " = "
		if sq.Op == "ne" {
			op = " <> "
		}
		where = " WHERE " + q(t.N) + "." + q(sq.C) + op + t.col(sq.C).literal(sq.V)
	case "null":
		where = " WHERE " + q(sq.C) + " IS NULL"
	}
	from := "{" + sq.T + "}"
	switch sq.Form {
	case "distinct":
		return "SELECT DISTINCT {*} FROM " + from + where
	case "order":
		return "SELECT {*} FROM " + from + where + " ORDER BY 1 DESC LIMIT 1000"
	case "twice":
		return "SELECT {*} FROM " + from + " CROSS JOIN (SELECT 1 UNION ALL SELECT 2)" + where
	case "nostar":
		return "SELECT * FROM " + from + where
	case "notable":
		return "SELECT {*} FROM " + q(sq.T) + where
	case "unknown":
		return "SELECT {*} FROM {no_such_table}"
	case "unclosed":
		return "SELECT {*} FROM {" + sq.T
	case "two tables":
		return "SELECT {*} FROM " + from + " JOIN " + from + " AS x"
	case "two stars":
		return "SELECT {*}, {*} FROM " + from + where
	case "trailing":
		return "SELECT {*} FROM " + from + where + " {"
	case "order of braces":
		return "WITH x AS (SELECT 1 FROM " + from + ") SELECT {*} FROM " + q(sq.T)
	}
	return "SELECT {*} FROM " + from + where
}

var subBad = map[string]bool{"nostar": true, "notable": true, "unknown": true, "unclosed": true, "trailing": true, "two tables": true, "two stars": true}

func (sc *SubScen) run(base string) obj {
	tr := obj{"id": sc.ID, "scenario": sc}
	dir := filepath.Join(base, "out")
	must(os.RemoveAll(dir))
	must(os.MkdirAll(dir, 0o755))
	path := filepath.Join(base, "src.db")
	if err := sc.setup(path); err != nil {
		tr["unsupported"] = "setup: " + err.Error()
		tr["events"] = []obj{}
		return tr
	}
	tabs := obj{}
	for _, t := range sc.Tabs {
		fks := []obj{}
		for _, f := range t.FK {
			fks = append(fks, obj{"cols": f.Cols, "rt": f.RT, "rc": f.RC})
		}
		tabs[t.N] = obj{"pk": strs(t.PK), "fk": fks, "rows": rowObjs(t.Cols, t.Rows)}
	}
	queries := []obj{}
	w := &vdb.World{Path: path, Dialect: "sqlite"}
	n, faulted := 0, ""
	w.Fault = func(_ int, c *vdb.Call) string {
		if (sc.Next && c.Kind != "next") || (!sc.Next && c.Kind != "query" && c.Kind != "prepare") {
			return ""
		}
		n++
		if n == sc.Fault {
			faulted = c.Kind
			return "err"
		}
		return ""
	}
	db := w.DB()
	cmd := &ddl.DumpCmd{DB: db, Dialect: "sqlite", Stderr: &lockedBuffer{}, OutputDir: dir, ExcludeTables: append([]string{}, sc.Exclude...)}
	for _, sq := range sc.Queries {
		if sq.Ext {
			cmd.ExtendedSubsetQueries = append(cmd.ExtendedSubsetQueries, sc.query(sq))
		} else {
			cmd.SubsetQueries = append(cmd.SubsetQueries, sc.query(sq))
		}
		queries = append(queries, obj{"t": sq.T, "ext": sq.Ext, "op": sq.Op, "c": sq.C, "v": sq.V, "bad": subBad[sq.Form]})
	}
	events := []obj{{"e": "init", "tabs": tabs, "queries": queries, "exclude": strs(sc.Exclude)}}
	msg, crashed := guard(cmd.Run)
	for i := 0; i < 2000 && db.Stats().InUse > 0; i++ {
		time.Sleep(time.Millisecond)
	}
	db.Close()
	out := obj{}
	bad := ""
	if msg == "" && !crashed {
		for i := range sc.Tabs {
			t := &sc.Tabs[i]
			rows, err := readCSV(filepath.Join(dir, t.N+".csv"))
			if err != nil {
				bad = err.Error()
			}
			out[t.N] = rows
		}
	}
	events = append(events, obj{"e": "dump", "err": trunc(msg, 200), "crashed": crashed, "fault": faulted, "rows": out, "bad": bad})
	tr["events"] = events
	return tr
}

func rowObjs(cols []SubCol, rows [][]string) []map[string]string {
	out := []map[string]string{}
	for _, row := range rows {
		m := map[string]string{}
		for i, c := range cols {
			m[c.N] = row[i]
		}
		out = append(out, m)
	}
	return out
}

// readCSV reads the rows of a CSV file; a file that is not there has none.
func readCSV(name string) ([]map[string]string, error) {
	out := []map[string]string{}
	f, err := os.Open(name)
	if os.IsNotExist(err) {
		return out, nil
	}
	if err != nil {
		return out, err
	}
	defer f.Close()
	recs, err := csv.NewReader(f).ReadAll()
	if err != nil {
		return out, err
	}
	for _, rec := range recs[min1(len(recs)):] {
		m := map[string]string{}
		for i, v := range rec {
			if v == `\N` {
				v = "~"
			}
			m[recs[0][i]] = v
		}
		out = append(out, m)
	}
	return out, nil
}

func min1(n int) int {
	if n < 1 {
		return n
	}
	return 1
}

func subValues(r *rand.Rand, ty string, i int) string {
	switch ty {
	case "INTEGER", "BIGINT":
		return strconv.Itoa([]int{1, 2, 3, 40, -5, 600000}[i%6] + 10*(i/6))
	case "REAL":
		return []string{"1.5", "-2.25", "0.125", "7.75"}[i%4]
	case "DATETIME", "TIMESTAMP":
		return []string{"2020-01-02 03:04:05", "2021-12-31 23:59:59", "1999-01-01 00:00:00", "2022-02-02 02:02:02"}[i%4]
	case "BLOB":
		return []string{"0x00", "0xff41", "0x4a", "0x27"}[i%4]
	}
	return []string{"a", "it's", "1", "NULL", "x,y", "b c", "A", "{t}"}[(i+r.Intn(1))%8]
}

func genSubset(r *rand.Rand) *SubScen {
	g := &sgen{r: r}
	sc := &SubScen{}
	names := []string{"a", "b", "c", "d", "Order", "e f", "g-h"}
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	n := 2 + r.Intn(4)
	cyclic := g.one(4)
	for i := 0; i < n; i++ {
		t := SubTab{N: names[i]}
		ty := pick(r, []string{"INTEGER", "INTEGER", "INTEGER", "BIGINT", "TEXT", "VARCHAR(255)", "DATETIME", "BLOB", "REAL"})
		switch {
		case g.one(12): // no primary key
			t.Cols = []SubCol{{"id", ty}}
		case g.one(4):
			ty2 := pick(r, []string{"INTEGER", "TEXT"})
			t.Cols, t.PK = []SubCol{{"id", ty}, {"k2", ty2}}, []string{"id", "k2"}
			if g.one(3) {
				t.PK = []string{"k2", "id"}
			}
		default:
			t.Cols, t.PK = []SubCol{{"id", ty}}, []string{"id"}
		}
		t.Cols = append(t.Cols, SubCol{"x", pick(r, []string{"TEXT", "INTEGER"})})
		t.Gen = g.one(10) && ty != "BLOB"
		sc.Tabs = append(sc.Tabs, t)
	}
	for i := range sc.Tabs {
		t := &sc.Tabs[i]
		for k := r.Intn(4); k > 0; k-- {
			j := r.Intn(n)
			if !cyclic {
				if i == 0 {
					break
				}
				j = r.Intn(i)
			}
			to := &sc.Tabs[j]
			f := SubFK{RT: to.N}
			rc := append([]string{}, to.PK...)
			if len(rc) == 0 || g.one(6) {
				rc = []string{"x"}
			}
			for _, c := range rc {
				nc := fmt.Sprintf("f%d_%s", len(t.FK), c)
				t.Cols = append(t.Cols, SubCol{nc, to.col(c).Ty})
				f.Cols, f.RC = append(f.Cols, nc), append(f.RC, c)
			}
			t.FK = append(t.FK, f)
		}
	}
	for i := range sc.Tabs {
		t := &sc.Tabs[i]
		seen := map[string]bool{}
		many := 4
		if t.Cols[0].Ty == "INTEGER" && g.one(40) {
			many = 25
		}
		for k := r.Intn(many + 1); k > 0; k-- {
			row := make([]string, len(t.Cols))
			for c, col := range t.Cols {
				row[c] = subValues(r, col.Ty, r.Intn(many))
				if col.N == "x" && g.one(5) {
					row[c] = "~"
				}
			}
			key := ""
			for _, p := range t.PK {
				for c, col := range t.Cols {
					if col.N == p {
						key += row[c] + "|"
					}
				}
			}
			if len(t.PK) > 0 && seen[key] {
				continue
			}
			seen[key] = true
			t.Rows = append(t.Rows, row)
		}
	}
	// Foreign keys mostly lead to rows that exist.
	for i := range sc.Tabs {
		t := &sc.Tabs[i]
		for _, row := range t.Rows {
			for _, f := range t.FK {
				to := sc.tab(f.RT)
				var src []string
				if len(to.Rows) > 0 && !g.one(8) {
					src = to.Rows[r.Intn(len(to.Rows))]
				}
				for m, c := range f.Cols {
					v := "~"
					for x, col := range to.Cols {
						if src != nil && col.N == f.RC[m] {
							v = src[x]
						}
					}
					if g.one(15) {
						v = "~"
					}
					for x, col := range t.Cols {
						if col.N == c {
							row[x] = v
						}
					}
				}
			}
		}
	}
	for k := 1 + r.Intn(3); k > 0; k-- {
		t := sc.Tabs[r.Intn(n)]
		if len(t.PK) == 0 && !g.one(5) {
			continue
		}
		c := t.Cols[r.Intn(len(t.Cols))]
		sq := SubQuery{T: t.N, Ext: g.one(3), Op: pick(r, []string{"all", "eq", "eq", "eq", "ne", "null"}), C: c.N, V: subValues(r, c.Ty, r.Intn(4)), Form: pick(r, []string{"plain", "plain", "plain", "distinct", "order", "twice"})}
		if sq.Form == "twice" && sq.Op == "null" {
			sq.Op = "all"
		}
		if g.one(12) {
			sq.Op = "none"
		}
		if g.one(25) {
			sq.Form = pick(r, []string{"nostar", "notable", "unknown", "unclosed", "trailing", "two tables", "two stars"})
		}
		sc.Queries = append(sc.Queries, sq)
	}
	if len(sc.Queries) == 0 {
		sc.Queries = []SubQuery{{T: sc.Tabs[0].N, Op: "all"}}
	}
	if g.one(12) {
		sc.Exclude = []string{sc.Tabs[r.Intn(n)].N}
	}
	if g.one(5) {
		sc.Fault, sc.Next = 1+r.Intn(30), g.one(2)
	}
	return sc
}

func runSubset(j *job) {
	dir := fmt.Sprintf("%s/subset%d", scratch(), shard)
	must(os.MkdirAll(dir, 0o755))
	if j.in != "" {
		i := 0
		readLines(j.in, func(line []byte) {
			i++
			if i%shards != shard {
				return
			}
			var sc SubScen
			must(json.Unmarshal(line, &sc))
			enter(sc.ID)
			j.w.write(sc.run(dir))
		})
	}
	each(j.n, func(i int) {
		r := rand.New(rand.NewSource(j.seed*1000003 + int64(i)))
		sc := genSubset(r)
		sc.ID = fmt.Sprintf("subset-%d-%d", j.seed, i)
		enter(sc.ID)
		j.w.write(sc.run(dir))
	})
}
