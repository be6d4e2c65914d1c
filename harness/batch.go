package main

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/bokwoon95/sqddl/ddl"

	"verifharness/vdb"
)

// BatchScen is one batch insert (see spec/Batch.tla).
type BatchScen struct {
	ID     string     `json:"id"`
	D      string     `json:"d"`
	Schema string     `json:"schema"`
	Table  string     `json:"table"`
	All    []string   `json:"all"`   // columns of the table
	Key    []string   `json:"key"`   // its primary key
	Ident  []string   `json:"ident"` // its identity columns
	Prior  [][]string `json:"prior"`
	Cols   []string   `json:"cols"` // columns of the insert
	Keys   []string   `json:"keys"` // key columns asked for
	Idents []string   `json:"idents"`
	Size   int        `json:"size"`
	Rows   [][]string `json:"rows"`  // "~" is NULL
	SrcErr int        `json:"src"`   // the source fails instead of giving this row (1..)
	Fault  int        `json:"fault"` // this INSERT or UPDATE fails (1..)
	Big    int        `json:"big"`   // number of rows, generated on the fly; only counted
	Tx     bool       `json:"tx"`
}

// dml reads the statements of a batch insert.
func dml(d, cur, query string, args []driver.Value) (op obj, unsupported string) {
	defer func() {
		switch e := recover().(type) {
		case nil:
		case sqlUnknown:
			unsupported = e.why
		case sqlBad:
			op = obj{"o": "bad", "why": e.why}
		default:
			panic(e)
		}
	}()
	p := &sqlParser{d: d, cur: cur, src: query, t: tokenize(d, query)}
	next := 0
	used := map[int]bool{}
	arg := func() driver.Value {
		n := 0
		switch {
		case d == "postgres" && p.accept("$"):
			n, _ = strconv.Atoi(p.peek().v)
			p.i++
		case d == "sqlserver" && p.peek().k == 'w' && strings.HasPrefix(p.peek().v, "@p"):
			n, _ = strconv.Atoi(p.peek().v[2:])
			p.i++
		case (d == "mysql" || d == "sqlite") && p.accept("?"):
			next++
			n = next
		case d == "sqlite" && p.accept("$"):
			n, _ = strconv.Atoi(p.peek().v)
			p.i++
		default:
			p.bad("expected a placeholder")
		}
		if n < 1 || n > len(args) {
			p.bad("no such argument")
		}
		used[n] = true
		return args[n-1]
	}
	values := func() [][]string {
		rows := [][]string{}
		for {
			p.expect("(")
			row := []string{}
			for {
				switch v := arg().(type) {
				case nil:
					row = append(row, "~")
				case []byte:
					row = append(row, fmt.Sprintf("x:%x", v))
				default:
					row = append(row, fmt.Sprint(v))
				}
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			rows = append(rows, row)
			if !p.accept(",") {
				return rows
			}
		}
	}
	// dotted reads a name qualified by a table and tells whose it is.
	dotted := func(table, tmp string) (string, string) {
		var parts []string
		parts = append(parts, p.ident())
		for p.accept(".") {
			parts = append(parts, p.ident())
		}
		col := parts[len(parts)-1]
		q := strings.Join(parts[:len(parts)-1], ".")
		switch {
		case q == tmp && tmp != "":
			return "new", col
		case q == table, cur+"."+q == table:
			return "old", col
		}
		p.bad("unknown name " + q)
		return "", ""
	}
	conds := func(table, tmp string) []string {
		keys := []string{}
		for {
			wa, a := dotted(table, tmp)
			p.expect("=")
			wb, b := dotted(table, tmp)
			if a != b || wa == wb {
				p.unknown("join condition")
			}
			keys = append(keys, a)
			if !p.accept("AND") {
				return keys
			}
		}
	}
	same := func(a, b []string) bool { return strings.Join(a, "\x00") == strings.Join(b, "\x00") }
	done := func(o obj) obj {
		_ = p.accept(";")
		if p.i < len(p.t) {
			p.bad("unexpected")
		}
		if len(used) != len(args) {
			p.bad("arguments are left over")
		}
		absent := obj{"cols": []string{}, "rows": [][]string{}, "conf": "none", "keys": []string{}, "set": [][]string{}, "over": false, "on": false}
		for k, v := range absent {
			if _, ok := o[k]; !ok {
				o[k] = v
			}
		}
		return o
	}
	switch {
	case p.accept("SET", "IDENTITY_INSERT"):
		t := p.table()
		on := p.accept("ON")
		if !on {
			p.expect("OFF")
		}
		return done(obj{"o": "identity", "t": t, "on": on}), ""
	case p.accept("SELECT", "setval"):
		p.expect("(")
		p.expect("pg_get_serial_sequence")
		p.expect("(")
		tab, _ := arg().(string)
		p.expect(",")
		col, _ := arg().(string)
		p.expect(")")
		p.expect(",")
		p.expect("MAX")
		p.expect("(")
		c := p.ident()
		p.expect(")")
		p.expect(")")
		p.expect("FROM")
		from := p.table()
		q := &sqlParser{d: d, cur: cur, src: tab, t: tokenize(d, tab)}
		return done(obj{"o": "setval", "t": q.table(), "col": col, "max": c, "from": from}), ""
	case p.accept("INSERT", "INTO"):
		t := p.table()
		o := obj{"o": "insert", "t": t, "cols": p.names()}
		if p.accept("OVERRIDING") {
			p.expect("SYSTEM")
			p.expect("VALUE")
			o["over"] = true
		}
		if p.accept("SELECT") {
			sel := []string{}
			for {
				sel = append(sel, p.ident())
				if !p.accept(",") {
					break
				}
			}
			p.expect("FROM")
			p.expect("(")
			p.expect("VALUES")
			o["rows"] = values()
			p.expect(")")
			_ = p.accept("AS")
			tmp := p.ident()
			if names := p.names(); !same(names, sel) || !same(names, o["cols"].([]string)) {
				p.unknown("columns in another order")
			}
			p.expect("WHERE")
			p.expect("NOT")
			p.expect("EXISTS")
			p.expect("(")
			p.expect("SELECT")
			p.i++
			p.expect("FROM")
			if p.table() != t {
				p.unknown("another table")
			}
			p.expect("WHERE")
			o["keys"], o["conf"] = conds(t, tmp), "absent"
			p.expect(")")
			return done(o), ""
		}
		p.expect("VALUES")
		o["rows"] = values()
		set := [][]string{}
		switch {
		case p.accept("ON", "CONFLICT"):
			if d == "mysql" || d == "sqlserver" {
				p.bad("ON CONFLICT")
			}
			o["keys"] = p.names()
			p.expect("DO")
			if p.accept("NOTHING") {
				o["conf"] = "nothing"
				break
			}
			p.expect("UPDATE")
			p.expect("SET")
			for {
				c := p.ident()
				p.expect("=")
				p.expect("EXCLUDED")
				p.expect(".")
				set = append(set, []string{c, p.ident()})
				if !p.accept(",") {
					break
				}
			}
			o["conf"], o["set"] = "update", set
		case p.accept("ON", "DUPLICATE", "KEY", "UPDATE"):
			if d != "mysql" {
				p.bad("ON DUPLICATE")
			}
			for {
				c := p.ident()
				p.expect("=")
				if p.accept("VALUES") {
					p.expect("(")
					set = append(set, []string{c, p.ident()})
					p.expect(")")
				} else if x := p.ident(); x != c {
					p.unknown("another column")
				}
				if !p.accept(",") {
					break
				}
			}
			o["conf"], o["set"] = "duplicate", set
		}
		return done(o), ""
	case p.accept("UPDATE"):
		t := p.table()
		if p.accept("WITH") {
			p.group()
		}
		p.expect("SET")
		set := [][]string{}
		tmpName := ""
		for {
			c := p.ident()
			p.expect("=")
			tmpName = p.ident()
			p.expect(".")
			set = append(set, []string{c, p.ident()})
			if !p.accept(",") {
				break
			}
		}
		p.expect("FROM")
		if p.table() != t {
			p.unknown("another table")
		}
		p.expect("JOIN")
		p.expect("(")
		p.expect("VALUES")
		o := obj{"o": "update", "t": t, "set": set, "rows": values()}
		p.expect(")")
		_ = p.accept("AS")
		if tmp := p.ident(); tmp != tmpName {
			p.bad("unknown name " + tmpName)
		}
		o["cols"] = p.names()
		p.expect("ON")
		o["keys"] = conds(t, tmpName)
		return done(o), ""
	}
	p.unknown("statement")
	return
}

func (sc *BatchScen) row(i int) []string {
	if sc.Big == 0 {
		return sc.Rows[i]
	}
	row := make([]string, len(sc.Cols))
	for j := range row {
		row[j] = strconv.Itoa(i*len(row) + j)
	}
	return row
}

func (sc *BatchScen) run(dir string) obj {
	tr := obj{"id": sc.ID, "scenario": sc}
	cur := curSchema(sc.D)
	name := cur + "." + sc.Table
	if sc.Schema != "" {
		name = sc.Schema + "." + sc.Table
	}
	ident := sc.Ident
	prior := sc.Prior
	if prior == nil {
		prior = [][]string{}
	}
	events := []obj{{"e": "init", "d": sc.D, "t": name, "all": strs(sc.All), "key": strs(sc.Key), "ident": strs(ident), "prior": prior,
		"cols": strs(sc.Cols), "keys": strs(sc.Keys), "idents": strs(sc.Idents), "big": sc.Big > 0}}
	unsupported := ""
	w := &vdb.World{Path: ":memory:", Dialect: sc.D}
	real := sc.D == "sqlite"
	var plain *sql.DB
	if real {
		w.Path = filepath.Join(dir, "batch.db")
		removeDB(w.Path)
		var err error
		plain, err = sql.Open("sqlite3", "file:"+w.Path)
		must(err)
		defer plain.Close()
		s := "CREATE TABLE " + q(sc.Table) + " ("
		for i, c := range sc.All {
			if i > 0 {
				s += ", "
			}
			s += q(c) + " TEXT"
		}
		if len(sc.Key) > 0 {
			s += ", PRIMARY KEY (" + qs(sc.Key) + ")"
		}
		_, err = plain.Exec(s + ")")
		must(err)
		for _, row := range sc.Prior {
			var args []any
			for _, v := range row {
				if v == "~" {
					args = append(args, nil)
				} else {
					args = append(args, v)
				}
			}
			_, err = plain.Exec("INSERT INTO "+q(sc.Table)+" VALUES ("+strings.TrimSuffix(strings.Repeat("?, ", len(row)), ", ")+")", args...)
			must(err)
		}
	} else {
		w.Server = func(int, string, []driver.NamedValue, bool) (*vdb.FakeRows, error) { return nil, nil }
		w.Affected = func(string) int64 { return 3 }
	}
	n, inj := 0, false
	isWrite := func(s string) bool {
		s = strings.ToUpper(strings.TrimSpace(s))
		return strings.HasPrefix(s, "INSERT") || strings.HasPrefix(s, "UPDATE")
	}
	w.Fault = func(_ int, c *vdb.Call) string {
		if c.Kind == "exec" && isWrite(c.SQL) {
			n++
			if n == sc.Fault {
				inj = true
				return "err"
			}
		}
		return ""
	}
	writes := 0
	w.Observe = func(c *vdb.Call) {
		if c.Kind != "exec" {
			return
		}
		writes++
		e := obj{"e": "exec", "fail": c.Err != nil, "inj": inj, "nargs": len(c.Args)}
		inj = false
		if sc.Big > 0 && isWrite(c.SQL) {
			e["op"] = obj{"o": "big", "n": len(c.Args) / len(sc.Cols), "upd": strings.HasPrefix(c.SQL, "UPDATE")}
		} else {
			op, why := dml(sc.D, cur, c.SQL, c.Args)
			if why != "" {
				unsupported = why
			}
			e["op"] = op
		}
		events = append(events, e)
	}
	db := w.DB()
	defer db.Close()
	bi := &ddl.BatchInsert{Batchsize: sc.Size, Dialect: sc.D, TableSchema: sc.Schema, TableName: sc.Table, Columns: append([]string{}, sc.Cols...), KeyColumns: append([]string{}, sc.Keys...), IdentityColumns: append([]string{}, sc.Idents...)}
	var target ddl.DB = db
	ctx := context.Background()
	var tx *sql.Tx
	if sc.Tx || !real {
		var err error
		tx, err = db.Begin()
		must(err)
		target = tx
	}
	total := len(sc.Rows)
	if sc.Big > 0 {
		total = sc.Big
	}
	i := 0
	srcErr := errors.New("source failed")
	var affected int64
	var runErr error
	msg, crashed := guard(func() error {
		affected, runErr = bi.ExecContext(ctx, target, func(row []any) error {
			if i >= total {
				return io.EOF
			}
			i++
			if i == sc.SrcErr {
				events = append(events, obj{"e": "srcerr"})
				return srcErr
			}
			if len(row) != len(sc.Cols) {
				return fmt.Errorf("row of %d", len(row))
			}
			r := sc.row(i - 1)
			for j, v := range r {
				if v == "~" {
					row[j] = nil
				} else {
					row[j] = v
				}
			}
			if sc.Big == 0 {
				events = append(events, obj{"e": "row", "v": r})
			}
			return nil
		})
		return runErr
	})
	if tx != nil {
		must(tx.Commit())
	}
	if w.Unsupported != "" {
		unsupported = w.Unsupported
	}
	e := obj{"e": "end", "err": trunc(msg, 200), "crashed": crashed, "affected": affected, "isrc": errors.Is(runErr, srcErr), "total": total, "real": real, "rows": [][]string{}}
	if real && sc.Big == 0 {
		rows := [][]string{}
		for _, r := range queryAll(plain, "SELECT * FROM "+q(sc.Table)) {
			row := []string{}
			for _, v := range r {
				if v == nil {
					row = append(row, "~")
				} else {
					row = append(row, str(v))
				}
			}
			rows = append(rows, row)
		}
		e["rows"] = rows
	}
	if real && sc.Big > 0 {
		e["total"] = total
		n, _ := strconv.Atoi(str(queryAll(plain, "SELECT COUNT(*) FROM "+q(sc.Table))[0][0]))
		if n != total && msg == "" {
			e["total"] = -1
		}
	}
	events = append(events, e)
	tr["events"] = events
	if unsupported != "" {
		tr["unsupported"] = trunc(unsupported, 300)
	}
	return tr
}

func genBatch(r *rand.Rand, d string) *BatchScen {
	one := func(n int) bool { return r.Intn(n) == 0 }
	sc := &BatchScen{D: d, Table: pick(r, []string{"t", "users", "Order", "user name", `a"b`}), Tx: one(2)}
	if d != "sqlite" && one(3) {
		sc.Schema = pick(r, []string{"other", curSchema(d)})
	}
	names := []string{"id", "x", "Code", "user name", "group", "y"}
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	sc.All = names[:1+r.Intn(len(names))]
	for _, c := range sc.All {
		if len(sc.Key) < 2 && one(3) {
			sc.Key = append(sc.Key, c)
		}
	}
	for _, c := range sc.All {
		if !one(5) || contains(sc.Key, c) {
			sc.Cols = append(sc.Cols, c)
		}
	}
	r.Shuffle(len(sc.Cols), func(i, j int) { sc.Cols[i], sc.Cols[j] = sc.Cols[j], sc.Cols[i] })
	if len(sc.Cols) == 0 {
		sc.Cols = sc.All[:1]
	}
	if (d == "postgres" || d == "sqlserver") && one(2) {
		sc.Ident = []string{sc.All[r.Intn(len(sc.All))]}
		sc.Idents = sc.Ident
	}
	if one(8) {
		// Key columns that are not inserted mean no upsert.
		sc.Keys = []string{"missing"}
		if len(sc.Key) > 0 {
			sc.Keys = append(sc.Keys, sc.Key[0])
		}
	} else if len(sc.Key) > 0 && !one(4) {
		sc.Keys = append([]string{}, sc.Key...)
		r.Shuffle(len(sc.Keys), func(i, j int) { sc.Keys[i], sc.Keys[j] = sc.Keys[j], sc.Keys[i] })
	}
	sc.Size = r.Intn(6) - 1
	size := sc.Size
	if size <= 0 {
		size = 500
	}
	// Rows: keys come from a small set; a key is used again only where the
	// dialect accepts it.
	keyed := map[string]int{}
	free := func(n int) string { return fmt.Sprint("k", n) }
	make1 := func(cols []string, i int) ([]string, string) {
		row, key := []string{}, ""
		vals := map[string]string{}
		for _, c := range cols {
			v := pick(r, []string{"a", "b", "", "~", "it's", "$1", "?"})
			if contains(sc.Key, c) {
				v = free(r.Intn(8))
			}
			if contains(sc.Ident, c) {
				v = strconv.Itoa(1 + r.Intn(8))
			}
			vals[c] = v
			row = append(row, v)
		}
		for _, c := range sc.Key {
			key += vals[c] + "\x00"
		}
		return row, key
	}
	for i := r.Intn(4); i > 0; i-- {
		row, key := make1(sc.All, -1)
		if _, dup := keyed[key]; dup && len(sc.Key) > 0 {
			continue
		}
		keyed[key] = -1000000
		sc.Prior = append(sc.Prior, row)
	}
	for i := r.Intn(14); i > 0; i-- {
		row, key := make1(sc.Cols, len(sc.Rows))
		if last, dup := keyed[key]; dup && len(sc.Key) > 0 {
			if (len(sc.Keys) == 0 || sc.Keys[0] == "missing") && d != "sqlite" {
				continue
			}
			if len(sc.Rows)-last < size && (d == "postgres" || d == "sqlserver") {
				continue
			}
		}
		keyed[key] = len(sc.Rows)
		sc.Rows = append(sc.Rows, row)
	}
	if one(5) {
		sc.SrcErr = 1 + r.Intn(len(sc.Rows)+1)
	} else if one(5) {
		sc.Fault = 1 + r.Intn(4)
	}
	return sc
}

// bigBatches are inserts near the limits of the databases.
func bigBatches() (out []*BatchScen) {
	for _, d := range []string{"sqlite", "postgres", "mysql", "sqlserver"} {
		for _, b := range [][3]int{{1, 100000, 3}, {10, 70000, 7000}, {100, 1000, 700}, {90, 0, 40}, {2, 25, 51}, {3, 0, 1001}, {1000, 30, 40}, {1, 0, 500}, {7, 500, 1000}} {
			sc := &BatchScen{D: d, Table: "t", Size: b[1], Big: b[2], Tx: true}
			for i := 0; i < b[0]; i++ {
				sc.All = append(sc.All, fmt.Sprintf("c%d", i))
			}
			sc.Cols = sc.All
			if b[2]%2 == 1 {
				sc.Key, sc.Keys = sc.All[:1], sc.All[:1]
			}
			out = append(out, sc)
		}
	}
	return out
}

func runBatch(j *job) {
	dir := fmt.Sprintf("%s/batch%d", scratch(), shard)
	must(os.MkdirAll(dir, 0o755))
	if j.in != "" {
		i := 0
		readLines(j.in, func(line []byte) {
			i++
			if i%shards != shard {
				return
			}
			var sc BatchScen
			must(json.Unmarshal(line, &sc))
			j.w.write(sc.run(dir))
		})
	}
	if j.n > 0 {
		for i, sc := range bigBatches() {
			if i%shards == shard {
				sc.ID = fmt.Sprintf("batch-big-%d", i)
				j.w.write(sc.run(dir))
			}
		}
	}
	each(j.n, func(i int) {
		r := rand.New(rand.NewSource(j.seed*1000003 + int64(i)))
		d := []string{"sqlite", "postgres", "mysql", "sqlserver"}[i/8%4]
		sc := genBatch(r, d)
		sc.ID = fmt.Sprintf("batch-%s-%d-%d", d, j.seed, i)
		j.w.write(sc.run(dir))
	})
}
