package main

import (
	"archive/tar"
	"archive/zip"
	"compress/gzip"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"github.com/bokwoon95/sqddl/ddl"

	"verifharness/vdb"
)

// RestoreScen is a schema of a Postgres, MySQL or SQL Server database that is
// dumped.
type RestoreScen struct {
	ID   string `json:"id"`
	D    string `json:"d"`
	Ver  string `json:"ver"`
	Cat  ACat   `json:"cat"`
	Shuf int64  `json:"shuf"` // seed of the order in which the database lists its tables

	Fault int    `json:"fault"` // the call that fails, 0 for none
	Next  bool   `json:"next"`  // it is one that reads a row
	Zip   string `json:"zip"`   // zip or tgz, a directory otherwise

	// Postgres only, by schema and name.
	Enums   map[string][]string `json:"enums"`
	Domains map[string]ADomain  `json:"domains"`
	Exts    []string            `json:"exts"`
}

// ADomain is a type with restrictions.
type ADomain struct {
	B      string            `json:"b"`
	A      []string          `json:"a"`
	NN     bool              `json:"nn"`
	Def    string            `json:"def"`
	Coll   string            `json:"coll"`
	Checks map[string]string `json:"checks"`
}

// text is the type as the database reports it.
func (x ADomain) text() string {
	b := strings.ToLower(x.B)
	if b == "varchar" {
		b = "character varying"
	}
	return typeText(ACol{B: b, A: x.A})
}

// types is the types of the database.
func (sc *RestoreScen) types() obj {
	out := obj{}
	for k, labels := range sc.Enums {
		out[k] = enumObj(strs(labels))
	}
	for k, x := range sc.Domains {
		out[k] = domainObj(x)
	}
	return out
}

// catalog is what the database reports.
func (sc *RestoreScen) catalog() *ddl.Catalog {
	cat := sc.Cat.catalog(sc.D, sc.Ver, false, false)
	reported(sc.D, sc.Ver, cat)
	schema := func(name string) *ddl.Schema {
		for i := range cat.Schemas {
			if cat.Schemas[i].SchemaName == name {
				return &cat.Schemas[i]
			}
		}
		cat.Schemas = append(cat.Schemas, ddl.Schema{SchemaName: name})
		return &cat.Schemas[len(cat.Schemas)-1]
	}
	cat.Extensions = sc.Exts
	for _, k := range sortedKeys(sc.Enums) {
		s, n := splitKey(k)
		x := schema(s)
		x.Enums = append(x.Enums, ddl.Enum{EnumSchema: s, EnumName: n, EnumLabels: sc.Enums[k]})
	}
	for _, k := range sortedKeys(sc.Domains) {
		s, n := splitKey(k)
		dom := sc.Domains[k]
		def := dom.Def
		if strings.HasPrefix(def, "'") {
			def += "::" + strings.ToLower(dom.B)
		}
		d := ddl.Domain{DomainSchema: s, DomainName: n, UnderlyingType: dom.text(), IsNotNull: dom.NN, ColumnDefault: def, CollationName: dom.Coll}
		for _, c := range sortedKeys(dom.Checks) {
			d.CheckNames, d.CheckExprs = append(d.CheckNames, c), append(d.CheckExprs, "CHECK ("+dom.Checks[c]+")")
		}
		x := schema(s)
		x.Domains = append(x.Domains, d)
	}
	for i := range cat.Schemas {
		for j := range cat.Schemas[i].Tables {
			for k := range cat.Schemas[i].Tables[j].Columns {
				c := &cat.Schemas[i].Tables[j].Columns[k]
				if dom, ok := sc.Domains[curSchema(sc.D)+"."+c.ColumnType]; ok {
					c.DomainName, c.ColumnType = c.ColumnType, dom.text()
				} else if sc.Enums[curSchema(sc.D)+"."+c.ColumnType] != nil {
					c.IsEnum = true
				}
			}
		}
	}
	return cat
}

// run dumps the schema and executes the files in the order in which load does.
func (sc *RestoreScen) run(dir string) (tr obj) {
	upper := obj{}
	for k := range sc.types() {
		_, n := splitKey(k)
		upper[k] = strings.ToUpper(n)
	}
	evs := []obj{{"e": "begin", "d": sc.D, "cat": catObj(sc.D, sc.Cat), "cur": curSchema(sc.D), "types": sc.types(), "upper": upper, "exts": strs(sc.Exts)}}
	unsupported := ""
	tr = obj{"id": sc.ID, "scenario": sc}
	defer func() {
		if unsupported != "" {
			tr["unsupported"] = trunc(unsupported, 300)
		}
		tr["events"] = evs
	}()
	cat := sc.catalog()
	r := rand.New(rand.NewSource(sc.Shuf))
	for i := range cat.Schemas {
		s := &cat.Schemas[i]
		r.Shuffle(len(s.Tables), func(i, j int) { s.Tables[i], s.Tables[j] = s.Tables[j], s.Tables[i] })
	}
	r.Shuffle(len(cat.Schemas), func(i, j int) { cat.Schemas[i], cat.Schemas[j] = cat.Schemas[j], cat.Schemas[i] })
	srv := &catServer{d: sc.D, version: sc.Ver, cat: cat}
	var log []recorded
	w := srv.world(&log)
	n, faulted := 0, false
	w.Fault = func(_ int, c *vdb.Call) string {
		if c.Kind != "query" && c.Kind != "next" || sc.Next != (c.Kind == "next") {
			return ""
		}
		n++
		if n == sc.Fault {
			faulted = true
			return "err"
		}
		return ""
	}
	db := w.DB()
	out := filepath.Join(dir, "out")
	emptyDir(out)
	cmd := &ddl.DumpCmd{DB: db, Dialect: sc.D, OutputDir: out, SchemaOnly: true, Stderr: io.Discard}
	kind := "dir"
	switch sc.Zip {
	case "zip":
		cmd.Zip, kind = "dump.zip", "zip"
	case "tgz":
		cmd.Tgz, kind = "dump.tgz", "tgz"
	}
	msg, crashed := guard(cmd.Run)
	db.Close()
	if w.Unsupported != "" {
		unsupported = w.Unsupported
		return
	}
	evs = append(evs, obj{"e": "dumped", "err": trunc(msg, 200), "crashed": crashed, "faulted": faulted})
	if msg != "" {
		return
	}
	files := contents(kind, out)
	for _, name := range []string{"schema.sql", "indexes.sql", "constraints.sql"} {
		stmts, why := parseScript(sc.D, curSchema(sc.D), files[name])
		if why != "" {
			unsupported = name + ": " + why
			return
		}
		for _, s := range stmts {
			s["e"], s["file"] = "stmt", name
			if os.Getenv("VH_DEBUG") == "" {
				delete(s, "text")
			}
			evs = append(evs, s)
		}
	}
	for _, n := range sortedKeys(files) {
		if strings.HasSuffix(n, ".csv") {
			evs = append(evs, obj{"e": "stray", "name": n})
		}
	}
	evs = append(evs, obj{"e": "restored"})
	return
}

// contents is the files of a dump.
func contents(kind, dir string) map[string]string {
	out := map[string]string{}
	add := func(name string, r io.Reader) {
		b, _ := io.ReadAll(r)
		out[filepath.Base(name)] = string(b)
	}
	switch kind {
	case "zip":
		zr, err := zip.OpenReader(filepath.Join(dir, "dump.zip"))
		if err != nil {
			return out
		}
		defer zr.Close()
		for _, f := range zr.File {
			r, err := f.Open()
			if err != nil {
				return out
			}
			add(f.Name, r)
			r.Close()
		}
	case "tgz":
		f, err := os.Open(filepath.Join(dir, "dump.tgz"))
		if err != nil {
			return out
		}
		defer f.Close()
		gz, err := gzip.NewReader(f)
		if err != nil {
			return out
		}
		tr := tar.NewReader(gz)
		for {
			h, err := tr.Next()
			if err != nil {
				return out
			}
			add(h.Name, tr)
		}
	default:
		for _, n := range listDir(dir) {
			f, err := os.Open(filepath.Join(dir, n))
			if err != nil {
				return out
			}
			add(n, f)
			f.Close()
		}
	}
	return out
}

func genRestore(r *rand.Rand, d string) *RestoreScen {
	g := &sgen{r: r, d: d}
	sc := &RestoreScen{D: d, Ver: pick(r, genVersions[d]), Shuf: r.Int63n(1 << 30)}
	sc.Cat = g.catalog()
	if g.one(5) {
		sc.Fault, sc.Next = 1+r.Intn(9), g.one(2)
	}
	sc.Zip = pick(r, []string{"", "", "zip", "tgz"})
	for j := r.Intn(5); j > 0; j-- {
		g.mutate(&sc.Cat)
	}
	for _, key := range sc.Cat.keys() {
		_, name := splitKey(key)
		t := sc.Cat.T[key]
		for _, n := range sortedKeys(t.K) {
			if d != "postgres" {
				break
			}
			k := t.K[n]
			switch {
			case k.K == "FK":
				k.NV, k.Full = g.one(5), g.one(6)
			case (k.K == "PK" || k.K == "UQ") && g.one(5) && !sc.Cat.referred(key):
				k.Dfr, k.Idf = true, g.one(2)
			}
			t.K[n] = k
		}
		if len(t.O) > 0 && d == "postgres" && g.one(5) {
			x := &AExcl{Kind: pick(r, []string{"gist", "btree", "spgist"})}
			for i := 1 + r.Intn(2); i > 0; i-- {
				x.Elems, x.Ops = append(x.Elems, pgName(pick(r, t.O))), append(x.Ops, pick(r, []string{"=", "&&", "<>", "-|-"}))
			}
			if n := pick(r, t.O); g.one(3) && rePlainName.MatchString(n) && !sqlReserved[n] {
				x.Pred = n + " IS NOT NULL"
			}
			t.K[name+"_excl"] = ACon{K: "CK", Excl: x, Dfr: g.one(4)}
		}
		if n := pick(r, t.O); d == "mysql" && g.one(4) && rePlainName.MatchString(n) && !sqlReserved[n] && classOf(d, t.C[n].B) == "num" {
			x := AIdx{Cols: []string{"(" + n + " + 1)"}, Desc: []bool{g.one(2)}, U: g.one(4)}
			if g.one(2) {
				x.Cols, x.Desc = append(x.Cols, n), append(x.Desc, g.one(2))
			}
			t.I[name+"_expr_idx"] = x
		}
		for _, n := range t.O {
			if classOf(d, t.C[n].B) == "num" && rePlainName.MatchString(n) && !sqlReserved[n] && t.C[n].Gen == "" && g.one(6) {
				e := pick(r, []string{n + " > 0", "(" + n + " > 0) AND (" + n + " < 100)", n + " IN (1, 2)", n + " <> 0 OR " + n + " IS NULL"})
				t.K[name+"_"+n+"_check"] = ACon{K: "CK", Expr: e, NV: d == "postgres" && g.one(6)}
			}
		}
	}
	if d == "postgres" && g.one(3) {
		g.types(sc)
	}
	for _, t := range sc.Cat.T {
		if d == "mysql" && g.one(4) {
			// The key of an AUTO_INCREMENT column need not be the primary one.
			for n, k := range t.K {
				if k.K == "PK" && len(k.Cols) > 0 && t.C[k.Cols[0]].AI {
					k.K = "UQ"
					delete(t.K, n)
					t.K["uq_"+n] = k
					break
				}
			}
		}
		for n, c := range t.C {
			key := false
			for _, k := range t.K {
				key = key || (k.K == "PK" || k.K == "UQ") && k.Cols[0] == n
			}
			if c.AI && !key {
				c.AI = false
				t.C[n] = c
			}
		}
	}
	return sc
}

// referred reports whether a foreign key refers to the table.
func (c ACat) referred(key string) bool {
	for _, t := range c.T {
		for _, k := range t.K {
			if k.K == "FK" && k.RT == key {
				return true
			}
		}
	}
	return false
}

// types adds types to a database and columns of these types to its tables.
func (g *sgen) types(sc *RestoreScen) {
	sc.Enums, sc.Domains = map[string][]string{}, map[string]ADomain{}
	cur := curSchema(g.d)
	var usable []string
	for i := 1 + g.r.Intn(3); i > 0; i-- {
		s, n := cur, pick(g.r, []string{"mood", "size", "positive", "Odd Name", "order"})
		if g.one(3) {
			s = pick(g.r, sc.Cat.S)
		}
		k := s + "." + n
		if sc.Cat.T[k].O != nil || sc.Enums[k] != nil || sc.Domains[k].B != "" {
			continue
		}
		if g.one(2) {
			all := []string{"sad", "ok", "it's", "", "a,b", "Happy", `"`, "x;y"}
			g.r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
			sc.Enums[k] = all[:1+g.r.Intn(4)]
		} else {
			x := ADomain{B: pick(g.r, []string{"INTEGER", "TEXT", "NUMERIC", "VARCHAR"}), NN: g.one(2), Checks: map[string]string{}}
			text := x.B == "TEXT" || x.B == "VARCHAR"
			if x.B == "NUMERIC" && g.one(2) {
				x.A = []string{"10", "2"}
			}
			if x.B == "VARCHAR" {
				x.A = []string{"20"}
			}
			if text && g.one(3) {
				x.Coll = pick(g.r, []string{"C", "de_DE"})
			}
			if g.one(2) {
				x.Def = "1"
				if text {
					x.Def = pick(g.r, []string{"'a'", "'it''s'", "''"})
				}
			}
			for j := g.r.Intn(3); j > 0; j-- {
				e := pick(g.r, []string{"VALUE > 0", "VALUE < 100", "VALUE <> 7"})
				if text {
					e = pick(g.r, []string{"VALUE <> 'x'", "length(VALUE) > 1", "VALUE <> ')'"})
				}
				x.Checks[fmt.Sprintf("%s_check%d", n, j)] = e
			}
			sc.Domains[k] = x
		}
		if s == cur && rePlainName.MatchString(n) && !sqlReserved[n] {
			usable = append(usable, n)
		}
	}
	for _, key := range sc.Cat.keys() {
		if len(usable) > 0 && g.one(2) {
			t := sc.Cat.T[key]
			t.O = append(t.O, "typed")
			t.C["typed"] = ACol{B: pick(g.r, usable), NN: g.one(2)}
			sc.Cat.T[key] = t
		}
	}
	if g.one(3) {
		sc.Exts = []string{"citext", "hstore", "uuid-ossp"}[g.r.Intn(3):]
	}
}

func runRestore(j *job) {
	dir := fmt.Sprintf("%s/restore%d", scratch(), shard)
	must(os.MkdirAll(dir, 0o755))
	if j.in != "" {
		i := 0
		readLines(j.in, func(line []byte) {
			i++
			if i%shards != shard {
				return
			}
			var sc RestoreScen
			lenient(line, &sc)
			sc.Cat = sc.Cat.norm()
			j.w.write(sc.run(dir))
		})
	}
	ds := []string{"postgres", "mysql", "sqlserver"}
	each(j.n, func(i int) {
		sc := genRestore(rand.New(rand.NewSource(j.seed*1000003+int64(i))), ds[i%len(ds)])
		sc.ID = fmt.Sprintf("restore-%d-%d", j.seed, i)
		j.w.write(sc.run(dir))
	})
}
