package main

import (
	"fmt"
	"math/rand"
	"os"
	"strings"
)

// genRows fills the tables so that every key holds.
func (g *sgen) genRows(c ACat) map[string][]map[string]*string {
	rows := map[string][]map[string]*string{}
	done := map[string]bool{}
	var fill func(key string)
	fill = func(key string) {
		if done[key] {
			return
		}
		done[key] = true
		t := c.T[key]
		for _, n := range sortedKeys(t.K) {
			if k := t.K[n]; k.K == "FK" && k.RT != key {
				fill(k.RT)
			}
		}
		fk := map[string]ACon{}
		for _, n := range sortedKeys(t.K) {
			if k := t.K[n]; k.K == "FK" {
				for _, col := range k.Cols {
					if _, ok := fk[col]; !ok {
						fk[col] = k
					}
				}
			}
		}
		unique := map[string]bool{}
		for _, k := range t.K {
			if k.K == "PK" || k.K == "UQ" {
				for _, n := range k.Cols {
					unique[n] = true
				}
			}
		}
		for _, x := range t.I {
			if x.U {
				for _, n := range x.Cols {
					unique[n] = true
				}
			}
		}
		n := g.r.Intn(4)
		for i := 0; i < n; i++ {
			row := map[string]*string{}
			ok := true
			for _, name := range t.plainCols() {
				col := t.C[name]
				s := ""
				if k, isFK := fk[name]; isFK {
					parents := rows[k.RT]
					pc := ""
					for j, cn := range k.Cols {
						if cn == name {
							pc = k.RC[j]
						}
					}
					j := i
					if !unique[name] && len(parents) > 0 {
						j = i % len(parents)
					}
					if j < len(parents) && parents[j][pc] != nil && k.RT != key {
						row[name] = parents[j][pc]
						continue
					}
					if col.NN || g.usedIn(t, name, "PK") {
						ok = false
						break
					}
					row[name] = nil
					continue
				}
				switch classOf("sqlite", col.B) {
				case "text":
					s = fmt.Sprintf("v%d", i)
					if !unique[name] {
						s = pick(g.r, []string{s, "same", "", "it's", "é"})
					}
				case "time":
					s = fmt.Sprintf("2020-01-%02d 00:00:00", i+1)
				case "bin":
					s = fmt.Sprintf("b%d", i)
				default:
					s = fmt.Sprint(i + 1)
					if !unique[name] {
						s = pick(g.r, []string{s, "7", "0"})
					}
				}
				if !col.NN && !g.usedIn(t, name, "PK") && g.one(4) {
					row[name] = nil
					continue
				}
				row[name] = &s
			}
			if ok {
				rows[key] = append(rows[key], row)
			}
		}
	}
	for _, key := range c.keys() {
		fill(key)
	}
	return rows
}

func (g *sgen) genExtra(c ACat) []Extra {
	var out []Extra
	keys := c.keys()
	if len(keys) == 0 {
		return out
	}
	for i := g.r.Intn(3); i > 0; i-- {
		key := keys[g.r.Intn(len(keys))]
		_, name := splitKey(key)
		t := c.T[key]
		col := t.plainCols()[g.r.Intn(len(t.plainCols()))]
		switch g.r.Intn(5) {
		case 0:
			out = append(out, Extra{Kind: "view", Name: fmt.Sprintf("vw%d", i), On: key, Cols: []string{col}, SQL: fmt.Sprintf("CREATE VIEW vw%d AS SELECT %s FROM %s", i, q(col), q(name))})
		case 1:
			out = append(out, Extra{Kind: "trigger", Name: fmt.Sprintf("trg%d", i), On: key, SQL: fmt.Sprintf("CREATE TRIGGER trg%d AFTER INSERT ON %s BEGIN SELECT 1; END", i, q(name))})
		case 2:
			out = append(out, Extra{Kind: "trigger", Name: fmt.Sprintf("trg%d", i), On: key, Cols: []string{col}, SQL: fmt.Sprintf("CREATE TRIGGER trg%d AFTER UPDATE OF %s ON %s BEGIN SELECT NEW.%s; END", i, q(col), q(name), q(col))})
		case 3:
			out = append(out, Extra{Kind: "virtual", Name: fmt.Sprintf("fts%d", i), SQL: fmt.Sprintf("CREATE VIRTUAL TABLE fts%d USING fts5(body); INSERT INTO fts%d (body) VALUES ('hello'), ('world')", i, i)})
		case 4:
			out = append(out, Extra{Kind: "history", Name: "sqddl_history", SQL: "CREATE TABLE IF NOT EXISTS sqddl_history (filename TEXT PRIMARY KEY NOT NULL, checksum TEXT, started_at DATETIME, time_taken_ns BIGINT, success BOOLEAN); INSERT OR IGNORE INTO sqddl_history (filename, success) VALUES ('01.sql', TRUE)"})
		}
	}
	return out
}

func genAuto(r *rand.Rand, profile string) *AutoScen {
	g := &sgen{r: r, d: "sqlite", p: profile}
	sc := &AutoScen{Style: r.Intn(8), FK: profile == "C11" && g.one(4)}
	sc.Init = ACat{}.norm()
	if !g.one(8) {
		sc.Init = g.catalog()
	}
	sc.Rows = g.genRows(sc.Init)
	sc.Extra = g.genExtra(sc.Init)
	cur := sc.Init.clone()
	for i := 1 + r.Intn(3); i > 0; i-- {
		if g.one(10) {
			cur = g.catalog()
		} else {
			for j := 1 + r.Intn(3); j > 0; j-- {
				g.mutate(&cur)
			}
		}
		decl := cur.clone()
		st := AutoStep{Decl: decl, Drop: g.one(2) || profile == "C09", Via: pick(r, []string{"catalog", "json", "db", "struct"})}
		if g.one(8) && st.Via != "db" {
			g.ignoreSome(&st.Decl)
		}
		if st.Via == "db" && hasGenerated(st.Decl) {
			// SQLite does not tell the expression of a generated column.
			st.Via = "json"
		}
		if st.Via == "struct" && !structable(st.Decl) {
			st.Via = "catalog"
		}
		if g.one(6) {
			// One that is there perhaps, one that is not.
			st.Virtual = [][]string{{"fts1"}, {"fts9"}, {"fts2", "fts1"}, {"fts8", "fts2"}}[r.Intn(4)]
		}
		if g.one(3) || profile == "C12" {
			dry := st
			dry.Dry = true
			sc.Steps = append(sc.Steps, dry)
		}
		sc.Steps = append(sc.Steps, st)
		if g.one(2) || profile == "C09" {
			sc.Steps = append(sc.Steps, st)
		}
	}
	return sc
}

func runAuto(j *job) {
	dir := fmt.Sprintf("%s/auto%d", scratch(), shard)
	must(os.MkdirAll(dir, 0o755))
	if j.in != "" {
		i := 0
		readLines(j.in, func(line []byte) {
			i++
			if i%shards != shard {
				return
			}
			var sc AutoScen
			lenient(line, &sc)
			sc.fix()
			j.w.write(sc.run(dir))
		})
	}
	each(j.n, func(i int) {
		r := rand.New(rand.NewSource(j.seed*1000003 + int64(i)))
		sc := genAuto(r, strings.TrimSpace(j.profile))
		sc.ID = fmt.Sprintf("auto-%s-%d-%d", j.profile, j.seed, i)
		j.w.write(sc.run(dir))
	})
}

func (sc *AutoScen) fix() {
	sc.Init = sc.Init.norm()
	for i := range sc.Steps {
		sc.Steps[i].Decl = sc.Steps[i].Decl.norm()
	}
}

func hasGenerated(c ACat) bool {
	for _, t := range c.T {
		for _, col := range t.C {
			if col.Gen != "" {
				return true
			}
		}
	}
	return false
}
