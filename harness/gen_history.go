package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
)

func runHistory(j *job) {
	var scs []*Scenario
	if j.in != "" {
		readLines(j.in, func(line []byte) {
			var sc Scenario
			must(json.Unmarshal(line, &sc))
			scs = append(scs, &sc)
		})
	}
	each(len(scs), func(i int) { j.emit(scs[i], scs[i].run()) })
	each(j.n, func(i int) {
		rng := rand.New(rand.NewSource(j.seed*1000003 + int64(i)))
		sc := genHistory(rng, j.profile, i)
		tr := sc.run()
		j.emit(sc, tr)
		for _, v := range sweep(rng, sc, tr, j.profile) {
			j.emit(v, v.run())
		}
	})
}

// emit writes a trace together with the scenario that produced it.
func (j *job) emit(sc any, trace obj) {
	trace["scenario"] = sc
	j.w.write(trace)
}

var (
	poolPlain = []string{"01.sql", "02.sql", "03_b.sql", "10 a'b.sql", "9.sql", "B.sql", "a.sql", "migrations.sql", "repeatable.sql"}
	poolTx    = []string{"02_x.tx.sql", "05.tx.sql", "tx.sql"}
	poolOff   = []string{"04.txoff.sql", "06.txoff.sql", "x.txoff.sql"}
	poolRep   = []string{"repeatable/r1.sql", "repeatable/a/r2.sql", "repeatable/r3.tx.sql", "repeatable/r4.txoff.sql", "repeatable/01.sql"}
	poolOther = []string{"sub/x.sql", "schema.sql", "indexes.sql", "constraints.sql", "repeatable/schema.sql", "notes.txt", "repeatables/y.sql", "old_schema.sql"}
)

func pick(r *rand.Rand, s []string) string { return s[r.Intn(len(s))] }

func undoName(f string) string {
	return strings.TrimSuffix(strings.TrimSuffix(f, ".sql"), ".txoff") + ".undo.sql"
}

type hgen struct {
	r     *rand.Rand
	sc    *Scenario
	files map[string]Content
	order []string
	seen  []string // every name ever used
	vers  map[string]int
}

func (g *hgen) put(name string, fails bool) {
	g.vers[name]++
	c := Content{Ver: g.vers[name], N: []int{1, 1, 2, 3, 0}[g.r.Intn(5)]}
	if fails && c.N > 0 {
		c.Fail = 1 + g.r.Intn(c.N)
	}
	c.CRLF = g.r.Intn(4) == 0
	g.set(name, c)
}

func (g *hgen) set(name string, c Content) {
	if _, ok := g.files[name]; !ok {
		g.order = append(g.order, name)
	}
	g.seen = append(g.seen, name)
	g.files[name] = c
	cc := c
	g.sc.Steps = append(g.sc.Steps, Step{Op: "put", File: name, Content: &cc})
}

func (g *hgen) del(name string) {
	delete(g.files, name)
	for i, n := range g.order {
		if n == name {
			g.order = append(append([]string{}, g.order[:i]...), g.order[i+1:]...)
			break
		}
	}
	g.sc.Steps = append(g.sc.Steps, Step{Op: "del", File: name})
}

func (g *hgen) some(unknown int) []string {
	var out []string
	for n := 1 + g.r.Intn(3); n > 0; n-- {
		out = append(out, pick(g.r, g.order))
	}
	if g.r.Intn(4) == 0 {
		out = append(out, out[0])
	}
	if g.r.Intn(100) < unknown {
		out = append(out, pick(g.r, []string{"nope.sql", "repeatable/nope.sql", "01"}))
	}
	return out
}

// recorded picks names for rm and mv.
func (g *hgen) recorded() string {
	if g.r.Intn(8) == 0 {
		return "nope.sql"
	}
	return pick(g.r, g.seen)
}

func genHistory(r *rand.Rand, profile string, idx int) *Scenario {
	sc := &Scenario{ID: fmt.Sprintf("%s-%d", profile, idx), Drv: "pq", Sess: ""}
	sc.Dialect = []string{"sqlite", "sqlite", "postgres", "mysql", "sqlserver"}[r.Intn(5)]
	sc.Table = []string{"sqddl_history", "sqddl_history", "my_history", "My History"}[r.Intn(4)]
	sc.API = []string{"struct", "struct", "cli"}[r.Intn(3)]
	if profile == "C05" {
		sc.Dialect = []string{"postgres", "mysql", "sqlserver"}[r.Intn(3)]
		sc.API = []string{"struct", "struct", "struct", "cli"}[r.Intn(4)]
	}
	if sc.API == "cli" {
		sc.Dir = []string{"", "prefix"}[r.Intn(2)]
	}
	switch sc.Dialect {
	case "postgres":
		sc.Sess = []string{"0", "5s", "250ms", "2min", "1s"}[r.Intn(5)]
		sc.Drv = []string{"pq", "pgx"}[r.Intn(2)]
	case "mysql":
		sc.Sess = []string{"31536000", "50", "1", "2"}[r.Intn(4)]
	case "sqlserver":
		sc.Sess = []string{"-1", "0", "1800", "1000"}[r.Intn(4)]
	}
	g := &hgen{r: r, sc: sc, files: map[string]Content{}, vers: map[string]int{}}
	addFile := func() {
		var name string
		k := r.Intn(100)
		rep := 20
		if profile == "C04" {
			rep = 55
		}
		switch {
		case k < rep:
			name = pick(r, poolRep)
		case k < rep+15:
			name = pick(r, poolOff)
		case k < rep+25:
			name = pick(r, poolTx)
		case k < rep+33 && profile != "C03":
			name = pick(r, poolOther)
		default:
			name = pick(r, poolPlain)
		}
		if _, ok := g.files[name]; ok {
			return
		}
		fails := 8
		if profile == "C03" {
			fails = 28
		}
		g.put(name, r.Intn(100) < fails)
		if (strings.HasSuffix(name, ".txoff.sql") && r.Intn(100) < 60) || r.Intn(100) < 20 {
			if strings.HasSuffix(name, ".sql") {
				g.put(undoName(name), r.Intn(5) == 0)
			}
		}
	}
	for n := 1 + r.Intn(7); n > 0; n-- {
		addFile()
	}
	if profile == "C07" && idx%400 == 7 {
		// More than fits into one statement.
		for i := 0; i < 510; i++ {
			g.set(fmt.Sprintf("n%03d.sql", i), Content{Ver: 1, N: 1})
		}
		sc.Steps = append(sc.Steps, Step{Op: "touch"}, Step{Op: "rm", Args: append([]string(nil), g.order[3:]...)})
	}
	if len(g.order) == 0 {
		g.put("01.sql", false)
	}
	migrate := func() {
		st := Step{Op: "migrate", Verbose: r.Intn(4) == 0}
		if r.Intn(100) < 35 {
			st.Args = g.some(15)
		}
		locks := 10
		if profile == "C05" {
			locks = 75
		}
		if r.Intn(100) < locks {
			st.Max = 1 + r.Intn(4)
			st.BaseMs = []int{1, 1, 2, 5, 30}[r.Intn(5)]
			st.MaxMs = st.BaseMs * (1 + r.Intn(4))
			st.LockMs = []int{1000, 1, 1500, 2000, 60000, 250}[r.Intn(6)]
			for n := 1 + r.Intn(2); n > 0; n-- {
				st.Faults = append(st.Faults, Fault{Mode: "lock", Script: pick(r, g.order), Times: 1 + r.Intn(5)})
			}
		}
		if profile == "C05" && r.Intn(100) < 20 {
			st.LockMs = []int{1000, 1, 1500, 2000, 60000, 250}[r.Intn(6)]
		}
		sc.Steps = append(sc.Steps, st)
	}
	lsAll := func() {
		if profile == "C06" || r.Intn(3) == 0 {
			var flags []string
			for _, f := range []string{"all", "pending", "applied", "failed", "missing"} {
				if r.Intn(4) == 0 {
					flags = append(flags, f)
				}
			}
			sc.Steps = append(sc.Steps, Step{Op: "ls", Flags: flags})
		}
	}
	for n := 2 + r.Intn(5); n > 0; n-- {
		k := r.Intn(100)
		hand := 25
		if profile == "C07" {
			hand = 60
		}
		switch {
		case k < hand:
			switch r.Intn(3) {
			case 0:
				st := Step{Op: "touch"}
				if r.Intn(3) > 0 {
					st.Args = g.some(20)
				}
				sc.Steps = append(sc.Steps, st)
			case 1:
				st := Step{Op: "rm"}
				for n := r.Intn(4); n > 0; n-- {
					st.Args = append(st.Args, g.recorded())
				}
				sc.Steps = append(sc.Steps, st)
			case 2:
				a, b := g.recorded(), g.recorded()
				if r.Intn(2) == 0 {
					b = pick(r, []string{"renamed.sql", "repeatable/renamed.sql", "it's.sql"})
					g.seen = append(g.seen, b)
				}
				sc.Steps = append(sc.Steps, Step{Op: "mv", Args: []string{a, b}})
			}
		case k < hand+15 && len(g.order) > 1:
			name := pick(r, g.order)
			switch {
			case r.Intn(4) == 0:
				g.del(name)
			case r.Intn(4) == 0:
				// only the line endings change
				c := g.files[name]
				c.CRLF = !c.CRLF
				g.set(name, c)
			default:
				g.put(name, r.Intn(6) == 0)
			}
		case k < hand+20:
			addFile()
		default:
			migrate()
		}
		lsAll()
	}
	migrate()
	lsAll()
	if profile == "C04" || r.Intn(4) == 0 {
		// Running again straight away finds nothing new.
		sc.Steps = append(sc.Steps, Step{Op: "migrate"})
	}
	return sc
}

// sweep makes variants of a scenario in which one call of its last command
// fails; a recovery run and a listing follow.
func sweep(r *rand.Rand, sc *Scenario, tr obj, profile string) []*Scenario {
	var modes []string
	limit := 0
	switch profile {
	case "C02":
		modes, limit = []string{"crash", "crashafter", "err", "errafter", "lock"}, 12
	case "C01", "C03", "C04", "C06":
		modes, limit = []string{"err", "crash"}, 1
	case "C05":
		modes, limit = []string{"lock"}, 3
	case "C07":
		modes, limit = []string{"err", "crash", "crashafter", "errafter"}, 4
	}
	if limit == 0 {
		return nil
	}
	// Which command: for C07 one by hand, otherwise the last migrate.
	at := -1
	for i, st := range sc.Steps {
		switch {
		case profile == "C07" && (st.Op == "touch" || st.Op == "rm" || st.Op == "mv"):
			if at < 0 || r.Intn(2) == 0 {
				at = i
			}
		case profile == "C06" && st.Op == "ls":
			at = i
		case profile != "C07" && profile != "C06" && st.Op == "migrate":
			if at < 0 || r.Intn(3) > 0 {
				at = i
			}
		}
	}
	if at < 0 {
		return nil
	}
	// The calls that command made.
	cmdNo, n := 0, 0
	for i := 0; i <= at; i++ {
		if sc.Steps[i].Op != "put" && sc.Steps[i].Op != "del" {
			cmdNo++
		}
	}
	var kinds []string
	for _, e := range tr["events"].([]obj) {
		if e["e"] == "end" {
			n++
			if n == cmdNo {
				kinds = e["kinds"].([]string)
			}
		}
	}
	type point struct {
		at   int
		mode string
	}
	var pts []point
	for i, k := range kinds {
		for _, m := range modes {
			intx := strings.HasSuffix(k, "+tx")
			kk := strings.TrimSuffix(k, "+tx")
			switch m {
			case "lock":
				// Lock timeouts come from statements inside transactions.
				if !(kk == "exec" && intx) {
					continue
				}
			case "errafter":
				// A commit whose outcome is unknown to a client that lives on
				// cannot be told apart from a failed one.
				if kk == "commit" || kk == "rollback" || kk == "begin" || kk == "next" {
					continue
				}
			case "crashafter":
				if kk == "next" || kk == "query" || kk == "rollback" {
					continue
				}
			case "err":
				if kk == "rollback" {
					continue
				}
			}
			pts = append(pts, point{i, m})
		}
	}
	r.Shuffle(len(pts), func(i, j int) { pts[i], pts[j] = pts[j], pts[i] })
	if len(pts) > limit {
		pts = pts[:limit]
	}
	var out []*Scenario
	for _, p := range pts {
		v := *sc
		v.ID = fmt.Sprintf("%s/%s@%d", sc.ID, p.mode, p.at)
		v.Steps = append([]Step(nil), sc.Steps[:at+1]...)
		st := v.Steps[at]
		st.Faults = append(append([]Fault(nil), st.Faults...), Fault{Mode: p.mode, At: p.at})
		if p.mode == "lock" && st.Max == 0 {
			st.Max = 1 + r.Intn(3)
		}
		v.Steps[at] = st
		v.Steps = append(v.Steps, Step{Op: "ls", Flags: []string{"all"}}, Step{Op: "migrate"}, Step{Op: "ls", Flags: []string{"all"}})
		out = append(out, &v)
	}
	return out
}
