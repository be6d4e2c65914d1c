package main

import (
	"fmt"
	"math/rand"
	"os"
	"strings"
)

var genVersions = map[string][]string{"postgres": {"14.2", "12.1", "11.5", "10.3"}, "mysql": {"8.0.31"}, "sqlserver": {"15.0.2000"}}

func genGenerate(r *rand.Rand, d string) *GenScen {
	g := &sgen{r: r, d: d}
	sc := &GenScen{D: d, Ver: pick(r, genVersions[d]), Implicit: g.one(3), Drop: g.one(2), Via: pick(r, []string{"catalog", "cli"}), Spell: g.one(2), Prefix: pick(r, []string{"m", "2020", "a_b", ""})}
	sc.Src = ACat{S: []string{curSchema(d)}}.norm()
	if !g.one(8) {
		sc.Src = g.catalog()
	}
	sc.Dest = sc.Src.clone()
	if g.one(8) {
		sc.Dest = g.catalog()
	} else {
		for j := 1 + r.Intn(5); j > 0; j-- {
			g.mutate(&sc.Dest)
		}
	}
	if g.one(6) {
		g.ignoreSome(&sc.Dest)
	}
	sc.Others = g.one(8)
	for _, t := range sc.Dest.T {
		for n, c := range t.C {
			key := false
			for name, k := range t.K {
				key = key || (k.K == "PK" || k.K == "UQ") && k.Cols[0] == n && !contains(t.IG, name)
			}
			if c.AI && !key {
				c.AI = false
				t.C[n] = c
			}
		}
	}
	// The database does not need the columns of a primary key declared so.
	if g.one(2) {
		for key, t := range sc.Dest.T {
			for n, c := range t.C {
				if g.usedIn(t, n, "PK") && c.ID == "" {
					c.NN = true
					t.C[n] = c
				}
			}
			sc.Dest.T[key] = t
		}
	}
	return sc
}

func runGenerate(j *job) {
	dir := fmt.Sprintf("%s/gen%d", scratch(), shard)
	must(os.MkdirAll(dir, 0o755))
	if j.in != "" {
		i := 0
		readLines(j.in, func(line []byte) {
			i++
			if i%shards != shard {
				return
			}
			var sc GenScen
			lenient(line, &sc)
			sc.Src, sc.Dest = sc.Src.norm(), sc.Dest.norm()
			j.w.write(sc.run(dir))
		})
	}
	ds := []string{"postgres", "mysql", "sqlserver"}
	if j.n > 0 {
		for i, d := range ds {
			if i%shards == shard {
				j.w.write(manyFiles(d).run(dir))
			}
		}
	}
	if _, only, ok := strings.Cut(j.profile, ":"); ok {
		ds = []string{only}
	}
	each(j.n, func(i int) {
		r := rand.New(rand.NewSource(j.seed*1000003 + int64(i)))
		sc := genGenerate(r, ds[i%len(ds)])
		if k := i / len(ds); k%4 == 3 {
			sc = typeChange(r, ds[i%len(ds)], k/4)
		}
		sc.ID = fmt.Sprintf("gen-%s-%d-%d", j.profile, j.seed, i)
		j.w.write(sc.run(dir))
	})
}

// typeChange is a migration of nothing but the type of a column.
func typeChange(r *rand.Rand, d string, i int) *GenScen {
	g := &sgen{r: r, d: d}
	types := schemaTypes[d]
	i = int(r.Int31()) + i
	x, y := types[i%len(types)], types[i/len(types)%len(types)]
	sc := &GenScen{D: d, Ver: pick(r, genVersions[d]), Via: "catalog", Prefix: "m", Spell: g.one(2), Drop: g.one(2)}
	key := curSchema(d) + ".t"
	nn := g.one(2)
	tab := func(t atype) ACat {
		return ACat{S: []string{curSchema(d)}, T: map[string]ATab{key: {O: []string{"a", "b"}, C: map[string]ACol{"a": {B: "INT"}, "b": {B: t.b, A: t.a, NN: nn}}}}}.norm()
	}
	sc.Src, sc.Dest = tab(x), tab(y)
	return sc
}

// manyFiles is a migration that needs more than a hundred files.
func manyFiles(d string) *GenScen {
	sc := &GenScen{ID: "many-" + d, D: d, Ver: genVersions[d][0], Via: "catalog", Prefix: "m"}
	key := curSchema(d) + ".t"
	t := ATab{O: []string{"a", "b"}, C: map[string]ACol{"a": {B: "INT"}, "b": {B: "INT"}}}
	sc.Src = ACat{S: []string{curSchema(d)}, T: map[string]ATab{key: t}}.norm()
	sc.Dest = sc.Src.clone()
	for i := 0; i < 104; i++ {
		if d == "postgres" {
			sc.Dest.T[key].I[fmt.Sprintf("t_i%d", i)] = AIdx{Cols: []string{"a"}}
		} else {
			sc.Dest.T[fmt.Sprintf("%s%d", key, i)] = ATab{O: []string{"a"}, C: map[string]ACol{"a": {B: "INT"}}}
		}
	}
	sc.Dest = sc.Dest.norm()
	return sc
}
