package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
	"time"

	"github.com/bokwoon95/sqddl/ddl"
)

// ModScen is a list of tags that are parsed (see spec/Modifier.tla).
type ModScen struct {
	ID   string   `json:"id"`
	Tags []string `json:"tags"`
}

func modObjs(ms []ddl.Modifier) []obj {
	out := []obj{}
	for _, m := range ms {
		out = append(out, obj{"name": m.Name, "dialects": strs(m.Dialects), "raw": m.RawValue})
	}
	return out
}

var modDialects = []string{"sqlite", "postgres", "mysql", "a", "b", "x", "y", ""}

// modUsed lists the dialects each modifier applies to.
func modUsed(ms []ddl.Modifier) [][]bool {
	out := [][]bool{}
	for _, m := range ms {
		used := []bool{}
		for _, dialect := range modDialects {
			used = append(used, !m.ExcludesDialect(dialect))
		}
		out = append(out, used)
	}
	return out
}

// modDeep parses the values of modifiers, too.
func modDeep(ms []ddl.Modifier, depth int) ([]obj, []ddl.Modifier, error) {
	out := []obj{}
	var plain []ddl.Modifier
	for _, m := range ms {
		if depth > 12 {
			return nil, nil, fmt.Errorf("too deep")
		}
		if err := m.ParseRawValue(); err != nil {
			return nil, nil, err
		}
		subs, subsPlain, err := modDeep(m.Submodifiers, depth+1)
		if err != nil {
			return nil, nil, err
		}
		out = append(out, obj{"name": m.Name, "dialects": strs(m.Dialects), "value": m.Value, "subs": subs})
		plain = append(plain, ddl.Modifier{Name: m.Name, Dialects: m.Dialects, Value: m.Value, Submodifiers: subsPlain})
	}
	return out, plain, nil
}

func (sc *ModScen) run() obj {
	events := []obj{}
	for _, s := range sc.Tags {
		ev := obj{"e": "parse", "s": s, "err": "", "crashed": false, "loops": false, "ms": []obj{}, "again": []obj{}, "text": "", "text2": "", "deeperr": "", "deep": []obj{}, "deep2": []obj{}, "rawerr": "", "rawvalue": "", "rawsubs": []obj{}, "dialects": modDialects, "used": [][]bool{}}
		done := make(chan struct{})
		res := obj{}
		go func() {
			defer close(done)
			msg, crashed := guard(func() error {
				// As the value of a modifier.
				m := ddl.Modifier{Name: "a", RawValue: s}
				if err := m.ParseRawValue(); err != nil {
					res["rawerr"] = trunc(err.Error(), 100)
				} else {
					res["rawvalue"], res["rawsubs"] = m.Value, modObjs(m.Submodifiers)
				}
				ms, err := ddl.NewModifiers(s)
				if err != nil {
					return err
				}
				res["ms"] = modObjs(ms)
				res["used"] = modUsed(ms)
				text := ddl.Modifiers(ms).String()
				res["text"] = text
				again, err := ddl.NewModifiers(text)
				if err != nil {
					res["again"] = []obj{{"name": "error: " + err.Error(), "dialects": []string{}, "raw": ""}}
				} else {
					res["again"] = modObjs(again)
				}
				deep, plain, err := modDeep(ms, 0)
				if err != nil {
					res["deeperr"] = err.Error()
					return nil
				}
				res["deep"] = deep
				text = ddl.Modifiers(plain).String()
				res["text2"] = text
				res["deep2"] = []obj{}
				if ms, err := ddl.NewModifiers(text); err == nil {
					if deep, _, err := modDeep(ms, 0); err == nil {
						res["deep2"] = deep
					}
				}
				return nil
			})
			res["err"], res["crashed"] = trunc(msg, 100), crashed
		}()
		select {
		case <-done:
			for k, v := range res {
				ev[k] = v
			}
		case <-time.After(20 * time.Second):
			ev["loops"] = true
		}
		events = append(events, ev)
	}
	return obj{"id": sc.ID, "scenario": sc, "events": events}
}

const modChars = "a ={}:,"

// modString is the n-th string over the significant characters.
func modString(n int) string {
	var b []byte
	for n > 0 {
		n--
		b = append(b, modChars[n%len(modChars)])
		n /= len(modChars)
	}
	return string(b)
}

func genTag(r *rand.Rand, depth int) string {
	var parts []string
	for k := r.Intn(4); k >= 0; k-- {
		name := pick(r, []string{"a", "index", "primarykey", "references", "b2", "on_update", "é"})
		if r.Intn(5) == 0 {
			name = pick(r, []string{"sqlite:", "postgres,mysql:", "a,b,c:"}) + name
		}
		switch r.Intn(5) {
		case 0:
			name += "=" + pick(r, []string{"x", "1", "a.b", "NUMERIC(10,2)", "a=b", "x:y", "b{", "{}", "''", "a,b", "{.}", "日本"})
		case 1:
			name += "={" + pad(r) + pick(r, []string{"x", "a b", "1 + (2)", "{a b}", "{a {b} c}", "", "{a}", "'it''s'"}) + pad(r) + "}"
		case 2:
			if depth > 0 {
				name += "={" + pad(r) + pick(r, []string{"x", ".", "{a b}", "c,d"}) + " " + genTag(r, depth-1) + pad(r) + "}"
			}
		}
		parts = append(parts, name)
	}
	out := pad(r)
	for i, p := range parts {
		if i > 0 {
			out += " " + pad(r)
		}
		out += p
	}
	return out + pad(r)
}

func pad(r *rand.Rand) string {
	if r.Intn(4) > 0 {
		return ""
	}
	return strings.Repeat(" ", 1+r.Intn(2))
}

func runModifier(j *job) {
	if j.in != "" {
		i := 0
		readLines(j.in, func(line []byte) {
			i++
			if i%shards != shard {
				return
			}
			var sc ModScen
			must(json.Unmarshal(line, &sc))
			enter(sc.ID)
			j.w.write(sc.run())
		})
	}
	each(j.n, func(i int) {
		r := rand.New(rand.NewSource(j.seed*1000003 + int64(i)))
		sc := &ModScen{ID: fmt.Sprintf("modifier-%d-%d", j.seed, i)}
		// Every string up to some length, and as many random ones.
		for k := 0; k < 40; k++ {
			sc.Tags = append(sc.Tags, modString(i*40+k))
		}
		for k := 0; k < 15; k++ {
			tag := genTag(r, 3)
			sc.Tags = append(sc.Tags, tag)
			if len(tag) > 1 {
				// Some character lost, repeated or replaced.
				p := r.Intn(len(tag))
				sc.Tags = append(sc.Tags, strings.ToValidUTF8(tag[:p]+pick(r, []string{"", "", "{", "}", " ", "=", ":"})+tag[p+1:], "?"))
			}
		}
		enter(sc.ID)
		j.w.write(sc.run())
	})
}
