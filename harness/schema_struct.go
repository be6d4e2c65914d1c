package main

import (
	"encoding/json"
	"io"
	"strings"

	"github.com/bokwoon95/sqddl/ddl"
)

func encodeJSON(w io.Writer, v any) error {
	e := json.NewEncoder(w)
	e.SetIndent("", "  ")
	e.SetEscapeHTML(false)
	return e.Encode(v)
}

func plainName(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= 'a' && c <= 'z' || c >= '0' && c <= '9' || c == '_') {
			return false
		}
	}
	return s != ""
}

// structable tells whether structs can declare the SQLite catalog.
func structable(c ACat) bool {
	for key, t := range c.T {
		_, name := splitKey(key)
		if !plainName(name) {
			return false
		}
		for n, col := range t.C {
			if !plainName(n) || col.Gen != "" || col.Coll != "" {
				return false
			}
			if col.B == "INT" && col.NN {
				for _, k := range t.K {
					if k.K == "PK" && len(k.Cols) == 1 && k.Cols[0] == n {
						return false
					}
				}
			}
		}
		byCols := map[string]bool{}
		for n, k := range t.K {
			if contains(t.IG, n) || k.K == "CK" {
				return false
			}
			if k.K == "PK" {
				for _, n := range k.Cols {
					if !t.C[n].NN && !(len(k.Cols) == 1 && t.C[n].B == "INTEGER") {
						return false
					}
					if t.C[n].NN && len(k.Cols) == 1 && t.C[n].B == "INTEGER" {
						return false
					}
				}
			}
			sig := k.K + strings.Join(k.Cols, ",")
			if byCols[sig] {
				return false
			}
			byCols[sig] = true
		}
		for n, x := range t.I {
			if x.Pred != "" || len(x.Inc) > 0 || x.Kind != "" || contains(t.IG, n) {
				return false
			}
			for _, d := range x.Desc {
				if d {
					return false
				}
			}
			if n != ddl.GenerateName(ddl.INDEX, name, x.Cols) {
				return false
			}
		}
	}
	return true
}

func brace(s string) string {
	if strings.ContainsAny(s, " {}") {
		return "{" + s + "}"
	}
	return s
}

func structSource(c ACat) string {
	var b strings.Builder
	b.WriteString("package tables\n\nimport \"github.com/bokwoon95/sq\"\n")
	ref := func(k ACon) string {
		_, rt := splitKey(k.RT)
		return rt + "." + strings.Join(k.RC, ",")
	}
	opts := func(k ACon) string {
		s := ""
		if k.Upd != "" {
			s += " onupdate=" + strings.ToLower(strings.ReplaceAll(k.Upd, " ", ""))
		}
		if k.Del != "" {
			s += " ondelete=" + strings.ToLower(strings.ReplaceAll(k.Del, " ", ""))
		}
		if k.Idf {
			s += " deferred"
		} else if k.Dfr {
			s += " deferrable"
		}
		return s
	}
	for _, key := range c.keys() {
		_, name := splitKey(key)
		t := c.T[key]
		b.WriteString("\ntype " + strings.ToUpper(name) + " struct {\n\tsq.TableStruct")
		var mods []string
		for _, n := range sortedKeys(t.K) {
			k := t.K[n]
			if len(k.Cols) == 1 {
				continue
			}
			cols := strings.Join(k.Cols, ",")
			switch k.K {
			case "PK":
				mods = append(mods, "primarykey="+cols)
			case "UQ":
				mods = append(mods, "unique="+cols)
			case "FK":
				mods = append(mods, "foreignkey={"+cols+" references="+ref(k)+opts(k)+"}")
			}
		}
		for _, n := range sortedKeys(t.I) {
			x := t.I[n]
			m := strings.Join(x.Cols, ",")
			if x.U {
				m = "{" + m + " unique}"
			}
			mods = append(mods, "index="+m)
		}
		if len(mods) > 0 {
			b.WriteString(" `ddl:\"" + strings.Join(mods, " ") + "\"`")
		}
		b.WriteString("\n")
		for _, n := range t.O {
			col := t.C[n]
			field := map[string]string{"num": "sq.NumberField", "text": "sq.StringField", "time": "sq.TimeField", "bin": "sq.BinaryField"}[classOf("sqlite", col.B)]
			mods := []string{"type=" + brace(typeText(col))}
			if col.NN {
				mods = append(mods, "notnull")
			}
			if col.Def != "" {
				mods = append(mods, "default="+brace(col.Def))
			}
			for _, kn := range sortedKeys(t.K) {
				k := t.K[kn]
				if len(k.Cols) != 1 || k.Cols[0] != n {
					continue
				}
				switch k.K {
				case "PK":
					mods = append(mods, "primarykey")
				case "UQ":
					mods = append(mods, "unique")
				case "FK":
					mods = append(mods, "references="+brace(ref(k)+opts(k)))
				}
			}
			b.WriteString("\t" + strings.ToUpper(n) + " " + field + " `ddl:\"" + strings.Join(mods, " ") + "\"`\n")
		}
		b.WriteString("}\n")
	}
	return b.String()
}
