package vdb

import (
	"database/sql/driver"
	"errors"
	"fmt"
	"regexp"
	"strings"
)

var (
	reExists    = regexp.MustCompile(`(?is)\b(pg_class|information_schema\.tables|sys\.tables)\b`)
	reShow      = regexp.MustCompile(`(?is)^\s*(?:SHOW\s+(\w+)|SELECT\s+@@(\w+))\s*;?\s*$`)
	reSet       = regexp.MustCompile(`(?is)^\s*SET\s+(?:SESSION\s+)?(\w+)(?:\s*=\s*|\s+TO\s+|\s+)(.*?)\s*;?\s*$`)
	reOnDup     = regexp.MustCompile(`(?is)\bON\s+DUPLICATE\s+KEY\s+UPDATE\s+(.*)$`)
	reValuesFn  = regexp.MustCompile("(?is)\\bVALUES\\s*\\(\\s*([a-z_0-9]+|`(?:[^`]|``)+`)\\s*\\)")
	reLockHint  = regexp.MustCompile(`(?is)\s+WITH\s*\(\s*UPDLOCK\s*,\s*(?:SERIALIZABLE|HOLDLOCK)\s*\)`)
	reAsTmp     = regexp.MustCompile(`(?is)\)\s*AS\s+(\w+)\s*\(([^()]*)\)`)
	reFromJoin  = regexp.MustCompile(`(?is)\bFROM\s+(\[[^\]]*\]|"[^"]*"|\S+)\s+JOIN\s+\(`)
	reIdentity  = regexp.MustCompile(`(?is)^\s*SET\s+IDENTITY_INSERT\s+(\[[^\]]*\]|"[^"]*"|\S+)\s+(ON|OFF)\s*;?\s*$`)
	reOverride  = regexp.MustCompile(`(?is)\s+OVERRIDING\s+SYSTEM\s+VALUE`)
	reSetval    = regexp.MustCompile(`(?is)^\s*SELECT\s+setval\s*\(`)
	reTypes     = regexp.MustCompile(`(?is)\b(TIMESTAMPTZ|DATETIMEOFFSET)\b`)
	reEmptyIn   = regexp.MustCompile(`(?is)\bIN\s*\(\s*\)`)
	reGUCValue  = regexp.MustCompile(`(?is)^(?:'(?:[^']|'')*'|-?[0-9]+(?:\.[0-9]+)?|[a-z_][a-z0-9_]*)$`)
	reIntValue  = regexp.MustCompile(`^-?[0-9]+$`)
	reTSQLQuery = regexp.MustCompile(`(?is)^\s*IF\s+EXISTS`)
)

// ErrSyntax is reported for statements the stood-in dialect would reject.
var ErrSyntax = errors.New("syntax error")

// IsScript reports whether a statement is the body of a scenario script, which
// is passed to SQLite as it is.
func IsScript(query string) bool { return strings.Contains(query, "/*vs:") }

// DialectRewrite lets SQLite stand in for another dialect.
func DialectRewrite(c *conn, query string, args []driver.NamedValue) (string, []driver.NamedValue, *FakeRows, error) {
	w := c.w
	if w.Dialect == "sqlite" || IsScript(query) {
		return query, args, nil, nil
	}
	if reEmptyIn.MatchString(query) {
		return "", nil, nil, fmt.Errorf("%w at or near \")\"", ErrSyntax)
	}
	if m := reIdentity.FindStringSubmatch(query); m != nil {
		if w.SessionSet != nil {
			w.SessionSet("identity_insert", m[1]+" "+strings.ToUpper(m[2]))
		}
		if strings.EqualFold(m[2], "ON") {
			if c.Ident != "" && c.Ident != m[1] {
				return "", nil, nil, fmt.Errorf("IDENTITY_INSERT is already ON for table %s", c.Ident)
			}
			c.Ident = m[1]
		} else {
			c.Ident = ""
		}
		return "", nil, nil, nil
	}
	if reSetval.MatchString(query) {
		if w.SessionSet != nil {
			var b strings.Builder
			b.WriteString(query)
			for _, a := range args {
				fmt.Fprintf(&b, "|%v", a.Value)
			}
			w.SessionSet("setval", b.String())
		}
		return "", nil, &FakeRows{Cols: []string{"setval"}, Rows: [][]driver.Value{{int64(1)}}}, nil
	}
	if m := reShow.FindStringSubmatch(query); m != nil {
		name := strings.ToLower(m[1] + m[2])
		return "", nil, &FakeRows{Cols: []string{name}, Rows: [][]driver.Value{{c.Session[name]}}}, nil
	}
	if m := reSet.FindStringSubmatch(query); m != nil {
		name, value := strings.ToLower(m[1]), strings.TrimSpace(m[2])
		switch w.Dialect {
		case "postgres":
			if !reGUCValue.MatchString(value) {
				return "", nil, nil, fmt.Errorf("%w: trailing junk after numeric literal at or near %q", ErrSyntax, value)
			}
		case "sqlserver":
			if !reIntValue.MatchString(value) {
				return "", nil, nil, fmt.Errorf("%w: incorrect syntax near %q", ErrSyntax, value)
			}
		default:
			if !reIntValue.MatchString(value) && !reGUCValue.MatchString(value) {
				return "", nil, nil, fmt.Errorf("%w near %q", ErrSyntax, value)
			}
		}
		if strings.HasPrefix(value, "'") {
			value = strings.ReplaceAll(value[1:len(value)-1], "''", "'")
		}
		if w.Dialect == "postgres" && name == "lock_timeout" {
			value = pgDuration(value)
		}
		c.Session[name] = value
		if w.SessionSet != nil {
			w.SessionSet(name, value)
		}
		return "", nil, nil, nil
	}
	if reExists.MatchString(query) && len(args) == 1 {
		return "SELECT EXISTS (SELECT 1 FROM sqlite_schema WHERE type = 'table' AND tbl_name = ?1)", args, nil, nil
	}
	if reTSQLQuery.MatchString(query) {
		w.Unsupported = query
		return "", nil, nil, fmt.Errorf("vdb: cannot stand in for %q", query)
	}
	query = reTypes.ReplaceAllString(query, "TIMESTAMP")
	query = reOverride.ReplaceAllString(query, "")
	if w.Dialect == "mysql" {
		if m := reOnDup.FindStringSubmatchIndex(query); m != nil {
			set := query[m[2]:m[3]]
			set = reValuesFn.ReplaceAllString(set, "EXCLUDED.$1")
			query = query[:m[0]] + "ON CONFLICT DO UPDATE SET " + set
		}
	}
	if w.Dialect == "sqlserver" {
		query = reLockHint.ReplaceAllString(query, "")
		if m := reAsTmp.FindStringSubmatchIndex(query); m != nil {
			alias, cols := query[m[2]:m[3]], splitCols(query[m[4]:m[5]])
			j := strings.LastIndex(strings.ToUpper(query[:m[0]]), "(VALUES")
			if j >= 0 {
				var b strings.Builder
				b.WriteString("(SELECT ")
				for i, col := range cols {
					if i > 0 {
						b.WriteString(", ")
					}
					fmt.Fprintf(&b, "column%d AS %s", i+1, col)
				}
				b.WriteString(" FROM (" + query[j+1:m[0]] + ")) AS " + alias)
				rest := query[m[1]:]
				head := query[:j]
				if fj := reFromJoin.FindStringIndex(head + "("); fj != nil {
					head = head[:fj[0]] + "FROM "
					rest = regexp.MustCompile(`(?is)^\s*ON\b`).ReplaceAllString(rest, " WHERE")
				}
				query = head + b.String() + rest
			}
		}
	}
	return query, args, nil, nil
}

func splitCols(s string) []string {
	var out []string
	for _, p := range strings.Split(s, ",") {
		out = append(out, strings.TrimSpace(p))
	}
	return out
}

// pgDuration formats a lock_timeout the way Postgres shows it.
func pgDuration(v string) string {
	var ms int64
	if _, err := fmt.Sscanf(v, "%d", &ms); err != nil || !reIntValue.MatchString(v) {
		return v
	}
	switch {
	case ms == 0:
		return "0"
	case ms%3600000 == 0:
		return fmt.Sprintf("%dh", ms/3600000)
	case ms%60000 == 0:
		return fmt.Sprintf("%dmin", ms/60000)
	case ms%1000 == 0:
		return fmt.Sprintf("%ds", ms/1000)
	}
	return fmt.Sprintf("%dms", ms)
}
