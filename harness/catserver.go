package main

import (
	"database/sql/driver"
	"encoding/json"
	"fmt"
	"regexp"
	"strings"

	"github.com/bokwoon95/sqddl/ddl"

	"verifharness/vdb"
)

// catServer answers the catalog queries of a Postgres, MySQL or SQL Server
// database. What a query asks for is recognised by the columns it selects; the
// order of the columns does not matter.
type catServer struct {
	d       string
	version string
	cat     *ddl.Catalog
}

type row = map[string]any

var (
	reScalar   = regexp.MustCompile(`(?is)^\s*(?:SELECT|SHOW)\s+(.*?)\s*;?\s*$`)
	reNameList = regexp.MustCompile(`(?is)([a-z_."\[\]]+)\s+(NOT\s+)?IN\s*\(\s*((?:N?'(?:[^']|'')*'\s*,?\s*)+)\)`)
	reComments = regexp.MustCompile(`(?s)--[^\n]*|/\*.*?\*/`)
)

// selected is the names of the columns of the first SELECT of a query.
func selected(query string) []string {
	query = reComments.ReplaceAllString(query, " ")
	toks := tokenize("mysql", strings.ReplaceAll(query, "[", " ["))
	var cols []string
	depth, last, began := 0, "", false
	flush := func() {
		cols = append(cols, strings.ToLower(last))
	}
	for _, t := range toks {
		up := strings.ToUpper(t.v)
		if t.k == 'p' {
			switch t.v {
			case "(":
				depth++
			case ")":
				depth--
			case ",":
				if depth == 0 && began {
					flush()
				}
			}
			continue
		}
		if depth > 0 {
			continue
		}
		if !began {
			began = t.k == 'w' && up == "SELECT"
			continue
		}
		if t.k == 'w' && (up == "FROM" || up == "WHERE" || up == "UNION") {
			break
		}
		if t.k == 'w' || t.k == 'q' {
			last = t.v
		}
	}
	flush()
	return cols
}

func (s *catServer) scalar(e string) (driver.Value, bool) {
	e = strings.ToLower(strings.Join(strings.Fields(e), ""))
	switch {
	case e == "current_setting('server_version')" || e == "server_version" || e == "version()" || e == "@@version" || strings.HasPrefix(e, "serverproperty('productversion')"):
		return s.version, true
	case e == "current_database()" || e == "db_name()" || e == "database()" && s.d == "mysql":
		return map[string]string{"mysql": "db"}[s.d] + map[string]string{"postgres": "app", "sqlserver": "app"}[s.d], true
	case e == "current_schema()" || e == "current_schema" || e == "schema_name()" || e == "schema()":
		return curSchema(s.d), true
	case e == "lock_timeout" || e == "@@lock_timeout" || e == "@@lock_wait_timeout":
		return map[string]string{"postgres": "0", "mysql": "31536000", "sqlserver": "-1"}[s.d], true
	case e == "@@collation_database" || strings.HasPrefix(e, "serverproperty('collation')") || strings.Contains(e, "datcollate") || strings.Contains(e, "databasepropertyex"):
		return defColl(s.d), true
	}
	return nil, false
}

func jsonText(v any) string {
	b, err := json.Marshal(v)
	must(err)
	return string(b)
}

func bits(bs []bool, n int) string {
	out := make([]string, n)
	for i := range out {
		out[i] = "0"
		if i < len(bs) && bs[i] {
			out[i] = "1"
		}
	}
	return strings.Join(out, ",")
}

// list is how a list of names is reported.
func (s *catServer) list(names []string) any {
	if s.d == "postgres" {
		return jsonText(strs(names))
	}
	return strings.Join(names, ",")
}

func (s *catServer) columns() (out []row) {
	for _, sch := range s.cat.Schemas {
		for _, t := range sch.Tables {
			for _, c := range t.Columns {
				r := row{"table_schema": sch.SchemaName, "table_name": t.TableName, "column_name": c.ColumnName, "column_type": c.ColumnType, "is_enum": c.IsEnum, "domain_name": c.DomainName,
					"character_length": "", "numeric_precision": "", "numeric_scale": "", "column_identity": c.ColumnIdentity, "is_autoincrement": c.IsAutoincrement, "is_notnull": c.IsNotNull,
					"on_update_current_timestamp": c.OnUpdateCurrentTimestamp, "generated_expr": c.GeneratedExpr, "generated_expr_stored": c.GeneratedExprStored,
					"collation_name": c.CollationName, "column_default": c.ColumnDefault, "comment": c.Comment, "column_comment": c.Comment}
				base, args := splitType(c.ColumnType)
				switch s.d {
				case "postgres":
					if strings.EqualFold(base, "NUMERIC") {
						r["numeric_precision"], r["numeric_scale"] = "0", "0"
						if len(args) > 0 {
							r["numeric_precision"] = args[0]
						}
						if len(args) > 1 {
							r["numeric_scale"] = args[1]
						}
					}
				case "mysql":
					r["column_type"] = strings.ToLower(c.ColumnType)
					if len(args) > 0 && strings.Contains(strings.ToUpper(base), "CHAR") {
						r["character_length"] = args[0]
					}
					if def := c.ColumnDefault; strings.HasPrefix(def, "'") {
						r["column_default"] = strings.ReplaceAll(strings.Trim(def, "'"), "''", "'")
					}
				case "sqlserver":
					if strings.EqualFold(base, "DEC") {
						base = "decimal"
					}
					r["column_type"] = strings.ToLower(base)
					if u := strings.ToUpper(base); strings.Contains(u, "CHAR") || strings.Contains(u, "BINARY") {
						n := "1"
						if len(args) > 0 {
							n = args[0]
						}
						if strings.EqualFold(n, "MAX") {
							n = "-1"
						}
						r["character_length"] = n
					} else if strings.EqualFold(base, "NUMERIC") || strings.EqualFold(base, "DECIMAL") {
						r["numeric_precision"], r["numeric_scale"] = "18", "0"
						if len(args) > 0 {
							r["numeric_precision"] = args[0]
						}
						if len(args) > 1 {
							r["numeric_scale"] = args[1]
						}
					}
					if c.GeneratedExpr != "" {
						r["generated_expr"] = "(" + c.GeneratedExpr + ")"
						if base == "" {
							r["column_type"] = "int"
						}
					}
					if def := c.ColumnDefault; def != "" {
						if def[0] >= '0' && def[0] <= '9' {
							def = "(" + def + ")"
						}
						r["column_default"] = "(" + def + ")"
					}
				}
				out = append(out, r)
			}
		}
	}
	return out
}

func (s *catServer) constraints(query string) (out []row) {
	for _, sch := range s.cat.Schemas {
		for _, t := range sch.Tables {
			for _, c := range t.Constraints {
				if !strings.Contains(query, "'"+c.ConstraintType+"'") {
					continue
				}
				upd, del := c.UpdateRule, c.DeleteRule
				if c.ConstraintType == ddl.FOREIGN_KEY {
					if upd == "" {
						upd = "NO ACTION"
					}
					if del == "" {
						del = "NO ACTION"
					}
				}
				expr := c.CheckExpr
				if expr != "" {
					expr = "(" + expr + ")"
				}
				if s.d == "postgres" && expr != "" {
					expr = "CHECK " + expr
					if c.IsNotValid {
						expr += " NOT VALID"
					}
				}
				if s.d == "sqlserver" {
					upd, del = strings.ReplaceAll(upd, " ", "_"), strings.ReplaceAll(del, " ", "_")
				}
				out = append(out, row{"table_schema": sch.SchemaName, "table_name": t.TableName, "constraint_name": c.ConstraintName, "constraint_type": c.ConstraintType,
					"columns": s.list(c.Columns), "references_schema": c.ReferencesSchema, "references_table": c.ReferencesTable, "references_columns": s.list(c.ReferencesColumns),
					"update_rule": upd, "delete_rule": del, "match_option": c.MatchOption, "check_expr": expr, "operators": jsonText(strs(c.ExclusionOperators)), "index_type": c.ExclusionIndexType, "predicate": c.ExclusionPredicate,
					"is_deferrable": c.IsDeferrable, "is_initially_deferred": c.IsInitiallyDeferred, "is_not_valid": c.IsNotValid, "is_clustered": c.IsClustered})
			}
		}
	}
	return out
}

var rePlainName = regexp.MustCompile(`^[a-z_][a-z0-9_]*$`)

// pgName is a name as Postgres writes it: quoted where it has to be.
func pgName(s string) string {
	if rePlainName.MatchString(s) && !sqlReserved[s] || strings.HasPrefix(s, "(") {
		return s
	}
	return `"` + strings.ReplaceAll(s, `"`, `""`) + `"`
}

// pgIndexDef is the definition of an index as Postgres reports it.
func pgIndexDef(schema, table, typ string, x ddl.Index) string {
	var b strings.Builder
	b.WriteString("CREATE ")
	if x.IsUnique {
		b.WriteString("UNIQUE ")
	}
	b.WriteString("INDEX " + pgName(x.IndexName) + " ON ")
	if schema != curSchema("postgres") {
		b.WriteString(pgName(schema) + ".")
	}
	b.WriteString(pgName(table) + " USING " + strings.ToLower(typ) + " (")
	for i, c := range x.Columns {
		if i > 0 {
			b.WriteString(", ")
		}
		b.WriteString(pgName(c))
		if i < len(x.Descending) && x.Descending[i] {
			b.WriteString(" DESC")
		}
	}
	b.WriteString(")")
	if len(x.IncludeColumns) > 0 {
		var names []string
		for _, c := range x.IncludeColumns {
			names = append(names, pgName(c))
		}
		b.WriteString(" INCLUDE (" + strings.Join(names, ", ") + ")")
	}
	if x.Predicate != "" {
		b.WriteString(" WHERE " + x.Predicate)
	}
	return b.String() + ";"
}

func (s *catServer) indexes() (out []row) {
	for _, sch := range s.cat.Schemas {
		for _, t := range sch.Tables {
			for _, x := range t.Indexes {
				typ := x.IndexType
				if typ == "" {
					typ = "BTREE"
				}
				r := row{"table_schema": sch.SchemaName, "table_name": t.TableName, "index_name": x.IndexName, "index_type": typ, "is_view_index": false, "is_unique": x.IsUnique,
					"num_key_columns": int64(len(x.Columns)), "predicate": x.Predicate, "sql": "CREATE INDEX " + x.IndexName + ";", "descending": bits(x.Descending, len(x.Columns))}
				switch s.d {
				case "postgres":
					all := append(append([]string{}, x.Columns...), x.IncludeColumns...)
					r["columns"], r["opclasses"] = jsonText(all), jsonText(make([]string, len(all)))
					r["sql"] = pgIndexDef(sch.SchemaName, t.TableName, typ, x)
				case "mysql":
					r["columns"] = strings.Join(x.Columns, ",")
				case "sqlserver":
					// Included columns have no place in the key and come first.
					inc := make([]bool, len(x.IncludeColumns))
					for i := range inc {
						inc[i] = true
					}
					all := append(append([]string{}, x.IncludeColumns...), x.Columns...)
					r["columns"], r["included"] = strings.Join(all, ","), bits(inc, len(all))
					r["descending"] = bits(append(make([]bool, len(inc)), x.Descending...), len(all))
					if typ == "BTREE" {
						r["index_type"] = "NONCLUSTERED"
					}
				}
				out = append(out, r)
			}
		}
	}
	return out
}

func (s *catServer) others(kind string) (out []row) {
	if kind == "extensions" {
		for _, e := range s.cat.Extensions {
			out = append(out, row{"extension_name": e, "extension_version": "1.0"})
		}
		return out
	}
	for _, sch := range s.cat.Schemas {
		switch kind {
		case "tables":
			for _, t := range sch.Tables {
				out = append(out, row{"table_schema": sch.SchemaName, "table_name": t.TableName, "table_comment": t.Comment})
			}
		case "views":
			for _, v := range sch.Views {
				out = append(out, row{"view_schema": sch.SchemaName, "table_schema": sch.SchemaName, "view_name": v.ViewName, "is_materialized": v.IsMaterialized, "sql": v.SQL,
					"column_names": strings.Join(v.Columns, "|"), "column_types": strings.Join(v.ColumnTypes, "|"), "column_enums": "", "view_comment": ""})
			}
		case "routines":
			for _, r := range sch.Routines {
				out = append(out, row{"routine_schema": sch.SchemaName, "routine_name": r.RoutineName, "routine_type": r.RoutineType, "identity_arguments": r.IdentityArguments, "sql": r.SQL,
					"return_type": "", "parameters": "", "routine_comment": "", "routine_body": "SQL", "is_deterministic": true, "sql_data_access": "", "security_type": ""})
			}
		case "enums":
			for _, e := range sch.Enums {
				out = append(out, row{"enum_schema": sch.SchemaName, "enum_name": e.EnumName, "enum_labels": jsonText(strs(e.EnumLabels)), "enum_comment": ""})
			}
		case "domains":
			for _, e := range sch.Domains {
				out = append(out, row{"domain_schema": sch.SchemaName, "domain_name": e.DomainName, "underlying_type": e.UnderlyingType, "collation": e.CollationName, "is_notnull": e.IsNotNull, "column_default": e.ColumnDefault,
					"check_names": jsonText(checks(e.CheckNames)), "check_exprs": jsonText(checks(e.CheckExprs)), "domain_comment": ""})
			}
		}
	}
	return out
}

// checks is how the constraints of a domain are reported: one without a name
// and an expression where there are none.
func checks(list []string) []string {
	if len(list) == 0 {
		return []string{""}
	}
	return list
}

// filter applies the lists of names in the query to the rows.
func filter(query string, rows []row) []row {
	for _, m := range reNameList.FindAllStringSubmatch(query, -1) {
		lhs := strings.ToLower(m[1])
		field := ""
		switch {
		case strings.HasSuffix(lhs, "schema") || strings.HasSuffix(lhs, "nspname") || strings.HasSuffix(lhs, "schemas.name"):
			field = "schema"
		case strings.HasSuffix(lhs, "table_name") || strings.HasSuffix(lhs, "tables.relname") || strings.HasSuffix(lhs, "tables.name"):
			field = "table_name"
		default:
			continue
		}
		names := map[string]bool{}
		for _, t := range tokenize("postgres", m[3]) {
			if t.k == 's' {
				names[t.v] = true
			}
		}
		var kept []row
		for _, r := range rows {
			v := r[field]
			if field == "schema" {
				for k := range r {
					if strings.HasSuffix(k, "_schema") && k != "references_schema" {
						v = r[k]
					}
				}
			}
			if v == nil || names[fmt.Sprint(v)] == (m[2] == "") {
				kept = append(kept, r)
			}
		}
		rows = kept
	}
	return rows
}

// answer is the result of a catalog query, nil when it is none.
func (s *catServer) answer(query string) *vdb.FakeRows {
	if m := reScalar.FindStringSubmatch(query); m != nil {
		if v, ok := s.scalar(m[1]); ok {
			return &vdb.FakeRows{Cols: []string{"v"}, Rows: [][]driver.Value{{v}}}
		}
	}
	cols := selected(query)
	has := map[string]bool{}
	for _, c := range cols {
		has[c] = true
	}
	var rows []row
	switch {
	case has["extension_name"]:
		rows = s.others("extensions")
	case has["enum_name"]:
		rows = s.others("enums")
	case has["column_name"]:
		rows = s.columns()
	case has["domain_name"]:
		rows = s.others("domains")
	case has["routine_name"]:
		rows = s.others("routines")
	case has["trigger_name"]:
	case has["index_name"]:
		rows = s.indexes()
	case has["view_name"]:
		rows = s.others("views")
	case has["constraint_name"]:
		rows = s.constraints(query)
	case has["table_name"]:
		rows = s.others("tables")
	default:
		return nil
	}
	fr := &vdb.FakeRows{Cols: cols}
	for _, r := range filter(query, rows) {
		vals := make([]driver.Value, len(cols))
		for i, c := range cols {
			v, ok := r[c]
			if !ok {
				return nil
			}
			if s, isStr := v.(string); isStr {
				v = s
			}
			vals[i] = v
		}
		fr.Rows = append(fr.Rows, vals)
	}
	return fr
}

// recorded is a statement that reached the server.
type recorded struct {
	SQL    string
	InTx   bool
	Kind   string // exec, begin, commit, rollback
	Failed bool
}

// world is a database that answers catalog queries and records the rest.
func (s *catServer) world(log *[]recorded) *vdb.World {
	w := &vdb.World{Path: ":memory:", Dialect: s.d}
	w.Server = func(_ int, query string, _ []driver.NamedValue, isQuery bool) (*vdb.FakeRows, error) {
		if !isQuery {
			return nil, nil
		}
		return s.answer(query), nil
	}
	w.Observe = func(c *vdb.Call) {
		switch c.Kind {
		case "exec", "begin", "commit", "rollback":
			*log = append(*log, recorded{SQL: c.SQL, InTx: c.InTx, Kind: c.Kind, Failed: c.Err != nil})
		}
	}
	return w
}
