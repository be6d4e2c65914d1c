package main

import "strings"

// A reader for the DDL of Postgres, MySQL and SQL Server. It turns a script
// into the operations of spec/Schema.tla. A statement no server of the dialect
// would parse becomes the operation "bad"; syntax this reader does not know
// makes the whole trace unsupported.

type tok struct {
	k   byte // w word, q quoted identifier, s string, n number, p punctuation
	v   string
	pos int
	end int
}

type sqlBad struct{ why string }
type sqlUnknown struct{ why string }

func tokenize(d, s string) []tok {
	var out []tok
	i := 0
	for i < len(s) {
		c := s[i]
		start := i
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
			continue
		case strings.HasPrefix(s[i:], "--"):
			for i < len(s) && s[i] != '\n' {
				i++
			}
			continue
		case c == '\'' || c == '"' || (c == '`' && d == "mysql") || (c == '[' && d == "sqlserver"):
			closer := c
			if c == '[' {
				closer = ']'
			}
			var b strings.Builder
			i++
			for {
				if i >= len(s) {
					panic(sqlBad{"unterminated " + string(c)})
				}
				if s[i] == closer {
					if i+1 < len(s) && s[i+1] == closer {
						b.WriteByte(closer)
						i += 2
						continue
					}
					i++
					break
				}
				b.WriteByte(s[i])
				i++
			}
			k := byte('q')
			if c == '\'' {
				k = 's'
			}
			out = append(out, tok{k, b.String(), start, i})
		case c >= '0' && c <= '9':
			for i < len(s) && (s[i] >= '0' && s[i] <= '9' || s[i] == '.') {
				i++
			}
			out = append(out, tok{'n', s[start:i], start, i})
		case c == '_' || c == '@' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80:
			for i < len(s) && (s[i] == '_' || s[i] == '@' || s[i] == '$' || s[i] >= '0' && s[i] <= '9' || s[i] >= 'a' && s[i] <= 'z' || s[i] >= 'A' && s[i] <= 'Z' || s[i] >= 0x80) {
				i++
			}
			out = append(out, tok{'w', s[start:i], start, i})
		default:
			i++
			out = append(out, tok{'p', string(c), start, i})
		}
	}
	return out
}

// Words no server accepts as a bare name.
var sqlReserved = map[string]bool{"order": true, "group": true, "check": true, "table": true, "select": true, "primary": true, "references": true, "unique": true,
	"where": true, "from": true, "column": true, "constraint": true, "default": true, "create": true, "to": true, "and": true, "or": true, "not": true, "null": true, "foreign": true, "in": true, "as": true, "on": true, "grant": true, "having": true, "union": true, "into": true, "for": true, "then": true, "else": true, "case": true, "when": true, "with": true, "distinct": true, "desc": true, "asc": true}

type sqlParser struct {
	d, cur string
	own    string // schema of the table created or altered
	src    string
	t      []tok
	i      int
	vars   map[string]bool // declared in this batch

	batches bool // the text is several batches in a row
}

func (p *sqlParser) peek() tok {
	if p.i < len(p.t) {
		return p.t[p.i]
	}
	return tok{}
}

func (p *sqlParser) at(words ...string) bool {
	for j, w := range words {
		if p.i+j >= len(p.t) {
			return false
		}
		t := p.t[p.i+j]
		if t.k == 'w' && strings.EqualFold(t.v, w) || t.k == 'p' && t.v == w {
			continue
		}
		return false
	}
	return true
}

func (p *sqlParser) accept(words ...string) bool {
	if p.at(words...) {
		p.i += len(words)
		return true
	}
	return false
}

func (p *sqlParser) bad(why string) { panic(sqlBad{why + " near " + p.rest()}) }

// unknown is called for something that this parser does not read. Nothing
// that a server reads starts with a comma or the like.
func (p *sqlParser) unknown(why string) {
	if p.end() || p.at(",") || p.at(")") || p.at("=") || p.at(".") {
		p.bad(why)
	}
	panic(sqlUnknown{why + " near " + p.rest()})
}

func (p *sqlParser) rest() string {
	if p.i >= len(p.t) {
		return "end of statement"
	}
	return trunc(p.src[p.t[p.i].pos:], 60)
}

func (p *sqlParser) expect(words ...string) {
	if !p.accept(words...) {
		p.bad("expected " + strings.Join(words, " "))
	}
}

func (p *sqlParser) end() bool { return p.i >= len(p.t) || p.at(";") }

func (p *sqlParser) ident() string {
	t := p.peek()
	switch t.k {
	case 'q':
		if t.v == "" {
			p.bad("empty name")
		}
		if t.v != "" && p.d == "mysql" && p.src[t.pos] == '"' {
			p.bad("string as name")
		}
		p.i++
		return t.v
	case 'w':
		if sqlReserved[strings.ToLower(t.v)] {
			p.bad("reserved word as name")
		}
		p.i++
		if p.d == "postgres" {
			return strings.ToLower(t.v)
		}
		return t.v
	}
	p.bad("expected a name")
	return ""
}

// qname reads schema.name.
func (p *sqlParser) qname() (schema, name string) {
	name = p.ident()
	schema = p.cur
	if p.accept(".") {
		schema, name = name, p.ident()
	}
	return
}

func (p *sqlParser) table() string {
	s, n := p.qname()
	return s + "." + n
}

func (p *sqlParser) ifExists() bool { return p.accept("IF", "EXISTS") }

// group reads a parenthesised text and returns what is inside.
func (p *sqlParser) group() string {
	if !p.at("(") {
		p.bad("expected (")
	}
	start := p.peek().end
	depth := 0
	for ; p.i < len(p.t); p.i++ {
		if p.at("(") {
			depth++
		} else if p.at(")") {
			depth--
			if depth == 0 {
				s := p.src[start:p.peek().pos]
				p.i++
				return s
			}
		}
	}
	p.bad("missing )")
	return ""
}

// names reads (a, b, c).
func (p *sqlParser) names() []string {
	p.expect("(")
	var out []string
	for {
		out = append(out, p.ident())
		if p.accept(",") {
			continue
		}
		p.expect(")")
		return out
	}
}

// until collects the text up to one of the words at depth 0.
func (p *sqlParser) until(stop ...string) string {
	if p.end() || p.at(",") || p.at(")") {
		p.bad("expected an expression")
	}
	start := p.peek().pos
	last := start
	depth := 0
	first := true
loop:
	for p.i < len(p.t) {
		t := p.peek()
		if depth == 0 && !first {
			if p.at(";") || p.at(",") || p.at(")") {
				break
			}
			if t.k == 'w' {
				for _, w := range stop {
					if strings.EqualFold(t.v, w) {
						break loop
					}
				}
			}
		}
		if p.at("(") {
			depth++
		}
		if p.at(")") {
			depth--
		}
		last = t.end
		first = false
		p.i++
	}
	if depth != 0 {
		p.bad("unbalanced parentheses")
	}
	return p.src[start:last]
}

var columnClauses = []string{"NOT", "NULL", "DEFAULT", "PRIMARY", "UNIQUE", "REFERENCES", "COLLATE", "GENERATED", "AS", "IDENTITY", "AUTO_INCREMENT", "CHECK", "CONSTRAINT", "ON", "STORED", "VIRTUAL", "PERSISTED",
	"USING", "FOR", "KEY", "COMMENT", "DEFERRABLE", "INITIALLY", "FIRST", "AFTER", "INVISIBLE", "VISIBLE"}

func (p *sqlParser) isClause() bool {
	t := p.peek()
	if t.k != 'w' {
		return false
	}
	for _, w := range columnClauses {
		if strings.EqualFold(w, t.v) {
			return true
		}
	}
	return false
}

// typ reads a data type.
func (p *sqlParser) typ() (string, []string) {
	var words, args []string
	for !p.end() && !p.at(",") && !p.at(")") && !p.isClause() {
		t := p.peek()
		switch {
		case t.k == 'w' || t.k == 'q':
			words = append(words, t.v)
			p.i++
		case p.at("("):
			if args != nil {
				p.bad("two argument lists in a type")
			}
			args = []string{}
			for _, a := range strings.Split(p.group(), ",") {
				args = append(args, strings.TrimSpace(a))
			}
		case p.at("["):
			p.i++
			p.expect("]")
			words[len(words)-1] += "[]"
		default:
			p.bad("unexpected in a type")
		}
	}
	if len(words) == 0 {
		p.bad("expected a type")
	}
	return strings.Join(words, " "), strs(args)
}

func (p *sqlParser) rule() string {
	switch {
	case p.accept("NO", "ACTION"):
		return ""
	case p.accept("CASCADE"):
		return "CASCADE"
	case p.accept("RESTRICT"):
		return "RESTRICT"
	case p.accept("SET", "NULL"):
		return "SET NULL"
	case p.accept("SET", "DEFAULT"):
		return "SET DEFAULT"
	}
	p.bad("expected a referential action")
	return ""
}

func (p *sqlParser) references(c *ACon) {
	// MySQL looks for an unqualified table in the schema of the table altered.
	if cur := p.cur; p.d == "mysql" && p.own != "" {
		p.cur = p.own
		c.RT = p.table()
		p.cur = cur
	} else {
		c.RT = p.table()
	}
	c.RC = p.names()
	if p.d == "postgres" {
		c.Full = p.accept("MATCH", "FULL")
	}
	for p.at("ON") {
		switch {
		case p.accept("ON", "UPDATE"):
			c.Upd = p.rule()
		case p.accept("ON", "DELETE"):
			c.Del = p.rule()
		default:
			p.bad("ON")
		}
	}
}

func (p *sqlParser) deferrable(c *ACon) {
	for {
		switch {
		case p.accept("NOT", "DEFERRABLE"):
			c.Dfr = false
		case p.accept("DEFERRABLE"):
			c.Dfr = true
		case p.accept("INITIALLY", "DEFERRED"):
			c.Dfr, c.Idf = true, true
		case p.accept("INITIALLY", "IMMEDIATE"):
			c.Idf = false
		default:
			return
		}
	}
}

func (p *sqlParser) exclusion() *AExcl {
	x := &AExcl{Kind: "btree"}
	if p.accept("USING") {
		x.Kind = strings.ToLower(p.ident())
	}
	p.expect("(")
	for {
		x.Elems = append(x.Elems, p.until("WITH"))
		p.expect("WITH")
		op := ""
		for !p.end() && !p.at(",") && !p.at(")") {
			op += p.peek().v
			p.i++
		}
		if op == "" {
			p.bad("expected an operator")
		}
		x.Ops = append(x.Ops, op)
		if !p.accept(",") {
			break
		}
	}
	p.expect(")")
	if p.accept("WHERE") {
		x.Pred = p.group()
	}
	return x
}

// constraint reads a table constraint. The name is "" if the server chooses.
func (p *sqlParser) constraint() (name string, c ACon, using string) {
	if p.accept("CONSTRAINT") {
		name = p.ident()
	}
	switch {
	case p.accept("PRIMARY", "KEY"), p.accept("UNIQUE"):
		c.K = "PK"
		if strings.EqualFold(p.t[p.i-1].v, "UNIQUE") {
			c.K = "UQ"
			if p.d == "mysql" && (p.accept("KEY") || p.accept("INDEX")) {
				if !p.at("(") {
					name = p.ident()
				}
			}
		}
		_ = p.accept("CLUSTERED") || p.accept("NONCLUSTERED")
		if p.accept("USING", "INDEX") {
			using = p.ident()
		} else {
			c.Cols = p.keyColumns()
		}
	case p.accept("FOREIGN", "KEY"):
		c.K = "FK"
		if p.d == "mysql" && !p.at("(") {
			name = p.ident()
		}
		c.Cols = p.names()
		p.expect("REFERENCES")
		p.references(&c)
	case p.accept("CHECK"):
		c.K = "CK"
		c.Expr = p.group()
	case p.d == "postgres" && p.accept("EXCLUDE"):
		c.K, c.Excl = "CK", p.exclusion()
	default:
		p.unknown("constraint")
	}
	p.deferrable(&c)
	if p.accept("NOT", "VALID") {
		c.NV = true
	}
	if c.K == "PK" && p.d == "mysql" {
		name = "PRIMARY"
	}
	return
}

func (p *sqlParser) keyColumns() []string {
	p.expect("(")
	var out []string
	for {
		out = append(out, p.ident())
		_ = p.accept("ASC") || p.accept("DESC")
		if p.accept(",") {
			continue
		}
		p.expect(")")
		return out
	}
}

// Words that may stand in an expression without naming a column.
var exprWords = map[string]bool{"is": true, "not": true, "null": true, "and": true, "or": true, "in": true, "case": true, "when": true, "then": true, "else": true, "end": true, "true": true, "false": true, "between": true, "like": true}

// canonExpr is an expression in one spelling, and the columns it mentions.
func canonExpr(d, s string) (string, []string) {
	s = strings.TrimSpace(s)
	for wrapped(s) {
		s = strings.TrimSpace(s[1 : len(s)-1])
	}
	if s == "" {
		return "", []string{}
	}
	refs := []string{}
	var out []string
	ts := tokenize(d, s)
	for i, t := range ts {
		v := t.v
		switch t.k {
		case 'q':
			refs = append(refs, v)
		case 's':
			v = "'" + v + "'"
		case 'w':
			low := strings.ToLower(v)
			switch {
			case exprWords[low]:
				v = low
			case sqlReserved[low]:
				panic(sqlBad{"reserved word in an expression: " + s})
			case i+1 < len(ts) && ts[i+1].v == "(":
				v = low
			default:
				if d == "postgres" {
					v = low
				}
				refs = append(refs, v)
			}
		}
		out = append(out, v)
	}
	return strings.Join(out, " "), refs
}

func wrapped(s string) bool {
	if len(s) < 2 || s[0] != '(' || s[len(s)-1] != ')' {
		return false
	}
	depth := 0
	for i := range s {
		switch s[i] {
		case '(':
			depth++
		case ')':
			depth--
			if depth == 0 && i < len(s)-1 {
				return false
			}
		}
	}
	return depth == 0
}

// column reads a column definition; inline constraints are returned with it.
func (p *sqlParser) column() (name string, c ACol, inline []ACon) {
	name = p.ident()
	if !(p.d == "sqlserver" && p.at("AS")) {
		c.B, c.A = p.typ()
	}
	for !p.end() && !p.at(",") && !p.at(")") {
		switch {
		case p.accept("NOT", "NULL"):
			c.NN = true
		case p.accept("NULL"):
		case p.accept("DEFAULT"):
			c.Def = strings.TrimSpace(p.until(columnClauses...))
		case p.accept("PRIMARY", "KEY"):
			inline = append(inline, ACon{K: "PK", Cols: []string{name}})
		case p.accept("UNIQUE"):
			_ = p.accept("KEY")
			inline = append(inline, ACon{K: "UQ", Cols: []string{name}})
		case p.accept("REFERENCES"):
			k := ACon{K: "FK", Cols: []string{name}}
			p.references(&k)
			p.deferrable(&k)
			inline = append(inline, k)
		case p.accept("COLLATE"):
			c.Coll = p.ident()
			for p.accept(".") {
				c.Coll = p.ident()
			}
		case p.accept("AUTO_INCREMENT"):
			if p.d != "mysql" {
				p.bad("AUTO_INCREMENT")
			}
			c.AI = true
		case p.accept("IDENTITY"):
			if p.d != "sqlserver" {
				p.bad("IDENTITY")
			}
			c.ID = "IDENTITY"
			if p.at("(") {
				p.group()
			}
		case p.at("GENERATED") || p.at("AS"):
			c.ID, c.Gen = p.generated()
		case p.accept("ON", "UPDATE", "CURRENT_TIMESTAMP"):
		default:
			p.unknown("column clause")
		}
	}
	return
}

func (p *sqlParser) generated() (id, gen string) {
	kind := ""
	if p.accept("GENERATED") {
		switch {
		case p.accept("ALWAYS"):
			kind = "ALWAYS"
		case p.accept("BY", "DEFAULT"):
			kind = "BY DEFAULT"
		default:
			p.bad("GENERATED")
		}
	}
	p.expect("AS")
	if p.accept("IDENTITY") {
		if p.at("(") {
			p.group()
		}
		return "GENERATED " + kind + " AS IDENTITY", ""
	}
	gen = p.group()
	_ = p.accept("STORED") || p.accept("VIRTUAL") || p.accept("PERSISTED")
	return "", gen
}

// indexColumns reads (a DESC, (expr), ...).
func (p *sqlParser) indexColumns(x *AIdx) {
	p.expect("(")
	for {
		if p.at("(") {
			x.Cols = append(x.Cols, "("+p.group()+")")
		} else {
			x.Cols = append(x.Cols, p.ident())
		}
		desc := p.accept("DESC")
		if !desc {
			_ = p.accept("ASC")
		}
		x.Desc = append(x.Desc, desc)
		if p.accept(",") {
			continue
		}
		if !p.at(")") {
			p.unknown("index column")
		}
		p.i++
		return
	}
}

func (p *sqlParser) index(x *AIdx) {
	p.indexColumns(x)
	if p.accept("INCLUDE") {
		x.Inc = p.names()
	}
	if p.accept("WHERE") {
		x.Pred = p.until()
	}
}

func (p *sqlParser) createIndex() obj {
	op := obj{"o": "createidx", "conc": false, "if": false}
	x := AIdx{}
	for !p.at("INDEX") {
		switch {
		case p.accept("UNIQUE"):
			x.U = true
		case p.accept("FULLTEXT"):
			x.Kind = "FULLTEXT"
		case p.accept("SPATIAL"):
			x.Kind = "SPATIAL"
		case p.accept("CLUSTERED"), p.accept("NONCLUSTERED"):
		default:
			p.unknown("CREATE")
		}
	}
	p.expect("INDEX")
	if p.d == "postgres" && p.accept("CONCURRENTLY") {
		op["conc"] = true
	}
	op["if"] = p.accept("IF", "NOT", "EXISTS")
	op["n"] = p.ident()
	if p.d == "mysql" {
		p.using(&x)
	}
	p.expect("ON")
	_ = p.accept("ONLY")
	op["t"] = p.table()
	if p.d == "postgres" && p.accept("USING") {
		x.Kind = strings.ToUpper(p.ident())
	}
	p.index(&x)
	op["x"] = idxObj(p.d, x)
	return op
}

func (p *sqlParser) createEnum() obj {
	sch, n := p.qname()
	op := obj{"o": "createtype", "s": sch, "n": n}
	p.expect("AS", "ENUM", "(")
	labels := []string{}
	for !p.at(")") {
		if t := p.peek(); t.k != 's' {
			p.bad("expected a label")
		} else {
			labels = append(labels, t.v)
		}
		p.i++
		if !p.accept(",") {
			break
		}
	}
	p.expect(")")
	op["def"] = enumObj(labels)
	return op
}

func enumObj(labels []string) obj {
	return obj{"labels": labels, "b": "", "a": []string{}, "nn": false, "def": "", "coll": "", "checks": obj{}}
}

func (p *sqlParser) createDomain() obj {
	sch, n := p.qname()
	op := obj{"o": "createtype", "s": sch, "n": n}
	_ = p.accept("AS")
	x := ADomain{Checks: map[string]string{}}
	x.B, x.A = p.typ()
	for !p.end() {
		name := ""
		if p.accept("CONSTRAINT") {
			name = p.ident()
		}
		switch {
		case p.accept("NOT", "NULL"):
			x.NN = true
		case p.accept("NULL"):
		case p.accept("COLLATE"):
			x.Coll = p.ident()
		case p.accept("DEFAULT"):
			x.Def = strings.TrimSpace(p.until("CONSTRAINT", "CHECK", "NOT", "COLLATE"))
		case p.accept("CHECK"):
			e := p.group()
			if strings.TrimSpace(e) == "" {
				p.bad("CHECK of nothing")
			}
			x.Checks[name] = e
		default:
			p.bad("unexpected in a domain")
		}
	}
	op["def"] = domainObj(x)
	return op
}

func domainObj(x ADomain) obj {
	checks := obj{}
	for n, e := range x.Checks {
		c, _ := canonExpr("postgres", e)
		checks[n] = c
	}
	b := strings.ToUpper(x.B)
	if b == "CHARACTER VARYING" {
		b = "VARCHAR"
	}
	return obj{"labels": []string{}, "b": b, "a": strs(x.A), "nn": x.NN, "def": canonDef("postgres", x.Def), "coll": x.Coll, "checks": checks}
}

func (p *sqlParser) isConstraint() bool {
	return p.at("CONSTRAINT") || p.at("PRIMARY", "KEY") || p.at("UNIQUE") || p.at("FOREIGN", "KEY") || p.at("CHECK") || p.at("EXCLUDE")
}

// isIndexItem: MySQL index inside CREATE TABLE or ALTER TABLE ADD.
func (p *sqlParser) isIndexItem() bool {
	if p.d != "mysql" {
		return false
	}
	return p.at("INDEX") || p.at("KEY") || p.at("UNIQUE", "INDEX") || p.at("FULLTEXT") || p.at("SPATIAL")
}

// using reads the type of a MySQL index, of which there are two.
func (p *sqlParser) using(x *AIdx) {
	if !p.accept("USING") {
		return
	}
	kind := strings.ToUpper(p.ident())
	if x.Kind != "" || kind != "BTREE" && kind != "HASH" {
		p.bad("USING " + kind)
	}
	if kind != "BTREE" {
		x.Kind = kind
	}
}

func (p *sqlParser) indexItem() (string, AIdx) {
	x := AIdx{}
	switch {
	case p.accept("UNIQUE"):
		x.U = true
	case p.accept("FULLTEXT"):
		x.Kind = "FULLTEXT"
	case p.accept("SPATIAL"):
		x.Kind = "SPATIAL"
	}
	if !p.accept("INDEX") {
		_ = p.accept("KEY")
	}
	n := p.ident()
	p.using(&x)
	if !p.at("(") {
		p.bad("expected (")
	}
	p.index(&x)
	return n, x
}

func serverName(k ACon, table string) string {
	_, t := splitKey(table)
	return "server:" + k.K + ":" + t + ":" + strings.Join(k.Cols, ",")
}

func (p *sqlParser) createTable() obj {
	op := obj{"o": "createtable", "if": p.accept("IF", "NOT", "EXISTS")}
	key := p.table()
	p.own, _ = splitKey(key)
	op["t"] = key
	t := ATab{}.norm()
	dup := []string{}
	add := func(n string, k ACon) {
		if n == "" {
			n = serverName(k, key)
		}
		if _, ok := t.K[n]; ok {
			dup = append(dup, n)
		}
		t.K[n] = k
	}
	p.expect("(")
	for {
		switch {
		case p.isIndexItem():
			n, x := p.indexItem()
			t.I[n] = x
		case p.isConstraint():
			n, k, _ := p.constraint()
			add(n, k)
		default:
			n, c, inline := p.column()
			if _, ok := t.C[n]; ok {
				dup = append(dup, n)
			}
			t.O = append(t.O, n)
			t.C[n] = c
			for _, k := range inline {
				add("", k)
			}
		}
		if p.accept(",") {
			continue
		}
		p.expect(")")
		break
	}
	op["def"] = tabObj(p.d, t)
	op["dup"] = strs(dup)
	return op
}

func (p *sqlParser) alterTable() []obj {
	_ = p.ifExists()
	_ = p.accept("ONLY")
	key := p.table()
	p.own, _ = splitKey(key)
	var ops []obj
	add := func(o string, kv ...any) {
		op := obj{"o": o, "t": key}
		for i := 0; i < len(kv); i += 2 {
			op[kv[i].(string)] = kv[i+1]
		}
		ops = append(ops, op)
	}
	if p.d == "sqlserver" {
		_ = p.accept("WITH", "CHECK") || p.accept("WITH", "NOCHECK")
	}
	first := true
	for {
		switch {
		case p.accept("ADD"):
			switch {
			case p.d == "sqlserver" && p.accept("DEFAULT"):
				def := strings.TrimSpace(p.until("FOR"))
				p.expect("FOR")
				add("adddef", "n", p.ident(), "def", canonDef(p.d, def))
			case p.isIndexItem():
				n, x := p.indexItem()
				add("createidx", "n", n, "x", idxObj(p.d, x), "conc", false, "if", false)
			case p.isConstraint():
				if p.d == "sqlserver" && p.at("CONSTRAINT") && p.i+2 < len(p.t) && strings.EqualFold(p.t[p.i+2].v, "DEFAULT") {
					p.i += 3
					def := strings.TrimSpace(p.until("FOR"))
					p.expect("FOR")
					add("adddef", "n", p.ident(), "def", canonDef(p.d, def))
					break
				}
				n, k, using := p.constraint()
				if n == "" {
					n = serverName(k, key)
				}
				add("addcon", "n", n, "k", conObj(p.d, k), "using", using)
			default:
				if p.d == "sqlserver" && p.at("COLUMN") {
					p.bad("ADD COLUMN")
				}
				_ = p.accept("COLUMN")
				_ = p.accept("IF", "NOT", "EXISTS")
				n, c, inline := p.column()
				add("addcol", "n", n, "col", colObj(p.d, c))
				for _, k := range inline {
					add("addcon", "n", serverName(k, key), "k", conObj(p.d, k), "using", "")
				}
			}
		case p.accept("DROP"):
			switch {
			case p.accept("CONSTRAINT"):
				ie := p.ifExists()
				add("dropcon", "if", ie, "n", p.ident(), "cascade", p.accept("CASCADE"))
			case p.d == "mysql" && p.accept("PRIMARY", "KEY"):
				add("dropcon", "if", false, "n", "PRIMARY", "cascade", false)
			case p.d == "mysql" && p.accept("FOREIGN", "KEY"):
				add("dropcon", "if", false, "n", p.ident(), "cascade", false)
			case p.d == "mysql" && (p.accept("INDEX") || p.accept("KEY")):
				add("dropidx", "if", false, "n", p.ident(), "s", "")
			default:
				if !p.accept("COLUMN") && p.d == "sqlserver" {
					p.bad("DROP without COLUMN")
				}
				ie := p.ifExists()
				add("dropcol", "if", ie, "n", p.ident(), "cascade", p.accept("CASCADE"))
			}
		case p.accept("ALTER", "CONSTRAINT"):
			n := p.ident()
			k := ACon{}
			p.deferrable(&k)
			add("altercon", "n", n, "dfr", k.Dfr, "idf", k.Idf)
		case p.accept("ALTER", "COLUMN") || p.d == "postgres" && p.accept("ALTER"):
			p.alterColumn(add)
		case p.d == "mysql" && p.accept("MODIFY"):
			_ = p.accept("COLUMN")
			n, c, inline := p.column()
			if len(inline) > 0 {
				p.unknown("key in MODIFY")
			}
			add("modifycol", "n", n, "col", colObj(p.d, c))
		case p.accept("VALIDATE", "CONSTRAINT"):
			add("validate", "n", p.ident())
		default:
			if first && p.end() {
				p.bad("ALTER TABLE without an action")
			}
			p.unknown("ALTER TABLE action")
		}
		first = false
		if p.accept(",") {
			continue
		}
		if !p.end() {
			p.bad("unexpected")
		}
		return ops
	}
}

func (p *sqlParser) alterColumn(add func(string, ...any)) {
	n := p.ident()
	switch p.d {
	case "postgres":
		switch {
		case p.accept("TYPE"), p.accept("SET", "DATA", "TYPE"):
			b, a := p.typ()
			coll, using := "", false
			if p.accept("COLLATE") {
				coll = p.ident()
			}
			if p.accept("USING") {
				using = true
				p.until()
			}
			add("altertype", "n", n, "b", strings.ToUpper(b), "a", a, "coll", coll, "using", using)
		case p.accept("SET", "DEFAULT"):
			add("setdef", "n", n, "def", canonDef(p.d, p.until()))
		case p.accept("DROP", "DEFAULT"):
			add("dropdef", "n", n, "exact", true)
		case p.accept("SET", "NOT", "NULL"):
			add("setnn", "n", n, "nn", true)
		case p.accept("DROP", "NOT", "NULL"):
			add("setnn", "n", n, "nn", false)
		case p.accept("DROP", "IDENTITY"):
			_ = p.ifExists()
			add("setid", "n", n, "id", "")
		case p.accept("ADD"):
			id, gen := p.generated()
			if gen != "" {
				p.bad("ADD GENERATED expression")
			}
			add("setid", "n", n, "id", id)
		default:
			p.bad("ALTER COLUMN")
		}
	case "sqlserver":
		b, a := p.typ()
		coll, nn := "", false
		for !p.end() {
			switch {
			case p.accept("COLLATE"):
				coll = p.ident()
			case p.accept("NOT", "NULL"):
				nn = true
			case p.accept("NULL"):
			default:
				p.unknown("ALTER COLUMN")
			}
		}
		add("altercol", "n", n, "b", strings.ToUpper(b), "a", a, "coll", coll, "nn", nn)
	case "mysql":
		switch {
		case p.accept("SET", "DEFAULT"):
			add("setdef", "n", n, "def", canonDef(p.d, p.until()))
		case p.accept("DROP", "DEFAULT"):
			add("dropdef", "n", n, "exact", true)
		default:
			p.unknown("ALTER COLUMN")
		}
	}
}

// dropDefaultBlock reads the block with which SQL Server finds the constraint
// behind a default and drops it. It is exact if the query ties the constraint,
// the table and the column to each other.
func (p *sqlParser) dropDefaultBlock() obj {
	start := p.i
	eq := map[string]string{} // union-find over column references
	var find func(string) string
	find = func(x string) string {
		if eq[x] == "" || eq[x] == x {
			return x
		}
		return find(eq[x])
	}
	lit := map[string]string{}
	target := ""
	depth := 0
	twice := false
	for p.i < len(p.t) {
		if p.at("BEGIN") {
			depth++
		}
		if p.at("END") {
			depth--
			if depth == 0 {
				p.i++
				break
			}
		}
		if p.accept("DECLARE") {
			v := strings.ToLower(p.peek().v)
			twice = twice || p.vars[v] && !p.batches
			if p.vars == nil {
				p.vars = map[string]bool{}
			}
			p.vars[v] = true
			continue
		}
		if p.at("EXEC") {
			p.i++
			p.expect("(")
			if p.peek().k != 's' {
				p.unknown("EXEC")
			}
			inner := p.peek().v
			for !p.at(")") && p.i < len(p.t) {
				p.i++
			}
			ip := &sqlParser{d: p.d, cur: p.cur, src: inner, t: tokenize(p.d, inner)}
			ip.expect("ALTER", "TABLE")
			target = ip.table()
			ip.expect("DROP", "CONSTRAINT")
			continue
		}
		p.i++
	}
	// ref reads a.b or SCHEMA_NAME(a.b) at position i.
	ref := func(i int) (string, int) {
		if i+2 < p.i && p.t[i].k != 'p' && p.t[i+1].v == "." {
			return strings.ToLower(p.t[i].v + "." + p.t[i+2].v), i + 3
		}
		return "", i
	}
	for i := start; i < p.i; i++ {
		t := p.t[i]
		if t.k == 'w' && strings.EqualFold(t.v, "OBJECT_ID") {
			panic(sqlUnknown{"default constraint query"})
		}
		if t.k == 'w' && strings.EqualFold(t.v, "SCHEMA_NAME") {
			if r, j := ref(i + 2); r != "" && p.t[j].v == ")" && p.t[j+1].v == "=" && p.t[j+2].k == 's' {
				lit["schema"] = p.t[j+2].v
				i = j + 2
				continue
			}
		}
		r, j := ref(i)
		if r == "" || j+1 >= p.i || p.t[j].v != "=" {
			continue
		}
		if p.t[j+1].k == 's' {
			lit[r] = p.t[j+1].v
			i = j + 1
			continue
		}
		if r2, j2 := ref(j + 1); r2 != "" {
			eq[find(r)] = find(r2)
			i = j2 - 1
		}
	}
	same := func(a, b string) bool { return find(a) == find(b) }
	exact := same("tables.object_id", "default_constraints.parent_object_id") && same("columns.column_id", "default_constraints.parent_column_id")
	schema := lit["schema"]
	if schema == "" {
		schema = p.cur
	}
	if lit["tables.name"] == "" || lit["columns.name"] == "" || target == "" {
		panic(sqlUnknown{"default constraint query"})
	}
	if schema+"."+lit["tables.name"] != target {
		exact = false
	}
	if twice {
		panic(sqlBad{"a variable declared twice in a batch"})
	}
	return obj{"o": "dropdef", "t": target, "n": lit["columns.name"], "exact": exact}
}

// statement reads one statement.
func (p *sqlParser) statement() []obj {
	switch {
	case p.d == "sqlserver" && p.at("BEGIN"):
		return []obj{p.dropDefaultBlock()}
	case p.d == "sqlserver" && p.accept("IF", "SCHEMA_ID", "("):
		p.i++
		p.expect(")")
		p.expect("IS", "NULL", "EXEC", "(")
		inner := p.peek().v
		p.i++
		p.expect(")")
		ip := &sqlParser{d: p.d, cur: p.cur, src: inner, t: tokenize(p.d, inner)}
		ip.expect("CREATE", "SCHEMA")
		return []obj{{"o": "createschema", "s": ip.ident(), "if": true}}
	case p.accept("CREATE", "SCHEMA"):
		ine := p.accept("IF", "NOT", "EXISTS")
		return []obj{{"o": "createschema", "if": ine, "s": p.ident()}}
	case p.accept("DROP", "SCHEMA"):
		ie := p.ifExists()
		n := p.ident()
		return []obj{{"o": "dropschema", "if": ie, "s": n, "cascade": p.accept("CASCADE")}}
	case p.accept("CREATE", "TABLE"):
		return []obj{p.createTable()}
	case p.d == "postgres" && p.accept("CREATE", "EXTENSION"):
		ine := p.accept("IF", "NOT", "EXISTS")
		return []obj{{"o": "createext", "n": p.ident(), "if": ine}}
	case p.d == "postgres" && p.accept("CREATE", "TYPE"):
		return []obj{p.createEnum()}
	case p.d == "postgres" && p.accept("CREATE", "DOMAIN"):
		return []obj{p.createDomain()}
	case p.accept("DROP", "TABLE"):
		ie := p.ifExists()
		var ops []obj
		for {
			ops = append(ops, obj{"o": "droptable", "if": ie, "t": p.table(), "cascade": false})
			if !p.accept(",") {
				break
			}
		}
		if p.accept("CASCADE") {
			for _, op := range ops {
				op["cascade"] = true
			}
		}
		return ops
	case p.at("DROP", "VIEW") || p.at("DROP", "MATERIALIZED") || p.at("DROP", "FUNCTION") || p.at("DROP", "PROCEDURE") || p.at("DROP", "TYPE") || p.at("DROP", "DOMAIN") || p.at("DROP", "EXTENSION"):
		return p.dropOther()
	case p.d == "sqlite" && p.accept("PRAGMA"):
		n := p.ident()
		p.expect("=")
		return []obj{{"o": "pragma", "n": n, "v": p.until()}}
	case p.accept("ALTER", "TABLE"):
		return p.alterTable()
	case p.at("CREATE", "INDEX") || p.at("CREATE", "UNIQUE") || p.at("CREATE", "FULLTEXT") || p.at("CREATE", "SPATIAL") || p.at("CREATE", "CLUSTERED") || p.at("CREATE", "NONCLUSTERED"):
		p.i++
		return []obj{p.createIndex()}
	case p.accept("DROP", "INDEX"):
		conc := p.accept("CONCURRENTLY")
		ie := p.ifExists()
		if p.d == "postgres" {
			s, n := p.qname()
			return []obj{{"o": "dropidx", "if": ie, "n": n, "s": s, "t": "", "conc": conc}}
		}
		n := p.ident()
		p.expect("ON")
		return []obj{{"o": "dropidx", "if": ie, "n": n, "s": "", "t": p.table(), "conc": false}}
	}
	if p.d != "sqlite" && p.at("PRAGMA") {
		p.bad("PRAGMA")
	}
	p.unknown("statement")
	return nil
}

// dropOther reads the removal of something that is no table, index or schema.
func (p *sqlParser) dropOther() []obj {
	p.expect("DROP")
	mat := p.accept("MATERIALIZED")
	kind := strings.ToLower(p.peek().v)
	if mat {
		kind = "materialized view"
		if !p.at("VIEW") {
			p.bad("expected VIEW")
		}
	}
	p.i++
	ops := []obj{}
	ie := p.ifExists()
	for {
		op := obj{"o": "drop", "k": kind, "if": ie, "s": "", "args": "", "hasargs": false, "cascade": false}
		if kind == "extension" {
			op["n"] = p.ident()
		} else {
			op["s"], op["n"] = p.qname()
		}
		if p.d == "postgres" && (kind == "function" || kind == "procedure") && p.at("(") {
			op["args"], op["hasargs"] = strings.Join(strings.Fields(p.group()), " "), true
		}
		ops = append(ops, op)
		if !p.accept(",") {
			break
		}
	}
	if p.d != "sqlserver" && p.d != "sqlite" {
		if p.accept("CASCADE") {
			for _, op := range ops {
				op["cascade"] = true
			}
		} else {
			_ = p.accept("RESTRICT")
		}
	}
	return ops
}

// next reads one statement with its semicolon. Something a server would not
// parse ends at the next semicolon.
func (p *sqlParser) next() (ops []obj) {
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(sqlBad)
			if !ok {
				panic(r)
			}
			for p.i < len(p.t) && !p.at(";") {
				p.i++
			}
			ops = []obj{{"o": "bad", "why": e.why}}
		}
	}()
	ops = p.statement()
	if !p.end() {
		p.bad("unexpected")
	}
	if p.i >= len(p.t) {
		p.bad("missing ;")
	}
	return ops
}

// parseScript turns a script into statements: {text, ops}.
func parseScript(d, cur, s string) (out []obj, unsupported string) {
	return parseBatches(d, cur, s, false)
}

// parseBatches is parseScript for a text that is possibly several scripts.
func parseBatches(d, cur, s string, batches bool) (out []obj, unsupported string) {
	defer func() {
		switch e := recover().(type) {
		case nil:
		case sqlUnknown:
			unsupported = e.why
		case sqlBad:
			out = append(out, obj{"ops": []obj{{"o": "bad", "why": e.why}}})
		default:
			panic(e)
		}
	}()
	p := &sqlParser{d: d, cur: cur, src: s, t: tokenize(d, s), batches: batches}
	for {
		for p.accept(";") {
		}
		if p.i >= len(p.t) {
			return
		}
		out = append(out, obj{"ops": p.next()})
	}
}
