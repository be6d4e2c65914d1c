package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"

	"github.com/bokwoon95/sqddl/ddl"
)

// LkObj is an object of a catalog: its place and how it is declared.
type LkObj struct {
	Kind string `json:"kind"`
	S    string `json:"s"` // schema
	P    string `json:"p"` // name, or name of the table or view it belongs to
	N    string `json:"n"` // name within the table or view
	A    string `json:"a"` // arguments of a routine
	CT   string `json:"ct"`
	Ig   bool   `json:"ig"`
	Mark string `json:"mark"`
}

// LkOp is an operation on a catalog (see spec/Lookup.tla).
type LkOp struct {
	Op    string  `json:"op"` // get, create, update, ignore, reopen or copy
	Obj   LkObj   `json:"obj"`
	Inner []LkObj `json:"inner"`
}

type LkScen struct {
	ID      string `json:"id"`
	Dialect string `json:"dialect"`
	Fill    bool   `json:"fill"`
	Ops     []LkOp `json:"ops"`
}

type lkRun struct {
	sc      *LkScen
	catalog *ddl.Catalog
	cache   *ddl.CatalogCache
	names   map[string][]LkObj // by kind
	seen    map[LkObj]bool
}

// fillRest gives a value to every field that has none.
func fillRest(v reflect.Value, mark string) {
	t := v.Type()
	for i := 0; i < t.NumField(); i++ {
		f := v.Field(i)
		switch t.Field(i).Name {
		case "Ignore", "IsMaterialized", "IdentityArguments", "ConstraintName", "ConstraintType", "Dialect",
			"SchemaName", "TableSchema", "ViewSchema", "EnumSchema", "DomainSchema", "RoutineSchema":
			continue
		}
		if !f.IsZero() {
			continue
		}
		switch f.Kind() {
		case reflect.String:
			f.SetString(t.Field(i).Name + mark)
		case reflect.Bool:
			f.SetBool(true)
		case reflect.Map:
			f.Set(reflect.ValueOf(map[string]string{"k" + mark: "v"}))
		case reflect.Slice:
			switch f.Type().Elem().Kind() {
			case reflect.String:
				f.Set(reflect.ValueOf([]string{"x" + mark, "y"}).Convert(f.Type()))
			case reflect.Bool:
				f.Set(reflect.ValueOf([]bool{true, false}))
			case reflect.Int:
				f.Set(reflect.ValueOf([]int{3, 4}).Convert(f.Type()))
			}
		}
	}
}

// spoil changes every value that can be reached.
func spoil(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			spoil(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			spoil(v.Field(i))
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			spoil(v.Index(i))
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			v.SetMapIndex(k, reflect.ValueOf("spoilt"))
		}
	case reflect.String:
		v.SetString(v.String() + "!")
	case reflect.Bool:
		v.SetBool(!v.Bool())
	case reflect.Int:
		v.SetInt(v.Int() + 1)
	}
}

func (x *lkRun) fill(ptr interface{}, mark string) {
	if x.sc.Fill {
		fillRest(reflect.ValueOf(ptr).Elem(), mark)
	}
}

func (x *lkRun) column(o LkObj) ddl.Column {
	c := ddl.Column{TableSchema: o.S, TableName: o.P, ColumnName: o.N, Comment: o.Mark, Ignore: o.Ig}
	x.fill(&c, o.Mark)
	return c
}

func (x *lkRun) constraint(o LkObj) ddl.Constraint {
	c := ddl.Constraint{TableSchema: o.S, TableName: o.P, ConstraintName: o.N, ConstraintType: o.CT, Comment: o.Mark, Ignore: o.Ig}
	x.fill(&c, o.Mark)
	return c
}

func (x *lkRun) index(o LkObj) ddl.Index {
	c := ddl.Index{TableSchema: o.S, TableName: o.P, IndexName: o.N, Comment: o.Mark, Ignore: o.Ig}
	x.fill(&c, o.Mark)
	return c
}

func (x *lkRun) trigger(o LkObj) ddl.Trigger {
	c := ddl.Trigger{TableSchema: o.S, TableName: o.P, TriggerName: o.N, Comment: o.Mark, Ignore: o.Ig}
	x.fill(&c, o.Mark)
	return c
}

func (x *lkRun) enum(o LkObj) ddl.Enum {
	c := ddl.Enum{EnumSchema: o.S, EnumName: o.P, Comment: o.Mark, Ignore: o.Ig}
	x.fill(&c, o.Mark)
	return c
}

func (x *lkRun) domain(o LkObj) ddl.Domain {
	c := ddl.Domain{DomainSchema: o.S, DomainName: o.P, Comment: o.Mark, Ignore: o.Ig}
	x.fill(&c, o.Mark)
	return c
}

func (x *lkRun) routine(o LkObj) ddl.Routine {
	c := ddl.Routine{RoutineSchema: o.S, RoutineName: o.P, IdentityArguments: o.A, Comment: o.Mark, Ignore: o.Ig}
	x.fill(&c, o.Mark)
	return c
}

// materialized tells the views that may have indexes.
func materialized(name string) bool { return name == "m" }

func (x *lkRun) view(o LkObj, inner []LkObj) ddl.View {
	c := ddl.View{ViewSchema: o.S, ViewName: o.P, IsMaterialized: materialized(o.P), Comment: o.Mark, Ignore: o.Ig}
	x.fill(&c, o.Mark)
	for _, in := range inner {
		if in.S != o.S || in.P != o.P {
			continue
		}
		switch in.Kind {
		case "vindex":
			c.Indexes = append(c.Indexes, x.index(in))
		case "vtrigger":
			c.Triggers = append(c.Triggers, x.trigger(in))
		}
	}
	return c
}

func (x *lkRun) table(o LkObj, inner []LkObj) ddl.Table {
	c := ddl.Table{TableSchema: o.S, TableName: o.P, Comment: o.Mark, Ignore: o.Ig}
	x.fill(&c, o.Mark)
	for _, in := range inner {
		if in.S != o.S || in.P != o.P {
			continue
		}
		switch in.Kind {
		case "column":
			c.Columns = append(c.Columns, x.column(in))
		case "constraint":
			c.Constraints = append(c.Constraints, x.constraint(in))
		case "index":
			c.Indexes = append(c.Indexes, x.index(in))
		case "trigger":
			c.Triggers = append(c.Triggers, x.trigger(in))
		}
	}
	return c
}

func (x *lkRun) schema(o LkObj, inner []LkObj) ddl.Schema {
	c := ddl.Schema{SchemaName: o.S, Comment: o.Mark, Ignore: o.Ig}
	x.fill(&c, o.Mark)
	for _, in := range inner {
		switch in.Kind {
		case "table":
			c.Tables = append(c.Tables, x.table(in, inner))
		case "view":
			c.Views = append(c.Views, x.view(in, inner))
		case "enum":
			c.Enums = append(c.Enums, x.enum(in))
		case "domain":
			c.Domains = append(c.Domains, x.domain(in))
		case "routine":
			c.Routines = append(c.Routines, x.routine(in))
		}
	}
	return c
}

// found is a pointer to the comment and the mark of ignored objects.
type found struct {
	ptr     interface{}
	comment *string
	ignore  *bool
}

func foundOf(ptr interface{}) *found {
	v := reflect.ValueOf(ptr)
	if v.IsNil() {
		return nil
	}
	v = v.Elem()
	return &found{ptr, v.FieldByName("Comment").Addr().Interface().(*string), v.FieldByName("Ignore").Addr().Interface().(*bool)}
}

func (x *lkRun) get(o LkObj) *found {
	c := x.cache
	schema := c.GetSchema(x.catalog, o.S)
	switch o.Kind {
	case "schema":
		return foundOf(schema)
	case "enum":
		return foundOf(c.GetEnum(schema, o.P))
	case "domain":
		return foundOf(c.GetDomain(schema, o.P))
	case "routine":
		return foundOf(c.GetRoutine(schema, o.P, o.A))
	case "view":
		return foundOf(c.GetView(schema, o.P))
	case "table":
		return foundOf(c.GetTable(schema, o.P))
	case "column":
		return foundOf(c.GetColumn(c.GetTable(schema, o.P), o.N))
	case "constraint":
		return foundOf(c.GetConstraint(c.GetTable(schema, o.P), o.N))
	case "index":
		return foundOf(c.GetIndex(c.GetTable(schema, o.P), o.N))
	case "trigger":
		return foundOf(c.GetTrigger(c.GetTable(schema, o.P), o.N))
	case "vindex":
		return foundOf(c.GetViewIndex(c.GetView(schema, o.P), o.N))
	case "vtrigger":
		return foundOf(c.GetViewTrigger(c.GetView(schema, o.P), o.N))
	}
	panic("kind " + o.Kind)
}

func (x *lkRun) parentView(schema *ddl.Schema, name string) *ddl.View {
	view := x.cache.GetOrCreateView(schema, name)
	view.IsMaterialized = materialized(name)
	return view
}

func (x *lkRun) create(o LkObj) *found {
	c := x.cache
	schema := c.GetOrCreateSchema(x.catalog, o.S)
	cols := []string{"x" + o.Mark}
	switch o.Kind {
	case "schema":
		return foundOf(schema)
	case "enum":
		return foundOf(c.GetOrCreateEnum(schema, o.P))
	case "domain":
		return foundOf(c.GetOrCreateDomain(schema, o.P))
	case "routine":
		return foundOf(c.GetOrCreateRoutine(schema, o.P, o.A))
	case "view":
		return foundOf(x.parentView(schema, o.P))
	case "table":
		return foundOf(c.GetOrCreateTable(schema, o.P))
	case "column":
		return foundOf(c.GetOrCreateColumn(c.GetOrCreateTable(schema, o.P), o.N, "INT"))
	case "constraint":
		return foundOf(c.GetOrCreateConstraint(c.GetOrCreateTable(schema, o.P), o.N, o.CT, cols))
	case "index":
		return foundOf(c.GetOrCreateIndex(c.GetOrCreateTable(schema, o.P), o.N, cols))
	case "trigger":
		return foundOf(c.GetOrCreateTrigger(c.GetOrCreateTable(schema, o.P), o.N))
	case "vindex":
		return foundOf(c.GetOrCreateViewIndex(x.parentView(schema, o.P), o.N, cols))
	case "vtrigger":
		return foundOf(c.GetOrCreateViewTrigger(x.parentView(schema, o.P), o.N))
	}
	panic("kind " + o.Kind)
}

func (x *lkRun) update(op LkOp) {
	c, o := x.cache, op.Obj
	if o.Kind == "schema" {
		c.AddOrUpdateSchema(x.catalog, x.schema(o, op.Inner))
		return
	}
	schema := c.GetOrCreateSchema(x.catalog, o.S)
	// The parent is that of the call, whatever the object says.
	place := o
	o.S = "elsewhere"
	if o.N != "" || o.Kind == "constraint" {
		o.P = "elsewhere"
	}
	switch o.Kind {
	case "enum":
		c.AddOrUpdateEnum(schema, x.enum(o))
	case "domain":
		c.AddOrUpdateDomain(schema, x.domain(o))
	case "routine":
		c.AddOrUpdateRoutine(schema, x.routine(o))
	case "view":
		c.AddOrUpdateView(schema, x.view(place, op.Inner))
	case "table":
		c.AddOrUpdateTable(schema, x.table(place, op.Inner))
	case "column":
		c.AddOrUpdateColumn(c.GetOrCreateTable(schema, place.P), x.column(o))
	case "constraint":
		c.AddOrUpdateConstraint(c.GetOrCreateTable(schema, place.P), x.constraint(o))
	case "index":
		c.AddOrUpdateIndex(c.GetOrCreateTable(schema, place.P), x.index(o))
	case "trigger":
		c.AddOrUpdateTrigger(c.GetOrCreateTable(schema, place.P), x.trigger(o))
	case "vindex":
		c.AddOrUpdateViewIndex(x.parentView(schema, place.P), x.index(o))
	case "vtrigger":
		c.AddOrUpdateViewTrigger(x.parentView(schema, place.P), x.trigger(o))
	default:
		panic("kind " + o.Kind)
	}
}

// held lists every object of a catalog without using the lookup.
func held(catalog *ddl.Catalog) (visible, hidden []obj, strangers bool) {
	visible, hidden = []obj{}, []obj{}
	put := func(ig, home bool, kind, s, p, n, a, ct, mark string) {
		o := obj{"kind": kind, "s": s, "p": p, "n": n, "a": a, "ct": ct, "mark": mark}
		if ig {
			hidden = append(hidden, o)
		} else {
			visible = append(visible, o)
		}
		strangers = strangers || !home
	}
	for _, s := range catalog.Schemas {
		name := s.SchemaName
		put(s.Ignore, true, "schema", name, "", "", "", "", s.Comment)
		for _, o := range s.Enums {
			put(s.Ignore || o.Ignore, o.EnumSchema == name, "enum", name, o.EnumName, "", "", "", o.Comment)
		}
		for _, o := range s.Domains {
			put(s.Ignore || o.Ignore, o.DomainSchema == name, "domain", name, o.DomainName, "", "", "", o.Comment)
		}
		for _, o := range s.Routines {
			put(s.Ignore || o.Ignore, o.RoutineSchema == name, "routine", name, o.RoutineName, "", o.IdentityArguments, "", o.Comment)
		}
		for _, v := range s.Views {
			ig := s.Ignore || v.Ignore
			put(ig, v.ViewSchema == name, "view", name, v.ViewName, "", "", "", v.Comment)
			for _, o := range v.Indexes {
				put(ig || o.Ignore, o.TableSchema == name && o.TableName == v.ViewName, "vindex", name, v.ViewName, o.IndexName, "", "", o.Comment)
			}
			for _, o := range v.Triggers {
				put(ig || o.Ignore, o.TableSchema == name && o.TableName == v.ViewName, "vtrigger", name, v.ViewName, o.TriggerName, "", "", o.Comment)
			}
		}
		for _, t := range s.Tables {
			ig := s.Ignore || t.Ignore
			put(ig, t.TableSchema == name, "table", name, t.TableName, "", "", "", t.Comment)
			for _, o := range t.Columns {
				put(ig || o.Ignore, o.TableSchema == name && o.TableName == t.TableName, "column", name, t.TableName, o.ColumnName, "", "", o.Comment)
			}
			for _, o := range t.Constraints {
				put(ig || o.Ignore, o.TableSchema == name && o.TableName == t.TableName, "constraint", name, t.TableName, o.ConstraintName, "", o.ConstraintType, o.Comment)
			}
			for _, o := range t.Indexes {
				put(ig || o.Ignore, o.TableSchema == name && o.TableName == t.TableName, "index", name, t.TableName, o.IndexName, "", "", o.Comment)
			}
			for _, o := range t.Triggers {
				put(ig || o.Ignore, o.TableSchema == name && o.TableName == t.TableName, "trigger", name, t.TableName, o.TriggerName, "", "", o.Comment)
			}
		}
	}
	return visible, hidden, strangers
}

// learn remembers the names a scenario uses, to look all of them up.
func (x *lkRun) learn(o LkObj) {
	o = LkObj{Kind: o.Kind, S: o.S, P: o.P, N: o.N, A: o.A}
	add := func(o LkObj) {
		if !x.seen[o] {
			x.seen[o] = true
			x.names[o.Kind] = append(x.names[o.Kind], o)
		}
	}
	if o.Kind != "constraint" || o.N != "" {
		add(o)
	}
	add(LkObj{Kind: "schema", S: o.S})
	switch o.Kind {
	case "column", "constraint", "index", "trigger":
		add(LkObj{Kind: "table", S: o.S, P: o.P})
	case "vindex", "vtrigger":
		add(LkObj{Kind: "view", S: o.S, P: o.P})
	}
}

var lkKinds = []string{"schema", "enum", "domain", "routine", "view", "table", "column", "constraint", "index", "trigger", "vindex", "vtrigger"}

// observe looks every name up and lists what the catalog holds.
func (x *lkRun) observe(ev obj) {
	visible, hidden, strangers := held(x.catalog)
	ev["visible"], ev["hidden"], ev["strangers"] = visible, hidden, strangers
	seen, pks, fks := []obj{}, []obj{}, []obj{}
	for _, kind := range lkKinds {
		for _, o := range x.names[kind] {
			if f := x.get(o); f != nil {
				seen = append(seen, obj{"kind": o.Kind, "s": o.S, "p": o.P, "n": o.N, "a": o.A, "mark": *f.comment})
			}
			if kind == "table" {
				table := x.cache.GetTable(x.cache.GetSchema(x.catalog, o.S), o.P)
				if pk := x.cache.GetPrimaryKey(table); pk != nil {
					pks = append(pks, obj{"s": o.S, "p": o.P, "mark": pk.Comment})
				}
				for _, fk := range x.cache.GetForeignKeys(table) {
					fks = append(fks, obj{"s": o.S, "p": o.P, "mark": fk.Comment})
				}
			}
		}
	}
	ev["seen"], ev["pks"], ev["fks"] = seen, pks, fks
}

func asJSON(v interface{}) string {
	b, err := json.Marshal(v)
	must(err)
	return string(b)
}

func (sc *LkScen) run() obj {
	x := &lkRun{sc: sc, catalog: &ddl.Catalog{Dialect: sc.Dialect}, names: make(map[string][]LkObj), seen: make(map[LkObj]bool)}
	if sc.Fill {
		fillRest(reflect.ValueOf(x.catalog).Elem(), "")
	}
	x.cache = ddl.NewCatalogCache(x.catalog)
	for _, op := range sc.Ops {
		if op.Op != "reopen" && op.Op != "copy" {
			x.learn(op.Obj)
			for _, in := range op.Inner {
				x.learn(in)
			}
		}
	}
	events := []obj{}
	for i := range sc.Ops {
		op := sc.Ops[i]
		if op.Inner == nil {
			op.Inner = []LkObj{}
		}
		ev := obj{"e": op.Op, "obj": op.Obj, "inner": op.Inner, "dialect": sc.Dialect, "found": false, "got": "",
			"crashed": false, "visible": []obj{}, "hidden": []obj{}, "seen": []obj{}, "pks": []obj{}, "fks": []obj{}, "strangers": false,
			"equal": true, "kept": true, "why": ""}
		msg, crashed := guard(func() error {
			switch op.Op {
			case "get":
				if f := x.get(op.Obj); f != nil {
					ev["found"], ev["got"] = true, *f.comment
				}
			case "create":
				f := x.create(op.Obj)
				ev["found"], ev["got"] = true, *f.comment
				*f.comment = op.Obj.Mark
				x.fill(f.ptr, op.Obj.Mark)
			case "update":
				x.update(op)
			case "ignore":
				if f := x.get(op.Obj); f != nil {
					ev["found"], ev["got"] = true, *f.comment
					*f.ignore = true
				}
			case "reopen":
				x.cache = ddl.NewCatalogCache(x.catalog)
			case "copy":
				var dest ddl.Catalog
				if err := x.catalog.WriteCatalog(&dest); err != nil {
					return err
				}
				before := asJSON(x.catalog)
				ev["equal"] = asJSON(&dest) == before
				// The original is changed through the copy, and the
				// copy through the original.
				var dest2 ddl.Catalog
				must(x.catalog.WriteCatalog(&dest2))
				text := asJSON(&dest2)
				spoil(reflect.ValueOf(&dest))
				ev["kept"] = asJSON(x.catalog) == before && asJSON(&dest2) == text
				if ev["kept"] == false || ev["equal"] == false {
					ev["why"] = before + "\n" + text + "\n" + asJSON(x.catalog)
				}
				// Go on with the other copy.
				if ev["equal"] == true && ev["kept"] == true {
					x.catalog, x.cache = &dest2, ddl.NewCatalogCache(&dest2)
				} else {
					return fmt.Errorf("spoilt")
				}
			}
			x.observe(ev)
			return nil
		})
		ev["crashed"], ev["msg"] = crashed, trunc(msg, 200)
		events = append(events, ev)
		if msg != "" {
			break
		}
	}
	return obj{"id": sc.ID, "scenario": sc, "events": events}
}

func lkPick(r *rand.Rand, kind, s, p, mark string) LkObj {
	o := LkObj{Kind: kind, S: s, P: p, Mark: mark, Ig: r.Intn(8) == 0}
	switch kind {
	case "schema":
	case "enum":
		o.P = pick(r, []string{"e1", "e2"})
	case "domain":
		o.P = pick(r, []string{"d1", "d2"})
	case "routine":
		o.P, o.A = pick(r, []string{"r1", "r2"}), pick(r, []string{"", "int"})
	case "view":
		o.P = pick(r, []string{"v", "m"})
	case "table":
		o.P = pick(r, []string{"t1", "t2"})
	case "vindex":
		o.P, o.N = "m", pick(r, []string{"i1", "i2"})
	case "vtrigger":
		o.P, o.N = "v", pick(r, []string{"g1", "g2"})
	default:
		if o.P == "" {
			o.P = pick(r, []string{"t1", "t1", "t2"})
		}
		o.N = pick(r, map[string][]string{"column": {"c1", "c2", "c3"}, "constraint": {"k1", "k2", "k3", ""}, "index": {"i1", "i2"}, "trigger": {"g1", "g2"}}[kind])
		if kind == "constraint" {
			o.CT = pick(r, []string{"PRIMARY KEY", "FOREIGN KEY", "FOREIGN KEY", "UNIQUE", "CHECK"})
		}
	}
	return o
}

func lkInner(r *rand.Rand, kind string, o LkObj) []LkObj {
	var out []LkObj
	used := make(map[LkObj]bool)
	add := func(in LkObj) bool {
		key := LkObj{Kind: in.Kind, S: in.S, P: in.P, N: in.N, A: in.A}
		if in.Kind == "routine" {
			key.A = ""
		}
		if used[key] && !(in.Kind == "constraint" && in.N == "") {
			return false
		}
		used[key] = true
		in.Mark = fmt.Sprintf("%s.%d", o.Mark, len(out))
		out = append(out, in)
		return true
	}
	members := func(kind, p string) {
		kinds := []string{"column", "constraint", "index", "trigger"}
		if kind == "view" {
			kinds = []string{"vindex"}
			if !materialized(p) {
				kinds = []string{"vtrigger"}
			}
		}
		for k := r.Intn(4); k > 0; k-- {
			in := lkPick(r, pick(r, kinds), o.S, p, "")
			add(in)
		}
	}
	switch kind {
	case "table", "view":
		members(kind, o.P)
	case "schema":
		for k := r.Intn(4); k > 0; k-- {
			in := lkPick(r, pick(r, []string{"table", "table", "view", "enum", "domain", "routine"}), o.S, "", "")
			if add(in) && (in.Kind == "table" || in.Kind == "view") {
				members(in.Kind, in.P)
			}
		}
	}
	return out
}

func genLookup(r *rand.Rand, id string) *LkScen {
	sc := &LkScen{ID: id, Dialect: pick(r, []string{"sqlite", "postgres", "mysql", "sqlserver"}), Fill: r.Intn(3) == 0}
	// Few kinds, so that the operations meet each other.
	kinds := append([]string{}, lkKinds...)
	r.Shuffle(len(kinds), func(i, j int) { kinds[i], kinds[j] = kinds[j], kinds[i] })
	kinds = append(kinds[:2+r.Intn(3)], "table", "constraint")
	if r.Intn(6) == 0 {
		kinds = lkKinds
	}
	schemas := []string{"", "s1", "s2"}[:1+r.Intn(3)]
	for k := 3 + r.Intn(12); k > 0; k-- {
		mark := fmt.Sprint("m", len(sc.Ops))
		op := LkOp{Op: pick(r, []string{"get", "create", "create", "update", "update", "update", "ignore", "reopen", "copy"})}
		if op.Op != "reopen" && op.Op != "copy" {
			op.Obj = lkPick(r, pick(r, kinds), pick(r, schemas), "", mark)
			if op.Op != "update" {
				op.Obj.Ig = false
				if op.Obj.Kind == "constraint" && op.Obj.N == "" {
					op.Obj.N = "k1"
				}
			} else if r.Intn(3) > 0 {
				op.Inner = lkInner(r, op.Obj.Kind, op.Obj)
			}
		}
		sc.Ops = append(sc.Ops, op)
	}
	return sc
}

func runLookup(j *job) {
	if j.in != "" {
		i := 0
		readLines(j.in, func(line []byte) {
			i++
			if i%shards != shard {
				return
			}
			var sc LkScen
			must(json.Unmarshal(line, &sc))
			enter(sc.ID)
			j.w.write(sc.run())
		})
	}
	each(j.n, func(i int) {
		r := rand.New(rand.NewSource(j.seed*1000003 + int64(i)))
		sc := genLookup(r, fmt.Sprintf("lookup-%d-%d", j.seed, i))
		enter(sc.ID)
		j.w.write(sc.run())
	})
}
