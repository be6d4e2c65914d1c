package main

import (
	"bytes"
	"crypto/sha256"
	"database/sql"
	"encoding/hex"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"testing/fstest"
	"time"

	"github.com/bokwoon95/sqddl/ddl"

	"verifharness/vdb"
)

// Content is the abstract content of a script. Equal Ver (for one file) means
// equal content up to line endings.
type Content struct {
	Ver  int  `json:"ver"`
	N    int  `json:"n"`    // number of statements
	Fail int  `json:"fail"` // which of them fails (0: none)
	CRLF bool `json:"crlf"`
}

// Fault is what goes wrong during one command.
type Fault struct {
	Mode   string `json:"mode"`             // err, errafter, lock, crash, crashafter
	At     int    `json:"at"`               // call number (when Script is empty)
	Script string `json:"script,omitempty"` // inject when this script is executed
	Times  int    `json:"times,omitempty"`  // how often (Script)
}

// Step is one step of a history scenario.
type Step struct {
	Op      string   `json:"op"` // put, del, migrate, touch, rm, mv, ls
	File    string   `json:"file,omitempty"`
	Content *Content `json:"content,omitempty"`
	Args    []string `json:"args,omitempty"`
	Flags   []string `json:"flags,omitempty"`
	Faults  []Fault  `json:"faults,omitempty"`
	Max     int      `json:"max,omitempty"`    // attempts
	BaseMs  int      `json:"basems,omitempty"` // base delay
	MaxMs   int      `json:"maxms,omitempty"`  // maximum delay
	LockMs  int      `json:"lockms,omitempty"` // lock timeout
	Verbose bool     `json:"verbose,omitempty"`
}

// Scenario is a history of commands over one directory and one database.
type Scenario struct {
	ID      string `json:"id"`
	Dialect string `json:"dialect"`
	Table   string `json:"table"`
	API     string `json:"api"`    // struct or cli
	Drv     string `json:"drv"`    // which registered driver (postgres: pq or pgx)
	Sess    string `json:"sess"`   // session lock timeout before the command
	Dir     string `json:"dirarg"` // cli: form of the -dir argument
	Steps   []Step `json:"steps"`
}

type obj = map[string]any

type histRun struct {
	sc     *Scenario
	w      *vdb.World
	snap   *sql.DB
	tmp    string
	dir    string
	files  map[string]Content
	ids    map[string]int
	names  []string
	sums   map[string]map[string]int // file -> checksum -> ver
	events []obj
	// durable state as last seen
	lastLog  int
	lastHist string
	faults   []Fault
	lockAt   time.Time
	kinds    []string // the calls of the current command
}

func (r *histRun) id(name string) int {
	if i, ok := r.ids[name]; ok {
		return i
	}
	i := len(r.names)
	r.names = append(r.names, name)
	r.ids[name] = i
	return i
}

func (r *histRun) text(name string, c Content) string {
	id := r.id(name)
	nl := "\n"
	if c.CRLF {
		nl = "\r\n"
	}
	var b strings.Builder
	fmt.Fprintf(&b, "/*vs:%d:%d*/", id, c.Ver)
	for i := 1; i <= c.N; i++ {
		b.WriteString(nl)
		if i == c.Fail {
			fmt.Fprintf(&b, "INSERT INTO vmissing (a) VALUES (%d);", i)
		} else {
			fmt.Fprintf(&b, "INSERT INTO vlog (script, ver, stmt) VALUES (%d, %d, %d);", id, c.Ver, i)
		}
	}
	b.WriteString(nl)
	return b.String()
}

func (r *histRun) put(name string, c Content) {
	r.files[name] = c
	text := r.text(name, c)
	norm := strings.ReplaceAll(text, "\r\n", "\n")
	sum := sha256.Sum256([]byte(norm))
	if r.sums[name] == nil {
		r.sums[name] = map[string]int{}
	}
	r.sums[name][hex.EncodeToString(sum[:])] = c.Ver
	p := filepath.Join(r.dir, filepath.FromSlash(name))
	must(os.MkdirAll(filepath.Dir(p), 0755))
	must(os.WriteFile(p, []byte(text), 0644))
}

func (r *histRun) fs() fstest.MapFS {
	m := fstest.MapFS{}
	for name, c := range r.files {
		m[name] = &fstest.MapFile{Data: []byte(r.text(name, c)), Mode: 0644}
	}
	return m
}

// walkOrder lists the files the way a directory walk meets them.
func (r *histRun) walkOrder() []string {
	var names []string
	for name := range r.files {
		names = append(names, name)
	}
	sort.Slice(names, func(i, j int) bool {
		a, b := strings.Split(names[i], "/"), strings.Split(names[j], "/")
		for k := 0; k < len(a) && k < len(b); k++ {
			if a[k] != b[k] {
				return a[k] < b[k]
			}
		}
		return len(a) < len(b)
	})
	return names
}

func (r *histRun) dirList() []obj {
	out := []obj{}
	for _, name := range r.walkOrder() {
		c := r.files[name]
		out = append(out, obj{"f": name, "ver": c.Ver, "n": c.N, "fail": c.Fail, "crlf": c.CRLF})
	}
	return out
}

var reMarker = regexp.MustCompile(`/\*vs:(\d+):(\d+)\*/`)

func (r *histRun) emit(o obj) { r.events = append(r.events, o) }

// observe looks at the durable state through a separate connection and emits
// an event if it changed.
func (r *histRun) observe(force bool) {
	rows, err := r.snap.Query("SELECT seq, script, ver, stmt FROM vlog WHERE seq > ? ORDER BY seq", r.lastLog)
	must(err)
	delta := [][]any{}
	for rows.Next() {
		var seq, script, ver, stmt int
		must(rows.Scan(&seq, &script, &ver, &stmt))
		r.lastLog = seq
		delta = append(delta, []any{r.names[script], ver, stmt})
	}
	must(rows.Err())
	rows.Close()
	hist, has := r.history()
	key := fmt.Sprint(has, hist)
	if len(delta) == 0 && key == r.lastHist && !force {
		return
	}
	r.lastHist = key
	r.emit(obj{"e": "dur", "log": delta, "hist": hist, "has": has})
}

func (r *histRun) history() ([]obj, bool) {
	out := []obj{}
	var has bool
	must(r.snap.QueryRow("SELECT EXISTS (SELECT 1 FROM sqlite_schema WHERE type = 'table' AND name = ?)", r.sc.Table).Scan(&has))
	if !has {
		return out, false
	}
	rows, err := r.snap.Query(`SELECT filename, COALESCE(checksum, ''), COALESCE(success, 0), started_at IS NOT NULL, COALESCE(time_taken_ns, -1), COALESCE(CAST(started_at AS TEXT), '') FROM "` + strings.ReplaceAll(r.sc.Table, `"`, `""`) + `" ORDER BY filename`)
	must(err)
	defer rows.Close()
	for rows.Next() {
		var f, sum, at string
		var ok, st bool
		var ns int64
		must(rows.Scan(&f, &sum, &ok, &st, &ns, &at))
		s := sum
		if v, found := r.sums[f][sum]; found {
			s = "v" + strconv.Itoa(v)
		} else {
			// A renamed entry keeps the checksum of its old name.
			for name, m := range r.sums {
				if v, found := m[sum]; found {
					s = "v" + strconv.Itoa(v) + "@" + name
				}
			}
		}
		out = append(out, obj{"f": f, "sum": s, "ok": ok, "st": st, "ns": fmt.Sprint(ns), "at": at})
	}
	must(rows.Err())
	return out, true
}

func (r *histRun) fault(n int, c *vdb.Call) string {
	m := reMarker.FindStringSubmatch(c.SQL)
	for i := range r.faults {
		f := &r.faults[i]
		if f.Script != "" {
			if m == nil || f.Times <= 0 || c.Kind != "exec" {
				continue
			}
			id, _ := strconv.Atoi(m[1])
			if r.names[id] == f.Script {
				f.Times--
				return f.Mode
			}
			continue
		}
		if f.At == n {
			return f.Mode
		}
	}
	return ""
}

func (r *histRun) onCall(c *vdb.Call) {
	kind := c.Kind
	if c.InTx {
		kind += "+tx"
	}
	r.kinds = append(r.kinds, kind)
	m := reMarker.FindStringSubmatch(c.SQL)
	res := "ok"
	if c.Err != nil {
		res = "err"
	}
	switch c.Fault {
	case "lock":
		res = "lock"
	case "crash", "crashafter":
		res = "crash"
	}
	switch {
	case m != nil && c.Kind == "exec":
		id, _ := strconv.Atoi(m[1])
		ver, _ := strconv.Atoi(m[2])
		gap := -1
		if !r.lockAt.IsZero() {
			gap = int(time.Since(r.lockAt).Microseconds())
			if gap > 2000000000 {
				gap = 2000000000
			}
			r.lockAt = time.Time{}
		}
		lt := ""
		for _, s := range r.w.SessionValues() {
			if v, ok := s[lockVar(r.sc.Dialect)]; ok {
				lt = v
			}
		}
		after := c.Fault == "errafter" || c.Fault == "crashafter"
		r.emit(obj{"e": "exec", "f": r.names[id], "ver": ver, "res": res, "intx": c.InTx, "gap": gap, "lt": lt, "after": after, "inj": c.Fault != ""})
	case c.Kind == "begin" || c.Kind == "commit" || c.Kind == "rollback":
		r.emit(obj{"e": c.Kind, "res": res, "inj": c.Fault != "", "after": c.Fault == "errafter" || c.Fault == "crashafter"})
	default:
		if c.Fault != "" {
			r.emit(obj{"e": "fault", "kind": c.Kind, "res": res, "intx": c.InTx, "after": c.Fault == "errafter" || c.Fault == "crashafter"})
		}
	}
	if c.Fault == "lock" {
		r.lockAt = time.Now()
	}
	if c.Kind == "commit" || (c.Kind == "exec") || c.Fault != "" {
		r.observe(false)
	}
}

func lockVar(dialect string) string {
	switch dialect {
	case "mysql":
		return "lock_wait_timeout"
	}
	return "lock_timeout"
}

var reRows = regexp.MustCompile(`(?m)^(-?\d+) rows? affected`)

func (r *histRun) command(st *Step) {
	r.faults = append([]Fault(nil), st.Faults...)
	r.lockAt = time.Time{}
	r.w.Revive()
	r.kinds = []string{}
	var out, errb bytes.Buffer
	// A pool of its own per command: the process starts, runs and ends.
	db := r.w.DB()
	r.w.Conns = nil
	cli := r.sc.API == "cli"
	ev := obj{"e": "cmd", "op": st.Op, "args": strs(st.Args), "flags": strs(st.Flags), "dir": r.dirList(),
		"max": defInt(st.Max, 10), "base": defInt(st.BaseMs, 1) * 1000, "maxd": defInt(st.MaxMs, 4) * 1000, "lockms": defInt(st.LockMs, 1000)}
	r.emit(ev)
	flags := map[string]bool{}
	for _, f := range st.Flags {
		flags[f] = true
	}
	dirArg := r.dir
	cliArgs := func(extra ...string) []string {
		a := []string{"-db", r.dsn(), "-history-table", r.sc.Table}
		if st.Op != "rm" && st.Op != "mv" || r.sc.Dir == "prefix" {
			a = append(a, "-dir", dirArg)
		}
		a = append(a, extra...)
		a = append(a, "--")
		for _, x := range st.Args {
			if r.sc.Dir == "prefix" {
				x = dirArg + "/" + x
			}
			a = append(a, x)
		}
		return a
	}
	var err error
	panicked := ""
	func() {
		defer func() {
			if p := recover(); p != nil {
				panicked = fmt.Sprint(p)
				err = fmt.Errorf("panic: %v", p)
			}
		}()
		switch st.Op {
		case "migrate":
			var cmd *ddl.MigrateCmd
			if cli {
				cmd, err = ddl.MigrateCommand(cliArgs("-lock-timeout", fmt.Sprintf("%dms", defInt(st.LockMs, 1000)),
					"-max-attempts", strconv.Itoa(defInt(st.Max, 10)),
					"-base-delay", fmt.Sprintf("%dms", defInt(st.BaseMs, 1)), "-max-delay", fmt.Sprintf("%dms", defInt(st.MaxMs, 4)))...)
				if err != nil {
					return
				}
				cmd.DB.Close()
				cmd.DB = db
			} else {
				cmd = &ddl.MigrateCmd{DB: db, Dialect: r.sc.Dialect, DirFS: r.fs(), Filenames: append([]string(nil), st.Args...), HistoryTable: r.tableArg(),
					LockTimeout: time.Duration(defInt(st.LockMs, 1000)) * time.Millisecond, MaxAttempts: defInt(st.Max, 10),
					BaseDelay: time.Duration(defInt(st.BaseMs, 1)) * time.Millisecond, MaxDelay: time.Duration(defInt(st.MaxMs, 4)) * time.Millisecond}
			}
			cmd.Verbose = st.Verbose
			cmd.Stderr = &errb
			err = cmd.Run()
		case "touch":
			var cmd *ddl.TouchCmd
			if cli {
				cmd, err = ddl.TouchCommand(cliArgs()...)
				if err != nil {
					return
				}
				cmd.DB.Close()
				cmd.DB = db
			} else {
				cmd = &ddl.TouchCmd{DB: db, Dialect: r.sc.Dialect, DirFS: r.fs(), Filenames: append([]string(nil), st.Args...), HistoryTable: r.tableArg()}
			}
			cmd.Stderr = &errb
			err = cmd.Run()
		case "rm":
			var cmd *ddl.RmCmd
			if cli {
				cmd, err = ddl.RmCommand(cliArgs()...)
				if err != nil {
					return
				}
				cmd.DB.Close()
				cmd.DB = db
			} else {
				cmd = &ddl.RmCmd{DB: db, Dialect: r.sc.Dialect, Filenames: append([]string(nil), st.Args...), HistoryTable: r.tableArg()}
			}
			cmd.Stderr = &errb
			err = cmd.Run()
		case "mv":
			var cmd *ddl.MvCmd
			if cli {
				cmd, err = ddl.MvCommand(cliArgs()...)
				if err != nil {
					return
				}
				cmd.DB.Close()
				cmd.DB = db
			} else {
				cmd = &ddl.MvCmd{DB: db, Dialect: r.sc.Dialect, SrcFilename: st.Args[0], DestFilename: st.Args[1], HistoryTable: r.tableArg()}
			}
			cmd.Stderr = &errb
			err = cmd.Run()
		case "ls":
			var cmd *ddl.LsCmd
			if cli {
				var ex []string
				for _, f := range st.Flags {
					ex = append(ex, "-"+f)
				}
				cmd, err = ddl.LsCommand(cliArgs(ex...)...)
				if err != nil {
					return
				}
				cmd.DB.Close()
				cmd.DB = db
			} else {
				cmd = &ddl.LsCmd{DB: db, Dialect: r.sc.Dialect, DirFS: r.fs(), HistoryTable: r.tableArg(),
					IncludeAll: flags["all"], IncludePending: flags["pending"], IncludeApplied: flags["applied"], IncludeFailed: flags["failed"], IncludeMissing: flags["missing"]}
			}
			cmd.Stdout = &out
			err = cmd.Run()
		default:
			panic("unknown op " + st.Op)
		}
	}()
	if os.Getenv("VH_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "--- %s %v err=%v\n%s%s", st.Op, st.Args, err, errb.String(), out.String())
	}
	r.observe(false)
	end := obj{"e": "end", "err": err != nil, "panic": panicked, "named": []string{}, "rows": -1, "ls": [][]string{}, "sess": []string{}, "kinds": r.kinds, "errtext": ""}
	if err != nil {
		end["errtext"] = trunc(err.Error(), 300)
		named := []string{}
		for name := range r.files {
			if strings.Contains(err.Error(), name) {
				named = append(named, name)
			}
		}
		sort.Strings(named)
		end["named"] = named
	}
	if m := reRows.FindStringSubmatch(errb.String()); m != nil {
		end["rows"], _ = strconv.Atoi(m[1])
	}
	if st.Op == "ls" {
		end["ls"] = r.parseLs(out.String())
	}
	if !cli {
		sess := []string{}
		if !r.w.Dead {
			for _, s := range r.w.SessionValues() {
				sess = append(sess, s[lockVar(r.sc.Dialect)])
			}
		}
		end["sess"] = sess
	}
	db.Close()
	end["open"] = r.w.NumOpen
	r.emit(end)
	r.faults = nil
}

func (r *histRun) tableArg() string {
	if r.sc.Table == "sqddl_history" && len(r.sc.ID)%2 == 0 {
		return "" // exercise the default
	}
	return r.sc.Table
}

func (r *histRun) parseLs(s string) [][]string {
	out := [][]string{}
	for _, line := range strings.Split(s, "\n") {
		if line == "" {
			continue
		}
		status, rest, _ := strings.Cut(line, " ")
		best := ""
		for _, name := range r.names {
			if (rest == name || strings.HasPrefix(rest, name+" (")) && len(name) > len(best) {
				best = name
			}
		}
		if best == "" {
			best = rest
		}
		out = append(out, []string{strings.Trim(status, "[]"), best})
	}
	return out
}

func (r *histRun) dsn() string {
	const key = "nodb"
	switch r.sc.Dialect {
	case "sqlite":
		return "sqlite:" + key
	case "postgres":
		return "postgres://u:p@localhost:5432/" + key
	case "mysql":
		return "mysql://u:p@localhost:3306/" + key
	}
	return "sqlserver://u:p@localhost:1433/" + key
}

// run executes the scenario and returns its trace.
func (sc *Scenario) run() (trace obj) {
	registerDrivers(sc.Drv)
	tmp, err := os.MkdirTemp(scratch(), "h")
	must(err)
	defer os.RemoveAll(tmp)
	r := &histRun{sc: sc, tmp: tmp, dir: filepath.Join(tmp, "migrations"), files: map[string]Content{}, ids: map[string]int{}, sums: map[string]map[string]int{}}
	must(os.MkdirAll(r.dir, 0755))
	path := filepath.Join(tmp, "db.sqlite3")
	setup, err := sql.Open("sqlite3", "file:"+path+"?_journal_mode=WAL&_synchronous=OFF")
	must(err)
	setup.SetMaxOpenConns(1)
	_, err = setup.Exec("CREATE TABLE vlog (seq INTEGER PRIMARY KEY AUTOINCREMENT, script INT, ver INT, stmt INT)")
	must(err)
	r.snap = setup
	defer setup.Close()
	r.w = &vdb.World{Path: path, Dialect: sc.Dialect, Options: "_foreign_keys=true&_journal_mode=WAL&_synchronous=OFF&_busy_timeout=0", Rewrite: vdb.DialectRewrite,
		Session: map[string]string{lockVar(sc.Dialect): sc.Sess}}
	r.w.Fault = r.fault
	r.w.Observe = r.onCall
	r.w.LockErr = func() error { return lockError(sc.Dialect, sc.Drv) }
	for i := range sc.Steps {
		st := &sc.Steps[i]
		switch st.Op {
		case "put":
			r.put(st.File, *st.Content)
		case "del":
			delete(r.files, st.File)
			os.Remove(filepath.Join(r.dir, filepath.FromSlash(st.File)))
		default:
			r.command(st)
		}
	}
	return obj{"id": sc.ID, "dialect": sc.Dialect, "sess": sc.Sess, "table": sc.Table, "events": r.events, "unsupported": trunc(r.w.Unsupported, 300)}
}
