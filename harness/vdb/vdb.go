// Package vdb is a database/sql driver wrapped around SQLite. It records the
// calls that reach the database, lets a test cut them short (errors, lock
// timeouts, crashes) and lets SQLite stand in for the other dialects by
// rewriting the few dialect specific statements.
package vdb

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"io"
	"strings"
	"sync"

	"github.com/mattn/go-sqlite3"
)

// ScriptMarker marks the scripts of a scenario, whose failures are meant.
const ScriptMarker = "/*vs:"

// ErrCrash is returned by every call after a simulated crash.
var ErrCrash = errors.New("vdb: connection lost")

// ErrInjected is returned by a call at which an error was injected.
var ErrInjected = errors.New("vdb: injected failure")

// Call describes one call that reached the driver.
type Call struct {
	Kind  string // begin, commit, rollback, exec, query, prepare, next
	Conn  int    // number of the connection
	SQL   string
	Args  []driver.Value
	InTx  bool // a transaction was open before the call
	Fault string
	Err   error
}

// World is the state shared by all connections of one simulated database.
type World struct {
	Path    string // database file
	Dialect string
	Driver  string // dsn options

	mu      sync.Mutex
	N       int // number of calls so far (of countable kinds)
	Dead    bool
	Conns   []*conn
	Session map[string]string // initial values of session variables of a new connection
	// Fault decides, before call number n, whether to inject something:
	// "" nothing, "err", "errafter", "lock", "crash", "crashafter".
	Fault func(n int, c *Call) string
	// LockErr makes the error value of a lock timeout.
	LockErr func() error
	// Observe is called after each call (under the lock).
	Observe func(c *Call)
	// SessionSet is called when a session variable is set.
	SessionSet func(name, value string)
	// Options appended to the sqlite dsn.
	Options string
	// Rewrite optionally replaces the statement before it is executed. If it
	// returns rows, they are the result of the query.
	Rewrite func(c *conn, query string, args []driver.NamedValue) (string, []driver.NamedValue, *FakeRows, error)
	// Server, when set, answers every statement in place of SQLite. A nil
	// result of a query means that the statement is not understood.
	Server func(conn int, query string, args []driver.NamedValue, isQuery bool) (*FakeRows, error)
	// Affected is the number of rows the server reports for a statement.
	Affected func(query string) int64
	// Unsupported is a statement that SQLite could not stand in for: what
	// happened after it says nothing.
	Unsupported string
	// NumOpen counts connections currently open.
	NumOpen int
}

func (w *World) affected(query string) driver.Result {
	if w.Affected == nil {
		return driver.RowsAffected(0)
	}
	return driver.RowsAffected(w.Affected(query))
}

// FakeRows is a canned query result.
type FakeRows struct {
	Cols []string
	Rows [][]driver.Value
}

// DB opens a *sql.DB on the world.
func (w *World) DB() *sql.DB { return sql.OpenDB(connector{w}) }

// Revive makes a crashed world usable again (the server is back).
func (w *World) Revive() {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.Dead = false
	w.N = 0
}

type connector struct{ w *World }

func (c connector) Driver() driver.Driver { return drv{} }

func (c connector) Connect(ctx context.Context) (driver.Conn, error) {
	return c.w.open()
}

func (w *World) open() (driver.Conn, error) {
	w.mu.Lock()
	dead := w.Dead
	w.mu.Unlock()
	if dead {
		return nil, ErrCrash
	}
	opts := w.Options
	if opts == "" {
		opts = "_foreign_keys=true"
	}
	d := &sqlite3.SQLiteDriver{}
	sc, err := d.Open("file:" + w.Path + "?" + opts)
	if err != nil {
		return nil, err
	}
	c := &conn{w: w, SQLiteConn: sc.(*sqlite3.SQLiteConn), Session: map[string]string{}}
	for k, v := range w.Session {
		c.Session[k] = v
	}
	w.mu.Lock()
	c.id = len(w.Conns)
	w.Conns = append(w.Conns, c)
	w.NumOpen++
	w.mu.Unlock()
	return c, nil
}

type conn struct {
	w  *World
	id int
	*sqlite3.SQLiteConn
	Session map[string]string
	dead    bool
	closed  bool
	intx    bool
	Ident   string // table with identity insert on
}

var (
	_ driver.Conn               = (*conn)(nil)
	_ driver.ConnBeginTx        = (*conn)(nil)
	_ driver.ConnPrepareContext = (*conn)(nil)
	_ driver.ExecerContext      = (*conn)(nil)
	_ driver.QueryerContext     = (*conn)(nil)
	_ driver.Validator          = (*conn)(nil)
	_ driver.SessionResetter    = (*conn)(nil)
)

// SessionValues returns the session variables of the connection.
func (w *World) SessionValues() []map[string]string {
	var out []map[string]string
	for _, c := range w.Conns {
		out = append(out, c.Session)
	}
	return out
}

func (c *conn) IsValid() bool                          { return !c.dead }
func (c *conn) ResetSession(ctx context.Context) error { return nil }
func (c *conn) Ping(ctx context.Context) error {
	if c.dead {
		return ErrCrash
	}
	return nil
}

func (c *conn) Close() error {
	if c.closed {
		return nil
	}
	c.closed = true
	c.w.mu.Lock()
	c.w.NumOpen--
	c.w.mu.Unlock()
	return c.SQLiteConn.Close()
}

func (w *World) kill() {
	w.Dead = true
	for _, c := range w.Conns {
		c.dead = true
		if !c.closed {
			// The server notices the lost connection and rolls back.
			if !c.SQLiteConn.AutoCommit() {
				c.SQLiteConn.Exec("ROLLBACK", nil)
			}
			c.intx = false
		}
	}
}

// do runs f as one call, applying faults.
func (c *conn) do(kind, query string, args []driver.NamedValue, f func() error) error {
	w := c.w
	w.mu.Lock()
	defer w.mu.Unlock()
	if c.dead || w.Dead {
		return ErrCrash
	}
	if kind == "exec" {
		kind = txKind(query)
	}
	call := &Call{Kind: kind, Conn: c.id, SQL: query, InTx: c.intx}
	for _, a := range args {
		call.Args = append(call.Args, a.Value)
	}
	n := w.N
	w.N++
	fault := ""
	if w.Fault != nil {
		fault = w.Fault(n, call)
	}
	call.Fault = fault
	switch fault {
	case "err":
		call.Err = ErrInjected
	case "lock":
		call.Err = w.LockErr()
	case "crash":
		w.kill()
		call.Err = ErrCrash
	default:
		call.Err = f()
		w.checkSupported(query, call.Err)
		switch fault {
		case "errafter":
			if call.Err == nil {
				call.Err = ErrInjected
			}
		case "crashafter":
			w.kill()
			call.Err = ErrCrash
		}
	}
	switch kind {
	case "begin":
		if call.Err == nil {
			c.intx = true
		} else if fault == "errafter" {
			c.SQLiteConn.Exec("ROLLBACK", nil)
		}
	case "commit", "rollback":
		if call.Err != nil && (fault == "err" || fault == "lock") && !c.SQLiteConn.AutoCommit() {
			// database/sql considers the transaction over after a failed
			// commit or rollback; the server rolls it back.
			c.SQLiteConn.Exec("ROLLBACK", nil)
		}
		c.intx = false
	}
	if w.Observe != nil {
		w.Observe(call)
	}
	return call.Err
}

// checkSupported notices statements of another dialect that SQLite does not
// understand.
func (w *World) checkSupported(query string, err error) {
	if err == nil || w.Dialect == "sqlite" || w.Unsupported != "" || errors.Is(err, ErrSyntax) {
		return
	}
	var e sqlite3.Error
	if !errors.As(err, &e) || e.Code != sqlite3.ErrError || strings.Contains(query, ScriptMarker) {
		return
	}
	w.Unsupported = query
}

// txKind recognises transaction control written as plain statements.
func txKind(query string) string {
	if len(query) > 40 {
		return "exec"
	}
	word, _, _ := strings.Cut(strings.ToUpper(strings.Trim(query, " \t\r\n;")), " ")
	switch word {
	case "BEGIN":
		return "begin"
	case "COMMIT", "END":
		return "commit"
	case "ROLLBACK":
		return "rollback"
	}
	return "exec"
}

type tx struct {
	c *conn
	t driver.Tx
}

func (c *conn) Begin() (driver.Tx, error) {
	return c.BeginTx(context.Background(), driver.TxOptions{})
}

func (c *conn) BeginTx(ctx context.Context, opts driver.TxOptions) (driver.Tx, error) {
	var t driver.Tx
	err := c.do("begin", "", nil, func() (err error) {
		t, err = c.SQLiteConn.BeginTx(ctx, opts)
		return err
	})
	if err != nil {
		return nil, err
	}
	return &tx{c, t}, nil
}

func (t *tx) Commit() error   { return t.c.do("commit", "", nil, t.t.Commit) }
func (t *tx) Rollback() error { return t.c.do("rollback", "", nil, t.t.Rollback) }

func (c *conn) ExecContext(ctx context.Context, query string, args []driver.NamedValue) (driver.Result, error) {
	var res driver.Result
	err := c.do("exec", query, args, func() (err error) {
		if c.w.Server != nil {
			res = c.w.affected(query)
			_, err = c.w.Server(c.id, query, args, false)
			return err
		}
		if c.w.Rewrite != nil {
			var fr *FakeRows
			query, args, fr, err = c.w.Rewrite(c, query, args)
			if err != nil {
				return err
			}
			if fr != nil || query == "" {
				res = driver.RowsAffected(0)
				return nil
			}
		}
		res, err = c.SQLiteConn.ExecContext(ctx, query, args)
		return err
	})
	if err != nil {
		return nil, err
	}
	return res, nil
}

func (c *conn) QueryContext(ctx context.Context, query string, args []driver.NamedValue) (driver.Rows, error) {
	var rows driver.Rows
	err := c.do("query", query, args, func() (err error) {
		if c.w.Server != nil {
			fr, err := c.w.Server(c.id, query, args, true)
			if err == nil && fr == nil {
				c.w.Unsupported = query
				err = ErrSyntax
			}
			rows = &canned{f: fr}
			return err
		}
		if c.w.Rewrite != nil {
			var fr *FakeRows
			query, args, fr, err = c.w.Rewrite(c, query, args)
			if err != nil {
				return err
			}
			if fr != nil {
				rows = &canned{f: fr}
				return nil
			}
		}
		rows, err = c.SQLiteConn.QueryContext(ctx, query, args)
		return err
	})
	if err != nil {
		return nil, err
	}
	return wrapRows(c, query, rows), nil
}

func (c *conn) Prepare(query string) (driver.Stmt, error) {
	return c.PrepareContext(context.Background(), query)
}

func (c *conn) PrepareContext(ctx context.Context, query string) (driver.Stmt, error) {
	s := &stmt{c: c, query: query}
	err := c.do("prepare", query, nil, func() (err error) {
		if c.w.Server != nil {
			s.fake = true
			return nil
		}
		if len(query) > 4000 {
			// Full-size batches are usually prepared and never used.
			s.lazy = true
			return nil
		}
		q := query
		if c.w.Rewrite != nil {
			var fr *FakeRows
			q, _, fr, err = c.w.Rewrite(c, query, nil)
			if err != nil {
				return err
			}
			if fr != nil || q == "" {
				s.fake = true
				return nil
			}
		}
		s.s, err = c.SQLiteConn.PrepareContext(ctx, q)
		return err
	})
	if err != nil {
		return nil, err
	}
	return s, nil
}

type stmt struct {
	c     *conn
	s     driver.Stmt
	query string
	fake  bool
	lazy  bool
}

func (s *stmt) force(ctx context.Context) (err error) {
	if !s.lazy {
		return nil
	}
	s.lazy = false
	q := s.query
	if s.c.w.Rewrite != nil {
		var fr *FakeRows
		q, _, fr, err = s.c.w.Rewrite(s.c, q, nil)
		if err != nil {
			return err
		}
		if fr != nil || q == "" {
			s.fake = true
			return nil
		}
	}
	s.s, err = s.c.SQLiteConn.PrepareContext(ctx, q)
	return err
}

func (s *stmt) Close() error {
	if s.s == nil || s.c.closed {
		return nil
	}
	return s.s.Close()
}

func (s *stmt) NumInput() int {
	return -1
}

func (s *stmt) Exec(args []driver.Value) (driver.Result, error) {
	return nil, errors.New("not supported")
}

func (s *stmt) Query(args []driver.Value) (driver.Rows, error) {
	return nil, errors.New("not supported")
}

func (s *stmt) ExecContext(ctx context.Context, args []driver.NamedValue) (driver.Result, error) {
	var res driver.Result
	err := s.c.do("exec", s.query, args, func() (err error) {
		if err = s.force(ctx); err != nil {
			return err
		}
		if s.fake {
			res = s.c.w.affected(s.query)
			return nil
		}
		res, err = s.s.(driver.StmtExecContext).ExecContext(ctx, args)
		return err
	})
	if err != nil {
		return nil, err
	}
	return res, nil
}

func (s *stmt) QueryContext(ctx context.Context, args []driver.NamedValue) (driver.Rows, error) {
	var rows driver.Rows
	err := s.c.do("query", s.query, args, func() (err error) {
		if err = s.force(ctx); err != nil {
			return err
		}
		rows, err = s.s.(driver.StmtQueryContext).QueryContext(ctx, args)
		return err
	})
	if err != nil {
		return nil, err
	}
	return wrapRows(s.c, s.query, rows), nil
}

// rows injects failures while a result is being read.
type rowsWrap struct {
	c     *conn
	query string
	r     driver.Rows
}

func wrapRows(c *conn, query string, r driver.Rows) driver.Rows {
	rw := &rowsWrap{c, query, r}
	if _, ok := r.(driver.RowsColumnTypeDatabaseTypeName); ok {
		return &rowsWrapTypes{rowsWrap: rw}
	}
	return rw
}

func (r *rowsWrap) Columns() []string { return r.r.Columns() }
func (r *rowsWrap) Close() error      { return r.r.Close() }
func (r *rowsWrap) Next(dest []driver.Value) error {
	var eof bool
	err := r.c.do("next", r.query, nil, func() error {
		err := r.r.Next(dest)
		if err == io.EOF {
			eof = true
			return nil
		}
		return err
	})
	if err != nil {
		return err
	}
	if eof {
		return io.EOF
	}
	return nil
}

type rowsWrapTypes struct{ *rowsWrap }

func (r *rowsWrapTypes) ColumnTypeDatabaseTypeName(i int) string {
	return r.r.(driver.RowsColumnTypeDatabaseTypeName).ColumnTypeDatabaseTypeName(i)
}

type canned struct {
	f *FakeRows
	i int
}

func (r *canned) Columns() []string { return r.f.Cols }
func (r *canned) Close() error      { return nil }
func (r *canned) Next(dest []driver.Value) error {
	if r.i >= len(r.f.Rows) {
		return io.EOF
	}
	copy(dest, r.f.Rows[r.i])
	r.i++
	return nil
}

type drv struct{}

func (drv) Open(dsn string) (driver.Conn, error) { return nil, errors.New("vdb: not supported") }
