package main

import (
	mssql "github.com/denisenkom/go-mssqldb"
	"github.com/go-sql-driver/mysql"
	"github.com/jackc/pgconn"
	"github.com/lib/pq"
	"github.com/mattn/go-sqlite3"

	"github.com/bokwoon95/sqddl/ddl"
	"github.com/bokwoon95/sqddl/drivers/ddlmysql"
	"github.com/bokwoon95/sqddl/drivers/ddlpgx"
	"github.com/bokwoon95/sqddl/drivers/ddlpostgres"
	"github.com/bokwoon95/sqddl/drivers/ddlsqlite3"
	"github.com/bokwoon95/sqddl/drivers/ddlsqlserver"
)

// registerDrivers registers the real driver descriptions.
func registerDrivers(pg string) {
	ddlsqlite3.Register()
	if pg == "pgx" {
		ddlpgx.Register()
	} else {
		ddlpostgres.Register()
	}
	ddlmysql.Register()
	ddlsqlserver.Register()
	_ = ddl.DialectSQLite
}

// lockError is the error the real driver reports for a lock timeout.
func lockError(dialect, drv string) error {
	switch dialect {
	case "postgres":
		if drv == "pgx" {
			return &pgconn.PgError{Code: "55P03", Message: "canceling statement due to lock timeout"}
		}
		return &pq.Error{Code: "55P03", Message: "canceling statement due to lock timeout"}
	case "mysql":
		return &mysql.MySQLError{Number: 1205, Message: "Lock wait timeout exceeded; try restarting transaction"}
	case "sqlserver":
		return mssql.Error{Number: 1222, Message: "Lock request time out period exceeded."}
	}
	return sqlite3.Error{Code: sqlite3.ErrBusy}
}
