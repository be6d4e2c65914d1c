From 8f18f3544069d51a7fb953ad72c701f51bdc8885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:14:15 +0000
Subject: [PATCH 01/83] fix: do not panic on sub-second base delays or many
 lock timeout retries

---
 ddl/migrate_cmd.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ddl/migrate_cmd.go b/ddl/migrate_cmd.go
index bb9f16e..ba098cd 100644
--- a/ddl/migrate_cmd.go
+++ b/ddl/migrate_cmd.go
@@ -393,12 +393,12 @@ func (cmd *MigrateCmd) runWithRetry(conn *sql.Conn, queue []migration) error {
 				fmt.Fprintf(cmd.Stderr, queue[stoppedAt].filename+": attempt %d/%d timed out\n", attempts, cmd.MaxAttempts)
 				return fmt.Errorf("%s: %w", queue[stoppedAt].filename, migrationErr)
 			}
-			multiplier := int(math.Exp2(float64(attempts)))
-			delay := time.Duration(rng.Intn(int(cmd.BaseDelay*time.Duration(multiplier)/time.Second))) * time.Second
+			delay := cmd.MaxDelay
+			if d := rng.Float64() * float64(cmd.BaseDelay) * math.Exp2(float64(attempts)); d < float64(cmd.MaxDelay) {
+				delay = time.Duration(d)
+			}
 			if delay < cmd.BaseDelay {
 				delay = cmd.BaseDelay
-			} else if delay > cmd.MaxDelay {
-				delay = cmd.MaxDelay
 			}
 			fmt.Fprintf(cmd.Stderr, queue[stoppedAt].filename+": attempt %d/%d timed out, retrying in %s\n", attempts, cmd.MaxAttempts, delay.String())
 			time.Sleep(delay)
-- 
2.43.0


From af626f6371b19a0c8e9d296d62705ef342dc1965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:14:15 +0000
Subject: [PATCH 02/83] fix: report errors when mv cannot rename a history
 entry

---
 ddl/mv_cmd.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ddl/mv_cmd.go b/ddl/mv_cmd.go
index 29cde10..25af152 100644
--- a/ddl/mv_cmd.go
+++ b/ddl/mv_cmd.go
@@ -123,11 +123,11 @@ func (cmd *MvCmd) Run() error {
 	b.WriteString(" WHERE filename = '" + EscapeQuote(cmd.SrcFilename, '\'') + "'")
 	result, err := cmd.DB.Exec(b.String())
 	if err != nil {
-		return nil
+		return err
 	}
 	rowsAffected, err := result.RowsAffected()
 	if err != nil {
-		return nil
+		return err
 	}
 	fmt.Fprintln(cmd.Stderr, strconv.FormatInt(rowsAffected, 10)+" rows affected")
 	if err != nil {
-- 
2.43.0


From 7720dcd7b207bce19361e6cae6f83a454a1f0a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:14:15 +0000
Subject: [PATCH 03/83] fix: run a migration only once when its filename is
 given twice

---
 ddl/touch_cmd.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ddl/touch_cmd.go b/ddl/touch_cmd.go
index 5e521ce..a2f2ac5 100644
--- a/ddl/touch_cmd.go
+++ b/ddl/touch_cmd.go
@@ -325,8 +325,13 @@ func normalizeFilename(filename, dir string) string {
 func sortAndFilterFilenames(filenames []string) []string {
 	result := make([]string, 0, len(filenames))
 	repeatable := make([]string, 0, len(filenames))
+	seen := make(map[string]bool, len(filenames))
 	for _, filename := range filenames {
 		filename = filepath.ToSlash(filename)
+		if seen[filename] {
+			continue
+		}
+		seen[filename] = true
 		if !strings.HasSuffix(filename, ".sql") || strings.HasSuffix(filename, ".undo.sql") {
 			continue
 		}
-- 
2.43.0


From a1080cd74fc4b6e6aba9d52a8b01fafafff3a2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:14:15 +0000
Subject: [PATCH 04/83] fix: strip the migration directory from filenames only
 at a path boundary

---
 ddl/touch_cmd.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/ddl/touch_cmd.go b/ddl/touch_cmd.go
index a2f2ac5..e3a3784 100644
--- a/ddl/touch_cmd.go
+++ b/ddl/touch_cmd.go
@@ -313,13 +313,12 @@ func normalizeFilename(filename, dir string) string {
 	if dir == "" {
 		return filename
 	}
-	if strings.HasPrefix(filename, ".") {
-		filename = strings.TrimPrefix(strings.TrimPrefix(filename, "."), "/")
+	filename = strings.TrimPrefix(filename, "./")
+	dir = strings.TrimSuffix(strings.TrimPrefix(dir, "./"), "/")
+	if dir == "" || dir == "." {
+		return strings.TrimPrefix(filename, "/")
 	}
-	if strings.HasPrefix(dir, ".") {
-		dir = strings.TrimPrefix(strings.TrimPrefix(dir, "."), "/")
-	}
-	return strings.TrimPrefix(strings.TrimPrefix(filename, dir), "/")
+	return strings.TrimPrefix(strings.TrimPrefix(filename, dir+"/"), "/")
 }
 
 func sortAndFilterFilenames(filenames []string) []string {
-- 
2.43.0


From 3910faa164cdcd0f063d55dc4299c5a575384020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:14:15 +0000
Subject: [PATCH 05/83] fix: do not treat a failed history query as an empty
 history

---
 ddl/ls_cmd.go      | 4 ++--
 ddl/migrate_cmd.go | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/ddl/ls_cmd.go b/ddl/ls_cmd.go
index 69f8b4a..9ad4981 100644
--- a/ddl/ls_cmd.go
+++ b/ddl/ls_cmd.go
@@ -185,7 +185,7 @@ func (cmd *LsCmd) Run() error {
 				}
 			}
 		}
-		err = rows.Close()
+		err = closeRows(rows)
 		if err != nil {
 			return err
 		}
@@ -270,7 +270,7 @@ func (cmd *LsCmd) Run() error {
 				return err
 			}
 		}
-		err = rows.Close()
+		err = closeRows(rows)
 		if err != nil {
 			return err
 		}
diff --git a/ddl/migrate_cmd.go b/ddl/migrate_cmd.go
index ba098cd..baf8611 100644
--- a/ddl/migrate_cmd.go
+++ b/ddl/migrate_cmd.go
@@ -252,6 +252,10 @@ func (cmd *MigrateCmd) Run() error {
 				}
 			}
 		}
+		err = closeRows(rows)
+		if err != nil {
+			return err
+		}
 	}
 
 	conn, err := cmd.DB.Conn(cmd.Ctx)
-- 
2.43.0


From 8a13d526c9f8595f347eb8a5fdbcba5de5f4c547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:14:15 +0000
Subject: [PATCH 06/83] fix: quote lock_timeout when restoring it so that
 values with units are accepted

---
 ddl/migrate_cmd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddl/migrate_cmd.go b/ddl/migrate_cmd.go
index baf8611..cc24cd8 100644
--- a/ddl/migrate_cmd.go
+++ b/ddl/migrate_cmd.go
@@ -268,7 +268,7 @@ func (cmd *MigrateCmd) Run() error {
 	milliseconds := strconv.FormatInt(cmd.LockTimeout.Milliseconds(), 10)
 	switch cmd.Dialect {
 	case DialectPostgres:
-		restoreSessionValue, err = setSessionValue(cmd.Ctx, conn, "SHOW lock_timeout", "SET lock_timeout = %s", milliseconds)
+		restoreSessionValue, err = setSessionValue(cmd.Ctx, conn, "SHOW lock_timeout", "SET lock_timeout = '%s'", milliseconds)
 	case DialectMySQL:
 		restoreSessionValue, err = setSessionValue(cmd.Ctx, conn, "SELECT @@lock_wait_timeout", "SET lock_wait_timeout = %s", seconds)
 	case DialectSQLServer:
-- 
2.43.0


From b900eb01802bcfdce69403ff7ad96c9063d57a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:14:15 +0000
Subject: [PATCH 07/83] fix: do not generate an empty IN list when there are no
 migrations

---
 ddl/ls_cmd.go      | 18 ++++++------------
 ddl/migrate_cmd.go |  9 +++------
 2 files changed, 9 insertions(+), 18 deletions(-)

diff --git a/ddl/ls_cmd.go b/ddl/ls_cmd.go
index 9ad4981..2aa6057 100644
--- a/ddl/ls_cmd.go
+++ b/ddl/ls_cmd.go
@@ -152,12 +152,9 @@ func (cmd *LsCmd) Run() error {
 		var b strings.Builder
 		b.WriteString("SELECT filename, checksum, started_at, time_taken_ns, success")
 		b.WriteString(" FROM " + QuoteIdentifier(cmd.Dialect, cmd.HistoryTable))
-		b.WriteString(" WHERE filename IN (")
-		for i, filename := range filenames {
-			if i > 0 {
-				b.WriteString(", ")
-			}
-			b.WriteString("'" + EscapeQuote(filename, '\'') + "'")
+		b.WriteString(" WHERE filename IN (''") // an empty list is a syntax error
+		for _, filename := range filenames {
+			b.WriteString(", '" + EscapeQuote(filename, '\'') + "'")
 		}
 		b.WriteString(")")
 		rows, err := cmd.DB.Query(b.String())
@@ -245,12 +242,9 @@ func (cmd *LsCmd) Run() error {
 		var b strings.Builder
 		b.WriteString("SELECT filename")
 		b.WriteString(" FROM " + QuoteIdentifier(cmd.Dialect, cmd.HistoryTable))
-		b.WriteString(" WHERE filename NOT IN (")
-		for i, filename := range filenames {
-			if i > 0 {
-				b.WriteString(", ")
-			}
-			b.WriteString("'" + EscapeQuote(filename, '\'') + "'")
+		b.WriteString(" WHERE filename NOT IN (''") // an empty list is a syntax error
+		for _, filename := range filenames {
+			b.WriteString(", '" + EscapeQuote(filename, '\'') + "'")
 		}
 		b.WriteString(")")
 		b.WriteString(" ORDER BY CASE WHEN filename LIKE 'repeatable/%' THEN 1 ELSE 0 END, filename")
diff --git a/ddl/migrate_cmd.go b/ddl/migrate_cmd.go
index cc24cd8..21b7977 100644
--- a/ddl/migrate_cmd.go
+++ b/ddl/migrate_cmd.go
@@ -219,12 +219,9 @@ func (cmd *MigrateCmd) Run() error {
 		var b strings.Builder
 		b.WriteString("SELECT filename, checksum, started_at, time_taken_ns, success")
 		b.WriteString(" FROM " + QuoteIdentifier(cmd.Dialect, cmd.HistoryTable))
-		b.WriteString(" WHERE filename IN (")
-		for i, filename := range cmd.Filenames {
-			if i > 0 {
-				b.WriteString(", ")
-			}
-			b.WriteString("'" + EscapeQuote(filename, '\'') + "'")
+		b.WriteString(" WHERE filename IN (''") // an empty list is a syntax error
+		for _, filename := range cmd.Filenames {
+			b.WriteString(", '" + EscapeQuote(filename, '\'') + "'")
 		}
 		b.WriteString(")")
 		rows, err := cmd.DB.Query(b.String())
-- 
2.43.0


From d66c59f4ad90e06dffa39121b7288109db94a27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:14:34 +0000
Subject: [PATCH 08/83] fix: do not run a statement again when only recording
 it timed out

---
 ddl/migrate_cmd.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ddl/migrate_cmd.go b/ddl/migrate_cmd.go
index 21b7977..51da118 100644
--- a/ddl/migrate_cmd.go
+++ b/ddl/migrate_cmd.go
@@ -389,7 +389,10 @@ func (cmd *MigrateCmd) runWithRetry(conn *sql.Conn, queue []migration) error {
 	for {
 		attempts++
 		stoppedAt, migrationErr := cmd.run(conn, queue)
-		if migrationErr != nil && isRetryable && cmd.driver.IsLockTimeout != nil && cmd.driver.IsLockTimeout(migrationErr) {
+		// Outside a transaction, only retry if the script itself timed out (and
+		// not the recording of a script that has already taken effect).
+		isScriptErr := errors.As(migrationErr, new(*MigrationError))
+		if migrationErr != nil && isRetryable && (isTx || isScriptErr) && cmd.driver.IsLockTimeout != nil && cmd.driver.IsLockTimeout(migrationErr) {
 			if attempts >= cmd.MaxAttempts {
 				fmt.Fprintf(cmd.Stderr, queue[stoppedAt].filename+": attempt %d/%d timed out\n", attempts, cmd.MaxAttempts)
 				return fmt.Errorf("%s: %w", queue[stoppedAt].filename, migrationErr)
-- 
2.43.0


From 59459cd7c25e13044cf0681b3a3692a59507b7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:25:02 +0000
Subject: [PATCH 09/83] fix: drop SQLite columns even if nothing else about the
 table changes

---
 ddl/sqlite_migration.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ddl/sqlite_migration.go b/ddl/sqlite_migration.go
index 19175b1..318d015 100644
--- a/ddl/sqlite_migration.go
+++ b/ddl/sqlite_migration.go
@@ -218,6 +218,7 @@ func newSQLiteMigration(srcCatalog, destCatalog *Catalog, dropObjects bool) sqli
 		}
 		if len(alterTable.dropConstraints) > 0 ||
 			len(alterTable.dropIndexes) > 0 ||
+			len(alterTable.dropColumns) > 0 ||
 			len(alterTable.addColumns) > 0 ||
 			len(alterTable.alterColumns) > 0 ||
 			len(alterTable.createIndexes) > 0 ||
-- 
2.43.0


From c2fc1c2554ee3a49c87cd9ea9e40107f97f3fccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:25:09 +0000
Subject: [PATCH 10/83] fix: copy SQLite tables whose name is quoted in their
 definition

---
 ddl/sqlite_migration.go | 39 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/ddl/sqlite_migration.go b/ddl/sqlite_migration.go
index 318d015..a30edf5 100644
--- a/ddl/sqlite_migration.go
+++ b/ddl/sqlite_migration.go
@@ -387,7 +387,7 @@ func (alterTable *sqliteAlterTable) copyTable(buf *bytes.Buffer) {
 	// CREATE "${TableName}_new".
 	tableNew := *alterTable.destTable
 	tableNew.TableName = alterTable.destTable.TableName + "_new"
-	tableNew.SQL = strings.Replace(alterTable.destTable.SQL, "CREATE TABLE "+tableName, "CREATE TABLE "+tableNameNew, 1)
+	tableNew.SQL = renameCreateTable(alterTable.destTable.SQL, tableNameNew)
 	writeCreateTable(dialect, buf, currentSchema, defaultCollation, &tableNew, true)
 
 	// INSERT INTO "${TableName}_new" SELECT ... FROM "$TableName".
@@ -452,3 +452,40 @@ func (alterTable *sqliteAlterTable) copyTable(buf *bytes.Buffer) {
 		buf.WriteString(trigger.SQL + "\n")
 	}
 }
+
+// renameCreateTable replaces the (possibly quoted) table name of a CREATE TABLE
+// statement. It returns an empty string if it doesn't recognize the statement.
+func renameCreateTable(sql, newName string) string {
+	const prefix = "CREATE TABLE "
+	if !strings.HasPrefix(sql, prefix) {
+		return ""
+	}
+	rest := strings.TrimLeft(sql[len(prefix):], " \t\r\n")
+	if rest == "" {
+		return ""
+	}
+	closingQuote := rest[0]
+	switch closingQuote {
+	case '"', '`', '\'':
+		break
+	case '[':
+		closingQuote = ']'
+	default:
+		i := strings.IndexAny(rest, " \t\r\n(")
+		if i < 0 {
+			return ""
+		}
+		return prefix + newName + rest[i:]
+	}
+	for i := 1; i < len(rest); i++ {
+		if rest[i] != closingQuote {
+			continue
+		}
+		if closingQuote != ']' && i+1 < len(rest) && rest[i+1] == closingQuote {
+			i++
+			continue
+		}
+		return prefix + newName + rest[i+1:]
+	}
+	return ""
+}
-- 
2.43.0


From 80704539d87b1a725092667ed337d44ea2dabb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:25:39 +0000
Subject: [PATCH 11/83] fix: recognize stored generated columns when
 introspecting SQLite

---
 ddl/introspection_scripts/sqlite_columns.sql | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddl/introspection_scripts/sqlite_columns.sql b/ddl/introspection_scripts/sqlite_columns.sql
index 30ed9e5..87bb7d9 100644
--- a/ddl/introspection_scripts/sqlite_columns.sql
+++ b/ddl/introspection_scripts/sqlite_columns.sql
@@ -3,7 +3,7 @@ SELECT
     ,columns.name AS column_name
     ,columns.type AS column_type
     ,columns."notnull" AS is_notnull
-    ,columns.hidden = 2 AS is_generated
+    ,columns.hidden IN (2, 3) AS is_generated
     ,COALESCE(columns.dflt_value, '') AS column_default
 FROM (
     SELECT
-- 
2.43.0


From 6bfa634d3efa8a87d55571daac3c3841cd84cfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:25:47 +0000
Subject: [PATCH 12/83] fix: leave out indexes and tables not meant for SQLite
 when creating or copying tables

---
 ddl/sqlite_migration.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ddl/sqlite_migration.go b/ddl/sqlite_migration.go
index a30edf5..c15251b 100644
--- a/ddl/sqlite_migration.go
+++ b/ddl/sqlite_migration.go
@@ -35,7 +35,7 @@ func newSQLiteMigration(srcCatalog, destCatalog *Catalog, dropObjects bool) sqli
 		if dropObjects {
 			for i := range srcCatalog.Schemas[0].Tables {
 				srcTable := &srcCatalog.Schemas[0].Tables[i]
-				if isVirtualTable(srcTable) {
+				if srcTable.Ignore || isVirtualTable(srcTable) {
 					continue
 				}
 				m.dropTables = append(m.dropTables, srcTable)
@@ -46,7 +46,7 @@ func newSQLiteMigration(srcCatalog, destCatalog *Catalog, dropObjects bool) sqli
 	if len(srcCatalog.Schemas) == 0 {
 		for i := range destCatalog.Schemas[0].Tables {
 			destTable := &destCatalog.Schemas[0].Tables[i]
-			if isVirtualTable(destTable) {
+			if destTable.Ignore || isVirtualTable(destTable) {
 				continue
 			}
 			m.createTables = append(m.createTables, destTable)
@@ -310,6 +310,9 @@ func (m *sqliteMigration) sql(prefix string) (filenames []string, bufs []*bytes.
 		}
 		writeCreateTable(dialect, buf, currentSchema, defaultCollation, table, true)
 		for _, index := range table.Indexes {
+			if index.Ignore {
+				continue
+			}
 			if buf.Len() > 0 {
 				buf.WriteString("\n")
 			}
@@ -430,6 +433,9 @@ func (alterTable *sqliteAlterTable) copyTable(buf *bytes.Buffer) {
 	// CREATE INDEX.
 	for i := range alterTable.destTable.Indexes {
 		destIndex := &alterTable.destTable.Indexes[i]
+		if destIndex.Ignore {
+			continue
+		}
 		if buf.Len() > 0 {
 			buf.WriteString("\n")
 		}
-- 
2.43.0


From 373257678fac9d0e1fcef14eb509f9e6ea1b3bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:25:55 +0000
Subject: [PATCH 13/83] fix: generate valid SQL when a copied SQLite table
 keeps none of its columns

---
 ddl/sqlite_migration.go | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/ddl/sqlite_migration.go b/ddl/sqlite_migration.go
index c15251b..eaa20c2 100644
--- a/ddl/sqlite_migration.go
+++ b/ddl/sqlite_migration.go
@@ -408,21 +408,23 @@ func (alterTable *sqliteAlterTable) copyTable(buf *bytes.Buffer) {
 		}
 		insertColumns = append(insertColumns, srcColumn.ColumnName)
 	}
-	buf.WriteString("INSERT INTO " + tableNameNew + "\n    (")
-	for i, insertColumn := range insertColumns {
-		if i > 0 {
-			buf.WriteString(", ")
+	if len(insertColumns) > 0 {
+		buf.WriteString("INSERT INTO " + tableNameNew + "\n    (")
+		for i, insertColumn := range insertColumns {
+			if i > 0 {
+				buf.WriteString(", ")
+			}
+			buf.WriteString(QuoteIdentifier(dialect, insertColumn))
 		}
-		buf.WriteString(QuoteIdentifier(dialect, insertColumn))
-	}
-	buf.WriteString(")\nSELECT\n    ")
-	for i, insertColumn := range insertColumns {
-		if i > 0 {
-			buf.WriteString(", ")
+		buf.WriteString(")\nSELECT\n    ")
+		for i, insertColumn := range insertColumns {
+			if i > 0 {
+				buf.WriteString(", ")
+			}
+			buf.WriteString(QuoteIdentifier(dialect, insertColumn))
 		}
-		buf.WriteString(QuoteIdentifier(dialect, insertColumn))
+		buf.WriteString("\nFROM\n    " + tableName + "\n;\n")
 	}
-	buf.WriteString("\nFROM\n    " + tableName + "\n;\n")
 
 	// DROP "$TableName".
 	buf.WriteString("DROP TABLE " + tableName + ";\n")
-- 
2.43.0


From 0d0d3f99036ad73b44150e738da98af673592ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:26:15 +0000
Subject: [PATCH 14/83] fix: copy the SQLite table when a dropped column is
 used by a foreign key or generated column

---
 ddl/sqlite_migration.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/ddl/sqlite_migration.go b/ddl/sqlite_migration.go
index eaa20c2..2cc954c 100644
--- a/ddl/sqlite_migration.go
+++ b/ddl/sqlite_migration.go
@@ -265,14 +265,17 @@ func (m *sqliteMigration) sql(prefix string) (filenames []string, bufs []*bytes.
 			copyTable[i], hasCopyTable = true, true
 			continue
 		}
-		for _, constraint := range alterTable.dropConstraints {
-			if constraint.ConstraintType != FOREIGN_KEY || len(constraint.Columns) > 1 {
-				copyTable[i], hasCopyTable = true, true
-				continue
-			}
-			if !alterTable.columnIsDropped[constraint.Columns[0]] {
-				copyTable[i], hasCopyTable = true, true
-				continue
+		if len(alterTable.dropConstraints) > 0 {
+			copyTable[i], hasCopyTable = true, true
+			continue
+		}
+		if len(alterTable.dropColumns) > 0 {
+			// A column that a generated column depends on cannot be dropped.
+			for _, column := range alterTable.srcTable.Columns {
+				if column.IsGenerated || column.GeneratedExpr != "" {
+					copyTable[i], hasCopyTable = true, true
+					break
+				}
 			}
 		}
 		for _, constraint := range alterTable.addConstraints {
-- 
2.43.0


From c5d35e473d09d75aab8e92d6cb85b9125a8f1cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:50:41 +0000
Subject: [PATCH 15/83] fix: copy the SQLite table when all of its columns are
 replaced

---
 ddl/sqlite_migration.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ddl/sqlite_migration.go b/ddl/sqlite_migration.go
index 2cc954c..b10cd1b 100644
--- a/ddl/sqlite_migration.go
+++ b/ddl/sqlite_migration.go
@@ -269,6 +269,11 @@ func (m *sqliteMigration) sql(prefix string) (filenames []string, bufs []*bytes.
 			copyTable[i], hasCopyTable = true, true
 			continue
 		}
+		if len(alterTable.dropColumns) > 0 && len(alterTable.dropColumns) == len(alterTable.srcTable.Columns) {
+			// The last column of a table cannot be dropped.
+			copyTable[i], hasCopyTable = true, true
+			continue
+		}
 		if len(alterTable.dropColumns) > 0 {
 			// A column that a generated column depends on cannot be dropped.
 			for _, column := range alterTable.srcTable.Columns {
-- 
2.43.0


From fa8190473de32790f9d6ced232a5f11df1444826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:28:48 +0000
Subject: [PATCH 16/83] fix: generate a migration when a table only loses
 columns

---
 ddl/mysql_migration.go     | 1 +
 ddl/postgres_migration.go  | 1 +
 ddl/sqlserver_migration.go | 1 +
 3 files changed, 3 insertions(+)

diff --git a/ddl/mysql_migration.go b/ddl/mysql_migration.go
index cdf9584..9f191ca 100644
--- a/ddl/mysql_migration.go
+++ b/ddl/mysql_migration.go
@@ -256,6 +256,7 @@ func newMySQLMigration(srcCatalog, destCatalog *Catalog, dropObjects bool) mysql
 			}
 			if len(alterTable.dropConstraints) > 0 ||
 				len(alterTable.dropIndexes) > 0 ||
+				len(alterTable.dropColumns) > 0 ||
 				len(alterTable.addColumns) > 0 ||
 				len(alterTable.alterColumns) > 0 ||
 				len(alterTable.createIndexes) > 0 ||
diff --git a/ddl/postgres_migration.go b/ddl/postgres_migration.go
index 75da68c..b433258 100644
--- a/ddl/postgres_migration.go
+++ b/ddl/postgres_migration.go
@@ -353,6 +353,7 @@ func newPostgresMigration(srcCatalog, destCatalog *Catalog, dropObjects bool) po
 			}
 			if len(alterTable.dropConstraints) > 0 ||
 				len(alterTable.dropIndexes) > 0 ||
+				len(alterTable.dropColumns) > 0 ||
 				len(alterTable.addColumns) > 0 ||
 				len(alterTable.alterColumns) > 0 ||
 				len(alterTable.alterConstraints) > 0 ||
diff --git a/ddl/sqlserver_migration.go b/ddl/sqlserver_migration.go
index 5d0b1e6..2987692 100644
--- a/ddl/sqlserver_migration.go
+++ b/ddl/sqlserver_migration.go
@@ -433,6 +433,7 @@ func newSQLServerMigration(srcCatalog, destCatalog *Catalog, dropObjects bool) s
 
 			if len(alterTable.dropConstraints) > 0 ||
 				len(alterTable.dropIndexes) > 0 ||
+				len(alterTable.dropColumns) > 0 ||
 				len(alterTable.addColumns) > 0 ||
 				len(alterTable.alterColumns) > 0 ||
 				len(alterTable.createIndexes) > 0 ||
-- 
2.43.0


From b53f9ceb6cec102c3cbd1644391cb3e1ed168abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:28:58 +0000
Subject: [PATCH 17/83] fix: leave out indexes not meant for the dialect when
 creating tables

---
 ddl/mysql_migration.go     | 3 +++
 ddl/postgres_migration.go  | 3 +++
 ddl/sqlserver_migration.go | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/ddl/mysql_migration.go b/ddl/mysql_migration.go
index 9f191ca..5c62ff9 100644
--- a/ddl/mysql_migration.go
+++ b/ddl/mysql_migration.go
@@ -352,6 +352,9 @@ func (m *mysqlMigration) sql(prefix string) (filenames []string, bufs []*bytes.B
 				}
 				writeCreateTable(dialect, buf, m.currentSchema, m.defaultCollation, table, true)
 				for _, index := range table.Indexes {
+					if index.Ignore {
+						continue
+					}
 					if buf.Len() > 0 {
 						buf.WriteString("\n")
 					}
diff --git a/ddl/postgres_migration.go b/ddl/postgres_migration.go
index b433258..8e58a09 100644
--- a/ddl/postgres_migration.go
+++ b/ddl/postgres_migration.go
@@ -444,6 +444,9 @@ func (m *postgresMigration) sql(prefix string) (filenames []string, bufs []*byte
 			}
 			writeCreateTable(dialect, buf, m.currentSchema, m.defaultCollation, table, true)
 			for _, index := range table.Indexes {
+				if index.Ignore {
+					continue
+				}
 				if buf.Len() > 0 {
 					buf.WriteString("\n")
 				}
diff --git a/ddl/sqlserver_migration.go b/ddl/sqlserver_migration.go
index 2987692..e61426c 100644
--- a/ddl/sqlserver_migration.go
+++ b/ddl/sqlserver_migration.go
@@ -569,6 +569,9 @@ func (m *sqlserverMigration) sql(prefix string) (filenames []string, bufs []*byt
 			}
 			writeCreateTable(dialect, buf, m.currentSchema, m.defaultCollation, table, true)
 			for _, index := range table.Indexes {
+				if index.Ignore {
+					continue
+				}
 				if buf.Len() > 0 {
 					buf.WriteString("\n")
 				}
-- 
2.43.0


From fe85872cd5840ad0d59e848709140f033903ba11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:29:07 +0000
Subject: [PATCH 18/83] fix: quote column names when altering Postgres columns

---
 ddl/postgres_migration.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddl/postgres_migration.go b/ddl/postgres_migration.go
index 8e58a09..b017575 100644
--- a/ddl/postgres_migration.go
+++ b/ddl/postgres_migration.go
@@ -514,7 +514,7 @@ func (m *postgresMigration) sql(prefix string) (filenames []string, bufs []*byte
 		// ALTER COLUMN.
 		for _, columns := range alterTable.alterColumns {
 			srcColumn, destColumn := columns[0], columns[1]
-			columnName := destColumn.ColumnName
+			columnName := QuoteIdentifier(dialect, destColumn.ColumnName)
 			srcType, srcArg1, srcArg2 := normalizeColumnType(dialect, srcColumn.ColumnType)
 			destType, destArg1, destArg2 := normalizeColumnType(dialect, destColumn.ColumnType)
 			// Do we need to ALTER TYPE?
-- 
2.43.0


From e49a5170c7972468606407abbdf5dad4d42da157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:30:24 +0000
Subject: [PATCH 19/83] fix: name the right table for each of the Postgres
 foreign keys two tables have on each other

---
 ddl/postgres_migration.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/ddl/postgres_migration.go b/ddl/postgres_migration.go
index b017575..85e24cc 100644
--- a/ddl/postgres_migration.go
+++ b/ddl/postgres_migration.go
@@ -375,10 +375,8 @@ func (m *postgresMigration) sql(prefix string) (filenames []string, bufs []*byte
 		n++
 		fk := *fkeys[0]
 		name := strings.ReplaceAll(fk.TableName, " ", "_") + "_"
-		tableName := QuoteIdentifier(dialect, fk.TableName)
 		if fk.TableSchema != "" && fk.TableSchema != m.currentSchema {
 			name = strings.ReplaceAll(fk.TableSchema, " ", "_") + "_" + name
-			tableName = QuoteIdentifier(dialect, fk.TableSchema) + "." + tableName
 		}
 		if fk.ReferencesSchema != "" && fk.ReferencesSchema != m.currentSchema {
 			name += strings.ReplaceAll(fk.ReferencesSchema, " ", "_") + "_"
@@ -393,6 +391,10 @@ func (m *postgresMigration) sql(prefix string) (filenames []string, bufs []*byte
 			if buf.Len() > 0 {
 				buf.WriteString("\n")
 			}
+			tableName := QuoteIdentifier(dialect, fkey.TableName)
+			if fkey.TableSchema != "" && fkey.TableSchema != m.currentSchema {
+				tableName = QuoteIdentifier(dialect, fkey.TableSchema) + "." + tableName
+			}
 			constraintName := QuoteIdentifier(dialect, fkey.ConstraintName)
 			buf.WriteString("ALTER TABLE " + tableName + " DROP CONSTRAINT IF EXISTS " + constraintName + ";\n")
 		}
@@ -730,10 +732,8 @@ func (m *postgresMigration) sql(prefix string) (filenames []string, bufs []*byte
 		n++
 		fk := *fkeys[0]
 		name := strings.ReplaceAll(fk.TableName, " ", "_") + "_"
-		tableName := QuoteIdentifier(dialect, fk.TableName)
 		if fk.TableSchema != "" && fk.TableSchema != m.currentSchema {
 			name = strings.ReplaceAll(fk.TableSchema, " ", "_") + "_" + name
-			tableName = QuoteIdentifier(dialect, fk.TableSchema) + "." + tableName
 		}
 		if fk.ReferencesSchema != "" && fk.ReferencesSchema != m.currentSchema {
 			name += strings.ReplaceAll(fk.ReferencesSchema, " ", "_") + "_"
@@ -748,6 +748,10 @@ func (m *postgresMigration) sql(prefix string) (filenames []string, bufs []*byte
 			if buf.Len() > 0 {
 				buf.WriteString("\n")
 			}
+			tableName := QuoteIdentifier(dialect, fkey.TableName)
+			if fkey.TableSchema != "" && fkey.TableSchema != m.currentSchema {
+				tableName = QuoteIdentifier(dialect, fkey.TableSchema) + "." + tableName
+			}
 			buf.WriteString("ALTER TABLE " + tableName + " ADD ")
 			writeConstraintDefinition(dialect, buf, m.currentSchema, fkey)
 			buf.WriteString(";\n")
@@ -759,10 +763,8 @@ func (m *postgresMigration) sql(prefix string) (filenames []string, bufs []*byte
 		n++
 		fk := *fkeys[0]
 		name := strings.ReplaceAll(fk.TableName, " ", "_") + "_"
-		tableName := QuoteIdentifier(dialect, fk.TableName)
 		if fk.TableSchema != "" && fk.TableSchema != m.currentSchema {
 			name = strings.ReplaceAll(fk.TableSchema, " ", "_") + "_" + name
-			tableName = QuoteIdentifier(dialect, fk.TableSchema) + "." + tableName
 		}
 		if fk.ReferencesSchema != "" && fk.ReferencesSchema != m.currentSchema {
 			name += strings.ReplaceAll(fk.ReferencesSchema, " ", "_") + "_"
@@ -777,6 +779,10 @@ func (m *postgresMigration) sql(prefix string) (filenames []string, bufs []*byte
 			if buf.Len() > 0 {
 				buf.WriteString("\n")
 			}
+			tableName := QuoteIdentifier(dialect, fkey.TableName)
+			if fkey.TableSchema != "" && fkey.TableSchema != m.currentSchema {
+				tableName = QuoteIdentifier(dialect, fkey.TableSchema) + "." + tableName
+			}
 			buf.WriteString("ALTER TABLE " + tableName + " ADD ")
 			writeConstraintDefinition(dialect, buf, m.currentSchema, fkey)
 			buf.WriteString(" NOT VALID;\n")
@@ -791,6 +797,10 @@ func (m *postgresMigration) sql(prefix string) (filenames []string, bufs []*byte
 			if buf.Len() > 0 {
 				buf.WriteString("\n")
 			}
+			tableName := QuoteIdentifier(dialect, fkey.TableName)
+			if fkey.TableSchema != "" && fkey.TableSchema != m.currentSchema {
+				tableName = QuoteIdentifier(dialect, fkey.TableSchema) + "." + tableName
+			}
 			constraintName := QuoteIdentifier(dialect, fkey.ConstraintName)
 			buf.WriteString("ALTER TABLE " + tableName + " VALIDATE CONSTRAINT " + constraintName + ";\n")
 		}
-- 
2.43.0


From ee0b181c0101e432475bd7951bf8d662e3dca38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:30:33 +0000
Subject: [PATCH 20/83] fix: name the default collation when a Postgres column
 goes back to it

---
 ddl/postgres_migration.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddl/postgres_migration.go b/ddl/postgres_migration.go
index 85e24cc..2d8364c 100644
--- a/ddl/postgres_migration.go
+++ b/ddl/postgres_migration.go
@@ -579,7 +579,7 @@ func (m *postgresMigration) sql(prefix string) (filenames []string, bufs []*byte
 					if buf.Len() > 0 {
 						buf.WriteString("\n")
 					}
-					buf.WriteString("ALTER TABLE " + tableName + " ALTER COLUMN " + columnName + " TYPE " + destColumn.ColumnType + ` COLLATE "` + EscapeQuote(destColumn.CollationName, '"') + `"` + ";\n")
+					buf.WriteString("ALTER TABLE " + tableName + " ALTER COLUMN " + columnName + " TYPE " + destColumn.ColumnType + ` COLLATE "` + EscapeQuote(destCollation, '"') + `"` + ";\n")
 				}
 			}
 			srcDefault := normalizeColumnDefault(dialect, srcColumn.ColumnDefault)
-- 
2.43.0


From e60ccc24d49857eed99af81c45bc701a5a7f30c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:30:42 +0000
Subject: [PATCH 21/83] fix: do not alter Postgres constraints that are not
 foreign keys

---
 ddl/postgres_migration.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ddl/postgres_migration.go b/ddl/postgres_migration.go
index 2d8364c..582a9e4 100644
--- a/ddl/postgres_migration.go
+++ b/ddl/postgres_migration.go
@@ -337,7 +337,10 @@ func newPostgresMigration(srcCatalog, destCatalog *Catalog, dropObjects bool) po
 					}
 					continue
 				}
-				// ALTER CONSTRAINT.
+				// ALTER CONSTRAINT (only foreign keys can be altered).
+				if destConstraint.ConstraintType != FOREIGN_KEY {
+					continue
+				}
 				if srcConstraint.IsDeferrable != destConstraint.IsDeferrable || srcConstraint.IsInitiallyDeferred != destConstraint.IsInitiallyDeferred {
 					alterTable.alterConstraints = append(alterTable.alterConstraints, [2]*Constraint{srcConstraint, destConstraint})
 				}
-- 
2.43.0


From 72fdeabbf64c1e2aefd23539bea3ba4d54b24bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:30:52 +0000
Subject: [PATCH 22/83] fix: keep a Postgres key deferrable when it is added to
 an existing table

---
 ddl/postgres_migration.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ddl/postgres_migration.go b/ddl/postgres_migration.go
index 582a9e4..484316a 100644
--- a/ddl/postgres_migration.go
+++ b/ddl/postgres_migration.go
@@ -726,7 +726,14 @@ func (m *postgresMigration) sql(prefix string) (filenames []string, bufs []*byte
 			buf = bufpool.Get().(*bytes.Buffer)
 			buf.Reset()
 			bufs = append(bufs, buf)
-			buf.WriteString("ALTER TABLE " + tableName + " ADD CONSTRAINT " + constraintName + " " + addKeyConstraint.ConstraintType + " USING INDEX " + constraintName + ";\n")
+			buf.WriteString("ALTER TABLE " + tableName + " ADD CONSTRAINT " + constraintName + " " + addKeyConstraint.ConstraintType + " USING INDEX " + constraintName)
+			if addKeyConstraint.IsDeferrable {
+				buf.WriteString(" DEFERRABLE")
+				if addKeyConstraint.IsInitiallyDeferred {
+					buf.WriteString(" INITIALLY DEFERRED")
+				}
+			}
+			buf.WriteString(";\n")
 		}
 	}
 
-- 
2.43.0


From 63b75f7c36c37c88bca2f2234f5129f70a00901a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:31:01 +0000
Subject: [PATCH 23/83] fix: drop a Postgres identity before setting a default
 or dropping NOT NULL, add it after NOT NULL

---
 ddl/postgres_migration.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/ddl/postgres_migration.go b/ddl/postgres_migration.go
index 484316a..84b3cf7 100644
--- a/ddl/postgres_migration.go
+++ b/ddl/postgres_migration.go
@@ -585,6 +585,14 @@ func (m *postgresMigration) sql(prefix string) (filenames []string, bufs []*byte
 					buf.WriteString("ALTER TABLE " + tableName + " ALTER COLUMN " + columnName + " TYPE " + destColumn.ColumnType + ` COLLATE "` + EscapeQuote(destCollation, '"') + `"` + ";\n")
 				}
 			}
+			// Do we need to remove IDENTITY? An identity column can have neither
+			// a DEFAULT nor be NULL.
+			if srcColumn.ColumnIdentity != "" && destColumn.ColumnIdentity == "" {
+				if buf.Len() > 0 {
+					buf.WriteString("\n")
+				}
+				buf.WriteString("ALTER TABLE " + tableName + " ALTER COLUMN " + columnName + " DROP IDENTITY;\n")
+			}
 			srcDefault := normalizeColumnDefault(dialect, srcColumn.ColumnDefault)
 			destDefault := normalizeColumnDefault(dialect, destColumn.ColumnDefault)
 			// Do we need to remove DEFAULT? Or do we need to add/change it?
@@ -599,6 +607,7 @@ func (m *postgresMigration) sql(prefix string) (filenames []string, bufs []*byte
 				}
 				buf.WriteString("ALTER TABLE " + tableName + " ALTER COLUMN " + columnName + " SET DEFAULT " + destDefault + ";\n")
 			}
+			notNullPending := false
 			// Do we need to remove NOT NULL? Or do we need to add it?
 			if srcColumn.IsNotNull && !destColumn.IsNotNull {
 				if buf.Len() > 0 {
@@ -613,17 +622,14 @@ func (m *postgresMigration) sql(prefix string) (filenames []string, bufs []*byte
 					warnings = append(warnings, fmt.Sprintf("%s: setting NOT NULL on column %q is unsafe for large tables. Upgrade to Postgres 12+ to avoid this issue", tableName, columnName))
 					buf.WriteString("ALTER TABLE " + tableName + " ALTER COLUMN " + columnName + " SET NOT NULL;\n")
 				} else {
+					notNullPending = true
 					constraintName := QuoteIdentifier(dialect, destColumn.TableName+"_"+destColumn.ColumnName+"_not_null_check")
 					buf.WriteString("ALTER TABLE " + tableName + " ADD CONSTRAINT " + constraintName + " CHECK (" + columnName + " IS NOT NULL) NOT VALID;\n")
 				}
 			}
-			// Do we need to remove IDENTITY? Or do we need to add it?
-			if srcColumn.ColumnIdentity != "" && destColumn.ColumnIdentity == "" {
-				if buf.Len() > 0 {
-					buf.WriteString("\n")
-				}
-				buf.WriteString("ALTER TABLE " + tableName + " ALTER COLUMN " + columnName + " DROP IDENTITY;\n")
-			} else if srcColumn.ColumnIdentity == "" && destColumn.ColumnIdentity != "" {
+			// Do we need to add IDENTITY? If the column has yet to become NOT
+			// NULL it is added after that.
+			if srcColumn.ColumnIdentity == "" && destColumn.ColumnIdentity != "" && !notNullPending {
 				if buf.Len() > 0 {
 					buf.WriteString("\n")
 				}
@@ -666,6 +672,9 @@ func (m *postgresMigration) sql(prefix string) (filenames []string, bufs []*byte
 				buf.WriteString("ALTER TABLE " + tableName + " VALIDATE CONSTRAINT " + constraintName + ";\n")
 				buf.WriteString("ALTER TABLE " + tableName + " ALTER COLUMN " + columnName + " SET NOT NULL;\n")
 				buf.WriteString("ALTER TABLE " + tableName + " DROP CONSTRAINT " + constraintName + ";\n")
+				if column.ColumnIdentity != "" {
+					buf.WriteString("ALTER TABLE " + tableName + " ALTER COLUMN " + columnName + " ADD " + column.ColumnIdentity + ";\n")
+				}
 			}
 		}
 
-- 
2.43.0


From 5d04042870a7ddf21ad4acdf2fd040b747805d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:33:22 +0000
Subject: [PATCH 24/83] fix: drop generated columns before the columns they
 depend on

---
 ddl/postgres_migration.go  | 6 +++++-
 ddl/sqlserver_migration.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/ddl/postgres_migration.go b/ddl/postgres_migration.go
index 84b3cf7..2de4a46 100644
--- a/ddl/postgres_migration.go
+++ b/ddl/postgres_migration.go
@@ -3,6 +3,7 @@ package ddl
 import (
 	"bytes"
 	"fmt"
+	"sort"
 	"strconv"
 	"strings"
 )
@@ -493,7 +494,10 @@ func (m *postgresMigration) sql(prefix string) (filenames []string, bufs []*byte
 			constraintName := QuoteIdentifier(dialect, constraint.ConstraintName)
 			buf.WriteString("ALTER TABLE " + tableName + " DROP CONSTRAINT IF EXISTS " + constraintName + ";\n")
 		}
-		// DROP COLUMN.
+		// DROP COLUMN (generated columns go before the columns they depend on).
+		sort.SliceStable(alterTable.dropColumns, func(i, j int) bool {
+			return alterTable.dropColumns[i].IsGenerated && !alterTable.dropColumns[j].IsGenerated
+		})
 		for _, column := range alterTable.dropColumns {
 			if buf.Len() > 0 {
 				buf.WriteString("\n")
diff --git a/ddl/sqlserver_migration.go b/ddl/sqlserver_migration.go
index e61426c..11be545 100644
--- a/ddl/sqlserver_migration.go
+++ b/ddl/sqlserver_migration.go
@@ -3,6 +3,7 @@ package ddl
 import (
 	"bytes"
 	"fmt"
+	"sort"
 	"strings"
 )
 
@@ -623,7 +624,10 @@ func (m *sqlserverMigration) sql(prefix string) (filenames []string, bufs []*byt
 			buf.WriteString("ALTER TABLE " + tableName + " DROP CONSTRAINT " + constraintName + ";\n")
 		}
 
-		// DROP COLUMN.
+		// DROP COLUMN (generated columns go before the columns they depend on).
+		sort.SliceStable(alterTable.dropColumns, func(i, j int) bool {
+			return alterTable.dropColumns[i].IsGenerated && !alterTable.dropColumns[j].IsGenerated
+		})
 		for _, column := range alterTable.dropColumns {
 			if buf.Len() > 0 {
 				buf.WriteString("\n")
-- 
2.43.0


From a6416d012cc1414d2457c9c67acbbbefe640354f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:33:31 +0000
Subject: [PATCH 25/83] fix: warn when a Postgres column without a limit gets
 one or a scale becomes 0

---
 ddl/postgres_migration.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ddl/postgres_migration.go b/ddl/postgres_migration.go
index 2de4a46..a86aeac 100644
--- a/ddl/postgres_migration.go
+++ b/ddl/postgres_migration.go
@@ -547,18 +547,18 @@ func (m *postgresMigration) sql(prefix string) (filenames []string, bufs []*byte
 				case [2]string{"VARCHAR", "VARCHAR"}:
 					srcLimit, _ := strconv.Atoi(srcArg1)
 					destLimit, _ := strconv.Atoi(destArg1)
-					if srcLimit > 0 && destLimit > 0 && destLimit < srcLimit {
+					if destLimit > 0 && (srcLimit == 0 || destLimit < srcLimit) {
 						warnings = append(warnings, fmt.Sprintf("%s: column %q decreasing limit from %q to %q is unsafe", tableName, columnName, srcColumn.ColumnType, destColumn.ColumnType))
 					}
 				case [2]string{"NUMERIC", "NUMERIC"}:
 					srcScale, _ := strconv.Atoi(srcArg2)
 					destScale, _ := strconv.Atoi(destArg2)
-					if srcScale != destScale && destScale != 0 {
+					if srcScale != destScale && destArg1 != "" {
 						warnings = append(warnings, fmt.Sprintf("%s: column %q changing scale from %q to %q is unsafe", tableName, columnName, srcColumn.ColumnType, destColumn.ColumnType))
 					}
 					srcPrecision, _ := strconv.Atoi(srcArg1)
 					destPrecision, _ := strconv.Atoi(destArg1)
-					if srcPrecision > 0 && destPrecision > 0 && destPrecision < srcPrecision {
+					if destPrecision > 0 && (srcPrecision == 0 || destPrecision < srcPrecision) {
 						warnings = append(warnings, fmt.Sprintf("%s: column %q decreasing precision from %q to %q is unsafe", tableName, columnName, srcColumn.ColumnType, destColumn.ColumnType))
 					}
 				default:
-- 
2.43.0


From 01de1ddc7cf00125fea4ee4ae4213e43fee17baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:33:40 +0000
Subject: [PATCH 26/83] fix: do not cut Postgres column defaults in the middle
 of a function call

---
 ddl/ddl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddl/ddl.go b/ddl/ddl.go
index 8a07751..7bbe6b3 100644
--- a/ddl/ddl.go
+++ b/ddl/ddl.go
@@ -898,7 +898,7 @@ func normalizeColumnDefault(dialect string, columnDefault string) (normalizedDef
 		if upperDefault == "NOW()" {
 			return "CURRENT_TIMESTAMP"
 		}
-		if before, _, found := strings.Cut(columnDefault, "::"); found {
+		if before, _, found := strings.Cut(columnDefault, "::"); found && !strings.Contains(before, "(") {
 			return before
 		}
 	case DialectMySQL:
-- 
2.43.0


From 3451297a81172b3412efeee1ed2f80e09e7b6e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:33:49 +0000
Subject: [PATCH 27/83] fix: alter a MySQL column when it gains or loses
 AUTO_INCREMENT

---
 ddl/mysql_migration.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ddl/mysql_migration.go b/ddl/mysql_migration.go
index 5c62ff9..cac7c74 100644
--- a/ddl/mysql_migration.go
+++ b/ddl/mysql_migration.go
@@ -194,6 +194,9 @@ func newMySQLMigration(srcCatalog, destCatalog *Catalog, dropObjects bool) mysql
 					if (srcColumn.ColumnIdentity != "" && destColumn.ColumnIdentity == "") || (srcColumn.ColumnIdentity == "" && destColumn.ColumnIdentity != "") {
 						return true
 					}
+					if srcColumn.IsAutoincrement != destColumn.IsAutoincrement {
+						return true
+					}
 					srcCollation := srcColumn.CollationName
 					if srcCollation == "" {
 						srcCollation = m.defaultCollation
-- 
2.43.0


From b47b0819e949400ee98afac4eb3f77f25d14fce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:33:57 +0000
Subject: [PATCH 28/83] fix: write valid MySQL index types

---
 ddl/dump_cmd.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/ddl/dump_cmd.go b/ddl/dump_cmd.go
index 8bbcbd5..0e3e77d 100644
--- a/ddl/dump_cmd.go
+++ b/ddl/dump_cmd.go
@@ -1111,7 +1111,7 @@ func writeCreateIndex(dialect string, buf *bytes.Buffer, currentSchema string, i
 func writeIndexDefinition(dialect string, buf *bytes.Buffer, currentSchema string, index *Index, createConcurrently, createInline bool) {
 	var isFulltextOrSpatialIndex bool
 	if dialect == DialectMySQL {
-		if strings.EqualFold(index.IndexType, "FULLTEXT") || strings.EqualFold(index.IndexName, "SPATIAL") {
+		if strings.EqualFold(index.IndexType, "FULLTEXT") || strings.EqualFold(index.IndexType, "SPATIAL") {
 			isFulltextOrSpatialIndex = true
 		}
 	}
@@ -1127,10 +1127,7 @@ func writeIndexDefinition(dialect string, buf *bytes.Buffer, currentSchema strin
 	}
 	buf.WriteString(indexName)
 	if index.IndexType != "" && dialect == DialectMySQL && !strings.EqualFold(index.IndexType, "BTREE") && !isFulltextOrSpatialIndex {
-		if !createInline {
-			buf.WriteString(" USING")
-		}
-		buf.WriteString(" " + index.IndexType)
+		buf.WriteString(" USING " + index.IndexType)
 	}
 	if !createInline {
 		buf.WriteString(" ON ")
-- 
2.43.0


From 13d86c39e8da3882d365a3f321a617b235fd1614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:35:03 +0000
Subject: [PATCH 29/83] fix: recreate what depends on altered SQL Server
 columns exactly once

---
 ddl/sqlserver_migration.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ddl/sqlserver_migration.go b/ddl/sqlserver_migration.go
index 11be545..0dcabab 100644
--- a/ddl/sqlserver_migration.go
+++ b/ddl/sqlserver_migration.go
@@ -405,11 +405,13 @@ func newSQLServerMigration(srcCatalog, destCatalog *Catalog, dropObjects bool) s
 					}
 					alterTable.dropIndexes = append(alterTable.dropIndexes, index)
 					alterTable.createIndexes = append(alterTable.createIndexes, index)
+					droppedIndex[index] = true
 				}
 				for _, constraint := range columnConstraintDependencies[columnName] {
 					if droppedConstraint[constraint] {
 						continue
 					}
+					droppedConstraint[constraint] = true
 					switch constraint.ConstraintType {
 					case PRIMARY_KEY, UNIQUE:
 						alterTable.dropConstraints = append(alterTable.dropConstraints, constraint)
@@ -422,11 +424,13 @@ func newSQLServerMigration(srcCatalog, destCatalog *Catalog, dropObjects bool) s
 							m.dropFkeys[n1] = append(m.dropFkeys[n1], constraint)
 						} else {
 							m.dropFkeys = append(m.dropFkeys, []*Constraint{constraint})
+							dropFkeysPos[tablesID] = len(m.dropFkeys) - 1
 						}
 						if ok2 {
-							m.addFkeys[n2] = append(m.addFastFkeys[n2], constraint)
+							m.addFkeys[n2] = append(m.addFkeys[n2], constraint)
 						} else {
 							m.addFkeys = append(m.addFkeys, []*Constraint{constraint})
+							addFkeysPos[tablesID] = len(m.addFkeys) - 1
 						}
 					}
 				}
-- 
2.43.0


From 118e4cc76bdb583bd24de1646f4901de40be5844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:35:12 +0000
Subject: [PATCH 30/83] fix: name the table in the SQL Server identity warning

---
 ddl/sqlserver_migration.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddl/sqlserver_migration.go b/ddl/sqlserver_migration.go
index 0dcabab..4f8d6f0 100644
--- a/ddl/sqlserver_migration.go
+++ b/ddl/sqlserver_migration.go
@@ -285,7 +285,7 @@ func newSQLServerMigration(srcCatalog, destCatalog *Catalog, dropObjects bool) s
 				if srcColumn.ColumnIdentity == "" && destColumn.ColumnIdentity != "" {
 					tableName := QuoteIdentifier(dialect, destTable.TableName)
 					if destSchema.SchemaName != "" && destSchema.SchemaName != m.currentSchema {
-						tableName = QuoteIdentifier(dialect, destSchema.SchemaName) + "."
+						tableName = QuoteIdentifier(dialect, destSchema.SchemaName) + "." + tableName
 					}
 					columnName := QuoteIdentifier(dialect, destColumn.ColumnName)
 					m.warnings = append(m.warnings, fmt.Sprintf("%s: column %s: identity cannot be added to an existing column, skipping", tableName, columnName))
-- 
2.43.0


From 39001147a9811c01376d7a2fd793e2b73fe97f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:36:41 +0000
Subject: [PATCH 31/83] fix: put SQL Server columns back to the default
 collation

---
 ddl/sqlserver_migration.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ddl/sqlserver_migration.go b/ddl/sqlserver_migration.go
index 4f8d6f0..8f49f9e 100644
--- a/ddl/sqlserver_migration.go
+++ b/ddl/sqlserver_migration.go
@@ -680,7 +680,8 @@ func (m *sqlserverMigration) sql(prefix string) (filenames []string, bufs []*byt
 					nullability = "NULL"
 				}
 			}
-			if alterType || collation != "" || nullability != "" {
+			resetCollation := collation == "" && srcColumn.CollationName != "" && srcColumn.CollationName != m.defaultCollation
+			if alterType || collation != "" || resetCollation || nullability != "" {
 				if alterType {
 					warnings = append(warnings, fmt.Sprintf("%s: column %s changing type from %q to %q may be unsafe", tableName, columnName, srcColumn.ColumnType, destColumn.ColumnType))
 				}
-- 
2.43.0


From ec9114bd94d4bf58e6eaded98d70a99acd467464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:36:49 +0000
Subject: [PATCH 32/83] fix: make SQL Server columns NOT NULL before adding a
 primary key on them

---
 ddl/sqlserver_migration.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ddl/sqlserver_migration.go b/ddl/sqlserver_migration.go
index 8f49f9e..7af0260 100644
--- a/ddl/sqlserver_migration.go
+++ b/ddl/sqlserver_migration.go
@@ -304,6 +304,13 @@ func newSQLServerMigration(srcCatalog, destCatalog *Catalog, dropObjects bool) s
 					if srcColumn.IsNotNull != destColumn.IsNotNull {
 						return true
 					}
+					if destPkey := destCache.GetPrimaryKey(destTable); destPkey != nil && !srcColumn.IsNotNull {
+						for _, columnName := range destPkey.Columns {
+							if columnName == destColumn.ColumnName {
+								return true
+							}
+						}
+					}
 					srcCollation := srcColumn.CollationName
 					if srcCollation == "" {
 						srcCollation = m.defaultCollation
-- 
2.43.0


From 50e4376bca0295f4c346de2b6ccace05c7f221ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:37:19 +0000
Subject: [PATCH 33/83] fix: drop the default of a SQL Server column before
 dropping the column

---
 ddl/sqlserver_migration.go | 43 +++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/ddl/sqlserver_migration.go b/ddl/sqlserver_migration.go
index 7af0260..c51f30e 100644
--- a/ddl/sqlserver_migration.go
+++ b/ddl/sqlserver_migration.go
@@ -475,6 +475,27 @@ func (m *sqlserverMigration) sql(prefix string) (filenames []string, bufs []*byt
 		return b.String()
 	}
 
+	// dropDefault drops the default constraint of a column.
+	dropDefault := func(buf *bytes.Buffer, alterTable sqlserverAlterTable, tableName, columnName string) {
+		// https://stackoverflow.com/a/49393082/3030828
+		buf.WriteString(`BEGIN
+    DECLARE @name NVARCHAR(255);
+    SELECT
+        @name = default_constraints.name
+    FROM
+        sys.default_constraints
+        JOIN sys.tables ON tables.object_id = default_constraints.parent_object_id
+        JOIN sys.columns ON columns.column_id = default_constraints.parent_column_id
+    WHERE
+        SCHEMA_NAME(tables.schema_id) = '` + EscapeQuote(alterTable.tableSchema, '\'') + `'
+        AND tables.name = '` + EscapeQuote(alterTable.tableName, '\'') + `'
+        AND columns.name = '` + EscapeQuote(columnName, '\'') + `'
+    ;
+    EXEC('ALTER TABLE ` + EscapeQuote(tableName, '\'') + ` DROP CONSTRAINT ' + @name);
+END;
+`)
+	}
+
 	// DROP FOREIGN KEY.
 	for _, fkeys := range m.dropFkeys {
 		n++
@@ -644,6 +665,10 @@ func (m *sqlserverMigration) sql(prefix string) (filenames []string, bufs []*byt
 				buf.WriteString("\n")
 			}
 			columnName := QuoteIdentifier(dialect, column.ColumnName)
+			if column.ColumnDefault != "" {
+				dropDefault(buf, alterTable, tableName, column.ColumnName)
+				buf.WriteString("\n")
+			}
 			buf.WriteString("ALTER TABLE " + tableName + " DROP COLUMN " + columnName + ";\n")
 		}
 
@@ -712,23 +737,7 @@ func (m *sqlserverMigration) sql(prefix string) (filenames []string, bufs []*byt
 					if buf.Len() > 0 {
 						buf.WriteString("\n")
 					}
-					// https://stackoverflow.com/a/49393082/3030828
-					buf.WriteString(`BEGIN
-    DECLARE @name NVARCHAR(255);
-    SELECT
-        @name = default_constraints.name
-    FROM
-        sys.default_constraints
-        JOIN sys.tables ON tables.object_id = default_constraints.parent_object_id
-        JOIN sys.columns ON columns.column_id = default_constraints.parent_column_id
-    WHERE
-        SCHEMA_NAME(tables.schema_id) = '` + EscapeQuote(alterTable.tableSchema, '\'') + `'
-        AND tables.name = '` + EscapeQuote(alterTable.tableName, '\'') + `'
-        AND columns.name = '` + EscapeQuote(destColumn.ColumnName, '\'') + `'
-    ;
-    EXEC('ALTER TABLE ` + EscapeQuote(tableName, '\'') + ` DROP CONSTRAINT ' + @name);
-END;
-`)
+					dropDefault(buf, alterTable, tableName, destColumn.ColumnName)
 				}
 				if destDefault != "" {
 					// ADD
-- 
2.43.0


From 08d00e66eddc7044c9377f9b8d8df1aff3db2d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:37:54 +0000
Subject: [PATCH 34/83] fix: do not declare the same variable twice when
 dropping several SQL Server defaults

---
 ddl/sqlserver_migration.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ddl/sqlserver_migration.go b/ddl/sqlserver_migration.go
index c51f30e..a255d9c 100644
--- a/ddl/sqlserver_migration.go
+++ b/ddl/sqlserver_migration.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"sort"
+	"strconv"
 	"strings"
 )
 
@@ -477,11 +478,16 @@ func (m *sqlserverMigration) sql(prefix string) (filenames []string, bufs []*byt
 
 	// dropDefault drops the default constraint of a column.
 	dropDefault := func(buf *bytes.Buffer, alterTable sqlserverAlterTable, tableName, columnName string) {
+		// A variable can only be declared once per batch.
+		variable := "@name"
+		if count := bytes.Count(buf.Bytes(), []byte("DECLARE @name")); count > 0 {
+			variable += strconv.Itoa(count + 1)
+		}
 		// https://stackoverflow.com/a/49393082/3030828
 		buf.WriteString(`BEGIN
-    DECLARE @name NVARCHAR(255);
+    DECLARE ` + variable + ` NVARCHAR(255);
     SELECT
-        @name = default_constraints.name
+        ` + variable + ` = default_constraints.name
     FROM
         sys.default_constraints
         JOIN sys.tables ON tables.object_id = default_constraints.parent_object_id
@@ -491,7 +497,7 @@ func (m *sqlserverMigration) sql(prefix string) (filenames []string, bufs []*byt
         AND tables.name = '` + EscapeQuote(alterTable.tableName, '\'') + `'
         AND columns.name = '` + EscapeQuote(columnName, '\'') + `'
     ;
-    EXEC('ALTER TABLE ` + EscapeQuote(tableName, '\'') + ` DROP CONSTRAINT ' + @name);
+    EXEC('ALTER TABLE ` + EscapeQuote(tableName, '\'') + ` DROP CONSTRAINT ' + ` + variable + `);
 END;
 `)
 	}
-- 
2.43.0


From 4a668fbddb2f35755a2b611439f34047037cd8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:38:04 +0000
Subject: [PATCH 35/83] fix: drop and add the default of a SQL Server column
 around altering it

---
 ddl/sqlserver_migration.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ddl/sqlserver_migration.go b/ddl/sqlserver_migration.go
index a255d9c..1a64702 100644
--- a/ddl/sqlserver_migration.go
+++ b/ddl/sqlserver_migration.go
@@ -697,6 +697,8 @@ END;
 			columnName := QuoteIdentifier(dialect, destColumn.ColumnName)
 			srcType, srcArg1, srcArg2 := normalizeColumnType(dialect, srcColumn.ColumnType)
 			destType, destArg1, destArg2 := normalizeColumnType(dialect, destColumn.ColumnType)
+			srcDefault := normalizeColumnDefault(dialect, srcColumn.ColumnDefault)
+			destDefault := normalizeColumnDefault(dialect, destColumn.ColumnDefault)
 			// ALTER TYPE
 			alterType := false
 			if [3]string{srcType, srcArg1, srcArg2} != [3]string{destType, destArg1, destArg2} {
@@ -726,6 +728,12 @@ END;
 				if buf.Len() > 0 {
 					buf.WriteString("\n")
 				}
+				// A column cannot be altered while it has a default.
+				if srcDefault != "" {
+					dropDefault(buf, alterTable, tableName, destColumn.ColumnName)
+					buf.WriteString("\n")
+					srcDefault = ""
+				}
 				buf.WriteString("ALTER TABLE " + tableName + " ALTER COLUMN " + columnName + " " + destColumn.ColumnType)
 				if collation != "" {
 					buf.WriteString(" COLLATE " + collation)
@@ -735,8 +743,6 @@ END;
 				}
 				buf.WriteString(";\n")
 			}
-			srcDefault := normalizeColumnDefault(dialect, srcColumn.ColumnDefault)
-			destDefault := normalizeColumnDefault(dialect, destColumn.ColumnDefault)
 			// Do we need to remove DEFAULT? Or do we need to add/change it?
 			if srcDefault != destDefault {
 				if srcDefault != "" {
-- 
2.43.0


From 6f6c09901c0f10dff4828f87aff3ca81def99d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:40:53 +0000
Subject: [PATCH 36/83] fix: recreate SQL Server indexes that include an
 altered column

---
 ddl/sqlserver_migration.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ddl/sqlserver_migration.go b/ddl/sqlserver_migration.go
index 1a64702..32623ea 100644
--- a/ddl/sqlserver_migration.go
+++ b/ddl/sqlserver_migration.go
@@ -395,6 +395,9 @@ func newSQLServerMigration(srcCatalog, destCatalog *Catalog, dropObjects bool) s
 				for _, column := range srcIndex.Columns {
 					columnIndexDependencies[column] = append(columnIndexDependencies[column], srcIndex)
 				}
+				for _, column := range srcIndex.IncludeColumns {
+					columnIndexDependencies[column] = append(columnIndexDependencies[column], srcIndex)
+				}
 			}
 			for k := range srcTable.Constraints {
 				srcConstraint := &srcTable.Constraints[k]
-- 
2.43.0


From 94aaf6d3a1faac3052722dd34e53f43d531bbb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:41:01 +0000
Subject: [PATCH 37/83] fix: recreate SQL Server foreign keys that refer to an
 altered column

---
 ddl/sqlserver_migration.go | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/ddl/sqlserver_migration.go b/ddl/sqlserver_migration.go
index 32623ea..4864470 100644
--- a/ddl/sqlserver_migration.go
+++ b/ddl/sqlserver_migration.go
@@ -458,6 +458,42 @@ func newSQLServerMigration(srcCatalog, destCatalog *Catalog, dropObjects bool) s
 			}
 		}
 	}
+
+	// Foreign keys that refer to an altered column have to be dropped and
+	// recreated as well.
+	droppedFkey := make(map[*Constraint]bool)
+	for _, fkeys := range m.dropFkeys {
+		for _, fkey := range fkeys {
+			droppedFkey[fkey] = true
+		}
+	}
+	isAltered := make(map[[3]string]bool)
+	for _, alterTable := range m.alterTables {
+		for _, columnpair := range alterTable.alterColumns {
+			isAltered[[3]string{alterTable.tableSchema, alterTable.tableName, columnpair[0].ColumnName}] = true
+		}
+	}
+	for i := range srcCatalog.Schemas {
+		for j := range srcCatalog.Schemas[i].Tables {
+			for _, srcFkey := range srcCache.GetForeignKeys(&srcCatalog.Schemas[i].Tables[j]) {
+				referencesSchema := srcFkey.ReferencesSchema
+				if referencesSchema == "" {
+					referencesSchema = m.currentSchema
+				}
+				if referencesSchema == "" {
+					referencesSchema = "dbo"
+				}
+				for _, column := range srcFkey.ReferencesColumns {
+					if droppedFkey[srcFkey] || !isAltered[[3]string{referencesSchema, srcFkey.ReferencesTable, column}] {
+						continue
+					}
+					droppedFkey[srcFkey] = true
+					m.dropFkeys = append(m.dropFkeys, []*Constraint{srcFkey})
+					m.addFkeys = append(m.addFkeys, []*Constraint{srcFkey})
+				}
+			}
+		}
+	}
 	return m
 }
 
-- 
2.43.0


From 5269bab6939030dd4b0a2d471cb33771bf4a9c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:45:23 +0000
Subject: [PATCH 38/83] fix: number generated files so that more than 99 of
 them sort in order

---
 ddl/generate_cmd.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/ddl/generate_cmd.go b/ddl/generate_cmd.go
index 30029d5..c62f05f 100644
--- a/ddl/generate_cmd.go
+++ b/ddl/generate_cmd.go
@@ -274,9 +274,22 @@ func (cmd *GenerateCmd) Results() (files []fs.File, warnings []string, err error
 	default:
 		return nil, nil, fmt.Errorf("unsupported dialect %q", cmd.SrcCatalog.Dialect)
 	}
+	// Past 99 files the file numbers need more digits, otherwise the files do
+	// not sort in the order they should be run.
+	width := 0
+	for _, filename := range filenames {
+		number, _, _ := strings.Cut(strings.TrimPrefix(filename, prefix+"_"), "_")
+		if len(number) > width {
+			width = len(number)
+		}
+	}
 	files = make([]fs.File, len(filenames))
 	for i, filename := range filenames {
 		buf := bufs[i]
+		number, rest, _ := strings.Cut(strings.TrimPrefix(filename, prefix+"_"), "_")
+		if len(number) < width {
+			filename = prefix + "_" + strings.Repeat("0", width-len(number)) + number + "_" + rest
+		}
 		files[i] = &bufferFile{
 			name: filename,
 			size: int64(buf.Len()),
-- 
2.43.0


From a35c4e1898f28cdc95bfeee82faf3bc584b2ec7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:17:13 +0000
Subject: [PATCH 39/83] fix: drop overloaded Postgres routines by their
 arguments when wiping

DROP FUNCTION with only a name fails if several functions share it, so a
database with overloaded routines could not be wiped.
---
 ddl/wipe_cmd.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ddl/wipe_cmd.go b/ddl/wipe_cmd.go
index 7d71401..61d27a5 100644
--- a/ddl/wipe_cmd.go
+++ b/ddl/wipe_cmd.go
@@ -196,7 +196,8 @@ func (cmd *WipeCmd) Run() error {
 			}
 			cmd.buf.WriteString(QuoteIdentifier(cmd.Dialect, routine.RoutineName))
 			if cmd.Dialect == DialectPostgres {
-				cmd.buf.WriteString(" CASCADE")
+				// The name alone is ambiguous if the routine is overloaded.
+				cmd.buf.WriteString("(" + routine.IdentityArguments + ") CASCADE")
 			}
 			cmd.buf.WriteString(";\n")
 		}
-- 
2.43.0


From 5f4a13a6a2730cfdb116298e1b402eecdd7232c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:17:51 +0000
Subject: [PATCH 40/83] fix: wipe SQLite databases whose foreign keys are
 enforced

Dropping a table deletes its rows first, and with foreign keys enforced the
referential actions of other tables could make that fail.
---
 ddl/wipe_cmd.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/ddl/wipe_cmd.go b/ddl/wipe_cmd.go
index 61d27a5..a9584c5 100644
--- a/ddl/wipe_cmd.go
+++ b/ddl/wipe_cmd.go
@@ -157,7 +157,7 @@ func (cmd *WipeCmd) Run() error {
 		if cmd.buf.Len() > 0 {
 			cmd.buf.WriteString("\n")
 		}
-		cmd.buf.WriteString("PRAGMA defer_foreign_keys = 1;\n")
+		cmd.buf.WriteString("PRAGMA foreign_keys = 0;\n")
 	}
 	for _, table := range tables {
 		if cmd.buf.Len() > 0 {
@@ -276,8 +276,31 @@ func (cmd *WipeCmd) Run() error {
 		return nil
 	}
 
+	// If SQLite enforces foreign keys, dropping a table first deletes its rows
+	// which triggers the referential actions of the tables that refer to it.
+	// It can only be turned off outside of a transaction.
+	conn, err := cmd.DB.Conn(cmd.Ctx)
+	if err != nil {
+		return err
+	}
+	defer conn.Close()
+	if cmd.Dialect == DialectSQLite {
+		var enforced bool
+		err = conn.QueryRowContext(cmd.Ctx, "PRAGMA foreign_keys").Scan(&enforced)
+		if err != nil {
+			return err
+		}
+		if enforced {
+			_, err = conn.ExecContext(cmd.Ctx, "PRAGMA foreign_keys = 0")
+			if err != nil {
+				return err
+			}
+			defer conn.ExecContext(context.Background(), "PRAGMA foreign_keys = 1")
+		}
+	}
+
 	// Otherwise, run the queries in a transaction.
-	tx, err := cmd.DB.BeginTx(cmd.Ctx, nil)
+	tx, err := conn.BeginTx(cmd.Ctx, nil)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 2214fdf60a4fc0d73367ddbfa7c5dcbc43ecd920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:28:09 +0000
Subject: [PATCH 41/83] fix: insert with a negative batch size as if none was
 given

---
 ddl/batch_insert.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddl/batch_insert.go b/ddl/batch_insert.go
index c01acc7..08281e6 100644
--- a/ddl/batch_insert.go
+++ b/ddl/batch_insert.go
@@ -316,7 +316,7 @@ func (bi *BatchInsert) ExecContext(ctx context.Context, db DB, next func([]any)
 
 	// insert values using insertStmt (and updateStmt), batch by batch
 	var batchcounter int
-	args := make([]any, 0, bi.Batchsize*len(bi.Columns))
+	args := make([]any, 0, batchsize*len(bi.Columns))
 	rowvalue := make([]any, len(bi.Columns))
 	for {
 		err = next(rowvalue)
-- 
2.43.0


From 01cc2f2da72bb24156c8fd8bac89aa9f54831199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:28:19 +0000
Subject: [PATCH 42/83] fix: look up Postgres sequences by unquoted column name
 after an insert

---
 ddl/batch_insert.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddl/batch_insert.go b/ddl/batch_insert.go
index 08281e6..c7385af 100644
--- a/ddl/batch_insert.go
+++ b/ddl/batch_insert.go
@@ -414,7 +414,7 @@ func (bi *BatchInsert) ExecContext(ctx context.Context, db DB, next func([]any)
 			columnName := QuoteIdentifier(bi.Dialect, column)
 			_, err = db.ExecContext(ctx,
 				"SELECT setval(pg_get_serial_sequence($1, $2), MAX("+columnName+")) FROM "+tableName,
-				tableName, columnName,
+				tableName, column,
 			)
 			if err != nil {
 				return rowsAffected, err
-- 
2.43.0


From 2c8cd1eae857e5bd7407401e1f3c5b42e17706d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:28:29 +0000
Subject: [PATCH 43/83] fix: do not update SQL Server rows that have only key
 and identity columns

---
 ddl/batch_insert.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ddl/batch_insert.go b/ddl/batch_insert.go
index c7385af..491336a 100644
--- a/ddl/batch_insert.go
+++ b/ddl/batch_insert.go
@@ -274,7 +274,14 @@ func (bi *BatchInsert) ExecContext(ctx context.Context, db DB, next func([]any)
 	// updateStart, updateEnd (SQLServer only)
 	var updateStart, updateEnd string
 	var updateStmt *sql.Stmt
-	if len(keyColumns) > 0 && len(nonKeyColumns) > 0 && bi.Dialect == DialectSQLServer {
+	hasUpdate := false
+	for _, column := range nonKeyColumns {
+		if _, ok := isIdentityColumn[column]; !ok {
+			hasUpdate = true
+			break
+		}
+	}
+	if len(keyColumns) > 0 && hasUpdate && bi.Dialect == DialectSQLServer {
 		buf.Reset()
 		buf.WriteString("UPDATE " + tableName + " WITH (UPDLOCK, SERIALIZABLE) SET ")
 		written := false
-- 
2.43.0


From 831405367dfbb1604234cf4171c262d6821b3e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:43:44 +0000
Subject: [PATCH 44/83] fix: load the CSV files of a zip archive on connections
 of their own

---
 ddl/load_cmd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddl/load_cmd.go b/ddl/load_cmd.go
index fed2f8e..c7f4988 100644
--- a/ddl/load_cmd.go
+++ b/ddl/load_cmd.go
@@ -654,7 +654,7 @@ func (cmd *LoadCmd) loadZip(conn *sql.Conn, zipName string) error {
 				if err != nil {
 					return err
 				}
-				tx, err := conn.BeginTx(ctx, nil)
+				tx, err := cmd.DB.BeginTx(ctx, nil)
 				if err != nil {
 					return err
 				}
-- 
2.43.0


From 7d0bf085e9bdd5f9aae625c7b0102975ac8cd28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:40:52 +0000
Subject: [PATCH 45/83] fix: report an error that interrupts reading a table in
 dump

---
 ddl/dump_cmd.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ddl/dump_cmd.go b/ddl/dump_cmd.go
index 0e3e77d..fb2bc19 100644
--- a/ddl/dump_cmd.go
+++ b/ddl/dump_cmd.go
@@ -992,6 +992,10 @@ func (cmd *DumpCmd) dumpCSV(ctx context.Context, w io.Writer, table *Table, quer
 			return err
 		}
 	}
+	err = rows.Err()
+	if err != nil {
+		return fmt.Errorf("%w\n"+query, err)
+	}
 	csvWriter.Flush()
 	err = csvWriter.Error()
 	if err != nil {
-- 
2.43.0


From 6aacacd02fb65e888c4e46443f1a027f2b359a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:41:00 +0000
Subject: [PATCH 46/83] fix: keep fractions of a second of timestamps in dump

---
 ddl/dump_cmd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddl/dump_cmd.go b/ddl/dump_cmd.go
index fb2bc19..6f5c50f 100644
--- a/ddl/dump_cmd.go
+++ b/ddl/dump_cmd.go
@@ -973,7 +973,7 @@ func (cmd *DumpCmd) dumpCSV(ctx context.Context, w io.Writer, table *Table, quer
 					record[i] = cmd.Nullstring
 					continue
 				}
-				record[i] = value.Time.UTC().Format("2006-01-02 15:04:05")
+				record[i] = value.Time.UTC().Format("2006-01-02 15:04:05.999999999")
 			case *pqarray.BoolArray, *pqarray.Int64Array, *pqarray.Float64Array, *pqarray.StringArray:
 				// If we reach here it means cmd.ArrayAsJSON is true. If
 				// cmd.ArrayAsJSON is false, then the value would have been
-- 
2.43.0


From 856941d05aa9fe16317aaf1d8c5ac0d365cc6003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:41:08 +0000
Subject: [PATCH 47/83] fix: keep rows of a single empty string in dump

---
 ddl/dump_cmd.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ddl/dump_cmd.go b/ddl/dump_cmd.go
index 6f5c50f..724a6fc 100644
--- a/ddl/dump_cmd.go
+++ b/ddl/dump_cmd.go
@@ -987,6 +987,15 @@ func (cmd *DumpCmd) dumpCSV(ctx context.Context, w io.Writer, table *Table, quer
 				panic("unreachable")
 			}
 		}
+		if len(record) == 1 && record[0] == "" {
+			// A blank line would be skipped when reading the file.
+			csvWriter.Flush()
+			_, err = io.WriteString(w, "\"\"\n")
+			if err != nil {
+				return err
+			}
+			continue
+		}
 		err = csvWriter.Write(record)
 		if err != nil {
 			return err
-- 
2.43.0


From 80735109afc3d442e4843906d5664420282bfc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:41:15 +0000
Subject: [PATCH 48/83] fix: name CSV files of dump such that load finds their
 tables

---
 ddl/dump_cmd.go | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/ddl/dump_cmd.go b/ddl/dump_cmd.go
index 724a6fc..20b1ed9 100644
--- a/ddl/dump_cmd.go
+++ b/ddl/dump_cmd.go
@@ -374,10 +374,7 @@ func (cmd *DumpCmd) dumpZip(name string) error {
 	}
 	if dumpData {
 		for _, q := range cmd.tableQueries {
-			filename := q.table.TableName + ".csv"
-			if q.table.TableSchema != "" && q.table.TableSchema != cmd.catalog.CurrentSchema {
-				filename = q.table.TableSchema + "." + filename
-			}
+			filename := cmd.csvFilename(q.table)
 			file, err := zipWriter.Create(filename)
 			if err != nil {
 				return err
@@ -486,10 +483,7 @@ func (cmd *DumpCmd) dumpTgz(name string) error {
 	}
 	if dumpData {
 		for _, q := range cmd.tableQueries {
-			filename := q.table.TableName + ".csv"
-			if q.table.TableSchema != "" && q.table.TableSchema != cmd.catalog.CurrentSchema {
-				filename = q.table.TableSchema + "." + filename
-			}
+			filename := cmd.csvFilename(q.table)
 			buf.Reset()
 			err = cmd.dumpCSV(cmd.Ctx, buf, q.table, q.query)
 			if err != nil {
@@ -596,10 +590,7 @@ func (cmd *DumpCmd) dumpDir() error {
 		for _, q := range cmd.tableQueries {
 			q := q
 			g.Go(func() error {
-				filename := filepath.Join(cmd.OutputDir, q.table.TableName+".csv")
-				if q.table.TableSchema != "" && q.table.TableSchema != cmd.catalog.CurrentSchema {
-					filename = filepath.Join(cmd.OutputDir, q.table.TableSchema+"."+q.table.TableName+".csv")
-				}
+				filename := filepath.Join(cmd.OutputDir, cmd.csvFilename(q.table))
 				file, err := os.OpenFile(filename, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
 				if err != nil {
 					return err
@@ -620,6 +611,26 @@ func (cmd *DumpCmd) dumpDir() error {
 	return nil
 }
 
+// csvFilename is the name of the CSV file that LoadCmd loads into the table.
+func (cmd *DumpCmd) csvFilename(table *Table) string {
+	filename := table.TableName + ".csv"
+	if table.TableSchema != "" && table.TableSchema != cmd.catalog.CurrentSchema {
+		filename = table.TableSchema + "." + filename
+	} else if strings.Contains(table.TableName, ".") {
+		// Everything before the first dot is taken as the schema.
+		schemaName := cmd.catalog.CurrentSchema
+		if cmd.Dialect == DialectSQLite {
+			schemaName = "main"
+		}
+		filename = schemaName + "." + filename
+	}
+	if startsWithNumber.MatchString(filename) {
+		// Leading digits up to an underscore are taken as a sequence number.
+		filename = "_" + filename
+	}
+	return filename
+}
+
 func (cmd *DumpCmd) dumpSchema(w io.Writer) error {
 	buf, isBuffer := w.(*bytes.Buffer)
 	if !isBuffer {
-- 
2.43.0


From 002f72bf42364595ab6c869679f8725635b3a637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:41:22 +0000
Subject: [PATCH 49/83] fix: dump SQLite booleans as the numbers they are
 stored as

---
 ddl/dump_cmd.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/ddl/dump_cmd.go b/ddl/dump_cmd.go
index 20b1ed9..745a8ac 100644
--- a/ddl/dump_cmd.go
+++ b/ddl/dump_cmd.go
@@ -872,6 +872,8 @@ func (cmd *DumpCmd) dumpCSV(ctx context.Context, w io.Writer, table *Table, quer
 			switch columnType {
 			case "DATETIME", "TIMESTAMP":
 				scanDest = append(scanDest, &sql.NullTime{})
+			case "BOOLEAN":
+				scanDest = append(scanDest, new(sqliteBool))
 			default:
 				scanDest = append(scanDest, &sql.NullString{})
 			}
@@ -946,6 +948,12 @@ func (cmd *DumpCmd) dumpCSV(ctx context.Context, w io.Writer, table *Table, quer
 					continue
 				}
 				record[i] = "0"
+			case *sqliteBool:
+				if !value.Valid {
+					record[i] = cmd.Nullstring
+					continue
+				}
+				record[i] = value.String
 			case *sql.NullFloat64:
 				if !value.Valid {
 					record[i] = cmd.Nullstring
@@ -1024,6 +1032,21 @@ func (cmd *DumpCmd) dumpCSV(ctx context.Context, w io.Writer, table *Table, quer
 	return nil
 }
 
+// sqliteBool is the value of an SQLite BOOLEAN column. The driver returns
+// integers in such columns as booleans.
+type sqliteBool struct{ sql.NullString }
+
+// Scan implements sql.Scanner.
+func (b *sqliteBool) Scan(value any) error {
+	if v, ok := value.(bool); ok {
+		value = int64(0)
+		if v {
+			value = int64(1)
+		}
+	}
+	return b.NullString.Scan(value)
+}
+
 func writeCreateSchema(dialect string, buf *bytes.Buffer, schemaName string) {
 	switch dialect {
 	case DialectPostgres, DialectMySQL:
-- 
2.43.0


From f1be98ae58ebc14763e91c4e2ea35d2ff13e994e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:41:28 +0000
Subject: [PATCH 50/83] fix: report an error that interrupts reading triggers

---
 ddl/database_introspector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddl/database_introspector.go b/ddl/database_introspector.go
index 984ac5d..8786951 100644
--- a/ddl/database_introspector.go
+++ b/ddl/database_introspector.go
@@ -1385,7 +1385,7 @@ func (dbi *DatabaseIntrospector) GetTriggers() ([]Trigger, error) {
 		trigger.SQL = strings.ReplaceAll(trigger.SQL, "\r\n", "\n")
 		triggers = append(triggers, trigger)
 	}
-	return triggers, nil
+	return triggers, closeRows(rows)
 }
 
 // GetViews returns the views in the database.
-- 
2.43.0


From 44c49d1e30398c7177f70eb83d09136a1a872beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:41:36 +0000
Subject: [PATCH 51/83] fix: report an error that interrupts a subset query

---
 ddl/subsetter.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ddl/subsetter.go b/ddl/subsetter.go
index d7f5f5a..9c3029c 100644
--- a/ddl/subsetter.go
+++ b/ddl/subsetter.go
@@ -300,6 +300,9 @@ func (ss *Subsetter) subset(query string, extended bool) error {
 		}
 		result.records = append(result.records, record)
 	}
+	if err = rows.Err(); err != nil {
+		return err
+	}
 	tableID := [2]string{baseTable.TableSchema, baseTable.TableName}
 	ss.results = append(ss.results, result)
 	baseFkey := &Constraint{
-- 
2.43.0


From 0e29f9c2134452468c44ef9656e09d6afcc22bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:41:43 +0000
Subject: [PATCH 52/83] fix: accept subset queries that select no rows

---
 ddl/subsetter.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ddl/subsetter.go b/ddl/subsetter.go
index 9c3029c..5e3cb3a 100644
--- a/ddl/subsetter.go
+++ b/ddl/subsetter.go
@@ -303,6 +303,9 @@ func (ss *Subsetter) subset(query string, extended bool) error {
 	if err = rows.Err(); err != nil {
 		return err
 	}
+	if len(result.records) == 0 {
+		return nil
+	}
 	tableID := [2]string{baseTable.TableSchema, baseTable.TableName}
 	ss.results = append(ss.results, result)
 	baseFkey := &Constraint{
-- 
2.43.0


From fe4881957b7297a3426775ea5264e94a37fb4d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:41:52 +0000
Subject: [PATCH 53/83] fix: reject subset queries without {*} or {tableName}
 instead of panicking

---
 ddl/subsetter.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ddl/subsetter.go b/ddl/subsetter.go
index 5e3cb3a..4b47b21 100644
--- a/ddl/subsetter.go
+++ b/ddl/subsetter.go
@@ -104,7 +104,7 @@ func (ss *Subsetter) subset(query string, extended bool) error {
 	var result queryResult
 	str := query
 	for i := strings.IndexByte(str, OPEN_BRACE); i >= 0; i = strings.IndexByte(str, OPEN_BRACE) {
-		if i+1 <= len(str) && str[i+1] == OPEN_BRACE {
+		if i+1 < len(str) && str[i+1] == OPEN_BRACE {
 			str = str[i+2:]
 			continue
 		}
@@ -129,6 +129,12 @@ func (ss *Subsetter) subset(query string, extended bool) error {
 		tableEnd = tableStart + j + 1
 		str = str[j+1:]
 	}
+	if starStart < 0 {
+		return fmt.Errorf("no {*} found")
+	}
+	if tableStart < starEnd {
+		return fmt.Errorf("no {tableName} found after {*}")
+	}
 	var tableSchema string
 	tableName := query[tableStart+1 : tableEnd-1]
 	if i := strings.Index(tableName, "."); i >= 0 {
-- 
2.43.0


From 7f38c39afaa410b1e37f57c83efad101f8268874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:41:59 +0000
Subject: [PATCH 54/83] fix: compare timestamp primary keys of SQLite subsets
 as they are stored

---
 ddl/subsetter.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ddl/subsetter.go b/ddl/subsetter.go
index 4b47b21..5f0b46e 100644
--- a/ddl/subsetter.go
+++ b/ddl/subsetter.go
@@ -162,11 +162,16 @@ func (ss *Subsetter) subset(query string, extended bool) error {
 			b.WriteString(", ")
 		}
 		column := ss.cache.GetColumn(baseTable, columnName)
+		columnType, _, _ := normalizeColumnType(ss.dialect, column.ColumnType)
+		if ss.dialect == DialectSQLite {
+			// An expression has no declared type, without which the driver
+			// does not convert timestamps but returns the value stored.
+			b.WriteString("+")
+		}
 		if baseTable.TableSchema != "" {
 			b.WriteString(QuoteIdentifier(ss.dialect, baseTable.TableSchema) + ".")
 		}
 		b.WriteString(QuoteIdentifier(ss.dialect, baseTable.TableName) + "." + QuoteIdentifier(ss.dialect, columnName))
-		columnType, _, _ := normalizeColumnType(ss.dialect, column.ColumnType)
 		if ss.dialect == DialectMySQL {
 			if strings.HasSuffix(columnType, " UNSIGNED") {
 				columnType = strings.TrimSuffix(columnType, " UNSIGNED")
-- 
2.43.0


From 6642856ad0876baafbc999d8642dfaa940405c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:42:06 +0000
Subject: [PATCH 55/83] fix: do not follow foreign keys of a subset to tables
 that are left out

---
 ddl/subsetter.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ddl/subsetter.go b/ddl/subsetter.go
index 5f0b46e..6a585b3 100644
--- a/ddl/subsetter.go
+++ b/ddl/subsetter.go
@@ -66,6 +66,9 @@ func newSubsetter(dialect string, db DB, filter Filter) (*Subsetter, error) {
 				}
 				referencedSchema := ss.cache.GetSchema(ss.catalog, constraint.ReferencesSchema)
 				referencedTable := ss.cache.GetTable(referencedSchema, constraint.ReferencesTable)
+				if referencedTable == nil {
+					continue
+				}
 				ss.referencedBy[referencedTable] = append(ss.referencedBy[referencedTable], constraint)
 			}
 		}
@@ -417,6 +420,10 @@ func (ss *Subsetter) subset(query string, extended bool) error {
 			continue
 		}
 		visited[constraint] = struct{}{}
+		table := ss.cache.GetTable(ss.cache.GetSchema(ss.catalog, constraint.ReferencesSchema), constraint.ReferencesTable)
+		if table == nil {
+			continue
+		}
 		tableID := [2]string{constraint.TableSchema, constraint.TableName}
 		referencedTableID := [2]string{constraint.ReferencesSchema, constraint.ReferencesTable}
 		baseJoins := tableJoins[tableID]
@@ -443,7 +450,6 @@ func (ss *Subsetter) subset(query string, extended bool) error {
 		}
 		newJoins = newJoins[:i]
 		tableJoins[referencedTableID] = append(tableJoins[referencedTableID], newJoins...)
-		table := ss.cache.GetTable(ss.cache.GetSchema(ss.catalog, constraint.ReferencesSchema), constraint.ReferencesTable)
 		for i := range table.Constraints {
 			toVisit = append(toVisit, &table.Constraints[i])
 		}
-- 
2.43.0


From 14bc08d994393a0b47c12baefc7d986562d97b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:43:17 +0000
Subject: [PATCH 56/83] fix: follow every chain of foreign keys of a subset

---
 ddl/subsetter.go | 43 ++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 40 insertions(+), 3 deletions(-)

diff --git a/ddl/subsetter.go b/ddl/subsetter.go
index 6a585b3..73071bd 100644
--- a/ddl/subsetter.go
+++ b/ddl/subsetter.go
@@ -344,9 +344,10 @@ func (ss *Subsetter) subset(query string, extended bool) error {
 	var toVisit []*Constraint
 	visited := make(map[*Constraint]struct{}) // In order to break cycles, never visit the same fkey twice.
 	if !extended {
-		for i := range baseTable.Constraints {
-			toVisit = append(toVisit, &baseTable.Constraints[i])
-		}
+		// A table may be reached through more than one chain of foreign keys,
+		// all of them are followed. In order to break cycles, no chain visits
+		// the same table twice.
+		ss.followChains(tableJoins, tableJoins[tableID][0])
 	} else {
 		toVisit = append(toVisit, ss.referencedBy[baseTable]...)
 		for len(toVisit) > 0 {
@@ -461,6 +462,42 @@ func (ss *Subsetter) subset(query string, extended bool) error {
 	return nil
 }
 
+// followChains adds every chain of foreign keys that starts with baseJoin to
+// tableJoins.
+func (ss *Subsetter) followChains(tableJoins map[[2]string][]join, baseJoin join) {
+	lastTableID := baseJoin.tableIDs[len(baseJoin.tableIDs)-1]
+	table := ss.cache.GetTable(ss.cache.GetSchema(ss.catalog, lastTableID[0]), lastTableID[1])
+	if table == nil {
+		return
+	}
+	for i := range table.Constraints {
+		constraint := &table.Constraints[i]
+		if constraint.ConstraintType != FOREIGN_KEY {
+			continue
+		}
+		tableID := [2]string{constraint.ReferencesSchema, constraint.ReferencesTable}
+		if ss.cache.GetTable(ss.cache.GetSchema(ss.catalog, tableID[0]), tableID[1]) == nil {
+			continue
+		}
+		duplicateTable := false
+		for j := range baseJoin.tableIDs {
+			if tableID == baseJoin.tableIDs[j] {
+				duplicateTable = true
+				break
+			}
+		}
+		if duplicateTable {
+			continue
+		}
+		newJoin := join{
+			tableIDs: append(append(make([][2]string, 0, len(baseJoin.tableIDs)+1), baseJoin.tableIDs...), tableID),
+			fkeys:    append(append(make([]*Constraint, 0, len(baseJoin.fkeys)+1), baseJoin.fkeys...), constraint),
+		}
+		tableJoins[tableID] = append(tableJoins[tableID], newJoin)
+		ss.followChains(tableJoins, newJoin)
+	}
+}
+
 // Query returns the query needed to dump a subset of a table according to the
 // subset queries added to the subsetter thus far.
 func (ss *Subsetter) Query(tableSchema, tableName string) string {
-- 
2.43.0


From 67439db60b118e41c4da26d1e2de79c29cbcbdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:33:54 +0000
Subject: [PATCH 57/83] fix: parse the dialects of a modifier whose value is
 missing

---
 ddl/modifier.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/ddl/modifier.go b/ddl/modifier.go
index a8eaad5..0ab8caa 100644
--- a/ddl/modifier.go
+++ b/ddl/modifier.go
@@ -190,12 +190,11 @@ func popModifier(s string) (m Modifier, remainder string, err error) {
 	}
 	if equalsIndex >= 0 {
 		m.Name, remainder = s[:equalsIndex], s[equalsIndex+1:]
-		if len(remainder) > 0 && remainder[0] == ' ' {
-			return m, remainder, nil
-		}
-		m.RawValue, remainder, err = popValue(remainder)
-		if err != nil {
-			return m, remainder, err
+		if len(remainder) == 0 || remainder[0] != ' ' {
+			m.RawValue, remainder, err = popValue(remainder)
+			if err != nil {
+				return m, remainder, err
+			}
 		}
 	} else if whitespaceIndex >= 0 {
 		m.Name, remainder = s[:whitespaceIndex], s[whitespaceIndex:]
-- 
2.43.0


From cf6249ff65e9748bde968b919fed980014e189e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:34:01 +0000
Subject: [PATCH 58/83] fix: keep dialects, nested braces and single letter
 names when formatting modifiers

---
 ddl/modifier.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ddl/modifier.go b/ddl/modifier.go
index 0ab8caa..d9a7f8d 100644
--- a/ddl/modifier.go
+++ b/ddl/modifier.go
@@ -95,12 +95,15 @@ func (m *Modifier) writeBuf(buf *bytes.Buffer) {
 		return
 	}
 	last := buf.Len() - 1
-	if last > 0 && buf.Bytes()[last] != ' ' {
+	if last >= 0 && buf.Bytes()[last] != ' ' {
 		buf.WriteString(" ")
 	}
+	if len(m.Dialects) > 0 {
+		buf.WriteString(strings.Join(m.Dialects, ",") + ":")
+	}
 	buf.WriteString(m.Name)
 	if m.RawValue != "" {
-		if i := strings.IndexByte(m.RawValue, ' '); i >= 0 {
+		if strings.IndexByte(m.RawValue, ' ') >= 0 || m.RawValue[0] == '{' {
 			buf.WriteString("={" + m.RawValue + "}")
 		} else {
 			buf.WriteString("=" + m.RawValue)
@@ -111,7 +114,7 @@ func (m *Modifier) writeBuf(buf *bytes.Buffer) {
 		return
 	}
 	buf.WriteString("=")
-	valueHasSpace := strings.IndexByte(m.Value, ' ') >= 0
+	valueHasSpace := strings.IndexByte(m.Value, ' ') >= 0 || strings.HasPrefix(m.Value, "{")
 	if valueHasSpace || len(m.Submodifiers) > 0 {
 		buf.WriteString("{")
 	}
-- 
2.43.0


From 5163adef4ab879568cb5cfabdca9d09542df6b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:34:10 +0000
Subject: [PATCH 59/83] fix: find what is inside a schema, table or view that
 replaces another

---
 ddl/catalog_cache.go | 168 ++++++++++++++++++++++++++++---------------
 1 file changed, 112 insertions(+), 56 deletions(-)

diff --git a/ddl/catalog_cache.go b/ddl/catalog_cache.go
index 8f947c2..40117f8 100644
--- a/ddl/catalog_cache.go
+++ b/ddl/catalog_cache.go
@@ -44,70 +44,105 @@ func NewCatalogCache(catalog *Catalog) *CatalogCache {
 	for i, extension := range catalog.Extensions {
 		cache.extensions[extension] = i
 	}
-	for i, schema := range catalog.Schemas {
+	for i := range catalog.Schemas {
+		schema := &catalog.Schemas[i]
+		if j, ok := cache.schemas[schema.SchemaName]; ok {
+			cache.cacheSchema(&catalog.Schemas[j], false)
+		}
 		cache.schemas[schema.SchemaName] = i
-		for j, enum := range schema.Enums {
-			enumID := [2]string{schema.SchemaName, enum.EnumName}
-			cache.enums[enumID] = j
+		cache.cacheSchema(schema, true)
+	}
+	return cache
+}
+
+// cacheIndex sets or (if present is false) deletes the index of an object.
+func cacheIndex[K comparable](m map[K]int, key K, index int, present bool) {
+	if !present {
+		delete(m, key)
+		return
+	}
+	m[key] = index
+}
+
+// cacheSchema adds the objects inside a Schema to the cache or (if present is
+// false) removes them.
+func (c *CatalogCache) cacheSchema(schema *Schema, present bool) {
+	for i, enum := range schema.Enums {
+		cacheIndex(c.enums, [2]string{schema.SchemaName, enum.EnumName}, i, present)
+	}
+	for i, domain := range schema.Domains {
+		cacheIndex(c.domains, [2]string{schema.SchemaName, domain.DomainName}, i, present)
+	}
+	for i, routine := range schema.Routines {
+		identityArguments := ""
+		if c.dialect == "postgres" {
+			identityArguments = routine.IdentityArguments
 		}
-		for j, domain := range schema.Domains {
-			domainID := [2]string{schema.SchemaName, domain.DomainName}
-			cache.domains[domainID] = j
+		cacheIndex(c.routines, [3]string{schema.SchemaName, routine.RoutineName, identityArguments}, i, present)
+	}
+	for i := range schema.Views {
+		view := &schema.Views[i]
+		viewID := [2]string{schema.SchemaName, view.ViewName}
+		if j, ok := c.views[viewID]; ok && present && j < i {
+			c.cacheView(viewID, &schema.Views[j], false)
 		}
-		for j, routine := range schema.Routines {
-			identityArguments := ""
-			if cache.dialect == "postgres" {
-				identityArguments = routine.IdentityArguments
-			}
-			routineID := [3]string{schema.SchemaName, routine.RoutineName, identityArguments}
-			cache.routines[routineID] = j
+		cacheIndex(c.views, viewID, i, present)
+		c.cacheView(viewID, view, present)
+	}
+	for i := range schema.Tables {
+		table := &schema.Tables[i]
+		tableID := [2]string{schema.SchemaName, table.TableName}
+		if j, ok := c.tables[tableID]; ok && present && j < i {
+			c.cacheTable(tableID, &schema.Tables[j], false)
 		}
-		for j, view := range schema.Views {
-			viewID := [2]string{schema.SchemaName, view.ViewName}
-			cache.views[viewID] = j
-			if view.IsMaterialized {
-				for k, index := range view.Indexes {
-					indexID := [3]string{schema.SchemaName, view.ViewName, index.IndexName}
-					cache.indexes[indexID] = k
-				}
-			} else {
-				for k, trigger := range view.Triggers {
-					triggerID := [3]string{schema.SchemaName, view.ViewName, trigger.TriggerName}
-					cache.triggers[triggerID] = k
-				}
-			}
+		cacheIndex(c.tables, tableID, i, present)
+		c.cacheTable(tableID, table, present)
+	}
+}
+
+// cacheView adds the objects inside a View to the cache or (if present is
+// false) removes them.
+func (c *CatalogCache) cacheView(viewID [2]string, view *View, present bool) {
+	for i, index := range view.Indexes {
+		if view.IsMaterialized || !present {
+			cacheIndex(c.indexes, [3]string{viewID[0], viewID[1], index.IndexName}, i, present)
 		}
-		for j, table := range schema.Tables {
-			tableID := [2]string{schema.SchemaName, table.TableName}
-			cache.tables[tableID] = j
-			for k, column := range table.Columns {
-				columnID := [3]string{schema.SchemaName, table.TableName, column.ColumnName}
-				cache.columns[columnID] = k
-			}
-			for k, constraint := range table.Constraints {
-				switch constraint.ConstraintType {
-				case PRIMARY_KEY:
-					cache.pkeys[tableID] = k
-				case FOREIGN_KEY:
-					cache.fkeys[tableID] = append(cache.fkeys[tableID], k)
-				}
-				if constraint.ConstraintName == "" { // SQLite constraints will have no names, skip
-					continue
-				}
-				constraintID := [3]string{schema.SchemaName, table.TableName, constraint.ConstraintName}
-				cache.constraints[constraintID] = k
-			}
-			for k, index := range table.Indexes {
-				indexID := [3]string{schema.SchemaName, table.TableName, index.IndexName}
-				cache.indexes[indexID] = k
-			}
-			for k, trigger := range table.Triggers {
-				triggerID := [3]string{schema.SchemaName, table.TableName, trigger.TriggerName}
-				cache.triggers[triggerID] = k
+	}
+	for i, trigger := range view.Triggers {
+		if !view.IsMaterialized || !present {
+			cacheIndex(c.triggers, [3]string{viewID[0], viewID[1], trigger.TriggerName}, i, present)
+		}
+	}
+}
+
+// cacheTable adds the objects inside a Table to the cache or (if present is
+// false) removes them.
+func (c *CatalogCache) cacheTable(tableID [2]string, table *Table, present bool) {
+	for i, column := range table.Columns {
+		cacheIndex(c.columns, [3]string{tableID[0], tableID[1], column.ColumnName}, i, present)
+	}
+	delete(c.pkeys, tableID)
+	delete(c.fkeys, tableID)
+	for i, constraint := range table.Constraints {
+		if present {
+			switch constraint.ConstraintType {
+			case PRIMARY_KEY:
+				c.pkeys[tableID] = i
+			case FOREIGN_KEY:
+				c.fkeys[tableID] = append(c.fkeys[tableID], i)
 			}
 		}
+		if constraint.ConstraintName == "" { // SQLite constraints will have no names, skip
+			continue
+		}
+		cacheIndex(c.constraints, [3]string{tableID[0], tableID[1], constraint.ConstraintName}, i, present)
+	}
+	for i, index := range table.Indexes {
+		cacheIndex(c.indexes, [3]string{tableID[0], tableID[1], index.IndexName}, i, present)
+	}
+	for i, trigger := range table.Triggers {
+		cacheIndex(c.triggers, [3]string{tableID[0], tableID[1], trigger.TriggerName}, i, present)
 	}
-	return cache
 }
 
 // GetSchema gets a Schema with the given schemaName from the Catalog, or
@@ -139,6 +174,9 @@ func (c *CatalogCache) GetOrCreateSchema(catalog *Catalog, schemaName string) *S
 	if ok && !catalog.Schemas[i].Ignore {
 		return &catalog.Schemas[i]
 	}
+	if ok {
+		c.cacheSchema(&catalog.Schemas[i], false)
+	}
 	catalog.Schemas = append(catalog.Schemas, Schema{
 		SchemaName: schemaName,
 	})
@@ -151,6 +189,10 @@ func (c *CatalogCache) GetOrCreateSchema(catalog *Catalog, schemaName string) *S
 // it already exists.
 func (c *CatalogCache) AddOrUpdateSchema(catalog *Catalog, schema Schema) {
 	i, ok := c.schemas[schema.SchemaName]
+	if ok {
+		c.cacheSchema(&catalog.Schemas[i], false)
+	}
+	defer c.cacheSchema(&schema, true)
 	if ok && !catalog.Schemas[i].Ignore {
 		catalog.Schemas[i] = schema
 		return
@@ -353,6 +395,9 @@ func (c *CatalogCache) GetOrCreateView(schema *Schema, viewName string) *View {
 	if ok && !schema.Views[i].Ignore {
 		return &schema.Views[i]
 	}
+	if ok {
+		c.cacheView([2]string{schema.SchemaName, viewName}, &schema.Views[i], false)
+	}
 	schema.Views = append(schema.Views, View{
 		ViewSchema: schema.SchemaName,
 		ViewName:   viewName,
@@ -367,6 +412,10 @@ func (c *CatalogCache) GetOrCreateView(schema *Schema, viewName string) *View {
 func (c *CatalogCache) AddOrUpdateView(schema *Schema, view View) {
 	view.ViewSchema = schema.SchemaName
 	i, ok := c.views[[2]string{schema.SchemaName, view.ViewName}]
+	if ok {
+		c.cacheView([2]string{schema.SchemaName, view.ViewName}, &schema.Views[i], false)
+	}
+	defer c.cacheView([2]string{schema.SchemaName, view.ViewName}, &view, true)
 	if ok && !schema.Views[i].Ignore {
 		schema.Views[i] = view
 		return
@@ -404,6 +453,9 @@ func (c *CatalogCache) GetOrCreateTable(schema *Schema, tableName string) *Table
 	if ok && !schema.Tables[i].Ignore {
 		return &schema.Tables[i]
 	}
+	if ok {
+		c.cacheTable([2]string{schema.SchemaName, tableName}, &schema.Tables[i], false)
+	}
 	schema.Tables = append(schema.Tables, Table{
 		TableSchema: schema.SchemaName,
 		TableName:   tableName,
@@ -418,6 +470,10 @@ func (c *CatalogCache) GetOrCreateTable(schema *Schema, tableName string) *Table
 func (c *CatalogCache) AddOrUpdateTable(schema *Schema, table Table) {
 	table.TableSchema = schema.SchemaName
 	i, ok := c.tables[[2]string{schema.SchemaName, table.TableName}]
+	if ok {
+		c.cacheTable([2]string{schema.SchemaName, table.TableName}, &schema.Tables[i], false)
+	}
+	defer c.cacheTable([2]string{schema.SchemaName, table.TableName}, &table, true)
 	if ok && !schema.Tables[i].Ignore {
 		schema.Tables[i] = table
 		return
-- 
2.43.0


From 7efafe2812ffc9588958e3b6a9c047d5b2e11c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:34:18 +0000
Subject: [PATCH 60/83] fix: look primary and foreign keys up among the
 constraints present

---
 ddl/catalog_cache.go | 51 +++++++++-----------------------------------
 1 file changed, 10 insertions(+), 41 deletions(-)

diff --git a/ddl/catalog_cache.go b/ddl/catalog_cache.go
index 40117f8..85378fc 100644
--- a/ddl/catalog_cache.go
+++ b/ddl/catalog_cache.go
@@ -19,8 +19,6 @@ type CatalogCache struct {
 	constraints map[[3]string]int
 	indexes     map[[3]string]int
 	triggers    map[[3]string]int
-	pkeys       map[[2]string]int
-	fkeys       map[[2]string][]int
 }
 
 // NewCatalogCache creates a new CatalogCache from a given Catalog.
@@ -38,8 +36,6 @@ func NewCatalogCache(catalog *Catalog) *CatalogCache {
 		constraints: make(map[[3]string]int),
 		indexes:     make(map[[3]string]int),
 		triggers:    make(map[[3]string]int),
-		pkeys:       make(map[[2]string]int),
-		fkeys:       make(map[[2]string][]int),
 	}
 	for i, extension := range catalog.Extensions {
 		cache.extensions[extension] = i
@@ -121,17 +117,7 @@ func (c *CatalogCache) cacheTable(tableID [2]string, table *Table, present bool)
 	for i, column := range table.Columns {
 		cacheIndex(c.columns, [3]string{tableID[0], tableID[1], column.ColumnName}, i, present)
 	}
-	delete(c.pkeys, tableID)
-	delete(c.fkeys, tableID)
 	for i, constraint := range table.Constraints {
-		if present {
-			switch constraint.ConstraintType {
-			case PRIMARY_KEY:
-				c.pkeys[tableID] = i
-			case FOREIGN_KEY:
-				c.fkeys[tableID] = append(c.fkeys[tableID], i)
-			}
-		}
 		if constraint.ConstraintName == "" { // SQLite constraints will have no names, skip
 			continue
 		}
@@ -574,13 +560,6 @@ func (c *CatalogCache) GetOrCreateConstraint(table *Table, constraintName, const
 		Columns:        columnNames,
 	})
 	i = len(table.Constraints) - 1
-	tableID := [2]string{table.TableSchema, table.TableName}
-	switch constraintType {
-	case PRIMARY_KEY:
-		c.pkeys[tableID] = i
-	case FOREIGN_KEY:
-		c.fkeys[tableID] = append(c.fkeys[tableID], i)
-	}
 	c.constraints[[3]string{table.TableSchema, table.TableName, constraintName}] = i
 	return &table.Constraints[i]
 }
@@ -597,13 +576,6 @@ func (c *CatalogCache) AddOrUpdateConstraint(table *Table, constraint Constraint
 	}
 	table.Constraints = append(table.Constraints, constraint)
 	i = len(table.Constraints) - 1
-	tableID := [2]string{table.TableSchema, table.TableName}
-	switch constraint.ConstraintType {
-	case PRIMARY_KEY:
-		c.pkeys[tableID] = i
-	case FOREIGN_KEY:
-		c.fkeys[tableID] = append(c.fkeys[tableID], i)
-	}
 	if constraint.ConstraintName != "" { // SQLite constraints will have no name, skip
 		c.constraints[[3]string{table.TableSchema, table.TableName, constraint.ConstraintName}] = i
 	}
@@ -830,9 +802,11 @@ func (c *CatalogCache) GetPrimaryKey(table *Table) *Constraint {
 	if table == nil {
 		return nil
 	}
-	i, ok := c.pkeys[[2]string{table.TableSchema, table.TableName}]
-	if ok && !table.Constraints[i].Ignore {
-		return &table.Constraints[i]
+	for i := len(table.Constraints) - 1; i >= 0; i-- {
+		constraint := &table.Constraints[i]
+		if constraint.ConstraintType == PRIMARY_KEY && !constraint.Ignore {
+			return constraint
+		}
 	}
 	return nil
 }
@@ -842,17 +816,12 @@ func (c *CatalogCache) GetForeignKeys(table *Table) []*Constraint {
 	if table == nil {
 		return nil
 	}
-	nums, ok := c.fkeys[[2]string{table.TableSchema, table.TableName}]
-	if !ok {
-		return nil
-	}
-	fkeys := make([]*Constraint, 0, len(nums))
-	for _, num := range nums {
-		fkey := &table.Constraints[num]
-		if fkey.Ignore {
-			continue
+	var fkeys []*Constraint
+	for i := range table.Constraints {
+		constraint := &table.Constraints[i]
+		if constraint.ConstraintType == FOREIGN_KEY && !constraint.Ignore {
+			fkeys = append(fkeys, constraint)
 		}
-		fkeys = append(fkeys, fkey)
 	}
 	return fkeys
 }
-- 
2.43.0


From 909a3de7d63483d0f2d0e050585bd4c81f887a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:34:26 +0000
Subject: [PATCH 61/83] fix: store routines under the name they are looked up
 by

---
 ddl/catalog_cache.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/ddl/catalog_cache.go b/ddl/catalog_cache.go
index 85378fc..7120b1f 100644
--- a/ddl/catalog_cache.go
+++ b/ddl/catalog_cache.go
@@ -325,7 +325,11 @@ func (c *CatalogCache) GetRoutine(schema *Schema, routineName, identityArguments
 // the Schema; if a new Routine is added, the pointer may now be pointing at a
 // stale Routine. Call GetRoutine again in order to get the new pointer.
 func (c *CatalogCache) GetOrCreateRoutine(schema *Schema, routineName, identityArguments string) *Routine {
-	i, ok := c.routines[[3]string{schema.SchemaName, routineName, identityArguments}]
+	routineID := [3]string{schema.SchemaName, routineName, ""}
+	if c.dialect == "postgres" {
+		routineID[2] = identityArguments
+	}
+	i, ok := c.routines[routineID]
 	if ok && !schema.Routines[i].Ignore {
 		return &schema.Routines[i]
 	}
@@ -335,7 +339,7 @@ func (c *CatalogCache) GetOrCreateRoutine(schema *Schema, routineName, identityA
 		IdentityArguments: identityArguments,
 	})
 	i = len(schema.Routines) - 1
-	c.routines[[3]string{schema.SchemaName, routineName, identityArguments}] = i
+	c.routines[routineID] = i
 	return &schema.Routines[i]
 }
 
@@ -343,14 +347,18 @@ func (c *CatalogCache) GetOrCreateRoutine(schema *Schema, routineName, identityA
 // it already exists.
 func (c *CatalogCache) AddOrUpdateRoutine(schema *Schema, routine Routine) {
 	routine.RoutineSchema = schema.SchemaName
-	i, ok := c.routines[[3]string{schema.SchemaName, routine.RoutineName, routine.IdentityArguments}]
+	routineID := [3]string{schema.SchemaName, routine.RoutineName, ""}
+	if c.dialect == "postgres" {
+		routineID[2] = routine.IdentityArguments
+	}
+	i, ok := c.routines[routineID]
 	if ok && !schema.Routines[i].Ignore {
 		schema.Routines[i] = routine
 		return
 	}
 	schema.Routines = append(schema.Routines, routine)
 	i = len(schema.Routines) - 1
-	c.routines[[3]string{schema.SchemaName, routine.RoutineName, routine.IdentityArguments}] = i
+	c.routines[routineID] = i
 }
 
 // GetView gets a View with the given viewName from the Schema, or returns nil
@@ -829,8 +837,8 @@ func (c *CatalogCache) GetForeignKeys(table *Table) []*Constraint {
 // WriteCatalog populates the dest Catalog from the src Catalog, doing a deep
 // copy in the process (nothing is shared between the src and dest Catalogs).
 func (src *Catalog) WriteCatalog(dest *Catalog) error {
-	cache := NewCatalogCache(dest)
 	dest.Dialect = src.Dialect
+	cache := NewCatalogCache(dest)
 	dest.VersionNums = cloneSlice(src.VersionNums)
 	dest.CatalogName = src.CatalogName
 	dest.CurrentSchema = src.CurrentSchema
-- 
2.43.0


From 1fe109adddf8510b3b779b4a74308b342437c27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:34:35 +0000
Subject: [PATCH 62/83] fix: copy every constraint and virtual table of a
 catalog

---
 ddl/catalog_cache.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ddl/catalog_cache.go b/ddl/catalog_cache.go
index 7120b1f..9777318 100644
--- a/ddl/catalog_cache.go
+++ b/ddl/catalog_cache.go
@@ -921,6 +921,7 @@ func (src *Catalog) WriteCatalog(dest *Catalog) error {
 			destTable.TableSchema = srcTable.TableSchema
 			destTable.TableName = srcTable.TableName
 			destTable.SQL = srcTable.SQL
+			destTable.IsVirtual = srcTable.IsVirtual
 			destTable.Comment = srcTable.Comment
 			destTable.Ignore = srcTable.Ignore
 			for _, srcColumn := range srcTable.Columns {
@@ -928,11 +929,11 @@ func (src *Catalog) WriteCatalog(dest *Catalog) error {
 				*destColumn = srcColumn
 			}
 			for _, srcConstraint := range srcTable.Constraints {
-				destConstraint := cache.GetOrCreateConstraint(destTable, srcConstraint.ConstraintName, srcConstraint.ConstraintType, srcConstraint.Columns)
-				*destConstraint = srcConstraint
+				destConstraint := srcConstraint
 				destConstraint.Columns = cloneSlice(srcConstraint.Columns)
 				destConstraint.ReferencesColumns = cloneSlice(srcConstraint.ReferencesColumns)
 				destConstraint.ExclusionOperators = cloneSlice(srcConstraint.ExclusionOperators)
+				cache.AddOrUpdateConstraint(destTable, destConstraint)
 			}
 			for _, srcIndex := range srcTable.Indexes {
 				destIndex := cache.GetOrCreateIndex(destTable, srcIndex.IndexName, srcIndex.Columns)
-- 
2.43.0


From 3619be620732f0769d2115f96e1947e9aa5207de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:34:41 +0000
Subject: [PATCH 63/83] fix: do not share the index columns of a view between a
 catalog and its copy

---
 ddl/catalog_cache.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ddl/catalog_cache.go b/ddl/catalog_cache.go
index 9777318..75db425 100644
--- a/ddl/catalog_cache.go
+++ b/ddl/catalog_cache.go
@@ -907,6 +907,8 @@ func (src *Catalog) WriteCatalog(dest *Catalog) error {
 				destIndex := cache.GetOrCreateViewIndex(destView, srcIndex.IndexName, srcIndex.Columns)
 				*destIndex = srcIndex
 				destIndex.Columns = cloneSlice(srcIndex.Columns)
+				destIndex.Descending = cloneSlice(srcIndex.Descending)
+				destIndex.Opclasses = cloneSlice(srcIndex.Opclasses)
 				destIndex.IncludeColumns = cloneSlice(srcIndex.IncludeColumns)
 			}
 			for _, srcTrigger := range srcView.Triggers {
-- 
2.43.0


From 6a3997303ee2d71c0f21c4bb8b22f7ac546a584e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:05:16 +0000
Subject: [PATCH 64/83] fix: recognise brackets and string literals that do not
 enclose the whole expression

An expression such as (1) + (2) starts and ends with a bracket without being
enclosed in a pair of them, and 'a' || 'b' starts and ends with a quote
without being a string literal. As a column default such an expression was
written without the brackets it needs, or lost its outermost brackets.
---
 ddl/ddl.go | 38 +++++++++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/ddl/ddl.go b/ddl/ddl.go
index 7bbe6b3..57a6516 100644
--- a/ddl/ddl.go
+++ b/ddl/ddl.go
@@ -617,6 +617,15 @@ func GenerateName(nameType string, tableName string, columnNames []string) strin
 func isLiteral(s string) bool {
 	// is string literal?
 	if len(s) >= 2 && s[0] == '\'' && s[len(s)-1] == '\'' {
+		for i := 1; i < len(s)-1; i++ {
+			if s[i] != '\'' || s[i-1] == '\\' {
+				continue
+			}
+			if i+1 == len(s)-1 || s[i+1] != '\'' {
+				return false
+			}
+			i++
+		}
 		return true
 	}
 	// is known literal?
@@ -643,7 +652,7 @@ func wrapBrackets(s string) string {
 	if s == "" {
 		return ""
 	}
-	if s[0] == '(' && s[len(s)-1] == ')' {
+	if wrappedInBrackets(s) {
 		return s
 	}
 	return "(" + s + ")"
@@ -653,15 +662,34 @@ func unwrapBrackets(s string) string {
 	if s == "" {
 		return ""
 	}
-	last := len(s) - 1
-	if s[0] == '(' && s[last] == ')' {
-		return s[1:last]
+	if wrappedInBrackets(s) {
+		return s[1 : len(s)-1]
 	}
 	return s
 }
 
 func wrappedInBrackets(s string) bool {
-	return s != "" && s[0] == '(' && s[len(s)-1] == ')'
+	if s == "" || s[0] != '(' || s[len(s)-1] != ')' {
+		return false
+	}
+	// The first bracket must be closed by the last one.
+	insideString, level := false, 0
+	for i := 0; i < len(s)-1; i++ {
+		switch {
+		case s[i] == '\'':
+			insideString = !insideString
+		case insideString:
+			continue
+		case s[i] == '(':
+			level++
+		case s[i] == ')':
+			level--
+			if level == 0 {
+				return false
+			}
+		}
+	}
+	return true
 }
 
 // splitArgs works like strings.Split with commas except it ignores commas inside
-- 
2.43.0


From b5e41f0aad0c9becb69a17abe4ecbfdcb0e42516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:06:23 +0000
Subject: [PATCH 65/83] fix: write the type of columns whose default type is
 another one when parsed

The parser's default type of a time field is DATETIME for SQLite and MySQL, so
leaving out TIMESTAMP in a generated struct changes it. The same goes for SQLite
columns of type INT that are a primary key, which the parser would turn into
INTEGER.
---
 ddl/table_structs.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ddl/table_structs.go b/ddl/table_structs.go
index a4d4a62..6301ec0 100644
--- a/ddl/table_structs.go
+++ b/ddl/table_structs.go
@@ -252,7 +252,7 @@ func (s *TableStructs) ReadCatalog(catalog *Catalog) error {
 					case DialectSQLServer:
 						defaultColumnType = "DATETIMEOFFSET"
 					default:
-						defaultColumnType = "TIMESTAMP"
+						defaultColumnType = ""
 					}
 				case "sq.UUIDField":
 					switch catalog.Dialect {
@@ -262,6 +262,9 @@ func (s *TableStructs) ReadCatalog(catalog *Catalog) error {
 						defaultColumnType = "BINARY(16)"
 					}
 				}
+				if catalog.Dialect == DialectSQLite && primarykeyModifier != nil && primarykeyModifier.Value == column.ColumnName && defaultColumnType == "INT" {
+					defaultColumnType = "INTEGER"
+				}
 				// type
 				if column.DomainName != "" {
 					structField.Modifiers = append(structField.Modifiers, Modifier{Name: "type", RawValue: column.DomainName})
-- 
2.43.0


From 0d960ace6d2e4e78bcba322291fc18c5ba1ce20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:06:33 +0000
Subject: [PATCH 66/83] fix: generate valid and distinct Go identifiers for
 tables and columns

Names that contain other characters than letters, digits and spaces, that
start with a digit, or that only differ in what is replaced or capitalised
yielded structs that do not compile.
---
 ddl/table_structs.go | 34 ++++++++++++++++++++++++++++++----
 ddl/tables_cmd.go    |  3 ++-
 2 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/ddl/table_structs.go b/ddl/table_structs.go
index 6301ec0..b364f16 100644
--- a/ddl/table_structs.go
+++ b/ddl/table_structs.go
@@ -6,6 +6,7 @@ import (
 	"go/token"
 	"strconv"
 	"strings"
+	"unicode"
 )
 
 // TableStructs is a slice of TableStructs.
@@ -69,15 +70,20 @@ func (s *TableStructs) ReadCatalog(catalog *Catalog) error {
 	buf := bufpool.Get().(*bytes.Buffer)
 	buf.Reset()
 	defer bufpool.Put(buf)
+	structNames := make(map[string]bool)
+	for _, tableStruct := range *s {
+		structNames[tableStruct.Name] = true
+	}
 	for _, schema := range catalog.Schemas {
 		for _, table := range schema.Tables {
+			fieldNames := map[string]bool{"TableStruct": true}
 			tableStruct := TableStruct{
-				Name:   strings.ToUpper(strings.ReplaceAll(table.TableName, " ", "_")),
+				Name:   goIdentifier(table.TableName, structNames),
 				Fields: make([]StructField, 0, len(table.Columns)+1),
 			}
 			tableStruct.Fields = append(tableStruct.Fields, StructField{Type: "sq.TableStruct"})
 			firstField := &tableStruct.Fields[0]
-			if (table.TableSchema != "" && table.TableSchema != catalog.CurrentSchema) || needsQuoting(table.TableName) {
+			if (table.TableSchema != "" && table.TableSchema != catalog.CurrentSchema) || needsQuoting(table.TableName) || strings.ToLower(tableStruct.Name) != table.TableName {
 				if table.TableSchema != "" {
 					firstField.NameTag = table.TableSchema + "." + table.TableName
 				} else {
@@ -186,10 +192,10 @@ func (s *TableStructs) ReadCatalog(catalog *Catalog) error {
 					continue
 				}
 				structField := StructField{
-					Name: strings.ToUpper(strings.ReplaceAll(column.ColumnName, " ", "_")),
+					Name: goIdentifier(column.ColumnName, fieldNames),
 					Type: getFieldType(catalog.Dialect, &table.Columns[i]),
 				}
-				if needsQuoting(column.ColumnName) {
+				if needsQuoting(column.ColumnName) || strings.ToLower(structField.Name) != column.ColumnName {
 					structField.NameTag = column.ColumnName
 				}
 				var defaultColumnType string
@@ -470,6 +476,26 @@ func getFieldType(dialect string, column *Column) (fieldType string) {
 	return "sq.AnyField"
 }
 
+// goIdentifier converts a name into an uppercase Go identifier that is not one
+// of the used ones, and marks it as used.
+func goIdentifier(name string, used map[string]bool) string {
+	identifier := strings.Map(func(char rune) rune {
+		if char == '_' || unicode.IsLetter(char) || unicode.IsDigit(char) {
+			return char
+		}
+		return '_'
+	}, strings.ToUpper(name))
+	if identifier == "" || identifier == "_" || unicode.IsDigit([]rune(identifier)[0]) {
+		identifier = "_" + identifier
+	}
+	base := identifier
+	for i := 2; used[identifier]; i++ {
+		identifier = base + "_" + strconv.Itoa(i)
+	}
+	used[identifier] = true
+	return identifier
+}
+
 func needsQuoting(identifier string) bool {
 	for i, char := range identifier {
 		if i == 0 && (char >= '0' && char <= '9') {
diff --git a/ddl/tables_cmd.go b/ddl/tables_cmd.go
index 3d54064..12a5ca2 100644
--- a/ddl/tables_cmd.go
+++ b/ddl/tables_cmd.go
@@ -148,6 +148,7 @@ func (cmd *TablesCmd) Run() error {
 		return err
 	}
 	if cmd.SchemaQualifiedStructs {
+		structNames := make(map[string]bool)
 		for i := range tableStructs {
 			tableStruct := &tableStructs[i]
 			tableName := strings.ToLower(tableStruct.Name)
@@ -162,7 +163,7 @@ func (cmd *TablesCmd) Run() error {
 				tableSchema = catalog.CurrentSchema
 			}
 			if tableSchema != "" {
-				tableStruct.Name = strings.ToUpper(strings.ReplaceAll(tableSchema+"_"+tableName, " ", "_"))
+				tableStruct.Name = goIdentifier(tableSchema+"_"+tableName, structNames)
 				tableStruct.Fields[0].NameTag = tableSchema + "." + tableName
 			}
 		}
-- 
2.43.0


From 8959e0dc4d2d20bd08510993d652c0092a501854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:06:43 +0000
Subject: [PATCH 67/83] fix: name the columns of foreign keys that refer to
 another schema

A reference made of two parts is a table and a column, so a reference to a
table of another schema has to name the columns as well. It was read as a
reference to a table named like the schema.
---
 ddl/table_structs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddl/table_structs.go b/ddl/table_structs.go
index b364f16..a8225ba 100644
--- a/ddl/table_structs.go
+++ b/ddl/table_structs.go
@@ -121,7 +121,7 @@ func (s *TableStructs) ReadCatalog(catalog *Catalog) error {
 						buf.WriteString(constraint.ReferencesSchema + ".")
 					}
 					buf.WriteString(constraint.ReferencesTable)
-					columnsEqual := true
+					columnsEqual := constraint.ReferencesSchema == "" || constraint.ReferencesSchema == catalog.CurrentSchema
 					for i := range constraint.Columns {
 						if i >= len(constraint.ReferencesColumns) {
 							columnsEqual = false
-- 
2.43.0


From 4fcdf61b073217c485a5786e2a8b647647dc86eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:06:53 +0000
Subject: [PATCH 68/83] fix: find out the columns of SQLite foreign keys that
 do not name them

REFERENCES tbl without columns refers to the primary key of tbl. Reading such
a foreign key from a database ended in a panic.
---
 ddl/database_introspector.go                     | 4 +++-
 ddl/introspection_scripts/sqlite_constraints.sql | 6 +++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/ddl/database_introspector.go b/ddl/database_introspector.go
index 8786951..68c5f82 100644
--- a/ddl/database_introspector.go
+++ b/ddl/database_introspector.go
@@ -254,7 +254,9 @@ func (dbi *DatabaseIntrospector) WriteCatalog(catalog *Catalog) error {
 				case FOREIGN_KEY:
 					column.ReferencesSchema = constraint.ReferencesSchema
 					column.ReferencesTable = constraint.ReferencesTable
-					column.ReferencesColumn = constraint.ReferencesColumns[0]
+					if len(constraint.ReferencesColumns) > 0 {
+						column.ReferencesColumn = constraint.ReferencesColumns[0]
+					}
 					column.UpdateRule = constraint.UpdateRule
 					column.DeleteRule = constraint.DeleteRule
 					column.IsDeferrable = constraint.IsDeferrable
diff --git a/ddl/introspection_scripts/sqlite_constraints.sql b/ddl/introspection_scripts/sqlite_constraints.sql
index ba35d12..ebc8de9 100644
--- a/ddl/introspection_scripts/sqlite_constraints.sql
+++ b/ddl/introspection_scripts/sqlite_constraints.sql
@@ -107,7 +107,11 @@ FROM (
         ,columns.id AS foreign_key_id
         ,columns."from" AS column_name
         ,columns."table" AS references_table
-        ,columns."to" AS references_column
+        ,COALESCE(columns."to", (
+            SELECT references_columns.name
+            FROM pragma_table_info(columns."table") AS references_columns
+            WHERE references_columns.pk = columns.seq + 1
+        )) AS references_column
         ,columns.on_update AS update_rule
         ,columns.on_delete AS delete_rule
     FROM (
-- 
2.43.0


From 8d7fc48d71295a7460548614be6c13286ac1e994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:07:03 +0000
Subject: [PATCH 69/83] fix: keep constraints and indexes that a modifier of
 another dialect declares too

A table-level modifier for another dialect hid the constraint or index on the
same columns that was already declared for the dialect at hand. An index
declared within a foreign key of another dialect was not hidden.
---
 ddl/struct_parser.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/ddl/struct_parser.go b/ddl/struct_parser.go
index a0a5e42..c665d6f 100644
--- a/ddl/struct_parser.go
+++ b/ddl/struct_parser.go
@@ -411,6 +411,10 @@ func (p *StructParser) parseIndexModifier(table *Table, columnNames []string, lo
 		p.report(loc, "no column provided")
 	}
 	indexName := GenerateName(INDEX, table.TableName, columnNames)
+	if m.ExcludesDialect(p.dialect) && p.cache.GetIndex(table, indexName) != nil {
+		// Already declared for this dialect.
+		return
+	}
 	p.locations[[2]string{table.TableSchema, indexName}] = loc
 	index := p.cache.GetOrCreateIndex(table, indexName, columnNames)
 	index.TableSchema = table.TableSchema
@@ -455,6 +459,10 @@ func (p *StructParser) parsePrimaryKeyUniqueModifier(table *Table, columnNames [
 	if p.dialect == DialectMySQL && constraintType == PRIMARY_KEY {
 		constraintName = "PRIMARY"
 	}
+	if m.ExcludesDialect(p.dialect) && p.cache.GetConstraint(table, constraintName) != nil {
+		// Already declared for this dialect.
+		return
+	}
 	p.locations[[2]string{table.TableSchema, constraintName}] = loc
 	constraint := p.cache.GetOrCreateConstraint(table, constraintName, constraintType, columnNames)
 	constraint.TableSchema = table.TableSchema
@@ -499,6 +507,10 @@ func (p *StructParser) parseForeignKeyModifier(table *Table, loc location, m *Mo
 	}
 	columnNames := strings.Split(m.Value, ",")
 	constraintName := GenerateName(FOREIGN_KEY, table.TableName, columnNames)
+	if m.ExcludesDialect(p.dialect) && p.cache.GetConstraint(table, constraintName) != nil {
+		// Already declared for this dialect.
+		return
+	}
 	p.locations[[2]string{table.TableSchema, constraintName}] = loc
 	constraint := p.cache.GetOrCreateConstraint(table, constraintName, FOREIGN_KEY, columnNames)
 	constraint.TableSchema = table.TableSchema
@@ -580,7 +592,11 @@ func (p *StructParser) parseForeignKeyModifier(table *Table, loc location, m *Mo
 			constraint.IsInitiallyDeferred = true
 		case "index":
 			loc.keys = append(loc.keys, submodifier.Name)
-			p.parseIndexModifier(table, columnNames, loc, submodifier)
+			index := *submodifier
+			if constraint.Ignore {
+				index.Dialects = m.Dialects
+			}
+			p.parseIndexModifier(table, columnNames, loc, &index)
 		default:
 			p.report(loc, "unknown modifier "+strconv.Quote(submodifier.Name))
 		}
-- 
2.43.0


From c01506fef8dbf4d49c43192e69a5af28cd70cede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:07:12 +0000
Subject: [PATCH 70/83] fix: report foreign keys that refer to nothing

A foreign key modifier with submodifiers but without references ended in a
panic.
---
 ddl/struct_parser.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ddl/struct_parser.go b/ddl/struct_parser.go
index c665d6f..f86462d 100644
--- a/ddl/struct_parser.go
+++ b/ddl/struct_parser.go
@@ -312,7 +312,9 @@ func (p *StructParser) WriteCatalog(catalog *Catalog) error {
 			case FOREIGN_KEY:
 				column.ReferencesSchema = constraint.ReferencesSchema
 				column.ReferencesTable = constraint.ReferencesTable
-				column.ReferencesColumn = constraint.ReferencesColumns[0]
+				if len(constraint.ReferencesColumns) > 0 {
+					column.ReferencesColumn = constraint.ReferencesColumns[0]
+				}
 				column.UpdateRule = constraint.UpdateRule
 				column.DeleteRule = constraint.DeleteRule
 				column.IsDeferrable = constraint.IsDeferrable
@@ -601,6 +603,9 @@ func (p *StructParser) parseForeignKeyModifier(table *Table, loc location, m *Mo
 			p.report(loc, "unknown modifier "+strconv.Quote(submodifier.Name))
 		}
 	}
+	if constraint.ReferencesTable == "" && !constraint.Ignore {
+		p.report(loc, "no referenced column(s) provided")
+	}
 }
 
 func (p *StructParser) parseReferencesModifier(table *Table, columnName string, loc location, m *Modifier) {
-- 
2.43.0


From 20c9e2fa93813593f7e689a6d5b3219295ddf6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:07:23 +0000
Subject: [PATCH 71/83] fix: read every name of a struct field that declares
 several columns

Only the first column of a field such as "A, B sq.NumberField" was read.
---
 ddl/struct_parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ddl/struct_parser.go b/ddl/struct_parser.go
index f86462d..016b2db 100644
--- a/ddl/struct_parser.go
+++ b/ddl/struct_parser.go
@@ -125,6 +125,11 @@ func (p *StructParser) VisitStruct(node ast.Node) {
 			}
 		}
 		tableStruct.Fields = append(tableStruct.Fields, structField)
+		for i := 1; i < len(astField.Names); i++ {
+			structField.Name = astField.Names[i].Name
+			structField.Modifiers = append(Modifiers{}, structField.Modifiers...)
+			tableStruct.Fields = append(tableStruct.Fields, structField)
+		}
 	}
 	p.TableStructs = append(p.TableStructs, tableStruct)
 }
-- 
2.43.0


From 4c19fdcb126b6e931aa8196f172224d5474df38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:07:34 +0000
Subject: [PATCH 72/83] fix: escape backquotes in generated struct tags

A backquote in the name of a table or column, or in a type, ended the struct
tag it was written into, and a default that contains one was left out.
---
 ddl/table_structs.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ddl/table_structs.go b/ddl/table_structs.go
index a8225ba..6196af9 100644
--- a/ddl/table_structs.go
+++ b/ddl/table_structs.go
@@ -333,7 +333,7 @@ func (s *TableStructs) ReadCatalog(catalog *Catalog) error {
 					}
 				}
 				// default
-				if column.ColumnDefault != "" && !strings.ContainsRune(column.ColumnDefault, '`') {
+				if column.ColumnDefault != "" {
 					structField.Modifiers = append(structField.Modifiers, Modifier{Name: "default", RawValue: unwrapBrackets(column.ColumnDefault)})
 				}
 				// onupdatecurrenttimestamp
@@ -425,14 +425,14 @@ func (s *TableStructs) MarshalText() (text []byte, err error) {
 					buf.WriteString(" ")
 				}
 				written = true
-				buf.WriteString(`sq:` + strconv.Quote(structField.NameTag))
+				buf.WriteString(`sq:` + quoteTag(structField.NameTag))
 			}
 			if ddlTag != "" {
 				if written {
 					buf.WriteString(" ")
 				}
 				written = true
-				buf.WriteString(`ddl:` + strconv.Quote(ddlTag))
+				buf.WriteString(`ddl:` + quoteTag(ddlTag))
 			}
 			buf.WriteString("`")
 		}
@@ -443,6 +443,11 @@ func (s *TableStructs) MarshalText() (text []byte, err error) {
 	return b, nil
 }
 
+// quoteTag quotes the value of a struct tag that is enclosed in backquotes.
+func quoteTag(value string) string {
+	return strings.ReplaceAll(strconv.Quote(value), "`", `\x60`)
+}
+
 func getFieldType(dialect string, column *Column) (fieldType string) {
 	if column.IsEnum {
 		return "sq.EnumField"
-- 
2.43.0


From 2630369acd650115abf91abf28fdd913a0bf0f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:07:44 +0000
Subject: [PATCH 73/83] fix: do not look for what foreign keys of tables of
 other dialects refer to

A table restricted to other dialects whose foreign key refers to a table of
those dialects, such as itself, was rejected.
---
 ddl/struct_parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ddl/struct_parser.go b/ddl/struct_parser.go
index 016b2db..bb490fe 100644
--- a/ddl/struct_parser.go
+++ b/ddl/struct_parser.go
@@ -362,6 +362,9 @@ func (p *StructParser) WriteCatalog(catalog *Catalog) error {
 	// Validate column existence for FOREIGN KEY constraints.
 	for _, schema := range catalog.Schemas {
 		for _, table := range schema.Tables {
+			if table.Ignore {
+				continue
+			}
 			for _, constraint := range table.Constraints {
 				if constraint.Ignore || constraint.ConstraintType != FOREIGN_KEY {
 					continue
-- 
2.43.0


From 4b4a94850f2992e357629e21b741d37efe961b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:59:57 +0000
Subject: [PATCH 74/83] fix: compare array and unsigned column types that take
 arguments

---
 ddl/ddl.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ddl/ddl.go b/ddl/ddl.go
index 57a6516..13cc2af 100644
--- a/ddl/ddl.go
+++ b/ddl/ddl.go
@@ -802,9 +802,10 @@ func normalizeColumnType(dialect string, columnType string) (normalizedType, arg
 		}
 	}
 	isPostgresArray := false
-	if dialect == DialectPostgres && strings.HasSuffix(normalizedType, "[]") {
+	if dialect == DialectPostgres && (strings.HasSuffix(normalizedType, "[]") || strings.HasSuffix(suffix, "[]")) {
 		isPostgresArray = true
-		normalizedType = normalizedType[:len(normalizedType)-2]
+		normalizedType = strings.TrimSuffix(normalizedType, "[]")
+		suffix = strings.TrimSpace(strings.TrimSuffix(suffix, "[]"))
 	}
 	switch dialect {
 	case DialectPostgres:
@@ -853,7 +854,7 @@ func normalizeColumnType(dialect string, columnType string) (normalizedType, arg
 			normalizedType = "BOOLEAN"
 		}
 	case DialectMySQL:
-		isUnsigned := strings.HasSuffix(normalizedType, " UNSIGNED")
+		isUnsigned := strings.HasSuffix(normalizedType, " UNSIGNED") || suffix == "UNSIGNED"
 		if isUnsigned {
 			normalizedType = strings.TrimSuffix(normalizedType, " UNSIGNED")
 		} else {
-- 
2.43.0


From 500ce59c22606ef261583d77edb10f3822c95466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:00:05 +0000
Subject: [PATCH 75/83] fix: load any JSON array into a Postgres array column

---
 ddl/load_cmd.go | 42 ++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/ddl/load_cmd.go b/ddl/load_cmd.go
index c7f4988..b796724 100644
--- a/ddl/load_cmd.go
+++ b/ddl/load_cmd.go
@@ -10,6 +10,7 @@ import (
 	"embed"
 	"encoding/csv"
 	"encoding/hex"
+	"encoding/json"
 	"errors"
 	"flag"
 	"fmt"
@@ -466,10 +467,20 @@ func (cmd *LoadCmd) loadCSV(ctx context.Context, tx *sql.Tx, filename string, r
 				rowvalue[i] = b
 				continue
 			}
-			if cmd.Dialect == DialectPostgres && strings.HasSuffix(columnType, "[]") && len(field) > 2 && field[0] == '[' && field[len(field)-1] == ']' {
+			if cmd.Dialect == DialectPostgres && strings.HasSuffix(columnType, "[]") && len(field) >= 2 && field[0] == '[' && field[len(field)-1] == ']' {
 				// (Postgres only) Convert JSON arrays into Postgres arrays if
 				// the column is an array type (e.g. TEXT[], INT[]).
-				rowvalue[i] = "{" + field[1:len(field)-1] + "}"
+				var elements []any
+				decoder := json.NewDecoder(strings.NewReader(field))
+				decoder.UseNumber()
+				err = decoder.Decode(&elements)
+				if err != nil {
+					rowvalue[i] = "{" + field[1:len(field)-1] + "}"
+					continue
+				}
+				var b strings.Builder
+				writePostgresArray(&b, elements)
+				rowvalue[i] = b.String()
 				continue
 			}
 			if cmd.Dialect == DialectSQLite && cmd.TimestampAsInteger && (columnType == "TIMESTAMP" || columnType == "DATETIME" || columnType == "DATE") {
@@ -1083,6 +1094,33 @@ func getColumnInfo(ctx context.Context, tx *sql.Tx, dialect, tableSchema, tableN
 	return columnTypes, keyColumns, identityColumns, closeRows(rows)
 }
 
+// writePostgresArray writes the elements of a JSON array as a Postgres array
+// literal.
+func writePostgresArray(b *strings.Builder, elements []any) {
+	b.WriteString("{")
+	for i, element := range elements {
+		if i > 0 {
+			b.WriteString(",")
+		}
+		switch element := element.(type) {
+		case nil:
+			b.WriteString("NULL")
+		case bool, json.Number:
+			fmt.Fprint(b, element)
+		case []any:
+			writePostgresArray(b, element)
+		default:
+			s, ok := element.(string)
+			if !ok {
+				data, _ := json.Marshal(element)
+				s = string(data)
+			}
+			b.WriteString(`"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(s) + `"`)
+		}
+	}
+	b.WriteString("}")
+}
+
 func setSessionValue(ctx context.Context, db DB, getter, setter, value string) (restoreSessionValue func() error, err error) {
 	rows, err := db.QueryContext(ctx, getter)
 	if err != nil {
-- 
2.43.0


From b18bd4f3ab928730cbb4050ba3f07b05526c7a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:05:53 +0000
Subject: [PATCH 76/83] fix: add the foreign keys of all schemas after the keys
 of all schemas in a dump

---
 ddl/dump_cmd.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ddl/dump_cmd.go b/ddl/dump_cmd.go
index 745a8ac..4e83244 100644
--- a/ddl/dump_cmd.go
+++ b/ddl/dump_cmd.go
@@ -815,6 +815,9 @@ func (cmd *DumpCmd) dumpConstraints(w io.Writer) error {
 				buf.WriteString(";\n")
 			}
 		}
+	}
+	for i := range cmd.catalog.Schemas {
+		schema := &cmd.catalog.Schemas[i]
 		// FOREIGN KEY
 		// Foreign keys are added at the very end in order to avoid problems
 		// with circular references.
-- 
2.43.0


From eb9d47c28066939bea4caf14534d86ce88c10d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:06:02 +0000
Subject: [PATCH 77/83] fix: create a MySQL table together with the key that
 its AUTO_INCREMENT column needs in a dump

---
 ddl/dump_cmd.go | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/ddl/dump_cmd.go b/ddl/dump_cmd.go
index 4e83244..5005883 100644
--- a/ddl/dump_cmd.go
+++ b/ddl/dump_cmd.go
@@ -806,6 +806,9 @@ func (cmd *DumpCmd) dumpConstraints(w io.Writer) error {
 				if constraint.ConstraintType == FOREIGN_KEY {
 					continue
 				}
+				if constraint == autoIncrementKey(cmd.Dialect, table) {
+					continue
+				}
 				tableName := QuoteIdentifier(cmd.Dialect, constraint.TableName)
 				if constraint.TableSchema != "" && constraint.TableSchema != cmd.catalog.CurrentSchema {
 					tableName = QuoteIdentifier(cmd.Dialect, constraint.TableSchema) + "." + tableName
@@ -1063,6 +1066,35 @@ func writeCreateSchema(dialect string, buf *bytes.Buffer, schemaName string) {
 	}
 }
 
+// autoIncrementKey is the UNIQUE constraint without which MySQL does not create
+// a table with an AUTO_INCREMENT column that is no primary key.
+func autoIncrementKey(dialect string, table *Table) *Constraint {
+	if dialect != DialectMySQL {
+		return nil
+	}
+	for i := range table.Columns {
+		column := &table.Columns[i]
+		if !column.IsAutoincrement {
+			continue
+		}
+		var unique *Constraint
+		for j := range table.Constraints {
+			constraint := &table.Constraints[j]
+			if constraint.Ignore || len(constraint.Columns) == 0 || constraint.Columns[0] != column.ColumnName {
+				continue
+			}
+			if constraint.ConstraintType == PRIMARY_KEY {
+				return nil
+			}
+			if constraint.ConstraintType == UNIQUE && unique == nil {
+				unique = constraint
+			}
+		}
+		return unique
+	}
+	return nil
+}
+
 func writeCreateTable(dialect string, buf *bytes.Buffer, currentSchema, defaultCollation string, table *Table, includeConstraints bool) {
 	if table.SQL != "" {
 		buf.WriteString(table.SQL + "\n")
@@ -1119,6 +1151,10 @@ func writeCreateTable(dialect string, buf *bytes.Buffer, currentSchema, defaultC
 				}
 			}
 		}
+		if constraint := autoIncrementKey(dialect, table); constraint != nil {
+			buf.WriteString("\n\n    ,")
+			writeConstraintDefinition(dialect, buf, currentSchema, constraint)
+		}
 		buf.WriteString("\n);\n")
 		return
 	}
-- 
2.43.0


From ef5c50b1eb1ac578d32dd5be1ee78e4e5b243062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:06:11 +0000
Subject: [PATCH 78/83] fix: take a domain without CHECK constraints as one
 without any

---
 ddl/database_introspector.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ddl/database_introspector.go b/ddl/database_introspector.go
index 68c5f82..c0ba44d 100644
--- a/ddl/database_introspector.go
+++ b/ddl/database_introspector.go
@@ -873,6 +873,10 @@ func (dbi *DatabaseIntrospector) GetDomains() ([]Domain, error) {
 		if err != nil {
 			return nil, fmt.Errorf("unmarshaling domain constraints: %w", err)
 		}
+		if len(domain.CheckExprs) == 1 && domain.CheckExprs[0] == "" {
+			// The outer join yields one row for a domain without constraints.
+			domain.CheckNames, domain.CheckExprs = nil, nil
+		}
 		for i, checkExpr := range domain.CheckExprs {
 			domain.CheckExprs[i] = strings.TrimPrefix(checkExpr, "CHECK ")
 		}
-- 
2.43.0


From 965c9e2d3c8a382819d8d57f25f0eb8de9959a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:06:19 +0000
Subject: [PATCH 79/83] fix: dump Postgres constraints that are NOT VALID as
 such

---
 ddl/database_introspector.go | 2 +-
 ddl/dump_cmd.go              | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/ddl/database_introspector.go b/ddl/database_introspector.go
index c0ba44d..47889ae 100644
--- a/ddl/database_introspector.go
+++ b/ddl/database_introspector.go
@@ -748,7 +748,7 @@ func (dbi *DatabaseIntrospector) GetConstraints() ([]Constraint, error) {
 			if err != nil {
 				return nil, fmt.Errorf("unmarshaling %s into %T: %w", operators, constraint.ExclusionOperators, err)
 			}
-			constraint.CheckExpr = unwrapBrackets(strings.TrimPrefix(constraint.CheckExpr, "CHECK "))
+			constraint.CheckExpr = unwrapBrackets(strings.TrimSuffix(strings.TrimPrefix(constraint.CheckExpr, "CHECK "), " NOT VALID"))
 		case DialectMySQL:
 			var columns, referencesColumns string
 			err = rows.Scan(
diff --git a/ddl/dump_cmd.go b/ddl/dump_cmd.go
index 5005883..87f9a84 100644
--- a/ddl/dump_cmd.go
+++ b/ddl/dump_cmd.go
@@ -815,6 +815,9 @@ func (cmd *DumpCmd) dumpConstraints(w io.Writer) error {
 				}
 				buf.WriteString("ALTER TABLE " + tableName + " ADD ")
 				writeConstraintDefinition(cmd.Dialect, buf, cmd.catalog.CurrentSchema, constraint)
+				if constraint.IsNotValid && cmd.Dialect == DialectPostgres {
+					buf.WriteString(" NOT VALID")
+				}
 				buf.WriteString(";\n")
 			}
 		}
@@ -842,6 +845,9 @@ func (cmd *DumpCmd) dumpConstraints(w io.Writer) error {
 				}
 				buf.WriteString("ALTER TABLE " + tableName + " ADD ")
 				writeConstraintDefinition(cmd.Dialect, buf, cmd.catalog.CurrentSchema, fkey)
+				if fkey.IsNotValid && cmd.Dialect == DialectPostgres {
+					buf.WriteString(" NOT VALID")
+				}
 				buf.WriteString(";\n")
 			}
 		}
-- 
2.43.0


From 54440936081e1018ebf98a311fb1a1562362ea8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:06:29 +0000
Subject: [PATCH 80/83] fix: drop generated columns of introspected databases
 before the columns they depend on

---
 ddl/postgres_migration.go  | 4 +++-
 ddl/sqlserver_migration.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/ddl/postgres_migration.go b/ddl/postgres_migration.go
index a86aeac..9569a35 100644
--- a/ddl/postgres_migration.go
+++ b/ddl/postgres_migration.go
@@ -496,7 +496,9 @@ func (m *postgresMigration) sql(prefix string) (filenames []string, bufs []*byte
 		}
 		// DROP COLUMN (generated columns go before the columns they depend on).
 		sort.SliceStable(alterTable.dropColumns, func(i, j int) bool {
-			return alterTable.dropColumns[i].IsGenerated && !alterTable.dropColumns[j].IsGenerated
+			// An introspected column has its expression.
+			x, y := alterTable.dropColumns[i], alterTable.dropColumns[j]
+			return (x.IsGenerated || x.GeneratedExpr != "") && !(y.IsGenerated || y.GeneratedExpr != "")
 		})
 		for _, column := range alterTable.dropColumns {
 			if buf.Len() > 0 {
diff --git a/ddl/sqlserver_migration.go b/ddl/sqlserver_migration.go
index 4864470..d9f1591 100644
--- a/ddl/sqlserver_migration.go
+++ b/ddl/sqlserver_migration.go
@@ -703,7 +703,9 @@ END;
 
 		// DROP COLUMN (generated columns go before the columns they depend on).
 		sort.SliceStable(alterTable.dropColumns, func(i, j int) bool {
-			return alterTable.dropColumns[i].IsGenerated && !alterTable.dropColumns[j].IsGenerated
+			// An introspected column has its expression.
+			x, y := alterTable.dropColumns[i], alterTable.dropColumns[j]
+			return (x.IsGenerated || x.GeneratedExpr != "") && !(y.IsGenerated || y.GeneratedExpr != "")
 		})
 		for _, column := range alterTable.dropColumns {
 			if buf.Len() > 0 {
-- 
2.43.0


From bb4a1430dfec6415aecc2ca552667de3cff94958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:06:45 +0000
Subject: [PATCH 81/83] fix: do not alter the type of a SQL Server computed
 column, which the database derives itself

---
 ddl/sqlserver_migration.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ddl/sqlserver_migration.go b/ddl/sqlserver_migration.go
index d9f1591..42b72e4 100644
--- a/ddl/sqlserver_migration.go
+++ b/ddl/sqlserver_migration.go
@@ -292,6 +292,11 @@ func newSQLServerMigration(srcCatalog, destCatalog *Catalog, dropObjects bool) s
 					m.warnings = append(m.warnings, fmt.Sprintf("%s: column %s: identity cannot be added to an existing column, skipping", tableName, columnName))
 				}
 				columnsAreDifferent := func() bool {
+					if (srcColumn.IsGenerated || srcColumn.GeneratedExpr != "") && (destColumn.IsGenerated || destColumn.GeneratedExpr != "") {
+						// The type, nullability and collation of a computed
+						// column follow from its expression.
+						return false
+					}
 					srcType, srcArg1, srcArg2 := normalizeColumnType(dialect, srcColumn.ColumnType)
 					destType, destArg1, destArg2 := normalizeColumnType(dialect, destColumn.ColumnType)
 					if [3]string{srcType, srcArg1, srcArg2} != [3]string{destType, destArg1, destArg2} {
-- 
2.43.0


From e53b089e087ec9a5c643dd7e8ae4a0e9950b936b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:06:54 +0000
Subject: [PATCH 82/83] fix: write the MATCH FULL of Postgres foreign keys

---
 ddl/dump_cmd.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ddl/dump_cmd.go b/ddl/dump_cmd.go
index 87f9a84..b5fde85 100644
--- a/ddl/dump_cmd.go
+++ b/ddl/dump_cmd.go
@@ -1404,6 +1404,9 @@ func writeConstraintDefinition(dialect string, buf *bytes.Buffer, currentSchema
 		buf.WriteString(" REFERENCES " + referencesTable + " (")
 		writeColumnNames(dialect, buf, constraint.ReferencesColumns)
 		buf.WriteString(")")
+		if constraint.MatchOption == "MATCH FULL" && dialect == DialectPostgres {
+			buf.WriteString(" " + constraint.MatchOption)
+		}
 		if constraint.UpdateRule != "" && constraint.UpdateRule != NO_ACTION {
 			buf.WriteString(" ON UPDATE " + constraint.UpdateRule)
 		}
-- 
2.43.0


From 884920a9c7cc60255c5e3739d3f8f3de7c534966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 05:07:30 +0000
Subject: [PATCH 83/83] fix: do not drop ignored objects together with their
 SQL Server schema

---
 ddl/sqlserver_migration.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ddl/sqlserver_migration.go b/ddl/sqlserver_migration.go
index 42b72e4..8965d7c 100644
--- a/ddl/sqlserver_migration.go
+++ b/ddl/sqlserver_migration.go
@@ -582,6 +582,9 @@ END;
 		}
 		// DROP VIEW.
 		for _, view := range schema.Views {
+			if view.Ignore {
+				continue
+			}
 			if buf.Len() > 0 {
 				buf.WriteString("\n")
 			}
@@ -589,6 +592,9 @@ END;
 		}
 		// DROP TABLE.
 		for _, table := range schema.Tables {
+			if table.Ignore {
+				continue
+			}
 			if buf.Len() > 0 {
 				buf.WriteString("\n")
 			}
@@ -596,6 +602,9 @@ END;
 		}
 		// DROP PROCEDURE and DROP FUNCTION.
 		for _, routine := range schema.Routines {
+			if routine.Ignore {
+				continue
+			}
 			if buf.Len() > 0 {
 				buf.WriteString("\n")
 			}
-- 
2.43.0

