"""What each check explores.  model: (module, config); enum: (module, config,
limit); n: number of seeded scenarios."""

MC = "HistoryMCs"


def mc(*names):
    return [(MC, "HistoryMC_%s.cfg" % n) for n in names]


STANDIN = "SQLite stands in for Postgres, MySQL and SQL Server when the history table is read and written"
HIST = dict(trace="HistoryTrace", mode="history", assumptions=[
    STANDIN, "one migrate run at a time", "a commit either reports its outcome or the client is lost with it"])

AUTO = dict(trace="AutoTrace", mode="auto", assumptions=[
    "SQLite; auto-migrations of the other databases are executed against a stand-in by the rules of the specification (C10)",
    "constraints of SQLite are identified by their kind and columns"])

GEN = dict(trace="SchemaTrace", mode="generate", assumptions=[
    "the rules by which Postgres, MySQL and SQL Server accept statements are those of the specification; no such server runs here",
    "the current schema is one the specification accepts as sound"])

WIPE = dict(trace="WipeTrace", mode="wipe", assumptions=[
    "for Postgres, MySQL and SQL Server the catalog queries are answered by a stand-in and the DROP statements executed by the rules of the specification",
    "no schema-bound views, aggregates or objects owned by extensions"])

BATCH = dict(trace="BatchTrace", mode="batch", assumptions=[
    "for Postgres, MySQL and SQL Server the statements are executed by the rules of the specification",
    "rows repeating a key within one batch are only sent where the dialect defines what happens"])

LOAD = dict(trace="LoadTrace", mode="load", assumptions=[
    "for Postgres, MySQL and SQL Server the statements are executed by the rules of the specification and the catalog is a stub",
    "SQL files fail as a whole only where a failing statement is their first"])

RESTORE = dict(trace="RestoreTrace", mode="restore", assumptions=[
    "the catalog queries are answered by a stand-in, and the statements executed by the rules of the specification; no Postgres, MySQL or SQL Server runs here",
    "columns of enum and domain types have a type of the current schema with a plain name"])

DUMP = dict(trace="DumpTrace", mode="dump", assumptions=[
    "SQLite only", "values are of the type of their column, and none equals the NULL marker or starts with the binary marker",
    "no table name contains a slash; views and triggers are not part of a dump"])

SUBSET = dict(trace="SubsetTrace", mode="subset", assumptions=[
    "SQLite only", "no primary key value is NULL",
    "an extended subset over tables joined in several ways is only required to hold the selected rows and those that refer to them (known finding)"])

MODIFIER = dict(trace="ModifierTrace", mode="modifier", chunk=500, assumptions=[
    "names with braces, empty names and text right behind a closing brace have no specified meaning"])
LOOKUP = dict(trace="LookupTrace", mode="lookup", assumptions=[
    "tables and views have different names, indexes belong to materialized views and triggers to others",
    "objects are added through the lookup only, their fields may be changed through the pointers it returns"])
STRUCTS = dict(trace="StructTrace", mode="structs", assumptions=[
    "nothing is declared twice for a dialect, and generated names do not coincide",
    "names of key columns and referenced tables contain no dots, commas or unbalanced braces",
    "SQLite does not report AUTOINCREMENT, deferrability or hidden columns of virtual tables"])

CHECKS = {
    "C01": dict(HIST, note="Every directory of at most three scripts of six kinds as TLC-enumerated scenarios (a sample of them in the quick tier); model over every implementation the clauses allow on fixed directories of two or three files with one fault and one edit; larger directories, argument lists and single faults sampled",
                model={"quick": mc("shared"), "thorough": mc("shared3", "off", "rep")},
                enum={"quick": [("HistoryGen", "HistoryGen.cfg", 1500)], "thorough": [("HistoryGen", "HistoryGen.cfg", 0)]},
                n={"quick": 1500, "thorough": 6000}),
    "C02": dict(HIST, note="Crash, error and lock timeout at up to twelve sampled call sites of each migrate run over sampled directories; model over fixed directories of two to four files with one fault",
                model={"quick": mc("shared", "own"), "thorough": mc("shared3", "off", "own", "mysql")},
                n={"quick": 250, "thorough": 1200}),
    "C03": dict(HIST, note="A failing script in every directory of at most three scripts as TLC-enumerated scenarios (a sample in the quick tier); other failing positions, undo scripts and transaction modes sampled; model over fixed directories",
                model={"quick": mc("shared"), "thorough": mc("off", "mysql")},
                enum={"quick": [("HistoryGen", "HistoryGen.cfg", 1000)], "thorough": [("HistoryGen", "HistoryGen.cfg", 0)]},
                n={"quick": 1500, "thorough": 6000}),
    "C04": dict(HIST, note="An edited repeatable script in every directory of at most three scripts as TLC-enumerated scenarios (a sample in the quick tier); line endings, renames and other edits sampled; model over one fixed directory",
                model={"quick": mc("rep"), "thorough": mc("rep2")},
                enum={"quick": [("HistoryGen", "HistoryGen.cfg", 800)], "thorough": [("HistoryGen", "HistoryGen.cfg", 0)]},
                n={"quick": 1500, "thorough": 6000}),
    "C05": dict(HIST, note="Lock timeouts on scripts and on bookkeeping statements with millisecond delays; real driver error values, simulated server",
                model={"quick": mc("shared"), "thorough": mc("mysql", "shared3")},
                n={"quick": 1500, "thorough": 6000}),
    "C06": dict(HIST, note="Sampled flags and histories and TLC-enumerated directories; listing compared with the specification and with what migrate then does",
                model={"quick": mc("rep"), "thorough": mc("rep2", "off")},
                enum={"quick": [("HistoryGen", "HistoryGen.cfg", 800)], "thorough": [("HistoryGen", "HistoryGen.cfg", 0)]},
                n={"quick": 1500, "thorough": 6000}),
    "C07": dict(HIST, note="Sampled histories with faults injected at sampled calls of touch, rm and mv, up to four for each history; model over fixed directories",
                model={"quick": mc("shared"), "thorough": mc("shared3", "rep")},
                n={"quick": 800, "thorough": 3500}),
    "C08": dict(WIPE, note="Every foreign key graph over two tables and those of up to three edges over three, views over views, a failure at each of the first three calls (a sample of these in the quick tier); larger databases and other failing calls sampled",
                model={"quick": [("WipeMC", "WipeMC_%s.cfg" % d) for d in ("postgres", "mysql", "sqlserver")],
                       "thorough": [("WipeMC", "WipeMC_%s3.cfg" % d) for d in ("postgres", "mysql", "sqlserver")]},
                enum={"quick": [("WipeGen", "WipeGen.cfg", 3000)], "thorough": [("WipeGen", "WipeGen.cfg", 0)]},
                n={"quick": 6000, "thorough": 40000}),
    "C09": dict(AUTO, note="Chains of two changes between five fixed catalogs in the model, changes of a small universe as TLC-enumerated scenarios (a sample in the quick tier); larger schemas, four ways of declaring them and several steps sampled",
                model=[("AutoMC", "AutoMC.cfg")],
                enum={"quick": [("AutoGen", "AutoGen.cfg", 2500)], "thorough": [("AutoGen", "AutoGen.cfg", 0)]},
                n={"quick": 2500, "thorough": 20000}),
    "C11": dict(AUTO, note="Rows and objects before and after each run on SQLite, with and without enforced foreign keys and permission to drop",
                model=[("AutoMC", "AutoMC.cfg"), ("AutoMC", "AutoMC_fk.cfg")],
                enum={"quick": [("AutoGen", "AutoGen.cfg", 2000)], "thorough": [("AutoGen", "AutoGen.cfg", 0)]},
                n={"quick": 3000, "thorough": 20000},
                more=[dict(GEN, model=[("SchemaMC", "SchemaMC_walk.cfg")],
                           enum={"quick": [("SchemaGen", "SchemaGen.cfg", 2000)], "thorough": [("SchemaGen", "SchemaGen.cfg", 0)]},
                           n={"quick": 2000, "thorough": 12000})]),
    "C10": dict(GEN, note="Every pair of a small universe of catalogs with one or two tables in the model and as TLC-enumerated scenarios (a sample in the quick tier), larger ones sampled; generated statements are executed on the specified catalog",
                model=[("SchemaMC", "SchemaMC_plan.cfg"), ("SchemaMC", "SchemaMC_walk.cfg")],
                enum={"quick": [("SchemaGen", "SchemaGen.cfg", 4000)], "thorough": [("SchemaGen", "SchemaGen.cfg", 0)]},
                n={"quick": 4000, "thorough": 24000}),
    "C12": dict(GEN, note="Warnings, refusal and preview of generate compared with the specification; the same pairs as for C10",
                model=[("SchemaMC", "SchemaMC_plan.cfg")],
                enum={"quick": [("SchemaGen", "SchemaGen.cfg", 3000)], "thorough": [("SchemaGen", "SchemaGen.cfg", 0)]},
                n={"quick": 4000, "thorough": 20000},
                more=[dict(AUTO, model=[("AutoMC", "AutoMC.cfg")], n={"quick": 1500, "thorough": 10000})]),
    "C13": dict(GEN, note="Names, order, kind and undo of the generated files, including more than a hundred files",
                model=[("SchemaMC", "SchemaMC_walk.cfg")],
                enum={"quick": [("SchemaGen", "SchemaGen.cfg", 2000)], "thorough": [("SchemaGen", "SchemaGen.cfg", 0)]},
                n={"quick": 4000, "thorough": 20000}),
    "C20": dict(BATCH, note="Streams of up to three rows over two keys, batch sizes up to three, key and identity settings and failures, as TLC-enumerated scenarios (a sample in the quick tier) and, up to two rows in the quick tier, in the model; longer streams and statements near the parameter limits sampled",
                model={"quick": [("BatchMC", "BatchMC.cfg")], "thorough": [("BatchMC", "BatchMC.cfg"), ("BatchMC", "BatchMC_3.cfg")]},
                enum={"quick": [("BatchGen", "BatchGen.cfg", 6000)], "thorough": [("BatchGen", "BatchGen.cfg", 0)]},
                n={"quick": 8000, "thorough": 60000}),
    "C15": dict(LOAD, note="Five entries of a dump in every order and container, loaded once or twice and failing at two chosen calls (a sample in the quick tier); other contents, options and failing calls sampled",
                model={"quick": [("LoadMC", "LoadMC.cfg")], "thorough": [("LoadMC", "LoadMC.cfg"), ("LoadMC", "LoadMC_all.cfg")]},
                enum={"quick": [("LoadGen", "LoadGen.cfg", 3000)], "thorough": [("LoadGen", "LoadGen.cfg", 0)]},
                n={"quick": 8000, "thorough": 60000}),
    "C14": dict(DUMP, note="Text of a dump: every row of short fields in the model and against the implementation, listed restrictions of a small database with each of the first fourteen calls failing (a sample in the quick tier); other schemas, values, names and formats sampled",
                model={"quick": [("DumpMC", "DumpMC.cfg")], "thorough": [("DumpMC", "DumpMC.cfg"), ("DumpMC", "DumpMC_rows.cfg"), ("DumpMC", "DumpMC_long.cfg")]},
                enum={"quick": [("DumpGen", "DumpGen.cfg", 2500)], "thorough": [("DumpGen", "DumpGen.cfg", 0)]},
                n={"quick": 5000, "thorough": 40000}),
    "C21": dict(RESTORE, note="Every database of a small universe of one or two tables in one or two schemas in the model and as TLC-enumerated scenarios, listed in four orders (a sample in the quick tier); larger ones, types, archives and failing calls sampled",
                model=[("RestoreMC", "RestoreMC.cfg")],
                enum={"quick": [("RestoreGen", "RestoreGen.cfg", 3000)], "thorough": [("RestoreGen", "RestoreGen.cfg", 0)]},
                n={"quick": 5000, "thorough": 40000}),
    "C16": dict(SUBSET, note="Three tables of two rows, one with one foreign key and one with two that lead to any table or nowhere, against the implementation (a sample in the quick tier) and in the model; larger graphs, composite keys, key types, several queries and failing calls sampled",
                model={"quick": [("SubsetMC", "SubsetMC.cfg")], "thorough": [("SubsetMC", "SubsetMC.cfg"), ("SubsetMC", "SubsetMC_ring.cfg")]},
                enum={"quick": [("SubsetGen", "SubsetGen.cfg", 4000)], "thorough": [("SubsetGen", "SubsetGen.cfg", 0)]},
                n={"quick": 6000, "thorough": 50000}),
    "C18": dict(MODIFIER, note="Every string over the significant characters up to six characters (five in the quick tier), every list of two modifiers with nested values; longer and damaged tags sampled",
                model={"quick": [("ModifierMC", "ModifierMC.cfg")], "thorough": [("ModifierMC", "ModifierMC_long.cfg")]},
                enum={"quick": [("ModifierGen", "ModifierGen.cfg", 0)], "thorough": [("ModifierGen", "ModifierGen_long.cfg", 0)]},
                n={"quick": 500, "thorough": 3000}),
    "C19": dict(LOOKUP, note="Every sequence of three operations of twenty (a sample in the quick tier) on a table, its columns and constraints and a view; longer sequences over all kinds of objects and copies with every field set sampled",
                model={"quick": [("LookupMC", "LookupMC.cfg")], "thorough": [("LookupMC", "LookupMC_4.cfg")]},
                enum={"quick": [("LookupGen", "LookupGen.cfg", 4000)], "thorough": [("LookupGen", "LookupGen.cfg", 0)]},
                n={"quick": 5000, "thorough": 30000}),
    "C17": dict(STRUCTS, note="Every declaration of a two-column table out of a small vocabulary of tags in the quick tier, a sample out of a larger one in the thorough tier, for four dialects; declarations of up to three tables and schemas described in catalogs of four dialects and in SQLite databases sampled",
                model={"quick": [("StructMC", "StructMC.cfg")], "thorough": [("StructMC", "StructMC_4.cfg")]},
                enum={"quick": [("StructGen", "StructGen.cfg", 0)], "thorough": [("StructGen", "StructGen_full.cfg", 15000)]},
                n={"quick": 5000, "thorough": 30000}),
}

NOT_APPLICABLE = {}
