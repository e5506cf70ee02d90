#!/usr/bin/env python3
"""Writes known_findings.json: the defects met, fixed ones with their commit in /repo."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# subject prefix of the fix commit -> (properties, what failed)
FIXED = [
 ("Value keeps a valid state", ["C08", "C02"], "Value::setString/setBinary freed or re-read a dangling pointer when copying the text ran out of memory: crash"),
 ("C API functions report every C++ exception", ["C08"], "std::bad_alloc, std::regex errors and others escaped GEODIFF_* functions and terminated the caller"),
 ("errors when writing a changeset file", ["C08", "C01", "C10"], "ENOSPC or EIO while writing a changeset was ignored: a truncated diff was reported as success"),
 ("errors when writing JSON files", ["C08", "C11", "C07"], "ENOSPC or EIO while writing JSON listings, conflict files, copied files and buffers was ignored"),
 ("rebasing with an empty changeset", ["C05", "C06", "C14"], "rebase with no change on one side wrote no output, or moved the caller's input file away"),
 ("ChangesetReader never reads past the end", ["C09", "C08"], "a truncated or damaged changeset made the reader read past its buffer, or was accepted as a shorter changeset; read errors counted as end of file"),
 ("table blocks with other key flags do not", ["C03", "C09"], "a second block of one table with other key flags reused statements prepared for the first one"),
 ("errors when reading rows from SQLite", ["C08", "C17", "C10"], "sqlite3_step errors were taken for the end of the rows: partial diffs and dumps reported as success"),
 ("rebase refuses foreign keys that name", ["C18"], "foreign keys declared without a column list or with another letter case were not noticed"),
 ("SQLite diffs and dumps read all tables in a single transaction", ["C12"], "a diff or dump taken during concurrent commits mixed several states of the database"),
 ("applying a changeset stops when SQLite fails", ["C02", "C03", "C08"], "an I/O error, full disk or lock during apply was counted as a conflict and the apply went on"),
 ("user triggers with unusual names", ["C19", "C02"], "triggers whose names need quoting were not dropped (they fired) or made apply fail; errors recreating triggers were ignored"),
 ("texts with embedded zero characters", ["C01", "C10"], "texts were cut at an embedded NUL when diffed and applied"),
 ("SQLite diffs and applies compare exact values", ["C01", "C10", "C03"], "changes differing by collation only (NOCASE, RTRIM) were missed, tables with key columns only gave invalid SQL"),
 ("two NULL values are equal", ["C05", "C07"], "Value::operator== said NULL != NULL: rebase reported conflicts for equal cells"),
 ("losing connection to PostgreSQL", ["C16"], "an exception thrown by the transaction's destructor terminated the process when the connection was lost"),
 ("deletion of a missing or modified row is a conflict also", ["C15", "C16"], "applying a delete that matched nothing succeeded in PostgreSQL"),
 ("connection to PostgreSQL is released", ["C16"], "a failed connection leaked and crashed on a null result"),
 ("table names are quoted in all PostgreSQL queries", ["C15", "C17"], "tables and schemas with upper case or special characters could not be read"),
 ("doubles are written to PostgreSQL", ["C15"], "doubles lost precision (std::to_string) when applied to PostgreSQL"),
 ("PostgreSQL sequence is moved", ["C16"], "the sequence was not moved when the first inserted key equalled its initial value or keys exceeded 32 bits"),
 ("table blocks with other key flags are checked against", ["C15", "C09"], "as above, PostgreSQL driver"),
 ("tables having only key columns can be diffed in PostgreSQL", ["C15"], "invalid SQL for tables having only key columns"),
 ("PostgreSQL diffs and dumps read", ["C12"], "a diff or dump of a PostgreSQL schema mixed several states"),
 ("geometries with an envelope", ["C15"], "GeoPackage geometries with an envelope were cut at the wrong offset"),
 ("rebase handles 64-bit primary keys", ["C05", "C06"], "primary keys were truncated to 32 bits in rebase"),
 ("rebase does not renumber rows with key -1", ["C05"], "key -1 was taken for 'no mapping'; renumbering overflowed past the largest key"),
 ("rebase keeps text primary keys", ["C05", "C10"], "text primary keys of inserted and deleted rows were replaced by their hash in rebased changesets"),
 ("rebase reports conflicts only for values", ["C07"], "columns changed by theirs only were listed as conflicts"),
 ("rebased changesets do not contain tables without changes", ["C10"], "rebased changesets had table headers without changes"),
 ("rebase refuses changesets where a table has different", ["C09", "C18"], "different column counts of one table on both sides: out of bounds read"),
 ("error is reported when changesets can't be concatenated", ["C06", "C08"], "failures of sqlite3changegroup_* were ignored: rebase in place lost changes"),
 ("JSON output is valid for any text", ["C11", "C07"], "invalid JSON for texts with quotes or control characters; numbers lost precision"),
 ("changeset having only tables without changes", ["C11"], "has-changes said 1 for a changeset with headers only"),
 ("NULL arguments are reported", ["C08"], "NULL arguments crashed some functions"),
 ("conflict file of an earlier rebase", ["C07"], "a stale conflict file survived a rebase without conflicts"),
 ("names of temporary files are unique", ["C13"], "processes sharing a temporary directory used the same names (rand() without seed)"),
 ("exceptions are caught by reference", ["C08"], "copying the caught exception ran out of memory: terminate"),
 ("savepoint is not released when rolling back", ["C02"], "after a failed ROLLBACK TO the savepoint was released: a partial apply was committed"),
 ("failure to remove an old conflict file", ["C07", "C08"], "a stale conflict file that could not be removed was left with success reported"),
 ("rebase stops when a changeset can't be read", ["C09", "C14"], "rebaseEx took hasChanges == -1 (error) for true: endless loop in the changegroup on a truncated file"),
 ("reject a changeset with a change record before any table record", ["C09", "C11"], "a file whose first byte was damaged into a change record was read as a change of no table: has-changes 1, counted and listed"),
 ("do not crash in rebaseEx when table definitions", ["C09", "C18"], "segmentation fault in sqlite3changegroup_add when the other side's changeset has fewer columns of a table"),
 ("PostgreSQL columns that are in several indexes are read once", ["C15", "C16", "C17", "C18"], "a PostgreSQL column that is in two indexes was read as two columns, so changesets had the wrong shape and could not be applied"),
 ("PostgreSQL auto-incrementing keys are recognised also when names", ["C15", "C16"], "schemas, tables or key columns with an apostrophe in the name: the key was not recognised as auto-incrementing, so schemas were refused as different and ids collided after apply"),
 ("find PostgreSQL rows where a value changed from NULL", ["C15", "C16"], "a change from NULL to a value or back was missing in changesets created from PostgreSQL (x = NULL is neither true nor false)"),
 ("do not lose fractions of seconds of PostgreSQL timestamps", ["C15", "C16", "C17"], "timestamps with fractions of a second were cut to seconds in changesets, so copies differed and updates of such rows were refused as conflicts or gave an UPDATE without SET"),
 ("find PostgreSQL rows where only the case of a citext", ["C15", "C17"], "a change of a citext value in letter case only was missing in the changeset"),
 ("report through the logger that the rebased", ["C20"], "createRebasedChangeset with an output file that cannot be created wrote its only diagnostic to standard output, past the logger callback"),
 ("print info messages in the default logger", ["C22"], "the default logger printed no info messages although geodiff.h documents level 3 as printing them"),
 ("rebase does not take different text keys", ["C05", "C06", "C07"], "different text keys with an equal 32-bit hash were taken for one row in rebase: edits lost, conflicts reported for the wrong row, or the rebase refused"),
 ("PostgreSQL tells citext values apart", ["C15", "C16"], "a change of only the letter case of a citext key was missing in the changeset, and updates and deletes were accepted on PostgreSQL rows whose citext values differed from the recorded old values in letter case"),
 ("numbers in listings, conflict files and PostgreSQL do not depend", ["C07", "C11", "C15", "C17"], "with a decimal comma in the program's LC_NUMERIC listings and conflict files were invalid JSON, numbers read from PostgreSQL lost their fraction and numbers written to it were refused"),
 ("column types in capital letters are recognised", ["C15", "C17"], "in the Turkish locale column types with a capital I (INTEGER) were not recognised: columns became text in copies to PostgreSQL"),
 ("geometry columns with Z keep it in copies", ["C17"], "a copy of a PostGIS layer with Z (PointZ, PointZM) to a GeoPackage declared the layer without Z, which such a GeoPackage prohibits and which a copy back to PostGIS refuses"),
 ("print errors by default when GEODIFF", ["C22"], "without GEODIFF_LOGGER_LEVEL the library printed nothing although geodiff.h documents that errors are printed"),
]
KNOWN = [
 {"id": "F23", "properties": ["C05", "C06", "C07"],
  "what": "rebase renumbers a row we inserted to a key that an existing row of the base holds (next key after the largest one theirs inserted), so the rebased changeset cannot be applied / rebasing in place fails with a conflict",
  "where": "geodiff/src/geodiffrebase.cpp: RebaseMapping::addPkey / _parse_old_changeset (freeIndices is computed from the other side's inserted keys only)",
  "identified_by": "renumberTrouble() == 1: base, theirs and ours both insert key k, and the next free key the documented scheme assigns (max inserted by theirs + 1...) is the key of a row that is still there. The scenario predicts it from base, theirs and ours before the call; any other failed merge is a violation."},
 {"id": "F44", "properties": ["C15"],
  "what": "a changeset created from PostgreSQL that updates or deletes a row is refused as a conflict by a GeoPackage whose stored geometry of that row has an envelope in its header (PostgreSQL has no place for the envelope, so the old value in the changeset is written without one)",
  "where": "geodiff/src/drivers/postgresdriver.cpp: resultToValue (header without envelope), geodiff/src/drivers/sqlitedriver.cpp: applyChange compares geometry values as blobs",
  "identified_by": "the changeset comes from PostgreSQL, the old value of a geometry cell of a changed or deleted row is in the changeset, and the blob stored in the GeoPackage for that cell has envelope bits set in its header. The scenario looks at the stored blobs before the call; any other refused changeset is a violation, and a refusal that changes rows is one too."},
]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
out = [dict(k, status="known") for k in KNOWN]
n = 0
for pref, props, what in FIXED:
    h = [l for l in log if l.split(" ", 1)[1].startswith("fix: " + pref)]
    assert len(h) == 1, (pref, h)
    n += 1
    c = h[0].split()[0]
    out.append({"id": f"X{n:02d}", "status": "fixed", "properties": props, "commit": c, "what": what,
                "entry": f"fixed: property={','.join(props)} {c} {what}"})
fixes = [l for l in log if " fix:" in l]
assert len(fixes) == n, (len(fixes), n, [l for l in fixes if not any(l.split(' ', 1)[1].startswith('fix: ' + p[0]) for p in FIXED)])
json.dump({"findings": out}, open(V + "/known_findings.json", "w"), indent=1)
print(n, "fixed,", len(KNOWN), "known")
