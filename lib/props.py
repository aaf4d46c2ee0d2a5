#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, level="exploration", state=None, hook=None, claim=True):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note, level=level, state=state or [], hook=hook, claim=claim))

FILT = ["filter/filter.go", "filter/convenience.go"]
prop("C01", "Every constructed filter is well-formed SQL with correct placeholders",
     "Whatever sequence of constructor calls and filter texts built it, a filter renders as SQL the server accepts when appended to a query, including when predicates or whole groups were ignored. Its placeholders continue the caller's numbering, one per returned parameter, in order, and rendering it again (or as a count filter, which is its condition alone) gives the same text and parameters.",
     ["inputs", "histories"], "all sequences of constructor calls (columns, lists, connectives with and without nests, FQL texts, sorts, limits, pages) and all starting positions",
     "36 fixed call sequences with one or two starting positions are compared as text; no test runs the SQL, and none has an ignored predicate or an empty nest.",
     FILT, [("per-node writers with a shared parameter counter", "filter/filter.go: sqlWriter, write methods"), ("connective insertion", "filter/filter.go: canAndOr, compact")],
     ["text and parameters returned by the filter", "the server's verdict on the text"],
     "generated call histories, oracle: real PostgreSQL accepts and executes, placeholder trace checked",
     "Held on the generated call histories (20k quick, 400k thorough); trusts PostgreSQL 16 as the judge of well-formedness.")
prop("C02", "Caller-supplied values and keys never become part of a filter's SQL text",
     "The SQL text of a filter depends only on the columns, operators and shape of the calls, never on the values: values and search texts arrive only as parameters, unchanged. Keys taken from untrusted filter or sort texts reach the SQL only by way of the columns they are mapped to; unmapped keys leave no trace.",
     ["inputs"], "all values (any text) and all keys in filter and sort texts",
     "Tests use benign values only and never compare the texts of two runs.",
     FILT, [("values only ever appended to the parameter list", "filter/filter.go: write methods"), ("keys looked up in the column map", "filter/filter.go: UnmarshalFQL, UnmarshalSort")],
     ["text and parameters of paired runs"],
     "metamorphic runtime monitor: paired runs with hostile values must give identical text",
     "Held on the generated pairs; hostile values come from a fixed list of SQL metacharacter texts combined at random.")
prop("C03", "A filter selects exactly the rows its conditions describe",
     "The rows selected by a filter are those satisfying its conditions, with AND binding tighter than OR, groups and nests as written, null and boolean comparisons as IS [NOT] tests, text search matching every word by prefix, and conditions on unmapped keys (in lenient mode) as if they had not been written. The parameters are the compared values, in order, after each column's conversion.",
     ["inputs", "histories"], "all filter texts of the FQL grammar (escapes, blanks, nested groups) and all sequences of condition calls, on all rows",
     "Tests compare SQL text of fixed sequences; no test evaluates a filter against data.",
     FILT, [("translation of tokens to nodes", "filter/filter.go: UnmarshalFQL"), ("operator table and NULL/boolean forms", "filter/filter.go: Col, cmpop2string"), ("connectives", "filter/filter.go: And, Or, canAndOr, compact")],
     ["ids selected by the filter on a real table"],
     "differential oracle: rows selected by the produced SQL against an independently composed literal query",
     "Held on the generated histories over one 90-row table chosen so that most predicates split it; an empty nest followed by an implicit connective is outside the property (unspecified).")
prop("C04", "Sorting and paging return the requested window in the requested order",
     "Rows come back in the order of the sort items as given (a hyphen meaning descending, nulls last for columns known to be nullable), and limit, offset and page calls select exactly the corresponding window; non-positive limits, offsets and pages are ignored, and a page uses the limit set before it. The count filter counts the rows of the condition, regardless of order and window.",
     ["inputs", "histories"], "all sort texts and all sequences of sort, limit, offset and page calls, including extreme page numbers",
     "Eight fixed sort cases compared as text; page numbers and count filters are not tested.",
     FILT, [("ORDER BY text accumulation", "filter/filter.go: OrderBy, OrderByV2, UnmarshalSort"), ("limit, offset, page arithmetic", "filter/filter.go: Limit, Offset, Page"), ("count filter", "filter/filter.go: countFilter.ToSQL")],
     ["row sequence returned by the server", "count returned by the server"],
     "differential oracle: row sequences against an independently composed query",
     "Held on the generated sequences; when no unique key ends the order only sort-key tuples are compared and windows are not.")
prop("C05", "Malformed or unknown input is reported and never crashes or slips through",
     "Decoding a filter or sort text never panics and returns an error exactly when the text violates the grammar, a column's conversion fails, or (in strict mode) a key is not mapped, in which case the error names the first such key. Text accepted in either mode yields SQL the server can parse.",
     ["inputs"], "all byte strings as filter text and as sort text, in strict and lenient mode",
     "Four fixed error cases, all strict, all well-formed FQL.",
     FILT, [("tokenizer errors propagated", "filter/filter.go: UnmarshalFQL"), ("strict lookup", "filter/filter.go: UnmarshalFQL, UnmarshalSort, UnknownColumnKeyError")],
     ["error returned", "panic", "server verdict"],
     "fuzzed inputs under panic monitor, oracle: grammar verdict of the tokenizer plus the key map",
     "Held on the generated texts; trusts the third-party FQL tokenizer as the definition of the grammar.")
prop("C06", "List conditions match exactly the listed values for any list length",
     "A membership condition selects the rows whose column equals some listed value, for any number of values including none (which selects nothing) and with duplicates, passing each value (or one array of them) as parameters in order. The generated ordinal list for n values at position p is exactly $p+1 to $p+n.",
     ["inputs"], "all lists of the supported element types and lengths, all positions",
     "One test with three values; lengths 0 and 1 and the ordinal list are not tested.",
     FILT + ["gosql.go"], [("list nodes", "filter/convenience.go: sqlIn, sqlAny"), ("ordinal list", "gosql.go: InValueList, OrdinalParameters")],
     ["ids selected on a real table", "parameters", "ordinal text"],
     "differential oracle on a real server plus exact text monitor for ordinals",
     "Held on lists of up to 2000 values (ordinal lists up to 30000).")
prop("C07", "Filters built concurrently from one column map do not affect each other",
     "Any number of goroutines may at once build, render and run their own filters from the same column map, or render one finished filter: each gets the SQL and parameters it would have got alone, without data races. Changing the map a constructor was initialised from (string form) afterwards has no effect on it.",
     ["schedules"], "all interleavings of goroutines sharing a column map or a finished filter",
     "The existing tests are sequential and are not run with the race detector.",
     FILT + ["gosql.go"], [("column map is read-only after initialisation", "filter/filter.go: Constructor.colmap"), ("rendering does not write to the filter", "filter/filter.go: ToSQL")],
     ["race reports", "text and parameters against a solo run"],
     "Go race detector over a concurrent workload, plus comparison with the solo run",
     "Held on the schedules produced; the race detector sees only executed accesses.")

PG = "internal contents of pgsql/*.go"
def fam(id, title, what, files, extra=""):
    prop(id, title,
         "Writing a Go value with its converter and reading it back as PostgreSQL sends it yields the same value, and what the server stores is exactly the value the Go value denotes, for %s. This holds for arrays of them of any length, with any element contents, and for NULL and NULL elements: a NULL reads as nil or the zero value at its own position (or is refused), never as something else.%s" % (what, extra),
         ["inputs"], "all values of the supported Go types and all values a server can send for the column types, arrays of any length included",
         "Each converter is tested on a handful of fixed values, without quoting, sign, zone and NULL-element extremes.",
         files, [("writers", "pgsql: driver.Valuer implementations"), ("readers", "pgsql: sql.Scanner implementations"), ("shared parsing", "pgsql/convert_util.go")],
         ["server's text form of the written value", "Go value read"],
         "generated round trips through a real PostgreSQL server, oracle: independently built SQL expression and Go value",
         "Held on the generated values (2000 per converter quick, 60000 thorough) plus a table of server-made extremes; one-dimensional arrays with default bounds; trusts PostgreSQL 16 and lib/pq 1.10.2's text protocol.")
fam("C10", "Text-like values survive the round trip exactly", "text, character, binary, JSON, XML, UUID, hstore and text-search types",
    ["pgsql/convert_util.go", "pgsql/text.go", "pgsql/textarr.go", "pgsql/byteaarr.go", "pgsql/hstore.go", "pgsql/jsonarr.go", "pgsql/uuid.go", "pgsql/chararr.go"])
fam("C11", "Numbers, booleans and bit strings survive the round trip exactly", "integer, floating point, numeric, money, boolean, bit string, int2vector and numeric range types",
    ["pgsql/convert_util.go", "pgsql/int4arr.go", "pgsql/numeric.go", "pgsql/numericarr.go", "pgsql/money.go", "pgsql/float8arr.go", "pgsql/bitarr.go", "pgsql/varbit.go", "pgsql/numrange.go", "pgsql/int8range.go"])
fam("C12", "Dates, times and instants survive the round trip exactly", "date, time, timestamp (with and without zone) and their range types, down to the microsecond and with zone offsets kept",
    ["pgsql/convert_util.go", "pgsql/date.go", "pgsql/timetz.go", "pgsql/timestamptzarr.go", "pgsql/tstzrange.go", "pgsql/daterange.go"])
fam("C13", "Geometric and network values survive the round trip exactly", "point, line, segment, box, path, polygon, network address and hardware address types",
    ["pgsql/convert_util.go", "pgsql/box.go", "pgsql/boxarr.go", "pgsql/path.go", "pgsql/polygonarr.go", "pgsql/inet.go", "pgsql/cidrarr.go", "pgsql/macaddr.go"])
prop("C14", "Values read are owned by the caller and writers leave their argument alone",
     "A value stored by a reader never changes afterwards: neither when the driver reuses the buffer it was read from nor when the next row is read into the same destination. A writer gives the same output each time it is asked, without changing the value it was given.",
     ["inputs", "histories"], "all converters, values and sequences of reads into one destination",
     "Tests compare immediately after reading a fresh destination; driver buffers are never reused under them.",
     ["pgsql/any.go", "pgsql/convert_util.go", "pgsql/byteaarr.go", "pgsql/jsonarr.go"], [("copying out of driver buffers", "pgsql: Scan methods"), ("value receivers", "pgsql: Value methods")],
     ["destination before and after the driver's buffer is overwritten", "earlier values after later reads"],
     "runtime aliasing monitor: buffers overwritten after Scan, snapshots compared",
     "Held on the generated values of every converter; aliasing of strings via unsafe would show the same way.")
prop("C15", "Readers accept or refuse any server value without panic or half-read results",
     "Whatever a server can send for a column type (NULL, empty, infinite, extreme, NULL elements, unbounded ranges), its reader neither panics nor miscounts: it stores the value with every element at its position, resets the destination on NULL, or returns an error and leaves the destination as it was. Values the Go type can hold are never refused.",
     ["inputs"], "all values of the supported column types as a server sends them, into destinations holding stale data",
     "Tests feed well-behaved values into fresh destinations.",
     ["pgsql/convert_util.go"], [("array, range and composite parsers", "pgsql/convert_util.go"), ("readers' NULL branches", "pgsql: Scan methods")],
     ["panic", "destination after success and after failure"],
     "server-made extreme values under panic and stale-destination monitors",
     "Held on a table of about forty base types' extremes in eight array arrangements, plus the generated values of every converter.")
prop("C18", "Integers never change value on the way through a converter",
     "An integer (alone, in an array, range or vector, or as money or numeric) that the destination type cannot hold is refused with an error, on reading as on writing; one that fits arrives exactly.",
     ["inputs"], "all integers at and around the limits of the 8 to 64 bit Go and PostgreSQL types, in both directions",
     "Tests use small numbers and each type's own extremes; values next to a narrower type's limits are not read into it.",
     ["pgsql/int2arr.go", "pgsql/int4arr.go", "pgsql/int8arr.go", "pgsql/int4range.go", "pgsql/int8rangearr.go", "pgsql/int2vectorarr.go", "pgsql/numericarr.go", "pgsql/money.go"],
     [("bit sizes given to the number parsers", "pgsql: Scan methods"), ("formatting", "pgsql: Value methods")],
     ["value read or error", "server's text form of the value written"],
     "boundary-value workload through a real server, oracle: big-integer equality",
     "Held on the boundary lattice (about 100 values) plus random magnitudes per converter.")

exec(open(os.path.join(ROOT, "lib", "props_tool.py")).read()) if os.path.exists(os.path.join(ROOT, "lib", "props_tool.py")) else None

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "state": p["state"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": p["hook"]}}, ensure_ascii=False) + "\n")
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": "bash run.sh " + p["id"], "thorough_cmd": "VERIF_TIER=thorough bash run.sh " + p["id"],
                 "technique": p["technique"], "level": p["level"], "level_note": p["note"]} for p in P if p["claim"]],
     "not_applicable": [{"property": p["id"], "reason": p["note"]} for p in P if not p["claim"]],
     "notes": "run.sh builds harness/ against /repo's working tree, starts a private PostgreSQL under a scratch directory and removes both. No hooks in /repo are needed: everything is observed at public boundaries (library calls, the command's outputs, generated code at run time, the server)."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
