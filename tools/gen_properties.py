#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (run by hand; the output is committed)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     observe_at=observe, hook_needed=hook)))

p("C01", "A table is a map from primary key to the last accepted record",
  "After any sequence of inserts, updates, upserts and deletes, every read (single and multi-key get, existence test, ordered forward and reverse scan) returns exactly what a map keyed by primary key would. Insert fails iff one of its keys is already stored or repeated in the call, update fails iff one is missing, the last duplicate of a key in an update wins, and an upsert folds the caller's conflict function over the stored record and the duplicates in argument order. Multi-key get answers in the order asked, with an empty record for each missing key.",
  ["histories", "inputs"], "every history of calls over a small alphabet of keys, values and row lists (with duplicates, any order), from every reachable database content; every row count around the internal chunk size",
  "tests run a few fixed row lists from an empty table, almost always without duplicates, and never more than one chunk",
  ["table.go", "table_unsafe.go", "keys.go"],
  [("sorted keys processed against one iterator", "table.go Insert/Update/Upsert"), ("chunking", "table.go batched"), ("multi-key lookup and order restoration", "table.go get, sortKeys, reorderValues")],
  ["return values and errors of the Table interface", "raw key-value content of the database"],
  [("data keys", "one entry per stored record", "keyspace table/primary index")])

p("C02", "Every index holds exactly one entry per stored record that belongs to it",
  "After every write call that returns (on its own or through a committed batch), each secondary index contains exactly one entry for every stored record its filter accepts, encoding that record's current index, order and primary-key values, and no other entry. So a scan of any index returns each matching stored record exactly once, in index order, and never a record that was updated away or deleted.",
  ["histories", "inputs"], "every history of insert/update/upsert/delete calls (including repeated keys in one call, and inside one batch) over rows that move in, out and within several plain, ordered and partial indexes",
  "tests check index content after one or two fixed updates; the combination of old and new membership, duplicates and batches is never enumerated",
  ["table.go", "index.go", "table_unsafe.go"],
  [("OnInsert / OnUpdate / OnDelete maintenance", "index.go"), ("old record read before overwrite", "table.go Update, Upsert")],
  ["raw index keyspace", "ScanIndex / Query results"])

p("C03", "A write call that returns an error leaves the database unchanged",
  "If an insert, update, upsert or delete made without an external batch returns an error, for whatever reason (duplicate or missing key, cancelled context, serialisation failure, storage failure), then no row and no index entry of the call is visible afterwards. If it returns success, all of them are. The error is reported to the caller in every case.",
  ["fault_sequences", "inputs", "histories"], "every point inside every multi-row call at which the environment can answer with an error: context, serialiser, storage operation; every row position; row counts spanning several chunks",
  "tests exercise a single error at the first row with tiny inputs",
  ["table.go", "batch.go", "table_unsafe.go"],
  [("one internal batch per call, committed at the end", "table.go Insert/Update/Upsert/Delete")],
  ["raw database content before and after the call", "returned error"])

p("C04", "A batch is private until commit, readable by itself, and applied as one unit",
  "Operations given a read-write batch see the database plus everything already done in that batch; nobody else sees any of it before commit; commit makes exactly the batch's net effect visible at once, and closing or resetting an uncommitted batch discards it. Running a call sequence through one read-write batch and committing gives the same answers and the same final database as running it directly. Several batches applied in some order give the effects in that order.",
  ["histories"], "all call sequences over rows, indexes and up to two batches, up to a bounded depth, interleaved with outside reads and writes",
  "tests commit a batch once after one kind of operation; reads and queries through batches with partial state, discard, reset, two batches are sampled at most once",
  ["batch.go", "bond.go", "table.go", "index.go", "iter.go"],
  [("indexed batch and iterator over batch + database", "batch.go, bond.go Iter/Get"), ("optional batch parameter threaded through every read path", "table.go, index.go, query.go")],
  ["Table/Query results inside and outside of the batch", "raw database content"])

p("C05", "A query returns exactly what its reference meaning says",
  "For any stored rows and any combination of index, selector, filter, order function, reverse, offset and limit, the result is the list obtained by taking the rows of that index matching the selector in index order (reversed if asked), filtering, sorting, dropping offset rows and keeping at most limit rows. The same holds when it is executed through a batch.",
  ["inputs", "programs", "configurations"], "all query shapes over small selector, filter, offset and limit domains (including zero, past-the-end and maximal values), all small datasets, several prefetch sizes",
  "tests check a handful of combinations on one fixed data set with the default prefetch of 100 rows",
  ["query.go", "table.go", "index.go", "iter.go"],
  [("early offset/limit inside the scan versus after sorting", "query.go executeQuery"), ("prefetching index scan", "table.go scanForEachSecondaryIndex")],
  ["Query.Execute output"])

p("C06", "Paging with After visits every row exactly once, in order",
  "Repeating a query with a limit and passing the last returned row as the after row, until a page is empty, yields exactly the rows of the unpaged query in the same order: none twice and none skipped. This holds for every selector kind, for forward and reverse traversal, ascending and descending order fields, filters and sort functions, and also if the after row has been deleted in the meantime. Offset and limit count from the row that follows the after row.",
  ["inputs", "histories", "programs"], "all small datasets, page sizes, selector kinds, directions, orders; every choice of after row; deletion of the after row between pages",
  "tests page through one dataset in one direction",
  ["query.go", "index.go"],
  [("selector rewritten to start at the after row", "query.go selectorWithAfter"), ("skip of the first row if it is the after row", "query.go executeQuery")],
  ["Query.Execute output per page"])

p("C07", "An intersection returns exactly the rows that match all its parts",
  "A query intersected with others returns exactly the stored rows matched by every part, each once, in primary-key order or the requested sort order, with filter, after, offset and limit applied to that list in the usual order, and through a batch it sees that batch. It does not modify the query values it was built from.",
  ["inputs", "programs", "configurations"], "all datasets and all tuples of up to three index/selector parts over a small domain, with all combinations of filter, sort, after, offset and limit",
  "tests intersect two or three fixed selectors on fixed rows without a batch",
  ["query.go", "index.go", "table.go"],
  [("key-set intersection", "index.go Intersect"), ("post-processing", "query.go executeIntersect")],
  ["Query.Execute output"])

p("C08", "Selectors match exactly the values they name, bounds included",
  "A point selector on an index matches exactly the rows with the named index value that lie at or after the position named by the order fields and primary key of the selector record (its zero values name the start), a multi-point selector the rows of each of its points, and a range selector exactly the rows whose position (index value, then order fields, then primary key) lies between both bounds inclusive; on the primary index points name exactly their keys. This holds for every index key type and every stored value. In particular byte patterns at the extremes of the key space (0x00.., 0xFF..), values that are prefixes of each other, and empty sets of points or ranges are handled like any other.",
  ["inputs", "configurations"], "every pair of stored value and selector bound over exhaustive or boundary-complete domains of each key type (integers of each width, strings, bytes, big integers), primary and secondary index",
  "tests use small positive integers only",
  ["index.go", "table.go", "selector.go", "keys.go"],
  [("exclusive upper bound computed as key successor", "table.go keySuccessor"), ("bounds of each selector kind", "index.go Iter")],
  ["ScanIndex / Query / Get results"])

p("C09", "Key encoding preserves order and never maps two values to one key",
  "For every supported field type and any field list, the encoded keys compare bytewise exactly as the values compare field by field, reversed for descending fields; different values get different keys; and decoding an encoded key returns the parts it was made from. Encoding never alters the value it is given.",
  ["inputs"], "all values of 8/16-bit fields and boundary-complete sets for wider and variable-length ones, all pairs, all field lists up to a small length, ascending and descending",
  "tests compare a few hand-picked values per type",
  ["keys.go", "index.go"],
  [("sign byte and big-endian payload", "keys.go KeyBuilder"), ("descending by negation or complement", "index.go IndexOrder"), ("length-prefixed key layout", "keys.go KeyEncode/KeyDecode/KeyEncodeRaw")],
  ["bytes returned by KeyBuilder, KeyEncode, KeyDecode, ToDataKeyBytes"])

p("C10", "Tables, indexes and reserved keys never see or touch each other's entries",
  "An operation on one table, or on one index of it, changes and returns only entries of that table and index, whatever their identifiers, including the lowest and highest ones. The data version record and user-space keys stay intact.",
  ["configurations", "histories", "inputs"], "all pairs of adjacent and extreme table and index identifiers, all write and read operations including scans from both ends and index rebuilds",
  "tests use one or two tables with ids far from the edges",
  ["keys.go", "table.go", "index.go", "bond.go", "version.go"],
  [("table and index id as key prefix", "keys.go KeyEncodeRaw"), ("bounds of scans, range deletes", "table.go, index.go")],
  ["raw database content", "scan results"])

p("C11", "Rebuilding an index gives the index that would have existed all along",
  "Adding an index to a table with data and rebuilding it (or rebuilding an existing, even damaged one) leaves exactly the entries it would have if it had been there from the start, for any number of rows, and touches nothing else. A duplicate index id is rejected without any effect, and the table stays usable afterwards.",
  ["histories", "inputs", "configurations"], "all small datasets and prior (stale) index contents; row counts around the rebuild chunk size; index ids up to the maximum; sets of several indexes",
  "tests rebuild one index over a few rows",
  ["table.go", "index.go"],
  [("delete range then rescan in chunks", "table.go ReIndex"), ("registration under lock", "table.go AddIndex")],
  ["raw index keyspace", "queries after rebuild", "subsequent table calls"])

p("C12", "A membership filter never hides a stored row",
  "A table with a filter answers every read and write exactly like the same table without one, after any history of writes, saves, loads, clears and reopenings with the same or another filter configuration. A filter that cannot be loaded is rebuilt from the stored rows before it is used.",
  ["histories", "configurations", "fault_sequences"], "all histories of writes, save, load, re-initialise, configuration change and storage errors up to a bounded depth, for in-database and file storage",
  "tests save and load one small filter and never compare reads with and without a filter over histories",
  ["bloom/bloom_filter.go", "filter.go", "filters/filter_fs_storer.go", "table.go"],
  [("add on insert", "table.go"), ("per-bucket dirty tracking and merge on load", "bloom/bloom_filter.go"), ("rebuild when load fails", "filter.go FilterInitialize")],
  ["Exist/Get/Insert results", "MayContain"])

p("C13", "Concurrent use of the membership filter never loses an added key",
  "Once adding a key has returned, every later membership test of it answers true and every later save contains it, whatever adds, tests, loads and saves run concurrently. Nothing panics, deadlocks or accesses the filter's memory in a data race.",
  ["schedules"], "all interleavings, up to a preemption bound, of two or three threads adding, testing and saving colliding keys",
  "tests never use the filter from more than one goroutine, and the race needs a specific interleaving inside one bit-set update",
  ["bloom/bloom_filter.go"],
  [("filter lock and bucket locks", "bloom/bloom_filter.go Add/MayContain/Save/Load")],
  ["MayContain after join", "bits stored by Save"])

p("C14", "Acknowledged writes survive any crash, and no call is half applied",
  "After a crash at any moment and reopening, the database contains the effect of every write call and synchronous batch commit that returned success, possibly of the one in progress as a whole, and of nothing else. No call or batch is visible in part, and rows and index entries agree; only a rebuild of an index that was interrupted may leave that index without some entries until the rebuild is repeated.",
  ["crash_points", "histories"], "every prefix of the file-system operations of short histories with flushes and compactions, with and without loss or tearing of data not yet synced",
  "tests never crash; they reopen after an orderly close at most",
  ["table.go", "batch.go", "bond.go", "options.go"],
  [("synchronous commit of one atomic batch", "table.go, batch.go Commit"), ("write options passed to the storage engine", "bond.go pebbleWriteOptions")],
  ["raw database content after recovery"])

p("C15", "Opening and migrating is crash-safe and refuses incompatible databases",
  "A database directory can be opened again after a crash at any moment of creating, opening, closing or migrating it, without losing data. Opening succeeds iff the recorded engine format and data version match the requested ones, a refused open changes nothing and releases everything it took, and migration ends with the recorded version equal to the engine's.",
  ["crash_points", "histories", "configurations"], "every file-system step of open, migrate and close, every pair of recorded and requested versions, every content of the version record a crash can leave",
  "tests open with two fixed versions and never crash in between",
  ["bond.go", "version.go"],
  [("version file written on first open and on migration", "bond.go Open, MigratePebbleFormatVersion"), ("data version key", "version.go")],
  ["result of Open", "version file and engine format on disk", "directory lock"])

p("C16", "A dump restored elsewhere gives back exactly the selected tables",
  "Dumping a selection of tables and restoring a selection of them into another database gives exactly the stored rows of those tables (and their index entries if asked for in both), byte for byte, and nothing of any other table. The dump stays intact and can be restored again; the source database is not changed.",
  ["histories", "inputs", "configurations"], "all selections of tables and index options on both sides, table ids that are textual prefixes of each other, extreme index ids, any directory name, sizes that roll over to several files, deleted and updated rows",
  "tests restore one dump of one configuration",
  ["bond.go", "cmd/bond-cli/dump.go", "cmd/bond-cli/restore.go"],
  [("one directory of sorted files per table and index", "bond.go Dump"), ("selection by path and ingest", "bond.go Restore")],
  ["raw content of the restored database", "dump directory before and after"])

p("C17", "A dump taken while others write is one consistent point in time",
  "A dump contains, for all its tables and indexes together, exactly the state at one moment between its start and its end: every batch committed by concurrent writers is contained completely or not at all, and rows and index entries agree.",
  ["schedules"], "all placements of concurrent commits between any two steps of a dump, for several tables with and without indexes",
  "tests never write during a dump",
  ["bond.go"],
  [("one snapshot for all iterators", "bond.go Dump"), ("index discovery", "bond.go getIndexIDS")],
  ["content of the restored dump"])

p("C18", "Batch callbacks fire exactly as the batch's life goes",
  "Commit callbacks run in registration order before the data is applied; the first one that fails vetoes the commit, which then returns its error, applies nothing and fires nothing else. Otherwise committed callbacks run once after a successful commit or apply, when the data is visible, and never otherwise; error callbacks run with the error iff applying failed; close callbacks run iff the batch is closed. Reset forgets all of them, and callbacks run in registration order.",
  ["histories", "fault_sequences"], "all sequences of register, write, commit, apply, reset and close up to a bounded depth, with success, veto and storage failure at each commit",
  "one test counts callbacks for a single commit",
  ["batch.go", "bond.go"],
  [("notify functions around commit, apply and close", "batch.go")],
  ["sequence of callback invocations", "database content when each runs"])

p("C19", "Concurrent callers see whole calls only and never each other's scratch data",
  "With several goroutines using one database, every read returns records that were stored whole by some call and, per read operation on one key, reflects a point between calls; concurrent calls on different rows have the same outcome as some sequential order of them; and one caller's buffers never leak into another's keys or values. No call panics or deadlocks. The calls order their own accesses to shared memory: there is no data race in bond between calls that may be made concurrently.",
  ["schedules"], "all interleavings, at every storage and callback boundary and up to a preemption bound, of two or three threads each doing one or two calls on overlapping tables, indexes and batches",
  "tests are single threaded apart from one unsynchronised smoke test",
  ["table.go", "table_unsafe.go", "bond.go", "utils/sync.go", "index.go", "query.go"],
  [("pooled buffers released at return", "table.go, bond.go get/put arrays"), ("atomic batch commit", "batch.go"), ("index registry lock", "table.go")],
  ["values returned to each thread", "final raw content"])

p("C20", "Generated sequence numbers are unique and increasing",
  "Numbers handed out by one generator are strictly increasing and never repeat, across any number of concurrent callers and any behaviour of the clock including standing still, jumping and going backwards; when a second's range is used up the caller gets an error, not a repeated number. Every batch gets its own identifier, also after reset.",
  ["schedules", "inputs", "histories"], "all interleavings of concurrent callers and all clock sequences over a small domain, counters at their limits",
  "tests use the real clock from one goroutine",
  ["helpers.go", "batch.go"],
  [("timestamp plus counter under a lock", "helpers.go NumberSequence")],
  ["returned numbers", "batch ids"])

p("C21", "Shared pools and synchronised batches give exclusive access",
  "An item taken from a pool is held by one caller until it is put back, for any interleaving and whether the pool is full or empty. Functions run under a synchronised batch never overlap, all of them run, their error is returned, and the batch stays usable after a function fails or panics.",
  ["schedules"], "all interleavings up to a preemption bound of two or three threads getting, holding and putting items, and running functions under a synchronised batch, at statement granularity",
  "existing tests are sequential or rely on chance scheduling",
  ["utils/sync.go", "sync.go"],
  [("mutex around the preallocated list", "utils/sync.go"), ("mutex around the function", "sync.go WithSync")],
  ["items held at the same time", "overlap of functions"])

p("C22", "Inspection answers like the table itself, locally and over HTTP",
  "For every table, index, selector, filter, limit and after value, the inspection query returns exactly the rows the equivalent direct query returns, and listing tables, indexes and fields describes them correctly. The remote client and HTTP handler give the same answers as the local inspector, and bad requests get an error, never a crash or wrong rows.",
  ["inputs", "programs", "configurations"], "all requests over a small grammar of tables, indexes, field values of every kind and malformed values, local and remote",
  "tests issue about ten fixed requests",
  ["inspect/inspect.go", "inspect/inspect_handler.go", "inspect/inspect_handler_client.go", "inspect/inspect_cli.go"],
  [("reflection-built query", "inspect/inspect.go Query"), ("JSON request and response", "inspect/inspect_handler*.go")],
  ["returned maps", "HTTP status"])

p("C23", "Serialisers give back what was stored and never share memory",
  "For every bundled serialiser and every supported record, deserialising the serialised bytes gives an equal record, also when encoders and buffers are pooled and reused in any order, after failures, or from several goroutines. Bytes already returned do not change until released, and a record once read does not change when storage buffers are reused. Configured encoding and decoding modes are applied on every path, and bytes that are cut short are refused instead of read as a record.",
  ["histories", "inputs", "schedules"], "all sequences of serialise, serialise-with-release, release and deserialise calls up to a bounded depth over records of different size, for every pool configuration",
  "tests do one round trip per serialiser",
  ["serializers/cbor.go", "serializers/json.go", "serializers/msgp.go", "serializers/msgp_gen.go", "serializers/protobuf.go", "serializer.go"],
  [("pooled encoders and buffers", "serializers/msgp.go, msgp_gen.go"), ("caller supplied buffer", "serializers/cbor.go")],
  ["bytes and records returned"])

p("C24", "A storage read failure is reported, never mistaken for missing data",
  "If the storage engine fails while a get, scan, query, intersection, rebuild, dump or write-time existence check reads, the call returns an error that is not the not-found error; it never returns a shortened result as success and never overwrites or accepts a row on the strength of a failed read.",
  ["fault_sequences"], "every single read performed by every kind of call made to fail, one at a time",
  "no test injects a storage error",
  ["table.go", "index.go", "query.go", "iter.go", "bond.go"],
  [("iterator error surfaced on close", "iter.go, table.go"), ("error of point reads", "table.go Get, exist")],
  ["returned results and errors", "database content"])

p("C25", "Row-by-row scans deliver each matching row once, whatever the callback does",
  "A for-each scan of the primary or any secondary index calls back exactly once per matching row in order (reversed if asked) with that row's key, until the callback stops it, and whether or not, or how often, the callback fetches the row; fetching always yields that row. Stopping, failing or cancelling ends it at that row with that outcome, and it always terminates.",
  ["programs", "inputs"], "all callback behaviours (fetch zero, one or two times, stop, fail, cancel) at every row, for all small datasets, prefetch sizes and directions, with and without a batch",
  "tests always fetch every row exactly once",
  ["table.go", "lazy.go", "table_utils.go"],
  [("prefetch window shared between callback invocations", "table.go scanForEachSecondaryIndex")],
  ["keys and records passed to the callback"])

p("C26", "Filter conditions evaluate to their logical meaning",
  "Every condition built from equality, ordering, and, or, not and custom functions evaluates to its logical value on every record, and does not depend on or change earlier evaluations.",
  ["inputs", "programs"], "all condition trees up to a small size over all records of a small domain, each evaluated repeatedly and shared between trees",
  "tests evaluate a few fixed conditions",
  ["cond/cond.go"],
  [("Eval methods", "cond/cond.go")],
  ["Eval results"])

p("C27", "Calls do not modify their arguments and results stay as returned",
  "No call changes the row lists, rows, keys, selectors or query values given to it (beyond documented outputs), and no record, key list or query returned or kept by the caller changes because of a later call. Building a query from another leaves the first as it was.",
  ["histories", "programs", "inputs"], "all pairs of calls over pointer and value record types with byte-slice, map and pointer fields, observing every earlier argument and result after each later call",
  "tests look at results once, right after the call",
  ["table.go", "index.go", "query.go", "keys.go", "serializer.go"],
  [("per-row decode targets", "table.go Update/Upsert"), ("copy of keys and values out of the engine", "table.go get"), ("query as a value", "query.go")],
  ["deep copies of arguments and results before and after"])

p("C28", "Every call releases what it acquired, on every path",
  "After any sequence of calls, successful, failed, cancelled or stopped early, closing the database reports no open iterator, snapshot or batch left behind, scratch buffers are not held twice, and the directory can be opened again. Close callbacks of the database run once each.",
  ["fault_sequences", "programs"], "every call kind with every way of ending it (normal, early stop, callback error, cancellation at each check, storage error at each read), followed by close and reopen",
  "tests ignore the result of close",
  ["table.go", "index.go", "query.go", "bond.go", "iter.go", "bloom/bloom_filter.go"],
  [("deferred iterator and batch close", "table.go, index.go, bond.go"), ("buffer release on iterator close", "iter.go")],
  ["error of DB.Close", "result of reopening"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
