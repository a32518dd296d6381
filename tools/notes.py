TRUST = ("Trusted: TLC, the Go toolchain, SQLite, and harness/engine, an executable model of the MySQL and PostgreSQL "
         "statements the generated code uses (no server is installed).")
T = "TLA+ specification checked with TLC; its transitions replayed into the generated code, recorded histories checked against it"
NOTE.update({
 "C01": (T, "Every transition of Store.tla within the bounds (3 keys, 2 values per column, NULL, 2-3 rows) is executed by the helpers generated for 20 models x 6 driver/quoting flavours; random histories of 40 steps must be behaviours of the specification. " + TRUST),
 "C02": (T, "As C01 for batches up to 2 elements exhaustively and up to 4 elements in recorded histories. " + TRUST),
 "C03": (T, "As C01 for upserts: all override flags and omit lists over all starting tables within the bounds. " + TRUST),
})
Q = "TLA+ specification checked with TLC; its cases and transitions replayed into the generated code over a reference database and SQLite"
NOTE.update({
 "C04": (Q, "Query.tla grows condition trees to depth 3 over all operators and argument tokens (empty lists, null) and says which records of a table with every value combination satisfy them; the laws of three-valued logic are its invariants. Each tree is built with the generated operators and run for about 20 models x 5 flavours. " + TRUST),
 "C05": (Q, "Order.tla: every order list of up to 3 columns x direction x filter x offset x limit, single-row selects, column lists, table overrides, grouping (also ordered groups with aggregates, windows and the first group), and models without table. " + TRUST),
 "C06": (Q, "Bulk.tla: updates and deletes from three tables to depth 2 (thorough 3); order and limit on MySQL. " + TRUST),
 "C07": (Q, "Pager.tla: every filter, order list of up to 2 columns (thorough 3) with ties and nulls, cursor, page size and direction, early stop and database errors at each page; single and composite keys. " + TRUST),
})
R = "TLA+ specification checked with TLC; its behaviours replayed into the generated code, statements recorded at the driver checked against it"
NOTE.update({
 "C08": (R, "Stmt.tla: every sequence of builder calls up to 4 (thorough 5); Calls.tla: every helper call within the bounds executed with hostile data and its recorded statements checked against SentTrace.tla; the text must not depend on the data. " + TRUST),
 "C19": (R, "Pool.tla: every interleaving of 2-3 operations acquiring, filling, sending and releasing pooled buffers; schedules are forced on the real helpers at the driver boundary and each sent statement compared with the solo run; plus a race-detector build under free-running load. Interleavings inside one builder call are only sampled. " + TRUST),
 "C20": (R, "Fault.tla: every helper call x every fault point x every position; the recorded outcome and connection state must be a behaviour of FaultTrace.tla. " + TRUST),
 "C21": (R, "Stmt.tla: statement shapes (placeholders, literals, quoted identifiers, comments) x argument kinds and hostile data; expected rendering computed from the specification, literals parsed back by the reference lexer. " + TRUST),
 "C23": (R, "Lock.tla: every interleaving of two transactions over two records within the bounds, replayed over the reference database (row locks, blocking) for MySQL and PostgreSQL flavours. " + TRUST),
})
S = "TLA+ specification checked with TLC; its cases replayed into the real encoders and scanners, recorded encodings checked against it"
NOTE.update({
 "C13": (S, "Scan.tla: destination kinds and widths x source kinds x boundary tokens (at, one below and one above every limit, fractions, malformed text, null) x prior contents; every case is run against the real scanner. Values between the boundaries are sampled."),
 "C14": (S, "ListCodec.tla: lists up to 3 elements over element classes (quotes, delimiters, control, non-ASCII, extremes) with encode/decode inverse as invariant; ListTrace.tla checks the text the real encoders produced; ListText.tla enumerates texts over the grammar's character classes (length up to 5-6) with the accepted list or refusal."),
})
D = "TLA+ specification checked with TLC; the declarations it generates are given to the real generator, the generated code compiled and executed against it"
NOTE.update({
 "C09": (D, "Derive.tla grows struct declarations item by item (fields x tags x embedded structs by value, pointer, file, package, alias and instance of a generic struct x groups and annotations) up to 3-4 items exhaustively and 18 items (nested up to 6 deep) by simulation, with the column list as state; an independent definition over the whole declaration is its invariant. A sample of about 1800 (thorough 15000) in which all kinds of items and neighbours occur evenly is generated for 8 driver/quoting/naming combinations, compiled and asked for its table, columns, keys and inserted columns."),
 "C10": (D, "The declarations of Derive.tla that contain faults, each in a package of its own amid valid structs, files and packages, and every source list up to 3 entries x driver name of Refuse.tla: generation must return an error, not panic, and leave no code behind in the refused package."),
 "C11": (D, "The accepted declarations of Derive.tla with field types drawn from 14: every field is changed in turn and exactly its own accessor, value, destination, insert position, key and statement argument must follow; nil pointers along every path."),
})
NOTE["C15"] = ("TLA+ specification checked with TLC; its words replayed into the naming functions and the generator",
 "Naming.tla: identifiers and tag texts grown letter by letter over character classes; word boundaries, injectivity of the classes and idempotence are invariants; the real naming functions are asked in process and, for a sample, end to end through generated columns. Non-ASCII letters are represented by classes, with several letters drawn per class.")
NOTE["C18"] = ("TLA+ specification checked with TLC; its behaviours replayed into loading, merging, writing and generating",
 "Config.tla: 27 settings x up to 4 configuration files x caller, exhaustively for up to 2 settings a level (4 of the type mappings) and by simulation for all; each behaviour is loaded and merged from YAML in varying styles; a sample is written with Init and loaded back, another sample generated end to end and the settings read off the output, in process and through the built command line program (no argument, generate SOURCE, -c FILE; a stand-in for the go command records whether the module is tidied). Settings without any effect on the output (strict, skip_header, exec.skip_empty, source_map, omit_getters, migration) are only checked in the configuration.")
NOTE["C16"] = ("TLA+ specification checked with TLC; its histories of edits, switches and runs replayed into the generator, the output compiled and compared with a fresh generation",
 "Gen.tla: models are added, dropped, re-keyed, given fields, embedded structs and hand-written methods (17 kinds, right and wrong signatures), settings switched, and packages generated, in every order for small bounds and by simulation up to 14 edits and 5 runs. Every run is repeated (byte-identical), compared with a generation from scratch, its method set with the specification's, compiled, and the user's methods are called. The name of the generated file is not switched: the file of the old name would stay, which the user has to remove.")
NOTE["C17"] = ("TLA+ specification checked with TLC; its trees, sources and failures replayed into the generator over real directories",
 "GenFS.tla: directory trees of up to 7 directories with Go files, tests, foreign files, broken files and earlier outputs x source patterns (file, directory, wildcard, recursive wildcard, several) x output locations x failures; the whole tree is compared byte by byte before and after, including mode and absence of leftovers. Crashes of the machine in the middle of a write are not simulated; outputs are replaced by rename.")
NOTE["C12"] = ("TLA+ specification checked with TLC; its behaviours replayed into code generated for every field type over reference databases",
 "Value.tla: insert, upsert, update, set, find, lock and query over two keys and two values, null and a value the database may be unable to hold, with a record variable kept over calls, exhaustively; every behaviour is replayed for 312 listed field types and a sample of 60 (thorough 400) of the 2800 that Types.tla grows (type constructors around base types) x three drivers x the forms values are handed back in, with values drawn per type from edge cases and at random (so over the values it samples), on the reference engine (MySQL, PostgreSQL) and real SQLite. Not covered: NaN and infinities, pointers to pointers, nil told from empty lists, a pointer to a null list told from a nil pointer, named versions of time.Time and other structs that JSON cannot represent. " + TRUST)
NOTE["C22"] = ("TLA+ specification checked with TLC; its histories replayed into the generated code over a database whose conversion functions leave a trace in the data",
 "Map.tla: 14 kinds of mapped and unmapped columns (SQL read/write expressions, Go conversions, both, pointers, generics, basic types, expressions with quotes and placeholders inside) x roles x embedding in 110 (thorough 900) layouts; every helper from every small table and random histories of 5 calls; the conversions are formal letters that cancel only in pairs, executed by the reference engine (MySQL, PostgreSQL) and SQLite. Expressions that use the value several times or never, and mappings keyed by pointer types, are not covered. " + TRUST)
NA = {}
