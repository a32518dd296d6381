#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements stay readable)."""
import json, os
T='cmd/sqlgen/codegen/templates/db.go.tpl'; O='cmd/sqlgen/codegen/templates/operator.go.tpl'
G='cmd/sqlgen/codegen/generate.go'; CG='cmd/sqlgen/codegen/codegen.go'; CF='cmd/sqlgen/codegen/config.go'
P='cmd/sqlgen/internal/compiler/parser.go'; CO='cmd/sqlgen/internal/compiler/compiler.go'
EX='cmd/sqlgen/codegen/expr.go'; TL='cmd/sqlgen/codegen/tool.go'; ENC='sequel/encoding'
DI='cmd/sqlgen/codegen/dialect'
props=[]
def p(id,title,stmt,over,text,why,files,mech,obs,state=None,hook=None):
    props.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook)))

p('C01','Single-record operations behave like a keyed table',
 'For every model with a primary key (single, composite or auto-increment) and every supported driver, any sequence of the generated single-record insert, find, update and delete operations by key behaves like a table of records keyed by that primary key: a find returns exactly the column values last stored under its key or a no-rows error, an insert adds exactly that record, an update replaces exactly the writable non-key columns of the one record with that key, and a delete removes exactly that record. No other record and no key column is ever changed, and read-only columns are never written. For an auto-increment key the insert leaves in the model the key under which the record was stored.',
 ['histories','inputs','programs'],'all sequences of operations, all record contents, all key shapes and column layouts, all three drivers',
 'The tests compare generated text against golden files for one driver; the three tests that would run the helpers need a live database and fail at baseline, so no history of operations is ever executed.',
 [T,G,'sequel/sequel.go'],[('InsertOne/FindByPK/UpdateByPK/DeleteByPK',T),('buildInsertOne/buildFindByPK/buildUpdateByPK',G)],
 ['rows in the database after each call','model fields and error after each call'],
 [dict(name='table',meaning='records by key',where='the database behind *sql.DB')])
p('C02','Batch insert stores every record of the batch exactly once',
 'Inserting a slice of records adds exactly one row per element, each holding exactly that element\'s values in the right columns (the database assigning auto-increment keys and read-only columns), and reports the number of rows; an empty slice issues no statement and reports zero. If one element cannot be stored the call reports an error and stores none of them, and with a driver that returns rows, each element is refreshed from its own row.',
 ['inputs','histories','programs'],'all batch sizes and contents, all key shapes and column layouts, all three drivers',
 'No passing test executes a batch insert; golden files do not cover the helper package at all.',
 [T,G],[('Insert',T),('InsertPlaceholders/Values/InsertColumns',G)],['rows in the database','result and error of the call','elements after the call'])
p('C03','Upsert inserts new keys and overwrites only what it may',
 'Upserting one record or a slice stores every record whose key is not present yet, and for a key that is present replaces exactly the writable columns that are neither key columns nor listed as omitted when overriding, or leaves the stored record untouched when not overriding. Key columns, omitted columns and records with other keys never change, whatever columns are omitted.',
 ['inputs','histories','programs'],'all starting tables, batches, omit lists, override flags, key shapes, all three drivers',
 'No test executes an upsert; correctness depends on the stored state and on the combination of key shape, omit list and driver syntax.',
 [T],[('UpsertOne/Upsert',T)],['rows in the database','error of the call'])
p('C04','Conditions select exactly the records they describe',
 'A query whose condition is built from the generated operators (comparison, membership, pattern, null, range, and/or nesting) over typed column accessors returns exactly the stored records for which that condition is true under SQL three-valued logic, each with all of its column values, for any nesting (of at least one condition each) and any argument values including empty lists and null.',
 ['inputs','programs','histories'],'all condition trees, argument values and table contents, all three drivers',
 'No passing test evaluates a condition; each operator and each nesting must be right for every data set, not for one example.',
 [O,T,'sequel/clause.go'],[('And/Or/Equal/.../Between',O),('QueryStmt',T)],['records returned by QueryStmt and QueryOneStmt'])
p('C05','Order, limit, offset and single-row queries are honoured',
 'A select returns the matching records sorted by the requested columns and directions in priority order, starting after the requested offset and containing at most the requested limit, where a zero limit means no limit; a single-row select returns the first record of that sequence or a no-rows error. The requested columns, table override and grouping are used as given, and a model without a table is reported as an error before any statement is sent.',
 ['inputs','histories'],'all order lists, limits, offsets, tables contents, all three drivers',
 'No test runs these helpers against data.',
 [T],[('QueryStmt/QueryOneStmt',T)],['sequence of records returned'])
p('C06','Bulk update and delete touch exactly the matching records',
 'A bulk update sets exactly the given columns to the given values in exactly the records its condition matches (all records when there is no condition), and a bulk delete removes exactly those; with an order and limit, on the drivers whose databases have them for these statements, only the first such records in that order are affected. A table named in the statement is the one that changes, and no other. The reported count is the number of affected records and every other record and column stays the same.',
 ['inputs','histories'],'all set lists, conditions, orders, limits and table contents, all drivers',
 'No passing test runs a bulk statement.',
 [T,O],[('ExecStmt',T),('Set',O)],['rows in the database','rows affected'])
p('C07','Cursor pagination visits every matching record exactly once',
 'Iterating forward pages over an unchanging table yields pages of at most the requested size whose concatenation is exactly the matching records in the requested order with the key as tie-breaker, each once, starting at the given cursor record when there is one; iterating backward yields the same sequence reversed. This holds for every page size, filter, order list, tie pattern and key shape, and stopping early or a database error ends the iteration with that error reported once.',
 ['inputs','histories','programs'],'all tables, page sizes, filters, orders with ties, cursors, key shapes, all drivers',
 'The only test needs a live database and fails at baseline; exactly-once depends on ties, page boundaries and ordering, which no sample settles.',
 [T],[('Paginate/Pager.Next/Pager.Prev',T)],['pages and errors yielded by the iterator'])
p('C08','Every statement carries exactly one argument per placeholder, no inlined data',
 'Every statement sent by any generated helper or built with the statement builder has exactly one placeholder per argument, in the driver\'s own style and numbering, so that each placeholder denotes the value given at that position. The data of records, conditions and assignments never appears in the statement text, so no data can change what the statement means.',
 ['inputs','programs','histories'],'all sequences of builder calls and all helper calls with arbitrary data, all drivers',
 'Text goldens pin some generated statements for one driver; numbering across composed clauses, batches and reused builders is never executed.',
 [T,O,G,DI],[('SqlStmt.Var/Vars',T),('InsertPlaceholders',G),('QuoteVar',DI)],['statement text and arguments received by the database driver'])
p('C09','The table and columns are derived from the struct as declared',
 'For every model struct, the generated column list contains exactly its exported fields that are not excluded, in declaration order with embedded structs expanded in place, each named by its tag or else by the naming convention, and the table is named by the table-name field or else by the convention; key, auto-increment and read-only markers are taken from the tags. A struct annotated read-only gets no writing methods, and structs that are unexported or annotated to be ignored generate nothing.',
 ['programs','configurations'],'all struct declarations: field mixes, embedding depth, tags, annotations, naming conventions, tag names',
 'Golden files cover about forty hand-written structs; field order, embedding and tag combinations are unbounded.',
 [P,CO,'cmd/sqlgen/internal/compiler/tag.go',G],[('Parse',P),('parseTag','cmd/sqlgen/internal/compiler/tag.go')],['TableName, Columns, PK and InsertColumns of the generated code'])
p('C10','Invalid declarations are refused with an error',
 'Generation reports an error, rather than producing code or crashing, for a struct with two columns of the same name, an invalid column name, more than one auto-increment key, a read-only key, or a pointer to a pointer, and for a configuration naming an unknown driver or an empty source. The error is reported no matter where in the package the offending declaration is or what else surrounds it.',
 ['programs','configurations'],'all declarations containing such a fault, at any position or embedding depth',
 'Existing tests exercise none or one of these faults in isolation.',
 [P,CG],[('Parse',P),('Generate',CG)],['error returned by generation'])
p('C11','Columns, values, destinations and accessors describe the same fields',
 'For every generated model the column list, the scan destinations, the insert columns with their values and placeholders, the key position and value, and every per-column accessor agree: position by position they refer to the same struct field, so that reading back the stored columns of a record reproduces its fields. This includes read-only and auto-increment columns, embedded and pointer-embedded structs, and nil pointers along the path.',
 ['programs','inputs'],'all struct shapes and field values',
 'Golden files compare text for fixed structs; alignment must hold for every shape.',
 [G,CO],[('buildValuer/buildScanner/valueFunc',G),('GoPtrPaths',CO)],['Columns/Values/Addrs/InsertColumns/PK/ColumnX/XValue results'])
p('C12','Stored values read back equal to what was written, for every field type',
 'For every supported field type and driver, writing a field through the generated code and reading the stored value back through the generated code yields an equal value, in whatever form the driver hands it back (native, text or bytes; times as times where the driver has them), or is refused when the database cannot hold it; no other column or record is affected. Null is read back as a nil pointer and a nil pointer is stored as null.',
 ['inputs','programs'],'all supported field types (named, pointer, array, slice, map, struct, generic, third-party, with conversions of their own), all values, all drivers',
 'Unit tests convert a few values per scanner; the pairing of writer and reader chosen per type and driver is never executed.',
 [G,TL,DI,ENC,'sequel/sqltype','sequel/driver/postgres/pgtype','sequel/types'],[('valuer/scanner/columnDataType',G+', '+TL),('ColumnDataTypes',DI)],['model after a write and a read'])
p('C13','Scanning a scalar is exact or an error',
 'Reading a database value into a scalar destination either stores exactly that value or returns an error: a number that does not fit the destination type, a malformed text or an unsupported kind is never stored truncated, wrapped or partially (a decimal text read into a floating point destination is stored as its nearest representable value). A null sets a pointer destination to nil and any other to its zero value, and nothing of the previous contents survives a successful read.',
 ['inputs'],'all source values of all driver kinds, all destination types and widths, all prior contents',
 'Unit tests check a handful of in-range values per scanner.',
 [ENC,'sequel/types'],[('IntScanner/UintScanner/FloatScanner/BoolScanner/StringScanner/...',ENC)],['destination and error after Scan'])
p('C14','List columns encode and decode without loss',
 'For every list type, the text produced for a list is well formed for its column (JSON for the JSON-based drivers, array literal for the array-based one) and decoding it yields the same list, for any length, nil and any element values including quotes, delimiters, control and non-ASCII characters and numeric extremes. Malformed text, or an element outside the range of the element type, is an error and never yields a shortened or altered list; a list its column cannot represent (NaN or infinity, invalid UTF-8 in JSON) is refused rather than encoded as something else.',
 ['inputs'],'all lists and all texts, every list type and driver',
 'Unit tests check a few simple lists; escaping and range must hold for every element.',
 ['sequel/sqltype','sequel/driver/postgres/pgtype','sequel/driver/postgres/pgutil',ENC],[('Value/Scan of slice and array types','sequel/sqltype, sequel/driver/postgres/pgtype')],['value returned by Value','list after Scan'])
p('C15','Naming conventions split words the same way and only change case and separators',
 'Converting a Go identifier to the snake, camel or Pascal convention keeps its letters and digits in order, changing only case and underscores, splits words at the same case boundaries, and always yields the same non-empty valid column name for the same identifier. Converting an already converted snake-case name again changes nothing.',
 ['inputs'],'all Go identifiers, including acronyms, digits, underscores',
 'Tests list some words; the rule must hold for every identifier.',
 ['cmd/sqlgen/internal/strfmt',CF],[('ToSnakeCase/ToCamelCase/ToPascalCase','cmd/sqlgen/internal/strfmt')],['derived column names'])
p('C16','Regeneration is deterministic, idempotent and keeps user-written methods',
 'Generating again from the same sources and configuration yields byte-identical output, whatever was generated before, and the generated code compiles together with the models. A method that the user wrote on a model is never generated again but used, and after the models change the output equals that of a fresh generation.',
 ['programs','histories','configurations'],'all sequences of editing models, switching configuration and generating',
 'The golden test generates once from one state with one configuration.',
 [G,CG,P,'cmd/sqlgen/codegen/init.go'],[('generateModels/Implements',G),('unlink before parse',CG)],['bytes of the generated files, go build result'])
p('C17','A source pattern processes exactly the files it names, and writes only outputs',
 'Generation processes exactly the Go files that the given source names (a file, a directory, a wildcard or a recursive wildcard) and no directory outside it, and creates or replaces only the configured generated file in each processed directory and the configured database files. Every other file is left byte-identical, also when generation fails, and a failing generation leaves the previous generated file usable rather than deleted or truncated.',
 ['configurations','histories','fault_sequences'],'all directory trees, source patterns, output locations and generation failures',
 'The tests use a single recursive pattern over one tree and never look at the remaining files or at failures.',
 [CG,'cmd/sqlgen/codegen/path_matcher.go','cmd/sqlgen/codegen/init.go'],[('Generate/parseGoPackage',CG),('RegexMatcher/FolderMatcher/FileMatcher','cmd/sqlgen/codegen/path_matcher.go')],['directory tree before and after generation'])
p('C18','Configuration is defaults overlaid by file overlaid by caller',
 'The effective configuration is, setting by setting, the caller\'s value if given, else the configuration file\'s, else the documented default; settings that are absent at one level never reset those of another level, and the configuration file is the one that is named, alone, else the first existing one of the documented names. A written initial configuration loads back as the same configuration.',
 ['configurations'],'all partial configurations at each level',
 'Tests check one or two configurations.',
 [CF,'cmd/sqlgen/codegen/init.go'],[('Init/initIfEmpty/Merge/DefaultConfig/LoadConfigFrom',CF)],['effective configuration, generated output'])
p('C19','Concurrent operations never mix statements or arguments',
 'When any number of goroutines use the generated helpers at the same time, each statement reaching the database is exactly the text and arguments that its own call would produce alone, and each call gets its own result. Pooled buffers are never shared by two operations in progress, whatever the interleaving, including operations that fail or stop early.',
 ['schedules','histories'],'all interleavings of building, sending, scanning and releasing across goroutines',
 'Tests are sequential.',
 [T,'sequel/strpool/pool.go'],[('AcquireStmt/ReleaseStmt',T),('AcquireString/ReleaseString','sequel/strpool')],['statement and arguments per call under controlled schedules'])
p('C20','A database failure is always reported and leaks nothing',
 'If the database fails at any point of an operation (sending a statement, any row fetch, scanning, finishing the rows, reading the inserted key), the call returns an error, and never a shortened result presented as complete. In every case, including early exit from a page iteration, result sets are closed and the connection is returned before the call ends.',
 ['fault_sequences'],'every fault at every point of every operation, all drivers',
 'No test injects a failure.',
 [T],[('rows.Close/rows.Scan handling',T)],['error and result of the call, open result sets and connections'])
p('C21','A debug rendering shows the statement with its arguments in place',
 'Formatting a statement for debugging yields the statement text with each placeholder replaced by the literal of the argument bound to it, in order, for any number of arguments and any argument data, and leaves the statement unchanged; the plain form is the statement text itself. String literals are quoted so that they denote exactly the argument, and formatting never panics.',
 ['inputs'],'all statements, argument kinds and counts, all drivers',
 'No test formats a statement.',
 [T,'sequel/driver/postgres/pgutil'],[('SqlStmt.Format/strf',T),('Quote','sequel/driver/postgres/pgutil')],['fmt output of a statement'])
p('C22','Custom type mappings are applied wherever the column is read or written',
 'When the configuration maps a Go type to custom conversion expressions, every statement that reads such a column selects it through the read expression, every statement that writes it or compares with it wraps its placeholder in the write expression, and the values go through the mapped Go conversions, while other columns are untouched and positions stay aligned. An expression that cannot be evaluated is refused.',
 ['programs','configurations'],'all placements of mapped columns among columns and keys, all helpers, all drivers',
 'One golden file shows one mapped type for one driver.',
 [G,EX,T],[('sqlScanner/sqlValuer/buildSqlColumns',G),('TableColumns',T)],['statements received by the database'])
p('C23','Locking reads lock the requested record in the requested mode',
 'A locking read by key runs inside the given transaction, requests exactly the requested lock strength, returns the record as stored including changes made earlier in that transaction, and affects no other record; two transactions that lock the same record exclusively are never both past the lock. This is for the drivers whose databases have row locks (MySQL and PostgreSQL).',
 ['schedules','histories','inputs'],'all interleavings of two transactions, all key shapes, drivers with row locks',
 'No test uses a transaction.',
 [T],[('LockByPK',T)],['statements received, record returned, order of lock grants'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in props: f.write(json.dumps(x)+'\n')
