#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the committed file is this script's output)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=hook)))

M = "src/core/marshaller.rs"; T = "src/core/types/mod.rs"; TG = "src/core/types/parser.lalrpop"
JE, JD, JT = ["src/core/json/%s.rs" % x for x in ("encoder", "decoder", "tokenizer")]
N = "src/core/nsm.rs"; U = "src/core/util.rs"; D = "src/core/data_source.rs"; V = "src/core/value.rs"
SP = "src/sql/parser.lalrpop"; SA = "src/sql/ast/mod.rs"; ST = "src/sql/ast/typing.rs"
SY = "src/sql/symbols.rs"; SS = "src/sql/schema.rs"; SM = "src/sql/mod.rs"; SD = "src/sql/types.rs"
S = "src/storage/mod.rs"; SU = "src/storage/utils.rs"

p("C01", "Binary records read back exactly what was encoded",
  "For every record type and every value of that type, encoding the value into a suitably aligned buffer and reading any element of the type back from the buffer - primitives (floats bit for bit), string bytes and lengths, enum case tags, at any nesting depth inside the selected cases - yields exactly the value that was encoded. It never panics or faults for any type the type language can express.",
  ["inputs"], "all record types (nested tuples, structs, enums with any number of cases, strings) x all values of the type",
  "The three layout tests fix a handful of small types and values; layout, bit packing and variable-field offsets depend on the combination of types and on run-time lengths and tags.",
  [M, D, T], [("layout calculation, bitfield allocation and variable-offset walk", M), ("encode_with_source / get_primitive / get_bytes / get_case_tag / get_length", M)],
  ["Marshaller::encode", "Marshaller::get_*", "MarshallerDataSource"],
  [("Layout", "memory layout derived from a record type", M)])
p("C02", "Encoded size is exact and encoding stays within it",
  "The size announced for a value equals the size its encoding reports, a buffer of exactly that size suffices, and encoding writes no byte outside the buffer, even one that is too small. The bytes a reader can observe never depend on what the buffer held before, and re-encoding a record through the view over its encoded bytes announces the same size and yields an equal record.",
  ["inputs"], "all record types x values x prior buffer contents",
  "Tests encode each value once into one zeroed oversized buffer, so a wrong size, an overrun or a dependence on stale bytes cannot show.",
  [M, D, U], [("encoding_size_with_source", M), ("encode_with_source", M), ("mask-and-merge of bitfields", M)],
  ["Marshaller::encoding_size", "Marshaller::encode", "bytes around the target slice"])
p("C03", "Type descriptions parse to exactly the type they denote",
  "Every record type written in the type language - with any whitespace and optional trailing comma in struct and enum bodies - parses back to that same type. Any text that is not a sentence of the type language is rejected with an error, and no text whatsoever makes the parser panic.",
  ["inputs"], "all types up to a generated size x all spellings; all token sequences, and arbitrary text",
  "Unit tests parse a few fixed spellings per construct and no malformed ones.",
  [TG, "src/core/types/parser.rs", T], [("LALR grammar for Type", TG)], ["TypeParser::parse"])
p("C04", "JSON output is valid JSON that denotes exactly the encoded value",
  "For every type and value, the JSON encoder writes one well-formed UTF-8 JSON document whose content is the value: every string and character code point for code point, every number equal to the stored number, struct fields in declaration order, the enum case by its label. The same bytes arrive whatever chunks the output stream accepts at a time, and a stream error is reported to the caller rather than dropped.",
  ["inputs", "fault_sequences"], "all types x values (all Unicode scalar values, number extremes) x all short-write/error patterns of the output stream",
  "Tests compare three small ASCII documents written to a vector, which never writes short.",
  [JE, D], [("string escaping and UTF-8 emission", JE), ("per-type emitters", JE)], ["JsonEncoder::encode"])
p("C05", "JSON encode then decode restores the value",
  "For every type and every value of it, decoding the JSON produced by the encoder for the same type succeeds and yields the same value: floats bit for bit apart from the payload of a NaN, integers at their extremes, every Unicode character, every enum case.",
  ["inputs"], "all types (any number of fields and cases) x all values",
  "Tests exercise encoder and decoder separately on fixed documents.",
  [JE, JD, JT, D], [("emitter/parser pairs per type", JE), ("JSON decoder", JD)], ["JsonEncoder::encode", "JsonDecoder::parse"])
p("C06", "Every valid JSON spelling of a value decodes to that value",
  "A document that spells a value of the type in another legal way - struct fields in any order, any JSON whitespace, any legal escape (including surrogate pairs) for any character of a string or label, integers as plain digits and floats in any JSON number form, either also quoted as a string - decodes successfully to the same value.",
  ["inputs"], "all types x values x spellings",
  "Decoder tests use one fixed spelling each.",
  [JD, JT], [("StructParser field set", JD), ("tokenizer string and number scanning", JT)], ["JsonDecoder::parse"])
p("C07", "Malformed or ill-typed JSON is refused with an error, never a panic",
  "Decoding returns an error for every document that is not well-formed JSON or does not conform to the type: missing, duplicate or unknown struct field, unknown enum case, wrong array length, wrong JSON kind, integer out of range or with a fraction or exponent, string of the wrong length for a character, anything left over after the value. No input whatsoever, of any bytes that form a string, makes the decoder panic.",
  ["inputs"], "all types x all strings; in particular all small edits of valid documents",
  "No test feeds the decoder a malformed document.",
  [JD, JT], [("must_be token checks, field bit set", JD), ("Tokenizer::next", JT)], ["JsonDecoder::parse"])
p("C08", "The JSON tokenizer agrees with the JSON lexical grammar",
  "For every string, the token sequence with token values equals that of the JSON grammar (json.org): the same tokens, strings unescaped, numbers verbatim, and an error exactly when the remaining input begins with no valid token (a literal name running on into a letter or digit is none). It always terminates and never panics, including on arbitrary Unicode, truncated escapes and lone surrogate escapes.",
  ["inputs"], "all strings",
  "Three tests cover some thirty fixed tokens, all but a few valid.",
  [JT], [("Tokenizer::next and its sub-scanners", JT)], ["Tokenizer::{new,next,token,value}"])
p("C09", "A page behaves like a list of byte rows",
  "After any sequence of appends, inserts at any position, removals and re-initialisations that the page accepts, the page holds exactly the rows a plain list would hold: the same count, and every row byte for byte at its index, starting at a multiple of the alignment. This holds for every page size and every power-of-two row alignment, and whatever bytes the page memory held before initialisation. A position that is not in the list is refused.",
  ["histories", "configurations"], "all operation histories x page sizes x alignments x row lengths",
  "Two tests run one history each at one page size and alignment.",
  [N, U], [("slot directory and row shifting in append/insert/remove", N)], ["PageFormat::{num_rows,get_row}"],
  [("slot directory", "row count and per-row offset|padding words", N)])
p("C10", "Page free-space reporting is safe and exact",
  "A row no longer than the reported maximum always fits without disturbing any other row, and after inserting a row the reported maximum accounts exactly for the row's aligned length and its directory entry; removing it gives the space back. A row that does not fit - including an empty row when no directory entry is left - is refused with the page unchanged, and no operation ever touches memory outside the page.",
  ["histories", "configurations"], "all fill histories up to a full page x page sizes x alignments x row lengths around the limit",
  "Tests fill one page once and never attempt a row that does not fit.",
  [N], [("max_insert_row_size and the fit assertions", N)], ["PageFormat::max_insert_row_size", "page bytes after a refused operation"])
p("C11", "Element paths resolve, order and compare as defined",
  "For every type, the qualified name of an element resolves to the path whose extraction is that element's type, and every name that denotes no element is refused without a panic. Paths are totally ordered lexicographically with a prefix before its extensions, consistently with equality, and prefix and proper-prefix tests agree with the definition.",
  ["inputs"], "all types x all element names and near-misses; all pairs and triples of paths",
  "One test resolves four names in one type; ordering and prefix tests are untested.",
  [T], [("Path::resolve_qualified_name, Ord, is_prefix_of, is_proper_prefix_of; Type::extract", T)], ["types::Path", "types::Type::extract"])
p("C12", "The in-memory value store returns the latest value per path",
  "Reading a path returns the value most recently stored under exactly that path, whatever was stored under other paths and in whatever order; clearing removes everything, and a path never stored reads as nothing. String length equals the number of bytes returned, and a primitive's kind and bits are preserved.",
  ["histories", "inputs"], "all histories of stores, clears and reads over all paths and value kinds",
  "One smoke test stores a few values once.",
  [D, V], [("IntermediateDataSource ordered map keyed by path", D)], ["IntermediateDataSource", "DataSource getters"])
p("C13", "Records survive the whole JSON-to-page-to-JSON pipeline",
  "For any type and any sequence of values, decoding their JSON, encoding them as binary rows, storing them in a page with any interleaving of inserts and removals, and reading the rows back through the binary view produces JSON identical to that of the values which should be there, in order. Data held in one row never leaks into another.",
  ["histories", "inputs"], "all types x value sequences x page histories",
  "No test combines two of the layers.",
  [M, N, JE, JD, D], [("marshaller, page format and JSON codec composed", M)], ["JsonEncoder over MarshallerDataSource over PageFormat::get_row"])
p("C14", "Alignment and bit-count helpers match their arithmetic definition",
  "Aligning yields the least multiple of the power-of-two alignment not below the value; the number of bits required is the least n with value < 2^n; the base-2 logarithm of a power of two is its exponent; arguments that are no power of two where one is required are refused; a typed value stored at any aligned in-bounds position of a byte slice reads back unchanged and disturbs no other byte.",
  ["inputs"], "all values x power-of-two alignments x primitive types x positions",
  "Tests sample fewer than sixty small values.",
  [U], [("align, required_bits, log2, set_value, get_value", U)], ["core::util"])

p("C15", "Damaged records and pages are answered from their own bytes or refused",
  "Reading any bytes whatever - a truncated, damaged or random record of any type, or a page with arbitrary contents - either answers from exactly those bytes or is refused: reading an element, encoding the record as JSON or as another record, and every page operation never read or write memory outside of the bytes they were given. No value results that the type does not have: no boolean but true and false, no character that is a surrogate or beyond Unicode, no JSON text that is not valid.",
  ["inputs"], "all types x all byte sequences; all page contents x operation histories",
  "Tests only read records and pages that were written correctly just before.",
  [M, N, U], [("pointer reads behind the fixed part of a record, string slices, directory of a page", M)], ["MarshallerDataSource getters, Marshaller::encode over a view, JsonEncoder::encode", "PageFormat operations", "bytes around the record or page"])
p("C20", "SQL text parses to the statement its grammar denotes",
  "Every statement of the supported SQL language parses to the statement structure its text denotes: operator precedence and associativity, clause contents, join and set-operation structure, names, aliases and literals verbatim. The result does not depend on keyword letter case, on whitespace or newlines between tokens, or on redundant parentheses around expressions.",
  ["programs"], "all statements of the grammar up to a generated size x all spellings",
  "The only SQL test compiles; no statement is parsed by any test.",
  [SP, "src/sql/parser.rs", SA], [("LALR grammar with case-insensitive keyword lexer", SP)], ["SqlStatementParser::parse"],
  hook="sql is a private module: a guarded hook parses text and dumps the resulting statement as a canonical S-expression")
p("C21", "SQL parser accepts exactly the documented language and never panics",
  "A text is accepted if and only if it is a statement of the supported SQL grammar, as decided by an independent reference parser; everything else is refused with an error. No input, however mangled, makes the parser panic.",
  ["programs"], "all token sequences near valid statements, and arbitrary text",
  "No test parses SQL.",
  [SP, "src/sql/parser.rs"], [("LALR grammar and lexer", SP)], ["SqlStatementParser::parse"],
  hook="same parse hook as C20")
p("C22", "SQL names compare without regard to case, consistently",
  "Two names are equal exactly when they are equal after mapping to upper case, whether compared as names or against text; ordering is total, agrees with equality, and follows the upper-case forms. A name keeps its original spelling for display.",
  ["inputs"], "all pairs and triples of Unicode strings",
  "Names are untested.",
  [SY], [("Eq/Ord over flat-mapped upper-case characters", SY)], ["symbols::Name"],
  hook="guarded hook exposing name comparison")
p("C23", "The catalog is a case-insensitive map of schemas and objects",
  "After any history of schema creations, creating a schema succeeds exactly when no schema of that name (in any letter case) exists and a refused creation changes nothing. Describing an object returns exactly the columns it was defined with, found in any letter case, and an unknown schema or object is an error.",
  ["histories"], "all histories of schema creations, object registrations and lookups",
  "The catalog is untested.",
  [SS, SY], [("Database::create_schema, Database::describe", SS)], ["schema::Database"],
  hook="guarded hook building a catalog and calling create_schema/describe")
p("C24", "Ill-typed SQL statements are refused",
  "A statement containing a type error is refused: an operator or predicate applied to operands of the wrong type (tuples can only be compared for equality with tuples of the same width and types; anything else wants scalars), rows, set operands or IN lists of unequal width or type, a scalar subquery or IN set with several columns, an unknown, ambiguous or mis-qualified column, an unknown table, two relations of one name in a FROM clause or two common table expressions of one name, a non-logical WHERE, HAVING, ON or CASE guard, a USING column that is missing, ambiguous or of different types, a LIMIT or OFFSET that is not numeric, may be null or refers to a column, an assignment of the wrong type, of a possibly null value to a non-null column, to an unknown column or twice to one column, an INSERT with a different number of values than columns or without a value for a non-null column. This holds wherever in the statement the error sits.",
  ["programs"], "all well-typed statements x single injected type errors at all positions, over all catalogs",
  "No test type-checks SQL.",
  [ST, SS, SD], [("infer_type / validate_type over the statement tree", ST)], ["SqlStatement::validate_type"],
  hook="guarded hook that builds a catalog, parses a statement and reports acceptance and result columns")
p("C25", "Well-typed SQL queries are accepted with the right result columns",
  "Every well-typed statement over the catalog is accepted, and for a query the inferred result has exactly the right columns: names (alias, else the name of the column shown, else a generated name; a repeated name gets a numeric suffix, so names are distinct), order, types (NULL is compatible with every type), and nullable exactly when some operand that can decide the result may be null (a null test never is, a CASE without ELSE and the optional side of an outer join always are). Scoping follows the statement text: table aliases hide table names, common table expressions hide tables and see the earlier ones, derived tables and subqueries bring their own scope, USING columns come first and once, t.* and * follow table order, INSERT without a column list assigns by position, ORDER BY sees result columns before table columns.",
  ["programs"], "all well-typed statements generated over all catalogs",
  "No test type-checks SQL.",
  [ST, SS, SD], [("infer_type over expressions, set expressions and table expressions", ST)], ["SelectStatement::infer_type", "SqlStatement::validate_type"],
  hook="same typing hook as C24")
p("C26", "SQL type checking is total",
  "For every catalog and every statement the parser accepts, well-typed or not, type checking returns either success or an error; it never panics. The verdict is deterministic and does not depend on the letter case of names or keywords.",
  ["programs"], "all parseable statements over all catalogs",
  "No test type-checks SQL.",
  [ST], [("infer_type / validate_type", ST)], ["SqlStatement::validate_type"],
  hook="same typing hook as C24")

p("C27", "Catalogs and volume parameters survive serialisation",
  "A catalog serialised at any point of any history and read back is the same catalog: the same schemas, tables and views under the same names in their original spelling, with the same columns (name, type, null constraint, key membership), found in any letter case; statements are judged over it as over the original, and it can be extended like the original. Volume parameters read back as they were written. Serialised bytes that are cut short are refused, never a panic.",
  ["histories"], "all catalog histories x points of serialisation; all volume parameters",
  "Nothing in the repository serialises anything yet; no test does.",
  [SS, SY, SD, S], [("Serialize / Deserialize of Database, Schema, SchemaObject, Table, View, RowSet, Column, Name, DataType", SS), ("Serialize / Deserialize of VolumeParameters", S)],
  ["serde serialisation of schema::Database and storage::VolumeParameters"],
  hook="guarded hook giving access to the catalog's serialisation")
p("C30", "The buffer pool serves every page's latest contents",
  "Under every interleaving of concurrent tasks that initialise, read and modify pages, each access of a page sees exactly the bytes its latest completed modification left, never the contents of another page, even after the buffer was evicted and reloaded; modified buffers are not reused before they are written back.",
  ["schedules", "histories"], "all access histories x task interleavings x pool sizes from one buffer up",
  "The buffer pool is untested (and not reachable from outside the crate).",
  [S], [("buffer table, per-buffer reader/writer lock, location map", S)], ["BufferPool::access_*", "BufferPool::release_*"],
  [("mapping", "location to buffer index", S), ("buffer lists", "unused, available, dirty, in use", S)],
  hook="guarded hook exposing the pool and replacing only the unimplemented disk fetch by a test store")
p("C31", "The buffer pool grants access whenever it can and never leaks buffers",
  "Readers of one page share it while a writer has it exclusively. A waiting request is granted as soon as a buffer can serve it - no waiter is forgotten when a page is released - and after any history in which every access was released, every buffer not holding unwritten data can be used again.",
  ["schedules", "histories"], "all access histories x task interleavings x pool sizes from one buffer up",
  "The buffer pool is untested.",
  [S], [("waiter lists and wake-up on release", S), ("intrusive buffer lists", S)], ["BufferPool::access_*", "BufferPool::release_*"],
  hook="same pool hook as C30")
p("C32", "Storage locations pack volume and offset without loss",
  "For every volume index and every offset within the addressable range, a location built from them returns exactly that index and offset; two locations are equal exactly when both parts are, and ordering follows index first, then offset.",
  ["inputs"], "all volume indices x offsets",
  "Locations are untested.",
  [S], [("Location: 8-bit index over 56-bit offset", S)], ["storage::Location"],
  hook="guarded hook building and taking apart locations")
p("C33", "Storage size arithmetic matches its definition",
  "The number of blocks calculated for a file is the least number of blocks that holds it, every width of the alignment helper yields the least multiple of the alignment not below the value, and the default volume parameters describe 4096-byte blocks with everything else as documented.",
  ["inputs"], "all sizes x block sizes x alignments x integer widths",
  "These helpers are untested.",
  [SU, S], [("calc_file_blocks, align_*", SU), ("VolumeParameters::new_with_defaults", S)], ["storage::utils", "VolumeParameters"],
  hook="guarded hook re-exporting the private helpers")
p("C34", "A newly created volume's metadata describes its files exactly",
  "Creating a volume with any valid parameters succeeds and produces headers that record the parameters (identifiers, name, sizes, file table) unchanged, at the offsets the headers themselves declare. The allocation bitmap marks as used exactly the blocks occupied by metadata and as free exactly the remaining blocks of the file.",
  ["configurations", "inputs"], "all valid volume parameters: block sizes, file counts, file sizes, names",
  "Volume creation is untested.",
  [S, SU], [("VolumeManager::create, init_*", S)], ["bytes of the created volume image"],
  hook="same storage hook as C30")
p("C35", "Data survives unmount, remount and a crash at any point",
  "Data written to a volume and stored is found again after the volume is unmounted and mounted, and after a crash at any point the volume is in the state of some prefix of the completed stores.",
  ["crash_points", "histories"], "all store histories x crash points",
  "Nothing tests it, and nothing implements it: mount, unmount, fetch and store are unimplemented.",
  [S], [("VolumeManager::{mount,unmount,fetch,store} (unimplemented)", S)], ["VolumeManager"])
p("C36", "Requests are routed to the right partition of the cluster",
  "A request addressed to a key reaches exactly the storage node that owns the key's partition, and clients observe the cluster as one database.",
  ["schedules", "fault_sequences"], "all requests x topologies",
  "The coordinator, router, storage and client programs are empty shells.",
  ["src/bin/coordinator.rs", "src/bin/router.rs", "src/bin/storage.rs", "src/bin/cli.rs"], [("none: programs only parse their command line", "src/bin")], ["none"])

p("C37", "Misuse of the buffer pool is refused and harms nobody",
  "Releasing a buffer handle a second time, at any later point of any history, is refused with a panic at once and changes nothing for anyone else: contents, exclusive access, waiting requests and the number of usable buffers are as if it had not been tried. Dropping a handle that was never released is refused with a panic as well; dropping a released one is fine. A pool without buffers, or with buffers whose size is not a power of two, cannot be made; any other size can.",
  ["schedules", "histories"], "all access histories x task interleavings x points of misuse",
  "The buffer pool is untested.",
  [S], [("release and Drop of ReadOnlyBufferHandle and ReadWriteBufferHandle", S)], ["ReadOnlyBufferHandle::release", "ReadWriteBufferHandle::release"],
  hook="same pool hook as C30")

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for r in P: f.write(json.dumps(r, ensure_ascii=True) + "\n")
print(len(P), "properties")
