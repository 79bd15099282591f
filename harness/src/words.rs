//! Words that mean something in one language or another: a name of the language under test may be
//! any of them unless it is one of that language's own keywords.

pub const WORDS: &[&str] = &[
    // types
    "usize", "isize", "f16", "f128", "u24", "u256", "i256", "i0", "u0", "u1", "u7", "u9", "byte", "bytes", "str", "text", "int", "integer", "uint",
    "long", "short", "float", "double", "real", "decimal", "number", "numeric", "varchar", "bit", "boolean", "logical", "date", "time",
    "timestamp", "datetime", "interval", "uuid", "json", "blob", "binary", "geometry", "point", "array", "list", "vec", "vector", "slice",
    "map", "dict", "hash", "option", "optional", "maybe", "some", "none", "unit", "void", "never", "any", "object", "record", "tuple", "pair",
    "union", "variant", "case", "tag", "type", "typedef", "field", "strings", "chars", "bools", "character", "structs", "enums",
    // values
    "null", "nil", "true", "false", "nan", "inf", "infinity", "undefined", "unknown", "default", "self", "super", "this", "root", "parent",
    // programming
    "fn", "let", "mut", "pub", "use", "mod", "impl", "trait", "match", "if", "loop", "while", "for", "return", "break", "continue", "const",
    "static", "ref", "move", "async", "await", "dyn", "crate", "extern", "unsafe", "where", "in", "as", "box", "new", "class", "function",
    // JSON and records
    "kind", "value", "values", "key", "keys", "name", "id", "label", "index", "length", "len", "size", "count", "offset", "row", "rows", "page",
    "data", "item", "items", "element", "path", "schema", "table", "column", "columns", "view", "version", "status", "first", "last", "next",
    // SQL
    "abort", "action", "add", "after", "all", "alter", "analyze", "and", "anti", "apply", "asc", "ascending", "asymmetric", "at", "attach", "auto_increment",
    "autoincrement", "avg", "before", "begin", "between", "both", "by", "call", "cascade", "cast", "check", "collate", "commit",
    "conflict", "connect", "constraint", "create", "cross", "cube", "current", "current_date", "current_role", "current_time", "current_timestamp",
    "current_user", "cursor", "database", "databases", "day", "deallocate", "declare", "deferred", "delete", "desc", "descending", "describe",
    "detach", "distinct", "do", "drop", "dual", "each", "else", "elseif", "end", "escape", "except", "exclude", "exclusive", "execute",
    "exists", "explain", "extract", "fail", "fetch", "file", "files", "filter", "following", "force", "foreign", "from", "full", "generated", "glob",
    "global", "go", "grant", "group", "grouping", "groups", "having", "hour", "identity", "ignore", "ilike", "immediate", "indexed", "initially",
    "inner", "insert", "instead", "intersect", "into", "is", "isnull", "join", "lag", "lateral", "lead", "leading", "left", "like", "limit",
    "local", "localtime", "lock", "materialized", "max", "merge", "min", "minus", "minute", "month", "national", "natural", "no", "not",
    "nothing", "notnull", "now", "ntile", "nulls", "numeric_", "of", "on", "only", "or", "order", "others", "outer", "over", "overlaps", "partition",
    "percent", "pivot", "placing", "plan", "position", "pragma", "preceding", "precision", "prepare", "primary", "prior", "procedure", "query",
    "raise", "range", "rank", "recursive", "references", "regexp", "reindex", "release", "rename", "replace", "restrict", "returning", "revoke", "right",
    "rlike", "rollback", "rollup", "rowid", "rownum", "row_number", "savepoint", "second", "select", "semi", "sequence", "session_user",
    "set", "sets", "show", "similar", "skip", "straight_join", "substring", "sum", "symmetric", "system", "tables", "tablesample", "temp", "temporary",
    "then", "ties", "to", "top", "trailing", "transaction", "trigger", "trim", "truncate", "unbounded", "unique", "unnest", "unpivot", "update",
    "upsert", "user", "using", "vacuum", "varying", "virtual", "when", "window", "with", "within", "without", "work", "xor", "year", "zone",
    "information_schema", "sqlite_master", "pg_catalog", "sys", "public", "main", "temp1", "column1", "column_1", "col0", "expr", "unnamed",
    "upper", "lower", "abs", "round", "coalesce", "nullif", "ifnull", "concat",
];
