#![allow(unused)]
use cathlamet::sql::verif::*;

fn col(name: &str, data_type: ColumnType, not_null: bool) -> Column {
    Column { name: name.to_string(), data_type, not_null, primary_key: false }
}

fn catalog() -> Catalog {
    let mut c = Catalog::new();
    c.create_schema("main").unwrap();
    c.create_schema("other").unwrap();
    c.add_object("main", "t", &[
        col("a", ColumnType::Numeric, true), col("b", ColumnType::Varchar, false),
        col("d", ColumnType::Date, true), col("l", ColumnType::Logical, false)], false);
    c.add_object("main", "u", &[
        col("a", ColumnType::Numeric, false), col("e", ColumnType::Time, true), col("g", ColumnType::Geometry, true)], false);
    c.add_object("other", "v", &[col("x", ColumnType::Numeric, true), col("y", ColumnType::Timestamp, false)], true);
    c
}

fn accepted(text: &str) -> bool {
    match catalog().check("main", text) {
        Checked::Syntax(e) => panic!("{}: {}", text, e),
        Checked::Refused(_) => false,
        Checked::Accepted(_) => true,
    }
}

fn columns(text: &str) -> Vec<(String, ColumnType, bool)> {
    match catalog().check("main", text) {
        Checked::Syntax(e) => panic!("{}: {}", text, e),
        Checked::Refused(e) => panic!("{}: {}", text, e),
        Checked::Accepted(c) => c.unwrap(),
    }
}

fn same(left: &str, right: &str) -> bool {
    parse(left).unwrap() == parse(right).unwrap()
}

fn main() {
    assert!(accepted("SELECT CASE y WHEN CURRENT_TIMESTAMP THEN 1 END FROM other.v"));
    assert!(accepted("SELECT CASE CURRENT_DATE WHEN CURRENT_DATE THEN 1 END"));
    assert!(!accepted("SELECT CASE CURRENT_TIMESTAMP WHEN CURRENT_DATE THEN 1 END"));
}
