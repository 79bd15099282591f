#![allow(unused)]
use cathlamet::core::types::{parser::TypeParser, Field, Case, Kind, Path, Primitive, Type};

fn parse(text: &str) -> Option<Type> {
    TypeParser::new().parse(text).ok()
}
fn unsigned() -> Box<Type> {
    Box::new(Type { kind: Kind::Primitive(Primitive::U32) })
}

fn main() {
    let case = || Case { label: "a".to_string(), typ: unsigned() };
    assert_eq!(parse("enum { a: u32, a: u32 }"), Some(Type { kind: Kind::Enum(vec![case(), case()]) }));
}
