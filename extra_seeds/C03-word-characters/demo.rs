#![allow(unused)]
use cathlamet::core::types::{parser::TypeParser, Field, Case, Kind, Path, Primitive, Type};

fn parse(text: &str) -> Option<Type> {
    TypeParser::new().parse(text).ok()
}
fn unsigned() -> Box<Type> {
    Box::new(Type { kind: Kind::Primitive(Primitive::U32) })
}

fn main() {
    assert!(parse("struct { name: u32 }").is_some());
    assert!(parse("struct { nam\u{e9}: u32 }").is_none());
    assert!(parse("enum { a\u{663}: u32 }").is_none());
}
