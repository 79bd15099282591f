#![allow(unused)]
use cathlamet::core::types::{parser::TypeParser, Field, Case, Kind, Path, Primitive, Type};

fn parse(text: &str) -> Option<Type> {
    TypeParser::new().parse(text).ok()
}
fn unsigned() -> Box<Type> {
    Box::new(Type { kind: Kind::Primitive(Primitive::U32) })
}

fn main() {
    assert!(parse("struct { name : u32 }").is_some());
    assert!(parse("u32\u{0}").is_none());
    assert!(parse("struct\u{0}{ name: u32 }").is_none());
}
