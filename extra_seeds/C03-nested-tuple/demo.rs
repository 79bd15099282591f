#![allow(unused)]
use cathlamet::core::types::{parser::TypeParser, Field, Case, Kind, Path, Primitive, Type};

fn parse(text: &str) -> Option<Type> {
    TypeParser::new().parse(text).ok()
}
fn unsigned() -> Box<Type> {
    Box::new(Type { kind: Kind::Primitive(Primitive::U32) })
}

fn main() {
    let tuple = |t| Box::new(Type { kind: Kind::Tuple(vec![t]) });
    assert_eq!(parse("((u32))").map(Box::new), Some(tuple(tuple(unsigned()))));
}
