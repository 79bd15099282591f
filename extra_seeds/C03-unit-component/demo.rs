#![allow(unused)]
use cathlamet::core::types::{parser::TypeParser, Field, Case, Kind, Path, Primitive, Type};

fn parse(text: &str) -> Option<Type> {
    TypeParser::new().parse(text).ok()
}
fn unsigned() -> Box<Type> {
    Box::new(Type { kind: Kind::Primitive(Primitive::U32) })
}

fn main() {
    let unit = || Box::new(Type { kind: Kind::Unit });
    assert_eq!(parse("(u32, (), u32)"), Some(Type { kind: Kind::Tuple(vec![unsigned(), unit(), unsigned()]) }));
}
