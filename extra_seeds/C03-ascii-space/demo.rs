#![allow(unused)]
use cathlamet::core::types::{parser::TypeParser, Field, Case, Kind, Path, Primitive, Type};

fn parse(text: &str) -> Option<Type> {
    TypeParser::new().parse(text).ok()
}
fn unsigned() -> Box<Type> {
    Box::new(Type { kind: Kind::Primitive(Primitive::U32) })
}

fn main() {
    for space in [" ", "\t", "\n", "\r", "\u{b}", "\u{c}", "\u{85}", "\u{a0}", "\u{2003}", "\u{2028}", "\u{3000}"] {
        let text = format!("struct{}{{a:u32}}", space);
        assert_eq!(parse(&text), Some(Type { kind: Kind::Struct(vec![Field { label: "a".to_string(), typ: unsigned() }]) }), "{:?}", text);
    }
}
