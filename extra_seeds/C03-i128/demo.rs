use cathlamet::core::data_source::{DataSource, IntermediateDataSource};
use cathlamet::core::marshaller::{Layout, Marshaller, MarshallerDataSource};
use cathlamet::core::types::{parser::TypeParser, Path, Type};
use cathlamet::core::value::PrimitiveValue;
use std::sync::Arc;

#[repr(align(16))]
struct Page([u8; 4096]);

fn parse(text: &str) -> Type {
    TypeParser::new().parse(text).unwrap()
}

fn at(typ: &Type, name: &str) -> Path {
    Path::resolve_qualified_name(typ, name).unwrap()
}

fn main() {
    assert!(TypeParser::new().parse("struct { usize: u8 }").is_ok());
    assert!(TypeParser::new().parse("usize").is_err());
}
