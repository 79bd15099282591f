#![allow(dead_code)]
#[cfg(feature = "core")]
mod core_json;
#[cfg(feature = "core")]
mod core_rec;
mod engine;
mod json;
mod model;
mod words;
#[cfg(feature = "sql")]
mod sql_ast;
#[cfg(feature = "sql")]
mod sql_parse;
#[cfg(feature = "sql")]
mod sql_gen;
#[cfg(feature = "sql")]
mod sql_small;
#[cfg(feature = "sql")]
mod sql_store;
#[cfg(feature = "sql")]
mod sql_typed;
#[cfg(feature = "sql")]
mod sql_types;
#[cfg(feature = "storage")]
mod storage_pool;
#[cfg(feature = "storage")]
mod storage_rest;

use std::path::PathBuf;

fn properties() -> Vec<engine::Property> {
    let mut v = vec![];
    #[cfg(feature = "core")]
    {
        v.extend(core_rec::properties());
        v.extend(core_json::properties());
    }
    #[cfg(feature = "sql")]
    {
        v.extend(sql_parse::properties());
        v.extend(sql_typed::properties());
        v.extend(sql_store::properties());
    }
    #[cfg(feature = "storage")]
    {
        v.extend(storage_pool::properties());
        v.extend(storage_rest::properties());
    }
    v
}

fn real_main() -> i32 {
    let args: Vec<String> = std::env::args().skip(1).collect();
    engine::install_panic_hook();
    let props = properties();
    let find = |id: &str| {
        props.iter().find(|p| p.id == id).unwrap_or_else(|| {
            eprintln!("ERROR no property {} in this build", id);
            std::process::exit(2)
        })
    };
    let n = |i: usize| args[i].parse::<u64>().unwrap();
    match args.first().map(|s| s.as_str()) {
        Some("run") => engine::run(find(&args[1]), n(3), args[2] == "thorough").code,
        Some("worker") => {
            engine::worker(find(&args[1]), n(2), args[3] == "thorough", n(4), &PathBuf::from(&args[5]));
            0
        }
        Some("exec") => engine::exec_main(find(&args[1]), n(2) as usize, &PathBuf::from(&args[3]), &PathBuf::from(&args[4])),
        Some("record") => engine::record_main(find(&args[1]), n(2) as usize, n(3), n(4), &PathBuf::from(&args[5])),
        Some("shrink") => {
            let c = engine::decode_choices(&std::fs::read_to_string(&args[5]).unwrap());
            engine::shrink_proc(find(&args[1]), n(2) as usize, c, &args[3], n(4), &PathBuf::from(&args[6]));
            0
        }
        Some("replay") => engine::replay(&props, &PathBuf::from(&args[1])),
        Some("list") => {
            for p in &props {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: pbt run ID quick|thorough SEED | replay FILE | list");
            2
        }
    }
}

fn main() {
    // deep generated structures need a deep stack
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(real_main).unwrap();
    std::process::exit(h.join().unwrap_or(2));
}
