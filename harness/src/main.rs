//! Model checker for yamd: enumerates bounded input spaces completely, on the real code.
//!
//! mc check ID quick|thorough ROOT    run a property, write ROOT/evidence/ID.json
//! mc replay FILE                     judge the case a VIOLATION line names
//! mc list                            the properties

mod events;
mod imp;
mod inputs;
mod lexer_model;
mod parse_model;
mod props;
mod run;
mod space;
mod tree;

use std::path::Path;

fn find(id: &str) -> run::Prop {
    match props::all().into_iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("no property {id}");
            std::process::exit(2)
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = a.iter().skip(1).map(String::as_str).collect();
    match a.as_slice() {
        ["check", id, tier, root] => {
            std::process::exit(run::check(&find(id), *tier == "thorough", Path::new(root)))
        }
        ["worker", id, tier, dir, seconds] => {
            std::env::set_var("YAMD_MC_TMP", dir);
            run::worker(&find(id), *tier == "thorough", Path::new(dir), seconds.parse().expect("seconds"))
        }
        ["one", id, file] => {
            let dir = Path::new(file).parent().expect("a directory");
            if std::env::var_os("YAMD_MC_TMP").is_none() {
                std::env::set_var("YAMD_MC_TMP", if dir.as_os_str().is_empty() { Path::new(".") } else { dir });
            }
            run::one(&find(id), Path::new(file))
        }
        ["replay", file] => {
            let v: serde_json::Value =
                serde_json::from_str(&std::fs::read_to_string(file).expect("a replay file")).expect("JSON");
            std::env::set_var("YAMD_MC_TMP", std::env::temp_dir());
            run::one(&find(v["property"].as_str().expect("a property")), Path::new(file))
        }
        ["baseline", n] => {
            imp::install_hook();
            let b = props::pure_baseline(n.parse().expect("a number"));
            println!("{b}");
        }
        ["list"] => props::all().iter().for_each(|p| println!("{}", p.id)),
        _ => {
            eprintln!("usage: mc check ID quick|thorough ROOT | mc replay FILE | mc list");
            std::process::exit(2)
        }
    }
}
