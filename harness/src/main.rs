mod circom;
mod engine;
mod gen;
mod model;
mod props;
mod rx;
mod tape;
mod target;

use engine::Prop;
use std::path::Path;

fn go<P: Prop>(p: P, mode: &str, file: Option<&str>) -> i32 {
    match mode {
        "check" => engine::supervise(&p),
        "run" => engine::run(&p),
        "prepare" => match p.prepare() {
            Ok(()) => 0,
            Err(e) => {
                println!("HARNESS-ERROR {e}");
                2
            }
        },
        "replay" => engine::replay_supervised(&p, Path::new(file.expect("replay file"))),
        "replay-raw" => engine::replay(&p, Path::new(file.expect("replay file"))),
        _ => 2,
    }
}

fn main() {
    target::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 {
        eprintln!("usage: vharness check ID | replay ID FILE");
        std::process::exit(2);
    }
    let (mode, id, file) = (a[1].as_str(), a[2].as_str(), a.get(3).map(|s| s.as_str()));
    use props::*;
    let code = match id {
        "C01" => go(automata::C01, mode, file),
        "C02" => go(automata::C02, mode, file),
        "C03" => go(circuits::C03, mode, file),
        "C04" => go(circuits::C04, mode, file),
        "C05" => go(circuits::C05, mode, file),
        "C06" => go(circuits::C06, mode, file),
        "C07" => go(circuits::C07, mode, file),
        "C08" => go(circuits::C08, mode, file),
        "C09" => go(circuits::C09, mode, file),
        "C10" => go(circuits::C10, mode, file),
        "C11" => go(circuits::C11, mode, file),
        "C12" => go(extract::C12, mode, file),
        "C13" => go(extract::C13, mode, file),
        "C14" => go(extract::C14, mode, file),
        "C20" => go(extract::C20, mode, file),
        "C22" => go(extract::C22, mode, file),
        "C16" => go(interfaces::C16, mode, file),
        "C17" => go(interfaces::C17, mode, file),
        "C18" => go(interfaces::C18, mode, file),
        "C19" => go(interfaces::C19, mode, file),
        "C15" => go(shipped::C15, mode, file),
        "C23" => go(assertions::C23, mode, file),
        "C24" => go(coherence::C24, mode, file),
        "C21" => go(shipped::C21, mode, file),
        _ => {
            eprintln!("unknown property {id}");
            2
        }
    };
    target::cleanup();
    std::process::exit(code)
}
