//! Executes cases (one JSON object per line) against the real library and writes one outcome per line.
//! A panic is caught and recorded as an outcome; a crash or a hang ends this process and is recorded by the
//! supervisor (check.py), which restarts it behind the offending case.
mod fence;
mod ops;
mod paint;

use serde_json::{json, Value};
use std::io::{BufRead, Write};

#[global_allocator]
static GLOBAL: fence::Fence = fence::Fence;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() != 5 || args[1] != "run" {
        eprintln!("usage: pz run CASES OUT START");
        std::process::exit(2);
    }
    let start: usize = args[4].parse().expect("start index");
    let cases = std::io::BufReader::new(std::fs::File::open(&args[2]).expect("cases"));
    let mut out = std::fs::OpenOptions::new()
        .append(true)
        .create(true)
        .open(&args[3])
        .expect("out");
    std::panic::set_hook(Box::new(|_| {}));
    let lines: Vec<String> = cases.lines().map(|l| l.expect("line")).collect();
    // 8 MiB, the usual size of a main thread's stack
    let worker = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            for (i, line) in lines.iter().enumerate().skip(start) {
                let case: Value = serde_json::from_str(line).expect("case is JSON");
                let res = ops::run_caught(&case);
                let mut text = serde_json::to_string(&json!({"i": i, "out": res})).expect("json");
                text.push('\n');
                out.write_all(text.as_bytes()).expect("write");
            }
        })
        .expect("spawn");
    if worker.join().is_err() {
        eprintln!("worker failed outside the code under test");
        std::process::exit(3);
    }
}
