//! Replays a recorded counterexample against the real crate:
//! `replay <module::harness> <file>`; file: one line of hex bytes per value.
use std::io::Read;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s == "--list").unwrap_or(false) {
        for (m, r) in nvh::all() {
            for (n, _) in r.iter() {
                println!("{m}::{n}");
            }
        }
        return;
    }
    let mut s = String::new();
    std::fs::File::open(&a[2]).unwrap().read_to_string(&mut s).unwrap();
    let vals: Vec<Vec<u8>> = s
        .lines()
        .filter(|l| !l.starts_with('#'))
        .map(|l| l.split_whitespace().map(|x| u8::from_str_radix(x, 16).unwrap()).collect())
        .collect();
    for (m, r) in nvh::all() {
        for (n, f) in r.iter() {
            if format!("{m}::{n}") == a[1] {
                nvh::nd::load(vals);
                f();
                println!("REPLAY-PASSED");
                return;
            }
        }
    }
    println!("REPLAY-UNKNOWN-HARNESS");
    std::process::exit(4);
}
