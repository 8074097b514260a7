#![allow(dead_code)]
mod canon;
mod case;
mod driver;
mod exec;
mod gen;
mod http;
mod model;
mod net;
mod ops;
mod props;
mod rng;
mod seam;
mod shrink;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if std::env::var("SIM_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    // Big stack: the harness itself recurses over JSON.
    let code = std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(move || main2(&a))
        .unwrap()
        .join()
        .unwrap_or(2);
    std::process::exit(code)
}
fn main2(a: &[String]) -> i32 {
    let s = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let n = |i: usize| s(i).parse::<u64>().expect("number");
    match s(1) {
        "check" => driver::check(s(2), s(3)),
        "worker" => {
            driver::worker(s(2), n(3), n(4), n(5), n(6), n(7));
            0
        }
        "runcase" => driver::runcase(s(2)),
        "replay" => driver::replay(s(2)),
        "hist" => {
            driver::hist(s(2), n(3), n(4));
            0
        }
        "show" => {
            driver::show(s(2), n(3), false);
            0
        }
        "min" => {
            driver::show(s(2), n(3), true);
            0
        }
        "isomin" => {
            driver::isomin(s(2), n(3));
            0
        }
        "list" => {
            for p in props::all() {
                println!("{}", p.id());
            }
            0
        }
        _ => {
            eprintln!("usage: sim check ID quick|thorough | replay FILE");
            2
        }
    }
}
