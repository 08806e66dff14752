mod alloc;
mod codec;
mod conn;
mod drv;
mod frame;
mod noisy;
mod pair;
mod pk;
mod rng;
mod scene;
mod util;
mod walk;
use util::Out;

fn arg(k: &str, d: &str) -> String {
    let a: Vec<String> = std::env::args().collect();
    let key = format!("--{k}");
    a.iter().position(|x| *x == key).map(|i| a[i + 1].clone()).unwrap_or_else(|| d.to_string())
}
fn num(k: &str, d: u64) -> u64 {
    arg(k, &d.to_string()).parse().unwrap()
}

fn main() {
    util::hook();
    let cmd = std::env::args().nth(1).unwrap_or_default();
    let mut out = Out::new(&arg("out", "/dev/stdout"));
    match cmd.as_str() {
        "alloc-replay" => {
            let s = std::fs::read_to_string(arg("in", "")).unwrap();
            alloc::replay(&s, &mut out)
        }
        "alloc-trace" => alloc::trace(num("seed", 1), num("traces", 10) as usize, num("steps", 100) as usize, &mut out),
        "conn" => drv::run(&arg("prof", "mix"), num("seed", 1), num("traces", 10) as usize, &mut out),
        "frame-replay" => frame::replay(&std::fs::read_to_string(arg("in", "")).unwrap(), &mut out),
        "codec-replay" => codec::replay(&std::fs::read_to_string(arg("in", "")).unwrap(), &mut out),
        "codec" => codec::rand(num("seed", 1), num("n", 100) as usize, &arg("mode", "build"), &mut out),
        "codec-ex" => codec::exhaust_all(num("shard", 0) as usize, num("of", 8) as usize, num("deep", 0) == 1, num("seed", 1), &mut out),
        "codec-sets" => codec::sets(num("shard", 0) as usize, num("of", 8) as usize, num("deep", 0) == 1, &mut out),
        "codec-pieces" => codec::pieces(num("seed", 1), num("n", 100000) as usize, &mut out),
        "conn-alphabet" => scene::alphabet(&std::fs::read_to_string(arg("in", "")).unwrap(), &mut out),
        "conn-replay" => {
            let (a, b) = (std::fs::read_to_string(arg("in", "")).unwrap(), std::fs::read_to_string(arg("edges", "")).unwrap());
            println!("{}", scene::replay(&a, &b, &arg("prof", "mix"), num("seed", 1), num("budget", 1 << 40) as usize, &mut out))
        }
        "pair" => pair::random(num("seed", 1), num("traces", 10) as usize, &mut out),
        "pair-replay" => pair::replay(&std::fs::read_to_string(arg("in", "")).unwrap(), &mut out),
        "frame" => frame::random(num("seed", 1), num("traces", 10) as usize, &mut out),
        _ => {
            eprintln!("unknown command {cmd}");
            std::process::exit(2)
        }
    }
    out.flush();
}
