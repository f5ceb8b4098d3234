//! Conformance harness: drives the public API of scarlet with generated inputs
//! (scenarios exported by TLC, and random ones) and records every call with its
//! arguments and result, exactly, as a trace for the TLA+ trace specifications.
mod out;
mod rng;
mod ulp;
mod interval;
mod ifun;
mod scalar;
mod vecs;
mod mats;
mod xf;
mod raybox;
mod sphere;
mod scene;
mod cam;
mod boxes;
mod geo;
mod ivec;
mod ixf;

pub struct Ctx {
    pub seed: u64,
    pub shard: u64,
    pub shards: u64,
    pub count: u64,
    pub prop: String,
    pub scn: Vec<out::J>,
    pub rng: rng::Rng,
    pub out: out::Out,
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let fam = args[1].clone();
    let opt = |k: &str| -> Option<String> {
        args.iter().position(|a| a == k).map(|i| args[i + 1].clone())
    };
    let num = |k: &str, d: u64| opt(k).map(|s| s.parse().unwrap()).unwrap_or(d);
    let seed = num("--seed", 1);
    let shard = num("--shard", 0);
    let shards = num("--shards", 1);
    let scn = match opt("--scn") {
        Some(f) => std::fs::read_to_string(f)
            .unwrap()
            .lines()
            .filter(|l| !l.trim().is_empty())
            .enumerate()
            .filter(|(i, _)| *i as u64 % shards == shard)
            .map(|(_, l)| out::parse(l))
            .collect(),
        None => vec![],
    };
    let mut c = Ctx {
        seed,
        shard,
        shards,
        count: num("--count", 100),
        prop: opt("--prop").unwrap_or_default(),
        scn,
        rng: rng::Rng::new(seed, shard + 1),
        out: out::Out::create(&opt("--out").expect("--out")),
    };
    // panics of the code under test are data; keep stderr quiet
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match fam.as_str() {
        "ulp" => ulp::run(&mut c),
        "scalar" => scalar::run(&mut c),
        "vec" => vecs::run(&mut c),
        "mat" => mats::run(&mut c),
        "xf" => xf::run(&mut c),
        "raybox" => raybox::run(&mut c),
        "sphere" => sphere::run(&mut c),
        "scene" => scene::run(&mut c),
        "cam" => cam::run(&mut c),
        "disk" => cam::run_disk(&mut c),
        "box" => boxes::run(&mut c),
        "geo" => geo::run(&mut c),
        "ixf" => ixf::run(&mut c),
        "ivec" => ivec::run(&mut c),
        "ifun" => ifun::run(&mut c),
        "interval" => interval::run(&mut c),
        _ => {
            eprintln!("unknown family {}", fam);
            std::process::exit(2);
        }
    }));
    if let Err(e) = r {
        let m = e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        eprintln!("harness panicked outside a guarded call: {}", m);
        std::process::exit(3);
    }
    println!("{}", c.out.close());
}
