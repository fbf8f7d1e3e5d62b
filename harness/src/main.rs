//! Runs the library under workloads while monitors watch. Started by /verif/check.
mod alloc;
mod ctx;
mod dict;
mod fresh;
mod gen;
mod golden;
mod model;
mod obs;
mod props;
mod rng;
mod touch;

use ctx::Ctx;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    match args.first().map(String::as_str) {
        Some("worker") => worker(&args[1..]),
        Some("dump-enums") => print!("{}", golden::dump()),
        Some("dump-layouts") => print!("{}", props::values::dump_layouts()),
        _ => usage(),
    }
}

fn usage() -> ! {
    eprintln!("mon worker PROP [--seed N] [--tier quick|thorough] [--small] [--shard I/N] [--only UNIT] [--trace] [--dict F] [--guided] [--fresh] [--threads-only] [--record F] [--corpus F] [--status F] [--out F] [--sigs F]");
    std::process::exit(3)
}

fn worker(args: &[String]) {
    let mut it = args.iter();
    let Some(prop) = it.next() else { usage() };
    let mut c = Ctx::new(prop);
    let (mut out, mut sigs) = (None, None);
    let (mut guided, mut fresh) = (false, false);
    while let Some(a) = it.next() {
        let mut v = || it.next().cloned().unwrap_or_else(|| usage());
        match a.as_str() {
            "--seed" => c.seed = v().parse().unwrap_or(1),
            "--tier" => c.thorough = v() == "thorough",
            "--small" => {
                c.small = true;
                touch::LEAN.store(true, std::sync::atomic::Ordering::Relaxed)
            }
            "--trace" => c.trace = true,
            "--shard" => {
                let s = v();
                let (i, n) = s.split_once('/').unwrap_or_else(|| usage());
                c.shard = i.parse().unwrap_or_else(|_| usage());
                c.shards = n.parse().unwrap_or_else(|_| usage());
            }
            "--threads-only" => c.threads_only = true,
            "--guided" => guided = true,
            "--fresh" => fresh = true,
            "--record" => c.record = Some(std::io::BufWriter::new(std::fs::File::create(v()).expect("record"))),
            "--corpus" => c.corpus.extend(std::fs::read(v()).expect("corpus")),
            "--dict" => dict::load(&v()),
            "--only" => c.only = v().parse().ok(),
            "--status" => {
                let p = v();
                c.status(&p)
            }
            "--out" => out = Some(v()),
            "--sigs" => sigs = Some(v()),
            _ => usage(),
        }
    }
    ctx::hook();
    if fresh {
        fresh::start();
    }
    if guided {
        c.quiet_panics = c.prop == "C01";
        props::guided::run(&mut c);
    } else {
        props::run(&mut c);
    }
    if let Some(f) = &mut c.record {
        std::io::Write::flush(f).expect("record");
    }
    let json = c.json();
    if let Some(p) = sigs {
        let mut b = Vec::with_capacity(c.distinct.len() * 8);
        for s in &c.distinct {
            b.extend_from_slice(&s.to_le_bytes());
        }
        std::fs::write(p, b).expect("signatures");
    }
    match out {
        Some(p) => std::fs::write(p, json).expect("results"),
        None => println!("{json}"),
    }
}
