//! symex: bounded symbolic execution of LLVM IR with an SMT solver.
//!
//! Usage: symex IR.ll ENTRY [--shard I/N] [--split D] [--max-steps N] [--samples N] [--seed N]
//!        [--solver BIN] [--deadline SECS] [--params A,B,..] [--jobs N --out FILE_PREFIX]
//!        [--mute TEXT,..] [--only TEXT,..]
//! Prints one JSON object per process on stdout.

mod exec;
mod ir;
mod par;
mod parse;
mod solver;
mod term;

use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}

fn nums(v: &[u64]) -> String {
    let s: Vec<String> = v.iter().map(|x| x.to_string()).collect();
    format!("[{}]", s.join(","))
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut opts = exec::Opts {
        shard: 0,
        nshards: 1,
        jobs: 1,
        params: vec![],
        split: 0,
        max_steps: 6_000_000,
        max_violations: 3,
        nsamples: 4,
        seed: 1,
        deadline: None,
        mute: vec![],
        only: vec![],
    };
    let mut bin = "z3-new".to_string();
    let mut timeout = 60_000u64;
    let mut out = String::new();
    let mut i = 3;
    while i < args.len() {
        let v = args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--shard" => {
                let (a, b) = v.split_once('/').expect("I/N");
                opts.shard = a.parse().unwrap();
                opts.nshards = b.parse().unwrap();
            }
            "--params" => opts.params = v.split(',').filter(|s| !s.is_empty() && *s != "-").map(|s| s.parse().unwrap()).collect(),
            "--jobs" => opts.jobs = v.parse().unwrap(),
            "--mute" => opts.mute = v.split(',').map(String::from).collect(),
            "--only" => opts.only = v.split(',').map(String::from).collect(),
            "--out" => out = v.clone(),
            "--split" => opts.split = v.parse().unwrap(),
            "--max-steps" => opts.max_steps = v.parse().unwrap(),
            "--samples" => opts.nsamples = v.parse().unwrap(),
            "--seed" => opts.seed = v.parse().unwrap(),
            "--solver" => bin = v.clone(),
            "--timeout-ms" => timeout = v.parse().unwrap(),
            "--deadline" => opts.deadline = Some(std::time::Instant::now() + std::time::Duration::from_secs_f64(v.parse().unwrap())),
            o => panic!("option {}", o),
        }
        i += 2;
    }
    let t0 = std::time::Instant::now();
    let text = std::fs::read_to_string(&args[1]).expect("read IR");
    let m = match parse::parse(&text) {
        Ok(m) => m,
        Err(e) => {
            println!("{{\"error\":\"parse: {}\"}}", esc(&e));
            std::process::exit(2);
        }
    };
    if args[2] == "--list" {
        for f in &m.funcs {
            println!("{}", f.name);
        }
        return;
    }
    let Some(&entry) = m.by_name.get(&args[2]) else {
        println!("{{\"error\":\"no entry {}\"}}", esc(&args[2]));
        std::process::exit(2);
    };
    let parse_s = t0.elapsed().as_secs_f64();
    let solver = solver::Solver::new(&bin, timeout).expect("solver");
    let mut ex = exec::Exec::new(&m, solver, opts);
    let r = ex.run(entry);
    let s = &ex.stats;
    let mut o = String::new();
    let _ = write!(o, "{{\"entry\":\"{}\"", esc(&args[2]));
    if let Err(e) = &r {
        let _ = write!(o, ",\"error\":\"{}\"", esc(e));
    }
    let _ = write!(
        o,
        ",\"paths\":{},\"paths_with_panics\":{},\"assumed_out\":{},\"insts\":{},\"max_path_insts\":{},\"max_inputs\":{},\"forks\":{},\"asserts\":{},\"asserts_symbolic\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"cached\":{},\"solver_us\":{},\"terms\":{},\"parse_s\":{:.3},\"wall_s\":{:.3}",
        s.paths,
        s.paths_with_panics,
        s.assumed_out,
        s.insts,
        s.max_path_insts,
        s.max_inputs,
        s.forks,
        s.asserts,
        s.asserts_symbolic,
        ex.solver.queries,
        ex.solver.sat,
        ex.solver.unsat,
        ex.solver.cached,
        ex.solver.time_us,
        ex.ts.nodes.len(),
        parse_s,
        t0.elapsed().as_secs_f64()
    );
    let _ = write!(o, ",\"covers\":{{");
    for (k, (c, n)) in s.covers.iter().enumerate() {
        let _ = write!(o, "{}\"{}\":{}", if k > 0 { "," } else { "" }, esc(c), n);
    }
    let _ = write!(o, "}},\"violations\":[");
    for (k, v) in s.violations.iter().enumerate() {
        let _ = write!(
            o,
            "{}{{\"kind\":\"{}\",\"msg\":\"{}\",\"inputs\":{}}}",
            if k > 0 { "," } else { "" },
            esc(&v.kind),
            esc(&v.msg),
            nums(&v.inputs)
        );
    }
    let _ = write!(o, "],\"samples\":[");
    for (k, (i, l)) in s.samples.iter().enumerate() {
        let _ = write!(o, "{}{{\"inputs\":{},\"log\":{}}}", if k > 0 { "," } else { "" }, nums(i), nums(l));
    }
    let _ = write!(o, "],\"funcs\":[");
    for (k, f) in s.funcs.iter().enumerate() {
        let _ = write!(o, "{}\"{}\"", if k > 0 { "," } else { "" }, esc(&m.funcs[*f as usize].name));
    }
    let _ = write!(o, "],\"lines\":{{");
    let mut byfile: std::collections::BTreeMap<&str, Vec<u64>> = Default::default();
    for (f, l) in &s.lines {
        if f.contains("/repo/src/") {
            byfile.entry(f).or_default().push(*l as u64);
        }
    }
    for (k, (f, l)) in byfile.iter().enumerate() {
        let _ = write!(o, "{}\"{}\":{}", if k > 0 { "," } else { "" }, esc(f), nums(l));
    }
    o.push_str("}}");
    if ex.child {
        std::fs::write(format!("{}.{}", out, std::process::id()), o).expect("write");
        ex.worker_done();
    } else {
        println!("{}", o);
        if !out.is_empty() {
            let (dir, pre) = out.rsplit_once('/').unwrap_or((".", &out));
            for f in std::fs::read_dir(dir).expect("read_dir").flatten() {
                if f.file_name().to_string_lossy().starts_with(&format!("{}.", pre)) {
                    println!("{}", std::fs::read_to_string(f.path()).expect("read"));
                    let _ = std::fs::remove_file(f.path());
                }
            }
        }
    }
    if r.is_err() {
        std::process::exit(2);
    }
}
