mod exec;
mod expr;
mod ir;
mod smt;
use std::io::Write;

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn real_main() {
    let mut a = std::env::args().skip(1);
    let mut ll = String::new();
    let mut entry = String::new();
    let mut args = vec![];
    let mut out = String::new();
    let mut opts = exec::Opts { max_steps: 20_000_000, max_time: 600.0, max_viols: 40, shard: (0, 1), verbose: false };
    let mut smt_to = 30_000;
    let mut prof = false;
    while let Some(x) = a.next() {
        match x.as_str() {
            "--ll" => ll = a.next().unwrap(),
            "--entry" => entry = a.next().unwrap(),
            "--out" => out = a.next().unwrap(),
            "--max-steps" => opts.max_steps = a.next().unwrap().parse().unwrap(),
            "--max-time" => opts.max_time = a.next().unwrap().parse().unwrap(),
            "--max-viols" => opts.max_viols = a.next().unwrap().parse().unwrap(),
            "--smt-timeout" => smt_to = a.next().unwrap().parse().unwrap(),
            "--shard" => {
                let s = a.next().unwrap();
                let (i, n) = s.split_once('/').unwrap();
                opts.shard = (i.parse().unwrap(), n.parse().unwrap());
            }
            "-v" => opts.verbose = true,
            "--prof" => prof = true,
            v => args.push(v.parse::<u64>().unwrap()),
        }
    }
    let t0 = std::time::Instant::now();
    let text = std::fs::read_to_string(&ll).expect("read ll");
    let m = ir::Module::parse(text);
    let tp = t0.elapsed().as_secs_f64();
    let mut e = exec::Eng::new(m, opts, smt_to);
    e.run(&entry, &args);
    let r = &e.rep;
    let mut o = String::from("{\n");
    o.push_str(&format!(" \"entry\": {}, \"args\": {:?}, \"shard\": [{}, {}],\n", jstr(&entry), args, e.opts.shard.0, e.opts.shard.1));
    o.push_str(&format!(
        " \"paths\": {}, \"infeasible\": {}, \"forks\": {}, \"steps\": {}, \"max_steps\": {}, \"max_pc\": {}, \"checks\": {}, \"merged\": {},\n",
        r.paths, r.infeasible, r.forks, r.steps, r.max_steps, r.max_pc, r.checks, r.merged
    ));
    o.push_str(&format!(
        " \"queries\": {}, \"sat\": {}, \"unsat\": {}, \"unknown\": {}, \"cached\": {}, \"solver_s\": {:.3}, \"max_query_s\": {:.3},\n",
        e.smt.queries, e.smt.sat, e.smt.unsat, e.smt.unknown, e.smt.cached, e.smt.time, e.smt.max_time
    ));
    o.push_str(&format!(
        " \"parse_s\": {:.3}, \"total_s\": {:.3}, \"solver\": {}, \"nodes\": {},\n",
        tp,
        t0.elapsed().as_secs_f64(),
        jstr(&format!("Z3 {}", smt::z3_version())),
        expr::ar().nodes.len()
    ));
    o.push_str(" \"limits\": {");
    o.push_str(&r.limits.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect::<Vec<_>>().join(", "));
    o.push_str("},\n \"reach\": {");
    o.push_str(&r.reach.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect::<Vec<_>>().join(", "));
    o.push_str("},\n \"violations\": [");
    o.push_str(
        &r.viols
            .iter()
            .map(|(v, t, n, notes)| {
                format!(
                    "\n  {{\"code\": {}, \"loc\": {}, \"count\": {}, \"tape\": \"{}\", \"notes\": {{{}}}, \"stack\": [{}]}}",
                    jstr(&v.code),
                    jstr(&v.loc),
                    n,
                    t.iter().map(|b| format!("{:02x}", b)).collect::<String>(),
                    notes.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect::<Vec<_>>().join(", "),
                    v.stack.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", ")
                )
            })
            .collect::<Vec<_>>()
            .join(","),
    );
    let hex = |t: &Vec<u8>| t.iter().map(|b| format!("{:02x}", b)).collect::<String>();
    o.push_str("],\n \"samples\": [");
    o.push_str(
        &r.samples
            .iter()
            .map(|(m, t)| format!("{{\"reach\": [{}], \"tape\": \"{}\"}}", m.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(", "), hex(t)))
            .collect::<Vec<_>>()
            .join(",\n  "),
    );
    o.push_str("],\n \"limit_tapes\": [");
    o.push_str(&r.limit_tapes.iter().map(|(m, t)| format!("{{\"limit\": {}, \"tape\": \"{}\"}}", jstr(m), hex(t))).collect::<Vec<_>>().join(", "));
    o.push_str("],\n \"functions\": [");
    o.push_str(
        &e.covered
            .iter()
            .enumerate()
            .filter(|x| *x.1)
            .map(|(i, _)| jstr(&e.m.funcs[i].name))
            .collect::<Vec<_>>()
            .join(", "),
    );
    o.push_str("]\n}\n");
    if prof {
        let mut p: Vec<(u64, &str)> = e.prof.iter().enumerate().map(|(i, n)| (*n, e.m.funcs[i].name.as_str())).collect();
        p.sort();
        for (n, f) in p.iter().rev().take(25) {
            eprintln!("{:10} {}", n, f);
        }
    }
    if out.is_empty() {
        std::io::stdout().write_all(o.as_bytes()).unwrap();
    } else {
        std::fs::write(&out, o).unwrap();
    }
}
fn main() {
    let h = std::thread::Builder::new().stack_size(4 << 30).spawn(real_main).unwrap();
    if h.join().is_err() {
        std::process::exit(3);
    }
}
