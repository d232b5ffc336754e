//! rsx: bounded symbolic execution of rustc's LLVM IR, decided by an SMT solver.
mod exec;
mod ir;
mod mem;
mod smt;
mod term;

use exec::*;
use std::time::Instant;

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn jnums(v: &[u64]) -> String {
    format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| -> Option<String> { a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned() };
    let ll = get("--ll").expect("--ll FILE");
    let harness = get("--harness").expect("--harness NAME");
    let out = get("--out");
    let shard = get("--shard").unwrap_or("0/1".into());
    let (si, sn) = shard.split_once('/').unwrap();
    let cfg = Cfg {
        tier: if get("--tier").as_deref() == Some("thorough") { 1 } else { 0 },
        shard: (si.parse().unwrap(), sn.parse().unwrap()),
        qtimeout: get("--qtimeout").map(|x| x.parse().unwrap()).unwrap_or(60000),
        seed: get("--seed").map(|x| x.parse().unwrap()).unwrap_or(1),
        max_secs: get("--max-secs").map(|x| x.parse().unwrap()).unwrap_or(600.0),
        samples: get("--samples").map(|x| x.parse().unwrap()).unwrap_or(6),
        max_viol: get("--max-viol").map(|x| x.parse().unwrap()).unwrap_or(8),
        xsolver: get("--xsolver"),
        verbose: a.iter().any(|x| x == "-v"),
    };
    let dump = get("--dump");
    let canon = a.iter().any(|x| x == "--canon");
    let child = std::thread::Builder::new()
        .stack_size(4 << 30)
        .spawn(move || {
            let t0 = Instant::now();
            let text = std::fs::read_to_string(&ll).expect("read IR");
            let m = ir::Module::parse(text);
            let parse = t0.elapsed().as_secs_f64();
            let mut e = Engine::new(m, cfg);
            e.t.canon = canon;
            e.s.dump = dump;
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| e.run(&harness)));
            if let Err(p) = r {
                let msg = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                e.inconclusive.insert(format!("engine: {}", msg));
            }
            if e.paths == 0 && e.violations.is_empty() && e.cfg.shard.1 == 1 && e.inconclusive.is_empty() {
                e.inconclusive.insert("no path reached the end of the harness".into());
            }
            let mut s = String::from("{");
            s.push_str(&format!("\"harness\":{},\"shard\":{},", jstr(&harness), jstr(&format!("{}/{}", e.cfg.shard.0, e.cfg.shard.1))));
            s.push_str(&format!("\"mode\":{},", jstr(if e.t.mode == term::Mode::Real { "exact" } else { "bit-precise" })));
            s.push_str(&format!(
                "\"paths\":{},\"panic_paths\":{},\"forks\":{},\"merges\":{},\"steps\":{},\"checks\":{},\"discharged\":{},\"trivial\":{},\"final_queries\":{},\"terms\":{},\"inexact\":{},\"pick_combinations\":{},\"nonvacuous\":{},\"xagree\":{},",
                e.paths, e.dead, e.forks, e.merges, e.steps, e.checks, e.discharged, e.trivially, e.final_queries, e.t.n.len(), e.t.inexact, e.picks_seen.len(), e.nonvacuous, e.xagree
            ));
            let st = &e.s.stats;
            s.push_str(&format!(
                "\"queries\":{},\"unsat\":{},\"sat\":{},\"unknown\":{},\"solver_s\":{:.3},\"slowest_s\":{:.3},\"parse_s\":{:.3},\"wall_s\":{:.3},",
                st.queries, st.unsat, st.sat, st.unknown, st.secs, st.slowest, parse, t0.elapsed().as_secs_f64()
            ));
            let mut v: Vec<String> = e
                .violations
                .iter()
                .map(|v| format!("{{\"kind\":{},\"check\":{},\"what\":{},\"exact\":{},\"draws\":{}}}", jstr(&v.kind), v.check, jstr(&v.what), v.exact, jnums(&v.draws)))
                .collect();
            s.push_str(&format!("\"violations\":[{}],", v.join(",")));
            v = e.samples.iter().map(|x| format!("{{\"draws\":{},\"obs\":{}}}", jnums(&x.draws), jnums(&x.obs))).collect();
            s.push_str(&format!("\"samples\":[{}],", v.join(",")));
            s.push_str(&format!("\"inconclusive\":[{}],", e.inconclusive.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(",")));
            s.push_str(&format!("\"covered\":[{}],", e.covered.keys().map(|x| x.to_string()).collect::<Vec<_>>().join(",")));
            s.push_str(&format!("\"cover_all\":[{}],", e.cover_all.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")));
            s.push_str(&format!("\"cover_open\":[{}],", e.cover_open.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")));
            let f: Vec<String> = e.funcs_run.iter().map(|&i| e.m.funcs[i].name.clone()).filter(|n| n.contains("rusty_network")).map(|n| jstr(&demangle(&n))).collect();
            s.push_str(&format!("\"functions_total\":{},\"functions\":[{}]}}", e.funcs_run.len(), f.join(",")));
            match &out {
                Some(p) => std::fs::write(p, &s).unwrap(),
                None => println!("{}", s),
            }
            std::mem::forget(e);
            std::process::exit(0);
        })
        .unwrap();
    child.join().ok();
    std::process::exit(3);
}
