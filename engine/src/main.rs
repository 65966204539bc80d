mod exec;
mod expr;
mod ir;
mod mem;
mod models;
mod solver;

use exec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 32 => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

fn main() {
    // deep recursion over expressions: run on a big stack
    let h = std::thread::Builder::new().stack_size(4 << 30).spawn(real_main).unwrap();
    if h.join().is_err() {
        std::process::exit(3);
    }
}

fn real_main() {
    let mut args: Vec<String> = std::env::args().skip(1).collect();
    let mut opt: BTreeMap<String, String> = BTreeMap::new();
    let mut pos = vec![];
    while !args.is_empty() {
        let a = args.remove(0);
        if let Some(k) = a.strip_prefix("--") {
            if let Some((k, v)) = k.split_once('=') {
                opt.insert(k.into(), v.into());
            } else {
                opt.insert(k.into(), "1".into());
            }
        } else {
            pos.push(a);
        }
    }
    let num = |k: &str, d: u64| opt.get(k).map(|v| v.parse().unwrap()).unwrap_or(d);
    let t0 = Instant::now();
    let m = ir::Module::load(&pos[0]);
    let load = t0.elapsed().as_secs_f64();
    let mut e = Engine::new(m, num("solver-ms", 20000) as u32);
    e.part = num("part", 0);
    e.tier = num("tier", 0);
    e.max_steps = num("max-steps", 20_000_000);
    e.stub_fmt = num("stub-fmt", 1) == 1;
    e.split = num("split", 0) == 1;
    e.trace_calls = num("trace", 0) == 1;
    e.trace_ins = num("trace-ins", 0) == 1;
    e.max_viol = num("max-viol", 4) as usize;
    e.sample_cap = num("samples", 12) as usize;
    e.deadline = Instant::now() + Duration::from_secs(num("time", 600));
    let entry = pos[1].clone();
    let st = e.init_state(&entry);
    let t1 = Instant::now();
    e.run(st);
    let wall = t1.elapsed().as_secs_f64();

    // report
    let mut o = String::from("{\n");
    let mut kv = |k: &str, v: String| {
        o.push_str(&format!(" {}: {},\n", js(k), v));
    };
    kv("entry", js(&entry));
    kv("part", e.part.to_string());
    kv("paths", e.paths.to_string());
    kv("assumed_away", e.assumed.to_string());
    kv("forks", e.forks.to_string());
    kv("branches", e.branches.to_string());
    kv("instructions", e.steps.to_string());
    kv("concretizations", e.concretizations.to_string());
    kv("asserts", e.asserts.to_string());
    kv("assert_queries", e.assert_queries.to_string());
    kv("queries", e.sol.queries.to_string());
    kv("queries_by_domain", e.sol.solved_dom.to_string());
    kv("queries_by_model", e.sol.solved_model.to_string());
    kv("queries_by_cache", e.sol.solved_cache.to_string());
    kv("z3_calls", e.sol.z3_calls.to_string());
    kv("z3_sat", e.sol.z3_sat.to_string());
    kv("z3_unsat", e.sol.z3_unsat.to_string());
    kv("z3_unknown", e.sol.unknown.to_string());
    kv("z3_seconds", format!("{:.3}", e.sol.z3_time));
    kv("z3_max_seconds", format!("{:.3}", e.sol.z3_max));
    kv("max_input_bytes", e.max_vars.to_string());
    kv("exprs", expr::arena().nodes.len().to_string());
    kv("load_seconds", format!("{:.3}", load));
    kv("wall_seconds", format!("{:.3}", wall));
    kv("fmt_stub_calls", e.fmt_stubbed.to_string());
    kv("reach", format!("{{{}}}", e.reach.iter().map(|(k, v)| format!("\"{}\": {}", k, v)).collect::<Vec<_>>().join(", ")));
    let missing: Vec<String> = e.expect.iter().filter(|k| !e.reach.contains_key(k)).map(|k| k.to_string()).collect();
    kv("expected", format!("[{}]", e.expect.iter().map(|k| k.to_string()).collect::<Vec<_>>().join(", ")));
    kv("unreached", format!("[{}]", missing.join(", ")));
    kv("errors", format!("[{}]", e.errors.iter().map(|x| js(x)).collect::<Vec<_>>().join(", ")));
    kv("violations_total", e.viol_total.to_string());
    kv(
        "violations",
        format!(
            "[{}]",
            e.violations
                .iter()
                .map(|v| format!("{{\"kind\": {}, \"what\": {}, \"input\": \"{}\", \"stack\": [{}]}}", js(&v.kind), js(&v.what), hex(&v.input), v.stack.iter().map(|x| js(x)).collect::<Vec<_>>().join(", ")))
                .collect::<Vec<_>>()
                .join(",\n  ")
        ),
    );
    kv(
        "samples",
        format!(
            "[{}]",
            e.samples
                .iter()
                .map(|s| format!("{{\"path\": {}, \"steps\": {}, \"input\": \"{}\", \"trace\": [{}]}}", s.path, s.steps, hex(&s.input), s.trace.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", ")))
                .collect::<Vec<_>>()
                .join(",\n  ")
        ),
    );
    let mut fs: BTreeSet<String> = BTreeSet::new();
    for f in e.called.keys() {
        fs.insert(demangle(&e.m.funcs[*f as usize].name));
    }
    kv("functions_called", fs.len().to_string());
    kv("functions", format!("[{}]", fs.iter().filter(|f| f.contains("mp4ameta")).map(|f| js(f)).collect::<Vec<_>>().join(", ")));
    kv("externs", format!("[{}]", e.externs.keys().map(|f| js(f)).collect::<Vec<_>>().join(", ")));
    let (lines, subs) = coverage(&e);
    kv("source_functions", format!("[{}]", subs.iter().map(|f| js(f)).collect::<Vec<_>>().join(", ")));
    kv(
        "lines",
        format!("{{{}}}", lines.iter().map(|(f, l)| format!("{}: [{}]", js(f), l.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(", ")),
    );
    if num("hot", 0) == 1 {
        let mut h: Vec<_> = e.hot.iter().collect();
        h.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for ((f, b), n) in h.iter().take(25) {
            let fun = e.m.func(*f);
            let blk = &fun.blocks[*b as usize];
            let mut loc = String::new();
            for (_, d) in blk.ins.iter().rev() {
                if *d != 0 {
                    loc = dbg_loc(&e.m, *d).map(|(f, l, _)| format!("{}:{}", f, l)).unwrap_or_default();
                    break;
                }
            }
            eprintln!("{:8} {} %{} {}", n, demangle(&fun.name), blk.name, loc);
        }
    }
    o.push_str(" \"end\": 1\n}\n");
    if let Some(p) = opt.get("out") {
        std::fs::write(p, &o).unwrap();
    } else {
        print!("{}", o);
    }
    // the process exits without running destructors of the (large) state
    std::process::exit(0);
}

fn field<'a>(l: &'a str, k: &str) -> Option<&'a str> {
    let i = l.find(&format!("{}: ", k))? + k.len() + 2;
    let r = &l[i..];
    if let Some(q) = r.strip_prefix('"') {
        return Some(&q[..q.find('"')?]);
    }
    let e = r.find(|c| c == ',' || c == ')').unwrap_or(r.len());
    Some(&r[..e])
}
fn meta<'a>(m: &'a ir::Module, id: u32) -> Option<&'a str> {
    let (a, b) = *m.meta.get(&id)?;
    std::str::from_utf8(&m.text[a..b]).ok()
}
fn mref(s: &str) -> Option<u32> {
    s.strip_prefix('!')?.parse().ok()
}

/// file, line, function of a debug location
fn dbg_loc(m: &ir::Module, id: u32) -> Option<(String, u32, String)> {
    let l = meta(m, id)?;
    if !l.contains("!DILocation(") {
        return None;
    }
    let line: u32 = field(l, "line").and_then(|x| x.parse().ok()).unwrap_or(0);
    let mut s = mref(field(l, "scope")?)?;
    let mut file = None;
    loop {
        let d = meta(m, s)?;
        if file.is_none() {
            if let Some(f) = field(d, "file").and_then(mref) {
                if let Some(fl) = meta(m, f) {
                    file = Some(format!("{}|{}", field(fl, "directory").unwrap_or(""), field(fl, "filename").unwrap_or("")));
                }
            }
        }
        if d.contains("!DISubprogram(") {
            let name = field(d, "linkageName").or(field(d, "name")).unwrap_or("?");
            return Some((file.unwrap_or_default(), line, demangle(name)));
        }
        s = mref(field(d, "scope")?)?;
    }
}

fn coverage(e: &Engine) -> (BTreeMap<String, BTreeSet<u32>>, BTreeSet<String>) {
    let mut lines: BTreeMap<String, BTreeSet<u32>> = BTreeMap::new();
    let mut subs = BTreeSet::new();
    for (id, c) in e.cover.iter().enumerate() {
        if !*c {
            continue;
        }
        // the location itself and the call sites it was inlined at
        let mut cur = id as u32;
        loop {
            if let Some((f, l, n)) = dbg_loc(&e.m, cur) {
                if f.contains("/repo") || f.contains("mp4ameta") {
                    let short = f.rsplit("src/").next().unwrap_or("").to_string();
                    lines.entry(short).or_default().insert(l);
                    subs.insert(n);
                }
            }
            match meta(&e.m, cur).and_then(|l| field(l, "inlinedAt")).and_then(mref) {
                Some(n) => cur = n,
                None => break,
            }
        }
    }
    (lines, subs)
}
