mod exec;
mod ext;
mod ir;
mod mem;
mod term;
mod val;
mod z3;
use exec::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn list<X>(v: &[X], f: impl Fn(&X) -> String) -> String {
    format!("[{}]", v.iter().map(f).collect::<Vec<_>>().join(","))
}

fn real_main() {
    let mut a: HashMap<String, String> = HashMap::new();
    let mut args: Vec<u64> = vec![];
    let av: Vec<String> = std::env::args().collect();
    let mut i = 1;
    while i < av.len() {
        let k = av[i].trim_start_matches("--").to_string();
        if k == "trace" || k == "progress" {
            a.insert(k, "1".into());
            i += 1;
            continue;
        }
        if k == "arg" {
            args.push(av[i + 1].parse().unwrap());
        }
        a.insert(k, av[i + 1].clone());
        i += 2;
    }
    let text = std::fs::read_to_string(&a["ll"]).expect("ll");
    let text: &'static str = Box::leak(text.into_boxed_str());
    let m = ir::Module::load(text);
    let num = |k: &str, d: f64| a.get(k).map(|v| v.parse::<f64>().unwrap()).unwrap_or(d);
    let lim = Limits {
        table: num("table", 1024.0) as u64,
        max_time: num("max-time", 600.0),
        max_steps: num("max-steps", 20e6) as u64,
        max_depth: num("max-depth", 2000.0) as usize,
        max_viol: num("max-viol", 8.0) as usize,
        max_paths: num("max-paths", 1e9) as u64,
        keep_paths: num("keep-paths", 40.0) as usize,
        byte_domains: num("byte-domains", 1.0) > 0.0,
    };
    let mut ex = Ex {
        m,
        solver: z3::Solver::new(),
        work: vec![],
        lim,
        truths: HashMap::new(),
        domain_queries: 0,
        tables_checked: 0,
        asserting: false,
        values: HashMap::new(),
        viols: vec![],
        viol_keys: BTreeSet::new(),
        engine_errs: BTreeMap::new(),
        paths_done: 0,
        paths_infeasible: 0,
        paths_viol: 0,
        forks: 0,
        steps: 0,
        checks: 0,
        checks_trivial: 0,
        covers: BTreeMap::new(),
        recs: vec![],
        used_fns: BTreeSet::new(),
        t0: std::time::Instant::now(),
        timed_out: false,
        ext_kind: vec![],
        conc_count: HashMap::new(),
        fork_sites: HashMap::new(),
        arg: 0,
        maxdepth_seen: 0,
        trace: a.contains_key("trace"),
        progress: a.contains_key("progress"),
    };
    ex.solver.dump = a.get("dump").cloned();
    let r = ex.run(&a["entry"], &args);
    let err = r.err();
    let mut fns: Vec<String> = vec![];
    let mut ninst = 0;
    for &f in &ex.used_fns {
        if let Some(p) = ex.m.fns[f].parsed {
            ninst += p.ninst;
            if p.name.contains("onenote_parser") {
                fns.push(p.name.to_string());
            }
        }
    }
    fns.sort();
    fns.dedup();
    if ex.progress {
        let mut v: Vec<_> = ex.fork_sites.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for ((f, b, ip), n) in v.iter().take(12) {
            eprintln!("forks {:6} {} bb{} ip{}", n, short(&ex.m.fns[*f].name), b, ip);
        }
    }
    let out = format!(
        "{{\"entry\":{},\"args\":{},\"error\":{},\"timed_out\":{},\"paths_done\":{},\"paths_infeasible\":{},\"paths_viol\":{},\"forks\":{},\"steps\":{},\"checks\":{},\"checks_trivial\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cached\":{},\"byte_domain\":{},\"byte_domain_checked\":{},\"solver_s\":{:.3},\"slowest_query_s\":{:.3},\"wall_s\":{:.3},\"terms\":{},\"max_depth\":{},\"functions_total\":{},\"ir_instructions\":{},\"functions\":{},\"covers\":{{{}}},\"engine_errors\":{{{}}},\"violations\":{},\"paths\":{}}}\n",
        js(&a["entry"]),
        list(&args, |x| x.to_string()),
        err.map(|e| js(&e)).unwrap_or("null".into()),
        ex.timed_out,
        ex.paths_done,
        ex.paths_infeasible,
        ex.paths_viol,
        ex.forks,
        ex.steps,
        ex.checks,
        ex.checks_trivial,
        ex.solver.queries,
        ex.solver.sat,
        ex.solver.unsat,
        ex.solver.unknown,
        ex.solver.cached,
        ex.domain_queries,
        ex.tables_checked,
        ex.solver.time,
        ex.solver.slowest,
        ex.t0.elapsed().as_secs_f64(),
        val::tm().nodes.len(),
        ex.maxdepth_seen,
        ex.used_fns.len(),
        ninst,
        list(&fns, |s| js(s)),
        ex.covers.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","),
        ex.engine_errs.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","),
        list(&ex.viols, |v| format!(
            "{{\"kind\":{},\"msg\":{},\"input\":\"{}\",\"stack\":{},\"outs\":{}}}",
            js(&v.kind),
            js(&v.msg),
            hex(&v.input),
            list(&v.stack, |s| js(s)),
            list(&v.outs, |x| x.to_string())
        )),
        list(&ex.recs, |p| format!("{{\"input\":\"{}\",\"outs\":{}}}", hex(&p.input), list(&p.outs, |x| x.to_string()))),
    );
    match a.get("out") {
        Some(p) => std::fs::write(p, out).unwrap(),
        None => print!("{}", out),
    }
    std::process::exit(0);
}
fn main() {
    std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap().join().unwrap();
}
