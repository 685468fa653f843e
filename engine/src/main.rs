mod exec;
mod ir;
mod mem;
mod ops;
mod poly;
mod solver;
mod tt;
mod x86;

use std::time::{Duration, Instant};

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn real_main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut ll = String::new();
    let mut entry = String::new();
    let mut out: Option<String> = None;
    let mut timeout = 600u64;
    let mut z3_ms = 3000;
    let mut sat_s = 300;
    let mut inputs: Option<Vec<u8>> = None;
    let mut max_paths = u64::MAX;
    let mut trace = false;
    let mut model_out: Option<String> = None;
    let mut dump = None;
    let mut list = false;
    let mut i = 0;
    while i < args.len() {
        let nx = |i: usize| args[i + 1].clone();
        match args[i].as_str() {
            "--out" => {
                out = Some(nx(i));
                i += 1
            }
            "--timeout" => {
                timeout = nx(i).parse().unwrap();
                i += 1
            }
            "--z3-ms" => {
                z3_ms = nx(i).parse().unwrap();
                i += 1
            }
            "--sat-s" => {
                sat_s = nx(i).parse().unwrap();
                i += 1
            }
            "--max-paths" => {
                max_paths = nx(i).parse().unwrap();
                i += 1
            }
            "--inputs" => {
                inputs = Some(std::fs::read(nx(i)).unwrap());
                i += 1
            }
            "--model" => {
                model_out = Some(nx(i));
                i += 1
            }
            "--dump" => {
                dump = Some(nx(i));
                i += 1
            }
            "--trace" => trace = true,
            "--list" => list = true,
            x if ll.is_empty() => ll = x.to_string(),
            x => entry = x.to_string(),
        }
        i += 1;
    }
    let t0 = Instant::now();
    {
        let (out, entry) = (out.clone(), entry.clone());
        std::thread::spawn(move || {
            std::thread::sleep(Duration::from_secs(timeout + 8));
            let j = format!(
                "{{\"harness\": {}, \"status\": \"error\", \"error\": \"time limit (watchdog)\", \"functions\": []}}",
                jstr(&entry)
            );
            match out {
                Some(p) => std::fs::write(p, j).unwrap(),
                None => println!("{j}"),
            }
            std::process::exit(2);
        });
    }
    let src = std::fs::read_to_string(&ll).expect("read ll");
    let m = ir::Module::load(src);
    if list {
        for f in &m.funcs {
            if f.body.is_some() && !f.name.starts_with('_') && f.name.starts_with("h_") {
                println!("{}", f.name);
            }
        }
        return;
    }
    let mut ex = exec::Exec::new(&m);
    ex.deadline = Instant::now() + Duration::from_secs(timeout);
    ex.solver.z3_ms = z3_ms;
    ex.solver.sat_s = sat_s;
    ex.solver.dump = dump;
    ex.max_paths = max_paths;
    ex.concrete_inputs = inputs;
    ex.trace = trace;
    ex.run(&entry);
    let r = &ex.rep;
    let s = &ex.solver.stats;
    let status = if r.violation.is_some() {
        "violation"
    } else if r.error.is_some() {
        "error"
    } else if !r.assert_on_path || r.covers.values().any(|n| *n == 0) {
        "vacuous"
    } else {
        "ok"
    };
    let mut fns: Vec<String> = vec![];
    for f in &ex.executed {
        let d = exec::demangle(&m.funcs[*f as usize].name);
        if d.contains("binius") {
            fns.push(d);
        }
    }
    fns.sort();
    fns.dedup();
    let (ncuts, nands, maxt, nvars) = poly::with(|c| (c.n_cuts, c.n_ands, c.max_terms, c.vars.len()));
    let mut j = String::from("{");
    let mut kv = |k: &str, v: String| {
        if j.len() > 1 {
            j.push_str(", ");
        }
        j.push_str(&format!("{}: {}", jstr(k), v));
    };
    kv("harness", jstr(&entry));
    kv("status", jstr(status));
    if let Some((m, b, st)) = &r.violation {
        kv("violation", jstr(m));
        kv("stack", format!("[{}]", st.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(", ")));
        kv("model_hex", jstr(&b.iter().map(|x| format!("{x:02x}")).collect::<String>()));
        if let Some(p) = &model_out {
            // text: inputs line, then one line per uninterpreted function value
            let hex = |b: &[u8]| b.iter().map(|x| format!("{x:02x}")).collect::<String>();
            let mut t = format!("in {}\n", hex(b));
            for (tag, i, o) in &r.uf_table {
                t.push_str(&format!("uf {tag} x{} x{}\n", hex(i), hex(o)));
            }
            std::fs::write(p, t).unwrap();
        }
    }
    if let Some(e) = &r.error {
        kv("error", jstr(e));
    }
    kv("paths", r.paths.to_string());
    kv("paths_assume_ended", r.paths_assume_ended.to_string());
    kv("paths_panic_ok", r.paths_panic_ok.to_string());
    kv("instructions", r.steps.to_string());
    kv("forks", r.forks.to_string());
    kv("merges", r.merges.to_string());
    kv("merge_fails", r.merge_fails.to_string());
    kv("truth_tables", poly::with(|c| c.n_tt).to_string());
    kv("asserts", r.asserts.to_string());
    kv("asserts_closed_by_normal_form", r.asserts_trivial.to_string());
    kv("asserts_solver", r.asserts_solver.to_string());
    kv("assumes", r.assumes.to_string());
    kv("symbolic_bytes", r.sym_bytes.to_string());
    kv("uf_calls", r.uf_calls.to_string());
    kv("table_loads", r.table_loads.to_string());
    kv(
        "covers",
        format!("{{{}}}", r.covers.iter().map(|(k, v)| format!("\"{k}\": {v}")).collect::<Vec<_>>().join(", ")),
    );
    kv("z3_queries", s.z3_queries.to_string());
    kv("z3_unsat", s.z3_unsat.to_string());
    kv("z3_sat", s.z3_sat.to_string());
    kv("sat_queries", s.sat_queries.to_string());
    kv("sat_unsat", s.sat_unsat.to_string());
    kv("sat_sat", s.sat_sat.to_string());
    kv("solver_time_s", format!("{:.3}", s.solver_time));
    kv("max_query_s", format!("{:.3}", s.max_query));
    kv("anf_and_ops", nands.to_string());
    kv("cut_vars", ncuts.to_string());
    kv("max_terms", maxt.to_string());
    kv("vars", nvars.to_string());
    kv("wall_s", format!("{:.3}", t0.elapsed().as_secs_f64()));
    kv("functions", format!("[{}]", fns.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(", ")));
    kv("observed", format!("[{}]", r.observed.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(", ")));
    j.push('}');
    match out {
        Some(p) => std::fs::write(p, j).unwrap(),
        None => println!("{j}"),
    }
    std::process::exit(match status {
        "ok" => 0,
        "violation" => 1,
        "vacuous" => 3,
        _ => 2,
    });
}

fn main() {
    std::thread::Builder::new().stack_size(4 << 30).spawn(real_main).unwrap().join().unwrap_or_else(|_| std::process::exit(2));
}
