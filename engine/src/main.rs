//! svx: symbolic execution of LLVM IR with an SMT solver deciding every branch, assertion and memory check.
mod exec; mod expr; mod ir; mod prog; mod solver;
use std::collections::VecDeque;
use std::sync::{atomic::{AtomicBool, AtomicUsize, Ordering}, Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"'); o
}
fn jl<T>(v: impl IntoIterator<Item = T>, f: impl Fn(T) -> String) -> String { format!("[{}]", v.into_iter().map(f).collect::<Vec<_>>().join(",")) }

fn main() {
    let mut files = vec![]; let mut entries: Vec<String> = vec![]; let mut out = None;
    let mut threads = 8usize; let mut deadline = 600u64; let mut o = exec::Opts { max_steps: 3_000_000, max_bugs: 1, samples: 0, seed: 1, max_preempt: 2, dump: false, simp: true, selfcheck: false, confirm: 32 };
    let mut list = false;
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        let mut nx = || it.next().expect("missing argument value");
        match a.as_str() {
            "--out" => out = Some(nx()), "--entry" => entries.push(nx()), "--threads" => threads = nx().parse().unwrap(), "--deadline" => deadline = nx().parse().unwrap(),
            "--max-steps" => o.max_steps = nx().parse().unwrap(), "--max-bugs" => o.max_bugs = nx().parse().unwrap(), "--samples" => o.samples = nx().parse().unwrap(),
            "--seed" => o.seed = nx().parse().unwrap(), "--preempt" => o.max_preempt = nx().parse().unwrap(), "--dump" => o.dump = true, "--confirm" => o.confirm = nx().parse().unwrap(), "--selfcheck" => o.selfcheck = true, "--no-simp" => o.simp = false, "--list" => list = true,
            f => files.push(f.to_string()),
        }
    }
    let t0 = Instant::now();
    let mut mods = vec![];
    for f in &files {
        let s = std::fs::read_to_string(f).unwrap_or_else(|e| { eprintln!("{f}: {e}"); std::process::exit(3) });
        match ir::parse_module(&s) { Ok(m) => mods.push(m), Err(e) => { eprintln!("{f}: {e}"); std::process::exit(3) } }
    }
    let p = match prog::link(mods) { Ok(p) => Arc::new(p), Err(e) => { eprintln!("link: {e}"); std::process::exit(3) } };
    for w in &p.warnings { eprintln!("warning: {w}"); }
    let parse = t0.elapsed().as_secs_f64();
    if list { for f in &p.funcs { println!("{}", f.name); } return; }
    let o = Arc::new(o);
    let mut js_entries = vec![];
    let mut worst = 0;
    for name in &entries {
        let e = match p.by_name.get(name) { Some(e) => *e, None => { eprintln!("no function {name}"); std::process::exit(3) } };
        let t1 = Instant::now();
        let sh = Arc::new(exec::Shared { queue: Mutex::new(VecDeque::from([Arc::new(vec![])])), idle: Mutex::new(0), cv: Condvar::new(), stop: AtomicBool::new(false), want: AtomicUsize::new(0), nthreads: threads, deadline: Some(t1 + Duration::from_secs(deadline)), result: Mutex::new(exec::Collected::default()) });
        let mut hs = vec![];
        for i in 0..threads {
            let (p, sh, o) = (p.clone(), sh.clone(), o.clone());
            hs.push(std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
                if i > 0 { std::thread::sleep(Duration::from_millis(3)); }
                exec::Eng::new(p, sh, o).worker(e)
            }).unwrap());
        }
        for h in hs { if h.join().is_err() { sh.stop.store(true, Ordering::Relaxed); sh.result.lock().unwrap().errs.push("engine thread panicked".into()); } }
        let r = sh.result.lock().unwrap();
        let t = &r.totals; let q = &t.solver;
        let secs = t1.elapsed().as_secs_f64();
        eprintln!("{name}: {:.1}s paths={} killed={} steps={} branches={} asserts={}/{} entailed={} queries={} (sat {} unsat {} unk {}) solver={:.1}s incomplete={}{} bugs={} errs={}", secs, t.paths, t.killed, t.steps, t.sym_branches, t.sym_asserts, t.asserts, q.entailed, q.queries, q.sat, q.unsat, q.unknown, q.solver_us as f64 / 1e6, t.incomplete, if r.timed_out { " TIMEOUT" } else { "" }, r.bugs.len(), r.errs.len());
        for b in &r.bugs { eprintln!("  BUG {}: {}\n    inputs {:?}\n    notes {:?}\n    in {}", b.kind, b.msg, b.inputs, b.notes, b.stack.join("\n       ")); }
        for e in &r.errs { eprintln!("  ERR {e}"); worst = 3; }
        for m in &r.incomplete_msgs { eprintln!("  INCOMPLETE {m}"); }
        let fns: Vec<String> = r.funcs.iter().map(|i| { let f = &p.funcs[*i as usize]; if f.pretty.is_empty() { f.name.clone() } else { f.pretty.clone() } }).collect();
        js_entries.push(format!("{{\"entry\":{},\"secs\":{:.3},\"paths\":{},\"killed\":{},\"forks\":{},\"steps\":{},\"max_path_steps\":{},\"max_path_conditions\":{},\"sym_branches\":{},\"asserts\":{},\"sym_asserts\":{},\"schedule_points\":{},\"exprs\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_secs\":{:.3},\"syntactic_hits\":{},\"entailed\":{},\"confirmed\":{},\"incomplete\":{},\"timed_out\":{},\"bugs\":{},\"errs\":{},\"incomplete_msgs\":{},\"covers\":{},\"functions\":{},\"asserts_by_msg\":{},\"samples\":{},\"dumps\":{}}}",
            js(name), secs, t.paths, t.killed, t.forks, t.steps, t.max_steps, t.max_path, t.sym_branches, t.asserts, t.sym_asserts, t.schedules, t.exprs, q.queries, q.sat, q.unsat, q.unknown, q.solver_us as f64 / 1e6, q.known_hits, q.entailed, t.confirmed, t.incomplete, r.timed_out,
            jl(&r.bugs, |b| format!("{{\"kind\":{},\"msg\":{},\"inputs\":{},\"stack\":{},\"notes\":{},\"order\":{}}}", js(&b.kind), js(&b.msg), jl(&b.inputs, |x| x.to_string()), jl(&b.stack, |x| js(x)), jl(&b.notes, |x| js(x)), jl(&b.order, |x| x.to_string()))),
            jl(&r.errs, |x| js(x)), jl(&r.incomplete_msgs, |x| js(x)),
            format!("{{{}}}", r.covers.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect::<Vec<_>>().join(",")),
            jl(&fns, |x| js(x)),
            format!("{{{}}}", r.asserts_by_msg.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(",")),
            jl(&r.samples, |s| format!("{{\"inputs\":{},\"logs\":{}}}", jl(&s.inputs, |x| x.to_string()), jl(&s.logs, |x| x.to_string()))),
            jl(&r.dumps, |d| format!("{{\"smt\":{},\"sat\":{}}}", js(&d.0), d.1))));
    }
    let doc = format!("{{\"z3\":{},\"parse_secs\":{:.3},\"entries\":[{}]}}", js(&solver::z3_version()), parse, js_entries.join(",\n"));
    match out { Some(f) => std::fs::write(f, doc).unwrap(), None => println!("{doc}") }
    std::process::exit(worst);
}
