mod exec;
mod expr;
mod ir;
mod z3;

use exec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<T, F: Fn(&T) -> String>(v: &[T], f: F) -> String { format!("[{}]", v.iter().map(f).collect::<Vec<_>>().join(",")) }

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut pos = vec![];
    let mut kv: BTreeMap<String, String> = BTreeMap::new();
    let mut i = 1;
    while i < args.len() {
        if let Some(k) = args[i].strip_prefix("--") { kv.insert(k.to_string(), args.get(i + 1).cloned().unwrap_or_default()); i += 2; } else { pos.push(args[i].clone()); i += 1; }
    }
    let num = |k: &str, d: u64| -> u64 { kv.get(k).map(|s| s.parse().unwrap_or_else(|_| panic!("bad --{k}"))).unwrap_or(d) };
    let t0 = Instant::now();
    let src = std::fs::read_to_string(&pos[0]).expect("module");
    let mut m = match ir::load(&src) { Ok(m) => m, Err(e) => { eprintln!("symex: cannot load module: {e}"); std::process::exit(2) } };
    drop(src);
    for f in m.funcs.iter_mut() {
        let b = builtin_id(&f.name);
        if b != 0 && (!f.defined || b >= 100) { f.builtin = b; }
    }
    let m: &'static ir::Module = Box::leak(Box::new(m));
    if kv.contains_key("list") {
        for f in &m.funcs { if f.defined && f.name.starts_with(kv["list"].as_str()) { println!("{}", f.name); } }
        return;
    }
    let mut bbase = vec![];
    let mut n = 0u32;
    for f in &m.funcs { bbase.push(n); n += f.blocks.len() as u32; }
    let threads = num("threads", 8) as usize;
    let mut entries = vec![];
    for e in kv.get("entries").expect("--entries").split(',') {
        match m.fidx.get(e) { Some(f) if m.funcs[*f as usize].defined => entries.push((e.to_string(), *f)), _ => { eprintln!("symex: no entry {e}"); std::process::exit(2) } }
    }
    let load_s = t0.elapsed().as_secs_f64();
    let opt = Options {
        threads,
        max_steps: num("steps", 40_000_000),
        max_samples: num("samples", 200) as usize,
        tier: num("tier", 0),
        seed: num("seed", 1),
        stop_on_violation: num("stop", 0) == 1,
        solver_ms: num("solver-ms", 60_000) as u32,
        deadline: Instant::now() + Duration::from_secs(num("time", 600)),
        dump: kv.get("dump").map(|d| { let _ = std::fs::create_dir_all(d); (d.into(), num("dump-n", 200) as u32) }),
        table_min: num("table-min", 200) as usize,
        verbose: num("verbose", 0) == 1,
    };
    let res = Results { entries: vec![EntryStat::default(); entries.len()], cov: vec![false; n as usize], ..Default::default() };
    let jobs: Vec<Job> = (0..entries.len()).rev().map(|i| Job { entry: i as u32, dec: vec![], model: vec![] }).collect();
    let sh = Arc::new(Shared {
        m, entries, queue: Mutex::new((jobs, 0)), cv: Condvar::new(), hungry: AtomicUsize::new(0), stop: AtomicBool::new(false), timed_out: AtomicBool::new(false),
        cache: Default::default(), res: Mutex::new(res), path_no: AtomicU64::new(0), opt, bbase, nblocks: n as usize,
    });
    let t1 = Instant::now();
    let mut hs = vec![];
    for t in 0..threads {
        let sh = sh.clone();
        hs.push(std::thread::Builder::new().stack_size(1 << 29).spawn(move || { let mut w = Worker::new(sh, t as u64); w.work(); }).unwrap());
    }
    let mut crashed = false;
    // A worker may be in the middle of something long when the search is stopped: leave it behind.
    let mut abandoned = false;
    let mut since: Option<Instant> = None;
    while hs.iter().any(|h| !h.is_finished()) {
        std::thread::sleep(Duration::from_millis(5));
        if sh.stop.load(Ordering::Relaxed) && since.get_or_insert_with(Instant::now).elapsed() > Duration::from_secs(20) { abandoned = true; break; }
    }
    for h in hs { if h.is_finished() && h.join().is_err() { crashed = true; } }
    let wall = t1.elapsed().as_secs_f64();
    let mut r = sh.res.lock().unwrap();
    r.violations.sort_by(|a, b| (a.entry, &a.kind, &a.detail).cmp(&(b.entry, &b.kind, &b.detail)));

    // coverage of source lines
    let want = kv.get("src").cloned().unwrap_or("/repo/src/".into());
    let mut lines: BTreeMap<String, BTreeSet<u32>> = BTreeMap::new();
    let mut funcs: BTreeSet<String> = BTreeSet::new();
    let mut alllines: BTreeMap<String, BTreeSet<u32>> = BTreeMap::new();
    let mut blocks_run = 0u64;
    for (fi, f) in m.funcs.iter().enumerate() {
        for (bi, b) in f.blocks.iter().enumerate() {
            let run = r.cov[(sh.bbase[fi] + bi as u32) as usize];
            if run { blocks_run += 1; }
            let mut last = 0;
            for ins in &b.insts {
                if ins.dbg == 0 || ins.dbg == last { continue; }
                last = ins.dbg;
                for (file, line, name) in m.dbg.chain(ins.dbg) {
                    if !file.contains(&want) || line == 0 { continue; }
                    let short = file[file.find(&want).unwrap() + want.len()..].to_string();
                    if run { funcs.insert(format!("{short}:{name}")); lines.entry(short.clone()).or_default().insert(line); }
                    alllines.entry(short).or_default().insert(line);
                }
            }
        }
    }
    let mut o = String::from("{\n");
    let complete = !abandoned && !sh.timed_out.load(Ordering::Relaxed) && r.errors.is_empty() && !crashed && !(sh.stop.load(Ordering::Relaxed));
    o += &format!("\"complete\": {complete}, \"timed_out\": {}, \"crashed\": {crashed},\n", sh.timed_out.load(Ordering::Relaxed));
    o += &format!("\"load_seconds\": {load_s:.2}, \"explore_seconds\": {wall:.2}, \"instructions\": {}, \"forks\": {},\n", r.instrs, r.forks);
    o += &format!("\"queries\": {}, \"cache_hits\": {}, \"sat\": {}, \"unsat\": {}, \"z3_calls\": {}, \"tables\": {}, \"tables_confirmed\": {}, \"solver_seconds\": {:.2},\n", r.stats.queries, r.stats.cache_hits, r.stats.sat, r.stats.unsat, r.stats.z3_calls, r.stats.tables, r.stats.tables_confirmed, r.stats.solver_ns as f64 / 1e9);
    o += &format!("\"blocks_run\": {blocks_run},\n");
    o += &format!("\"errors\": [{}],\n", r.errors.iter().map(|(k, v)| format!("{{\"text\": {}, \"count\": {v}}}", js(k))).collect::<Vec<_>>().join(","));
    o += "\"entries\": {";
    o += &sh.entries.iter().zip(&r.entries).map(|((n, _), e)| format!("\n  {}: {{\"paths\": {}, \"pruned\": {}, \"checks\": {}, \"symbolic_checks\": {}, \"max_steps\": {}, \"max_symbolic_inputs\": {}, \"covers\": {{{}}}}}", js(n), e.paths, e.killed, e.checks, e.sym_checks, e.max_steps, e.max_vars, e.covers.iter().map(|(k, v)| format!("\"{k}\": {v}")).collect::<Vec<_>>().join(", "))).collect::<Vec<_>>().join(",");
    o += "},\n\"violations\": [";
    o += &r.violations.iter().map(|v| format!("\n  {{\"entry\": {}, \"kind\": {}, \"detail\": {}, \"inputs\": {}, \"stack\": {}}}", js(&sh.entries[v.entry as usize].0), js(&v.kind), js(&v.detail), arr(&v.inputs, |x| x.to_string()), arr(&v.stack, |x| js(x)))).collect::<Vec<_>>().join(",");
    o += "],\n\"samples\": [";
    o += &r.samples.iter().map(|s| format!("\n  {{\"entry\": {}, \"inputs\": {}, \"trace\": {}}}", js(&sh.entries[s.entry as usize].0), arr(&s.inputs, |x| x.to_string()), js(&s.trace.iter().map(|b| format!("{b:02x}")).collect::<String>()))).collect::<Vec<_>>().join(",");
    o += "],\n\"functions\": [";
    o += &funcs.iter().map(|f| js(f)).collect::<Vec<_>>().join(", ");
    o += "],\n\"lines\": {";
    o += &lines.iter().map(|(f, l)| format!("{}: {{\"run\": {}, \"of\": {}, \"list\": {}}}", js(f), l.len(), alllines[f].len(), arr(&l.iter().collect::<Vec<_>>(), |x| x.to_string()))).collect::<Vec<_>>().join(", ");
    o += "}\n}\n";
    match kv.get("out") { Some(p) => std::fs::write(p, &o).unwrap(), None => print!("{o}") }
    if crashed { std::process::exit(2); }
    // memory is returned by the process exit
    std::process::exit(0);
}
