//! irsym: bounded symbolic execution of LLVM IR with Z3.
mod exec;
mod expr;
mod ir;
mod mem;
mod z3;

use exec::*;
use expr::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

struct Item {
    job: u32,
    trace: Vec<u16>,
}

#[derive(Clone)]
struct Witness {
    job: u32,
    msg: String,
    input: Vec<u8>,
    outs: Vec<(u32, Vec<u8>)>,
}

struct Shared {
    q: Mutex<(Vec<Item>, usize)>, // items, idle workers
    cv: Condvar,
    idle: AtomicUsize,
    nviol: AtomicUsize,
    stop: AtomicBool,
    timeout: AtomicBool,
    viol: Mutex<Vec<Witness>>,
    errs: Mutex<Vec<String>>,
    samples: Mutex<Vec<Witness>>,
}

struct Opts {
    file: String,
    entry: String,
    jobs: Vec<u32>,
    param: u32,
    threads: usize,
    limit: u64,
    deadline: f64,
    slice: f64,
    out: String,
    samples: usize,
    seed: u64,
    maxviol: usize,
    z3_ms: u32,
    verbose: bool,
}

fn parse_jobs(s: &str) -> Vec<u32> {
    let mut v = vec![];
    for p in s.split(',') {
        if let Some((a, b)) = p.split_once("..") {
            v.extend(a.parse::<u32>().unwrap()..b.parse::<u32>().unwrap());
        } else {
            v.push(p.parse().unwrap());
        }
    }
    v
}

fn rng(s: &mut u64) -> u64 {
    *s ^= *s << 13;
    *s ^= *s >> 7;
    *s ^= *s << 17;
    *s
}

fn eval_outs(ar: &Arena, st: &State, input: &[u8]) -> Vec<(u32, Vec<u8>)> {
    let mp: HashMap<usize, u8> = st.vars.iter().copied().zip(input.iter().copied()).collect();
    st.outs
        .iter()
        .map(|o| {
            let mut d = o.data.clone();
            if let Some(s) = &o.sym {
                for i in 0..d.len() {
                    if s[i] != 0 {
                        d[i] = ar.eval(s[i], &|v| *mp.get(&v).unwrap_or(&0)) as u8;
                    }
                }
            }
            (o.tag, d)
        })
        .collect()
}

fn worker(wid: usize, m: Arc<ir::Module>, hooks: Arc<Vec<Option<Hook>>>, entry: usize, o: &Opts, sh: &Shared, t0: Instant) -> (PathStats, z3::Stats) {
    let nf = m.funcs.len();
    let mut x = X {
        m: m.clone(),
        hooks,
        ar: Arena::new(),
        z: z3::Z3::new(o.z3_ms),
        truth: HashMap::default(),
        confirmed: HashMap::default(),
        verdicts: HashMap::default(),
        job: u32::MAX,
        param: o.param,
        st: PathStats::default(),
        funcs_seen: vec![false; nf],
    };
    let mut zst = z3::Stats::default();
    let mut seed = 0x9e3779b97f4a7c15u64.wrapping_mul(wid as u64 + 1 + 64 * o.seed) | 1;
    let mut kept: Vec<Witness> = vec![];
    let mut npaths = 0u64;
    'outer: loop {
        // take an item
        let item = {
            let mut g = sh.q.lock().unwrap();
            loop {
                if sh.stop.load(Ordering::Relaxed) {
                    break 'outer;
                }
                if let Some(it) = g.0.pop() {
                    break it;
                }
                g.1 += 1;
                sh.idle.store(g.1, Ordering::Relaxed);
                if g.1 == o.threads {
                    sh.stop.store(true, Ordering::Relaxed);
                    sh.cv.notify_all();
                    break 'outer;
                }
                g = sh.cv.wait(g).unwrap();
                g.1 -= 1;
                sh.idle.store(g.1, Ordering::Relaxed);
            }
        };
        x.job = item.job;
        if x.ar.nodes.len() > 500_000 || x.ar.vars.len() > expr::MAXVARS / 2 {
            acc(&mut zst, &x.z.st);
            x.reset(z3::Z3::new(o.z3_ms));
        }
        let mut stack: Vec<State> = vec![];
        let begun = std::time::Instant::now();
        let mut replay = item.trace;
        let mut rpos = 0;
        let first = match x.initial(entry) {
            Ok(s) => s,
            Err(e) => {
                sh.errs.lock().unwrap().push(format!("{e:?}"));
                sh.stop.store(true, Ordering::Relaxed);
                sh.cv.notify_all();
                break 'outer;
            }
        };
        stack.push(first);
        while let Some(mut st) = stack.pop() {
            if sh.stop.load(Ordering::Relaxed) {
                break 'outer;
            }
            // a job that takes long waits until every other one has been begun
            if begun.elapsed().as_secs_f64() > o.slice && rpos == 0 && replay.is_empty() {
                let mut g = sh.q.lock().unwrap();
                if g.0.last().is_some_and(|i| i.trace.is_empty()) {
                    stack.push(st);
                    let parked: Vec<Item> = stack.drain(..).map(|d| Item { job: item.job, trace: d.trace }).collect();
                    g.0.splice(0..0, parked);
                    break;
                }
            }
            // one counterexample per job is enough
            if sh.nviol.load(Ordering::Relaxed) > 0 && sh.viol.lock().unwrap().iter().any(|w| w.job == item.job) {
                break;
            }
            if t0.elapsed().as_secs_f64() > o.deadline {
                sh.timeout.store(true, Ordering::Relaxed);
                sh.stop.store(true, Ordering::Relaxed);
                sh.cv.notify_all();
                break 'outer;
            }
            loop {
                let s0 = st.steps;
                let stop = x.run(&mut st, o.limit);
                x.st.steps += st.steps - s0;
                match stop {
                    Stop::Split(alts) => {
                        let n = alts.len();
                        if rpos < replay.len() {
                            let k = replay[rpos] as usize;
                            rpos += 1;
                            if k >= n {
                                fatal(sh, format!("replay diverged: alternative {k} of {n}"));
                                break 'outer;
                            }
                            apply(&mut st, &alts[k]);
                            st.trace.push(k as u16);
                            if !feasible(&mut x, &st, &alts[k], sh) {
                                break;
                            }
                            if rpos == replay.len() {
                                replay.clear();
                                rpos = 0;
                            }
                            continue;
                        }
                        if n > 1 {
                            x.st.forks += 1;
                        }
                        for k in (1..n).rev() {
                            let mut s2 = st.clone();
                            apply(&mut s2, &alts[k]);
                            if s2.cons.is_empty() || feasible(&mut x, &s2, &alts[k], sh) {
                                s2.trace.push(k as u16);
                                stack.push(s2);
                            }
                        }
                        apply(&mut st, &alts[0]);
                        st.trace.push(0);
                        if !st.cons.is_empty() && !feasible(&mut x, &st, &alts[0], sh) {
                            break;
                        }
                        // donate the oldest pending state
                        if stack.len() > 1 && sh.idle.load(Ordering::Relaxed) > 0 {
                            let mut g = sh.q.lock().unwrap();
                            if g.0.len() < 2 {
                                let d = stack.remove(0);
                                g.0.push(Item { job: item.job, trace: d.trace });
                                sh.cv.notify_one();
                            }
                        }
                    }
                    Stop::Done => {
                        let ps = &mut x.st;
                        ps.paths += 1;
                        ps.max_path_steps = ps.max_path_steps.max(st.steps);
                        *ps.job_paths.entry(item.job).or_insert(0) += 1;
                        *ps.job_asserts.entry(item.job).or_insert(0) += st.asserts as u64;
                        if st.cons.is_empty() {
                            let mut p = 1.0f64;
                            let mut tot = 1.0f64;
                            for &v in &st.vars {
                                p *= dom_count(&st.doms[v]) as f64;
                                tot *= dom_count(&x.ar.vardom[v]) as f64;
                            }
                            ps.space += p;
                            *ps.job_space.entry(item.job).or_insert(0.0) += p;
                            ps.job_total.insert(item.job, tot);
                        } else {
                            ps.multi_paths += 1;
                        }
                        // sampled witness for replay against the native build
                        // (uniform over the paths: reservoir sampling)
                        npaths += 1;
                        let keep = o.samples.div_ceil(o.threads);
                        let slot = if kept.len() < keep { kept.len() } else { (rng(&mut seed) % npaths) as usize };
                        if slot < keep {
                            match x.model(&st, &[]) {
                                Ok(Some(inp)) => {
                                    let outs = eval_outs(&x.ar, &st, &inp);
                                    let w = Witness { job: item.job, msg: String::new(), input: inp, outs };
                                    if slot == kept.len() {
                                        kept.push(w)
                                    } else {
                                        kept[slot] = w
                                    }
                                }
                                Ok(None) => {
                                    fatal(sh, "completed path is infeasible".into());
                                    break 'outer;
                                }
                                Err(e) => {
                                    fatal(sh, format!("{e:?}"));
                                    break 'outer;
                                }
                            }
                        }
                        break;
                    }
                    Stop::Prune => {
                        x.st.pruned += 1;
                        if st.cons.is_empty() {
                            let mut p = 1.0f64;
                            for &v in &st.vars {
                                p *= dom_count(&st.doms[v]) as f64;
                            }
                            // pruned by a harness assumption: excluded from the input space
                            let _ = p;
                        }
                        break;
                    }
                    Stop::Fail(msg, extra) => {
                        match x.model(&st, &extra) {
                            Ok(Some(inp)) => {
                                let outs = eval_outs(&x.ar, &st, &inp);
                                let mut g = sh.viol.lock().unwrap();
                                if !g.iter().any(|w| w.job == item.job) {
                                    g.push(Witness { job: item.job, msg, input: inp, outs });
                                }
                                sh.nviol.store(g.len(), Ordering::Relaxed);
                                if g.len() >= o.maxviol {
                                    sh.stop.store(true, Ordering::Relaxed);
                                    sh.cv.notify_all();
                                }
                            }
                            Ok(None) => {
                                fatal(sh, format!("failing path is infeasible: {msg}"));
                                break 'outer;
                            }
                            Err(e) => {
                                fatal(sh, format!("{e:?}"));
                                break 'outer;
                            }
                        }
                        break;
                    }
                    Stop::Bad(msg) => {
                        let inp = x.model(&st, &[]).ok().flatten().unwrap_or_default();
                        let outs = eval_outs(&x.ar, &st, &inp);
                        let mut s = format!("job {}: {msg}; input {}", item.job, hex(&inp));
                        for (t, b) in outs {
                            let _ = write!(s, " out{t}={:?}", String::from_utf8_lossy(&b));
                        }
                        let mut g = sh.errs.lock().unwrap();
                        g.push(s);
                        if g.len() >= 1000 {
                            sh.stop.store(true, Ordering::Relaxed);
                            sh.cv.notify_all();
                        }
                        break;
                    }
                }
            }
        }
    }
    acc(&mut zst, &x.z.st);
    sh.samples.lock().unwrap().append(&mut kept);
    for (i, s) in x.funcs_seen.iter().enumerate() {
        if *s {
            x.st.funcs.insert(i);
        }
    }
    (x.st, zst)
}

fn fatal(sh: &Shared, s: String) {
    sh.errs.lock().unwrap().push(s);
    sh.stop.store(true, Ordering::Relaxed);
    sh.cv.notify_all();
}

fn acc(a: &mut z3::Stats, b: &z3::Stats) {
    a.queries += b.queries;
    a.sat += b.sat;
    a.unsat += b.unsat;
    a.cached += b.cached;
    a.crosschecked += b.crosschecked;
    a.time_s += b.time_s;
}

fn apply(st: &mut State, a: &Alt) {
    match a {
        Alt::Dom(v, d) => st.doms[*v] = *d,
        Alt::Con(e, b) => st.cons.push((*e, *b)),
    }
}

/// with multi-variable constraints on the path, a narrowed domain has to be re-checked
fn feasible(x: &mut X, st: &State, a: &Alt, sh: &Shared) -> bool {
    if st.cons.is_empty() {
        return true;
    }
    match a {
        Alt::Con(..) => true, // checked when the split was made
        Alt::Dom(v, _) => {
            if !st.cons.iter().any(|(e, _)| x.ar.sup[*e as usize] >> *v & 1 == 1) {
                return true;
            }
            match x.model(st, &[]) {
                Ok(m) => m.is_some(),
                Err(e) => {
                    fatal(sh, format!("{e:?}"));
                    false
                }
            }
        }
    }
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn wit(w: &Witness) -> String {
    let outs: Vec<String> = w.outs.iter().map(|(t, b)| format!("[{},\"{}\"]", t, hex(b))).collect();
    format!(
        "{{\"job\":{},\"msg\":{},\"input\":\"{}\",\"outs\":[{}]}}",
        w.job,
        js(&w.msg),
        hex(&w.input),
        outs.join(",")
    )
}

fn main() {
    let mut o = Opts {
        file: String::new(),
        entry: "harness".into(),
        jobs: vec![0],
        param: 0,
        threads: std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4),
        limit: 20_000_000,
        deadline: 1e9,
        slice: 4.0,
        out: String::new(),
        samples: 0,
        seed: 1,
        maxviol: 1,
        z3_ms: 60000,
        verbose: false,
    };
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        let mut nx = || it.next().expect("argument");
        match a.as_str() {
            "--entry" => o.entry = nx(),
            "--jobs" => o.jobs = parse_jobs(&nx()),
            "--param" => o.param = nx().parse().unwrap(),
            "--threads" => o.threads = nx().parse().unwrap(),
            "--limit" => o.limit = nx().parse().unwrap(),
            "--slice" => o.slice = nx().parse().unwrap(),
            "--deadline" => o.deadline = nx().parse().unwrap(),
            "--out" => o.out = nx(),
            "--samples" => o.samples = nx().parse().unwrap(),
            "--seed" => o.seed = nx().parse().unwrap(),
            "--maxviol" => o.maxviol = nx().parse().unwrap(),
            "--z3-ms" => o.z3_ms = nx().parse().unwrap(),
            "-v" => o.verbose = true,
            f => o.file = f.to_string(),
        }
    }
    let t0 = Instant::now();
    let m = match ir::Module::load(&o.file) {
        Ok(m) => Arc::new(m),
        Err(e) => {
            eprintln!("irsym: {e}");
            std::process::exit(3);
        }
    };
    let entry = match m.fmap.get(&o.entry) {
        Some(&e) => e,
        None => {
            eprintln!("irsym: no function {}", o.entry);
            std::process::exit(3);
        }
    };
    if o.verbose {
        eprintln!("loaded {} functions, {} globals in {:?}", m.funcs.len(), m.globals.len(), t0.elapsed());
    }
    let hooks = Arc::new(hooks(&m));
    let items: Vec<Item> = o.jobs.iter().rev().map(|&j| Item { job: j, trace: vec![] }).collect();
    let sh = Arc::new(Shared {
        q: Mutex::new((items, 0)),
        cv: Condvar::new(),
        idle: AtomicUsize::new(0),
        nviol: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        timeout: AtomicBool::new(false),
        viol: Mutex::new(vec![]),
        errs: Mutex::new(vec![]),
        samples: Mutex::new(vec![]),
    });
    let o = Arc::new(o);
    let t1 = Instant::now();
    let mut hs = vec![];
    for wid in 0..o.threads {
        let (m, hooks, o, sh) = (m.clone(), hooks.clone(), o.clone(), sh.clone());
        hs.push(
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || {
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        worker(wid, m, hooks, entry, &o, &sh, t1)
                    }));
                    match r {
                        Ok(r) => r,
                        Err(_) => {
                            fatal(&sh, "engine panic".into());
                            Default::default()
                        }
                    }
                })
                .unwrap(),
        );
    }
    if o.verbose {
        let sh = sh.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_secs(10));
            eprintln!(
                "  {:?}: queue {} idle {}",
                t1.elapsed(),
                sh.q.lock().unwrap().0.len(),
                sh.idle.load(Ordering::Relaxed)
            );
        });
    }
    let mut ps = PathStats::default();
    let mut zs = z3::Stats::default();
    let mut funcs: BTreeSet<usize> = BTreeSet::new();
    for h in hs {
        let (p, z) = h.join().unwrap();
        ps.paths += p.paths;
        ps.pruned += p.pruned;
        ps.forks += p.forks;
        ps.steps += p.steps;
        ps.asserts += p.asserts;
        ps.assert_queries += p.assert_queries;
        ps.multi_paths += p.multi_paths;
        ps.space += p.space;
        ps.max_path_steps = ps.max_path_steps.max(p.max_path_steps);
        for (k, v) in p.reach {
            *ps.reach.entry(k).or_insert(0) += v;
        }
        for (k, v) in p.job_asserts {
            *ps.job_asserts.entry(k).or_insert(0) += v;
        }
        for (k, v) in p.job_paths {
            *ps.job_paths.entry(k).or_insert(0) += v;
        }
        for (k, v) in p.job_space {
            *ps.job_space.entry(k).or_insert(0.0) += v;
        }
        for (k, v) in p.job_total {
            ps.job_total.insert(k, v);
        }
        funcs.extend(p.funcs);
        acc(&mut zs, &z);
    }
    let viol = sh.viol.lock().unwrap().clone();
    let errs = sh.errs.lock().unwrap().clone();
    let samples = sh.samples.lock().unwrap().clone();
    let timeout = sh.timeout.load(Ordering::Relaxed);
    let names: Vec<String> = funcs.iter().map(|i| js(&m.funcs[*i].name)).collect();
    let mut s = String::new();
    let _ = write!(
        s,
        "{{\"wall_s\":{:.3},\"load_s\":{:.3},\"timeout\":{},\"errors\":[{}],\"violations\":[{}],\"samples\":[{}],\
         \"paths\":{},\"pruned\":{},\"forks\":{},\"instructions\":{},\"asserts\":{},\"assert_queries\":{},\"multi_var_paths\":{},\
         \"max_path_instructions\":{},\"queries\":{},\"queries_sat\":{},\"queries_unsat\":{},\"queries_cached\":{},\"solver_s\":{:.3},\
         \"solver\":{},\"threads\":{},\"reach\":{{{}}},\"jobs\":[{}],\"functions\":[{}]}}",
        t1.elapsed().as_secs_f64(),
        (t1 - t0).as_secs_f64(),
        timeout,
        errs.iter().map(|e| js(e)).collect::<Vec<_>>().join(","),
        viol.iter().map(wit).collect::<Vec<_>>().join(","),
        samples.iter().map(wit).collect::<Vec<_>>().join(","),
        ps.paths,
        ps.pruned,
        ps.forks,
        ps.steps,
        ps.asserts,
        ps.assert_queries,
        ps.multi_paths,
        ps.max_path_steps,
        zs.queries,
        zs.sat,
        zs.unsat,
        zs.cached,
        zs.time_s,
        js(&z3::version()),
        o.threads,
        ps.reach.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect::<Vec<_>>().join(","),
        o.jobs
            .iter()
            .map(|j| format!(
                "{{\"job\":{},\"paths\":{},\"asserts\":{},\"covered\":{:e},\"space\":{:e}}}",
                j,
                ps.job_paths.get(j).unwrap_or(&0),
                ps.job_asserts.get(j).unwrap_or(&0),
                ps.job_space.get(j).unwrap_or(&0.0),
                ps.job_total.get(j).unwrap_or(&0.0)
            ))
            .collect::<Vec<_>>()
            .join(","),
        names.join(",")
    );
    if o.out.is_empty() {
        println!("{s}");
    } else {
        std::fs::write(&o.out, s).unwrap();
    }
    if o.verbose || o.out.is_empty() {
        eprintln!(
            "paths {} forks {} instr {} queries {} (cached {}) solver {:.2}s wall {:.2}s asserts {} ({} by query) viol {} err {} timeout {}",
            ps.paths, ps.forks, ps.steps, zs.queries, zs.cached, zs.time_s, t1.elapsed().as_secs_f64(), ps.asserts, ps.assert_queries, viol.len(), errs.len(), timeout
        );
        for e in &errs {
            eprintln!("error: {e}");
        }
        for v in &viol {
            eprintln!("violation: job {} {} input {}", v.job, v.msg, hex(&v.input));
            for (t, b) in &v.outs {
                eprintln!("   out{t}: {:?}", String::from_utf8_lossy(b));
            }
        }
    }
    std::process::exit(if !errs.is_empty() {
        3
    } else if !viol.is_empty() {
        1
    } else {
        0
    });
}
