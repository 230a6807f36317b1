//! irsym: symbolic execution of the whole-program LLVM IR of a harness crate.
//!
//! usage: irsym --ll FILE.ll --bin NATIVE --cases FILE --out OUT.json --replays DIR
//!              [--jobs N] [--deadline SECS] [--query-ms N] [--feas-ms N] [--max-paths N] [--only CASE] [--trace]
//!
//! Each line of the cases file: `<case id> <harness function> <p0,p1,...|-> [key=value ...]`
mod exec;
mod expr;
mod interval;
mod ir;
mod z3;
use exec::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::Write;
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn setrlimit(resource: i32, lim: *const u64) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
    fn _exit(code: i32) -> !;
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jl(v: impl IntoIterator<Item = String>) -> String {
    format!("[{}]", v.into_iter().collect::<Vec<_>>().join(","))
}
#[derive(Clone)]
struct Case {
    id: String,
    harness: String,
    params: Vec<u64>,
    opts: HashMap<String, String>,
}
struct CaseOut {
    id: String,
    json: String,
    dbg: BTreeSet<u32>,
    fns: BTreeSet<u32>,
    bad: bool,
}
fn build_syms(m: &ir::Module) -> ir::Syms {
    let mut s = ir::Syms { by_name: HashMap::new(), names: vec![], addr: vec![] };
    let add = |n: &str, s: &mut ir::Syms, a: Option<u64>| {
        if s.by_name.contains_key(n) { return; }
        let id = s.names.len() as u32;
        s.by_name.insert(n.to_string(), id);
        s.names.push(n.to_string());
        s.addr.push(a.unwrap_or(ir::FN_BASE + id as u64 * 16));
    };
    let mut names: Vec<&str> = m.fn_at.keys().copied().collect();
    names.sort();
    for n in names { add(n, &mut s, None); }
    let mut ds: Vec<(&str, bool)> = m.decl.iter().map(|(a, b)| (*a, *b)).collect();
    ds.sort();
    for (n, weak) in ds {
        // weak libc symbols are treated as absent except getrandom
        add(n, &mut s, if weak && n != "getrandom" { Some(0) } else { None });
    }
    let mut cur = exec::GL_BASE;
    for g in &m.globals {
        match ir::global_size(m, &s, (g.1, g.2)) {
            Ok(Some((sz, al))) => {
                cur = cur.next_multiple_of(al.max(8));
                add(g.0, &mut s, Some(cur));
                cur += sz + 16;
            }
            _ => add(g.0, &mut s, Some(0)),
        }
    }
    let al: Vec<(&str, &str)> = m.aliases.iter().map(|(a, b)| (*a, *b)).collect();
    for (a, b) in al { if let Some(i) = s.by_name.get(b).copied() { s.by_name.insert(a.to_string(), i); } }
    s
}
fn write_replay(path: &str, c: &Case, ins: &[(String, u128, u32, bool)], what: &str) {
    let mut t = String::new();
    t.push_str(&format!("# {}\nharness {}\nparams {}\n", what.replace('\n', " "), c.harness, c.params.iter().map(|p| p.to_string()).collect::<Vec<_>>().join(" ")));
    for (n, v, w, f) in ins {
        let note = if *f { format!("  # {:e}", f32::from_bits(*v as u32)) } else { String::new() };
        t.push_str(&format!("in {w} {v:x} {n}{note}\n"));
    }
    let _ = std::fs::write(path, t);
}
struct Native {
    code: Option<i32>,
    out: String,
    err: String,
}
fn run_native(bin: &str, replay: &str) -> Native {
    let o = std::process::Command::new("timeout").args(["-k", "5", "60", bin, replay]).env("RUST_BACKTRACE", "0").output();
    match o {
        Ok(o) => Native { code: o.status.code(), out: String::from_utf8_lossy(&o.stdout).into_owned(), err: String::from_utf8_lossy(&o.stderr).into_owned() },
        Err(e) => Native { code: None, out: String::new(), err: e.to_string() },
    }
}
/// crash = killed by a signal (abort after panic shows as 134 through timeout)
fn is_crash(n: &Native) -> bool {
    n.code.is_none() || n.code == Some(134) || n.code == Some(139) || n.code == Some(101) || n.code == Some(132) || n.code == Some(136)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let ll = get("--ll").expect("--ll");
    let bin = get("--bin").unwrap_or_default();
    let outp = get("--out").unwrap_or("/dev/stdout".into());
    let repd = get("--replays").unwrap_or("/tmp".into());
    let jobs: usize = get("--jobs").and_then(|x| x.parse().ok()).unwrap_or(8);
    let dl: u64 = get("--deadline").and_then(|x| x.parse().ok()).unwrap_or(600);
    let qms: u32 = get("--query-ms").and_then(|x| x.parse().ok()).unwrap_or(20000);
    let fms: u32 = get("--feas-ms").and_then(|x| x.parse().ok()).unwrap_or(2000);
    let maxp: u64 = get("--max-paths").and_then(|x| x.parse().ok()).unwrap_or(200000);
    let csecs: Option<u64> = get("--case-secs").and_then(|x| x.parse().ok());
    let only = get("--only");
    let trace = a.iter().any(|x| x == "--trace");
    let dump = get("--dump");
    let t_start = Instant::now();
    let deadline = t_start + Duration::from_secs(dl);
    let mut cases: Vec<Case> = vec![];
    for l in std::fs::read_to_string(get("--cases").expect("--cases")).unwrap().lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        if w.len() < 3 || w[0].starts_with('#') { continue; }
        if let Some(o) = &only { if w[0] != o { continue; } }
        let params = if w[2] == "-" { vec![] } else { w[2].split(',').map(|x| x.parse::<u64>().expect("param")).collect() };
        let opts = w[3..].iter().filter_map(|x| x.split_once('=').map(|(a, b)| (a.to_string(), b.to_string()))).collect();
        cases.push(Case { id: w[0].into(), harness: w[1].into(), params, opts });
    }
    let text: &'static [u8] = Box::leak(std::fs::read(&ll).expect("read ll").into_boxed_slice());
    let m: &'static ir::Module = Box::leak(Box::new(ir::index(text)));
    let syms: &'static ir::Syms = Box::leak(Box::new(build_syms(m)));
    // one child process per case (the IR is shared copy-on-write): a case that exhausts its memory limit or
    // crashes in the solver is lost alone, and is reported as not decided
    let mem: u64 = get("--case-mem-mb").and_then(|x| x.parse().ok()).unwrap_or(6000);
    // every case is first given a short share of the time; those that hit it are run again with their full limit
    let share = (dl * 2 / 5 * jobs as u64 / cases.len().max(1) as u64).clamp(10, 90);
    let run_case = |c: &Case, first: bool| -> CaseOut {
        let (bin_r, repd_r) = (&bin, &repd);
        let t0 = Instant::now();
        let o = |k: &str| c.opts.get(k).and_then(|v| v.parse::<u64>().ok());
        let cdl = o("secs").or(csecs).map(|s| (Instant::now() + Duration::from_secs(if first { s.min(share) } else { s })).min(deadline)).unwrap_or(deadline);
        let lim = Limits { deadline: cdl, max_steps: o("steps").unwrap_or(200_000_000), max_paths: o("paths").unwrap_or(maxp), conc_limit: o("conc").unwrap_or(512) as u32, query_ms: o("qms").map(|x| x as u32).unwrap_or(qms), feas_ms: o("fms").map(|x| x as u32).unwrap_or(fms), stop_on_violation: true };
        let mut e = Engine::new(m, syms, lim);
        e.params = c.params.clone();
        e.trace = trace;
        e.z3.dump = dump.clone();
        if let Some(k) = o("samples") { e.max_samples = k as usize; }
        if let Some(k) = o("split") { e.split = k != 0; }
        e.run(&c.harness);
        // ---- native validation and replay
        let mut mism: Vec<String> = vec![];
        let mut validated = 0u64;
        let mut notes: Vec<String> = vec![];
        let mut viol: Vec<String> = vec![];
        let mut unrepro: Vec<String> = vec![];
        if !bin_r.is_empty() {
            let samples = std::mem::take(&mut e.rep.samples);
            for (k, (ins, obs)) in samples.iter().enumerate() {
                let rp = format!("{repd_r}/{}.sample{k}.txt", c.id);
                let inv: Vec<(String, u128, u32, bool)> = ins.iter().map(|(n, v)| { let vi = e.cx.vars.iter().find(|x| x.0 == *n).unwrap(); (n.clone(), *v, vi.1, vi.2) }).collect();
                write_replay(&rp, c, &inv, "sample path");
                let n = run_native(bin_r, &rp);
                let _ = std::fs::remove_file(&rp);
                if n.code != Some(0) { mism.push(format!("native run of an explored path ended with {:?}: {} {} inputs {:?}", n.code, n.out.lines().last().unwrap_or(""), n.err.lines().next().unwrap_or(""), ins)); continue; }
                let got: Vec<(String, u128)> = n.out.lines().filter_map(|l| l.strip_prefix("OBS ")).filter_map(|l| l.rsplit_once(' ')).map(|(a, b)| (a.to_string(), u64::from_str_radix(b, 16).unwrap_or(0) as u128)).collect();
                let isnan = |v: u128| f32::from_bits(v as u32).is_nan() && v >> 32 == 0;
                let same = got.len() == obs.len() && got.iter().zip(obs.iter()).all(|(g, o)| g.0 == o.0 && (g.1 == o.1 || (isnan(g.1) && isnan(o.1))));
                if same { validated += 1; } else { mism.push(format!("observations differ: native {:?} engine {:?} inputs {:?}", got, obs, ins)); }
            }
        }
        for (k, v) in e.rep.violations.iter().enumerate().take(8) {
            let rp = format!("{repd_r}/{}.{k}.txt", c.id);
            let inv: Vec<(String, u128, u32, bool)> = v.inputs.iter().map(|(n, x)| { let vi = e.cx.vars.iter().find(|y| y.0 == *n).unwrap(); (n.clone(), { let mut memo = HashMap::with_hasher(expr::BuildFx); e.cx.eval(*x, &v.model, &mut memo) }, vi.1, vi.2) }).collect();
            write_replay(&rp, c, &inv, &v.kind);
            let n = run_native(bin_r, &rp);
            let asserted = n.code == Some(99);
            let repro = asserted || is_crash(&n);
            let detail = if asserted { n.out.lines().filter(|l| l.starts_with("ASSERT-FAIL")).next().unwrap_or("").to_string() } else { n.err.lines().take(3).collect::<Vec<_>>().join(" | ") };
            let rec = format!("{{\"what\":{},\"replay\":{},\"native\":{},\"detail\":{},\"inputs\":{}}}", js(&v.kind), js(&rp), js(&format!("{:?}", n.code)), js(&detail), jl(inv.iter().map(|(n, v, w, f)| js(&if *f && *w == 32 { format!("{n}={:e}", f32::from_bits(*v as u32)) } else { format!("{n}={v}") }))));
            if repro { viol.push(rec); } else { unrepro.push(rec); }
        }
        let r = &e.rep;
        let bad = !viol.is_empty() || !unrepro.is_empty() || !mism.is_empty() || !r.errors.is_empty() || !r.inconclusive.is_empty();
        let stats = jl(e.z3.stats.iter().map(|(k, v)| format!("[{},{},{:.3}]", js(k), v.0, v.1)));
        notes.sort();
        let json = format!(
            "{{\"case\":{},\"harness\":{},\"params\":{},\"paths\":{},\"completed\":{},\"assumed_away\":{},\"allowed_panics\":{},\"infeasible\":{},\"forks\":{},\"instructions\":{},\"inputs\":{},\"asserts_static\":{},\"asserts_interval\":{},\"asserts_solver\":{},\"queries\":{},\"solver_s\":{:.3},\"query_stats\":{},\"reached\":{{{}}},\"validated\":{},\"mismatch\":{},\"violations\":{},\"unreproduced\":{},\"errors\":{},\"inconclusive\":{},\"wall_s\":{:.3}}}",
            js(&c.id), js(&c.harness), jl(c.params.iter().map(|p| p.to_string())), r.paths, r.done, r.assumed_away, r.panics_allowed, r.infeasible, r.forks, r.steps, r.inputs_max, r.asserts_static, r.asserts_interval, r.asserts_solver,
            e.z3.queries, e.z3.time, stats, r.reached.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","), validated, jl(mism.iter().map(|s| js(s))), jl(viol), jl(unrepro), jl(r.errors.iter().map(|s| js(s))), jl(r.inconclusive.iter().map(|s| js(s))), t0.elapsed().as_secs_f64()
        );
        let dbg = e.dbg_seen.iter().enumerate().filter(|(_, b)| **b).map(|(i, _)| i as u32).collect();
        let fns = e.fn_seen.iter().enumerate().filter(|(_, b)| **b).map(|(i, _)| i as u32).collect();
        CaseOut { id: c.id.clone(), json, dbg, fns, bad }
    };
    // enough counterexamples: the remaining cases are not started
    let stop_after: usize = get("--stop-after").and_then(|x| x.parse().ok()).unwrap_or(usize::MAX);
    let part = |i: usize| format!("{repd}/.part{i}");
    let mut res: Vec<CaseOut> = vec![];
    let mut running: HashMap<i32, (usize, Instant, bool)> = HashMap::new();
    let mut again: Vec<usize> = vec![];
    let mut kept: HashMap<usize, CaseOut> = HashMap::new();
    let mut next = 0;
    while next < cases.len() || !again.is_empty() || !running.is_empty() {
        while (next < cases.len() || !again.is_empty()) && running.len() < jobs.max(1) {
            let first = next < cases.len();
            let i = if first { next += 1; next - 1 } else { again.remove(0) };
            if !first && deadline.saturating_duration_since(Instant::now()).as_secs() < share {
                if let Some(r) = kept.remove(&i) { res.push(r); }
                continue;
            }
            let _ = std::fs::remove_file(part(i));
            let pid = unsafe { fork() };
            if pid == 0 {
                let lim = [mem << 20, mem << 20];
                unsafe { setrlimit(9, lim.as_ptr()); }
                let ok = std::thread::scope(|s| {
                    std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, || {
                        let r = run_case(&cases[i], first);
                        let l = |v: &BTreeSet<u32>| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
                        std::fs::write(part(i), format!("{}\n{}\n{}\n", l(&r.dbg), l(&r.fns), r.json)).is_ok()
                    }).map(|h| h.join().unwrap_or(false)).unwrap_or(false)
                });
                unsafe { _exit(if ok { 0 } else { 3 }); }
            }
            if pid < 0 { eprintln!("fork failed"); std::process::exit(3); }
            let secs = if first { share } else { dl }.min(cases[i].opts.get("secs").and_then(|v| v.parse::<u64>().ok()).or(csecs).unwrap_or(dl));
            running.insert(pid, (i, (Instant::now() + Duration::from_secs(secs)).min(deadline) + Duration::from_secs(60), first));
        }
        if res.iter().filter(|r| r.bad).count() >= stop_after {
            for p in running.keys() { unsafe { kill(*p, 9); } }
            break;
        }
        let mut st = 0i32;
        let pid = unsafe { waitpid(-1, &mut st, 1) };
        if pid < 0 { break; }
        if pid == 0 {
            std::thread::sleep(Duration::from_millis(2));
            // a case stuck inside one solver call well past its limit
            for (p, (_, end, _)) in running.iter() { if Instant::now() > *end { unsafe { kill(*p, 9); } } }
            continue;
        }
        let (i, first) = match running.remove(&pid) { Some((i, _, f)) => (i, f), None => continue };
        let c = &cases[i];
        let txt = std::fs::read_to_string(part(i)).unwrap_or_default();
        let _ = std::fs::remove_file(part(i));
        let mut l = txt.splitn(3, '\n');
        let set = |x: Option<&str>| -> BTreeSet<u32> { x.unwrap_or("").split(' ').filter_map(|x| x.parse().ok()).collect() };
        let (dbg, fns, json) = (set(l.next()), set(l.next()), l.next().unwrap_or("").trim_end().to_string());
        if st == 0 && json.starts_with('{') {
            let bad = !json.contains("\"violations\":[]");
            let out = CaseOut { id: c.id.clone(), json, dbg, fns, bad };
            if first && out.json.contains("time limit") && !out.bad { kept.insert(i, out); again.push(i); } else { res.push(out); }
        } else if let Some(r) = kept.remove(&i) {
            res.push(r);
        } else {
            let json = format!("{{\"case\":{},\"harness\":{},\"params\":{},\"paths\":0,\"completed\":0,\"assumed_away\":0,\"allowed_panics\":0,\"infeasible\":0,\"forks\":0,\"instructions\":0,\"inputs\":0,\"asserts_static\":0,\"asserts_interval\":0,\"asserts_solver\":0,\"queries\":0,\"solver_s\":0,\"query_stats\":[],\"reached\":{{}},\"validated\":0,\"mismatch\":[],\"violations\":[],\"unreproduced\":[],\"errors\":[],\"inconclusive\":{},\"wall_s\":0}}",
                js(&c.id), js(&c.harness), jl(c.params.iter().map(|p| p.to_string())), jl([js(&format!("the executor's process for this case ended with status {st:#x} (memory limit {mem} MB, or a solver crash)"))]));
            res.push(CaseOut { id: c.id.clone(), json, dbg, fns, bad: false });
        }
    }
    res.sort_by(|a, b| a.id.cmp(&b.id));
    let mut dbg: BTreeSet<u32> = BTreeSet::new();
    let mut fns: BTreeSet<u32> = BTreeSet::new();
    for r in &res { dbg.extend(r.dbg.iter()); fns.extend(r.fns.iter()); }
    let (enc, lines) = encoded(m, &dbg);
    let mut o = std::fs::File::create(&outp).unwrap();
    writeln!(o, "{{\"z3\":{},\"functions_in_ir\":{},\"functions_executed\":{},\"repo_functions\":{},\"repo_lines\":{},\"wall_s\":{:.3},\"cases\":[\n{}\n]}}", js(&z3::version()), m.fn_at.len(), fns.len(), jl(enc.iter().map(|s| js(s))), lines, t_start.elapsed().as_secs_f64(), res.iter().map(|r| r.json.clone()).collect::<Vec<_>>().join(",\n")).unwrap();
}

/// functions of the repository (by debug info, inlined ones included) and the number of distinct source lines
fn encoded(m: &ir::Module, dbg: &BTreeSet<u32>) -> (BTreeSet<String>, usize) {
    let meta = |id: u32| m.meta.get(&id).map(|(s, e)| std::str::from_utf8(&m.text[*s..*e]).unwrap_or(""));
    let field = |t: &str, k: &str| -> Option<u32> { t.find(&format!("{k}: !")).and_then(|i| t[i + k.len() + 3..].split(|c: char| !c.is_ascii_digit()).next().unwrap().parse().ok()) };
    let strf = |t: &str, k: &str| -> Option<String> { t.find(&format!("{k}: \"")).map(|i| t[i + k.len() + 3..].split('"').next().unwrap().to_string()) };
    let num = |t: &str, k: &str| -> u32 { t.find(&format!("{k}: ")).and_then(|i| t[i + k.len() + 2..].split(|c: char| !c.is_ascii_digit()).next().unwrap().parse().ok()).unwrap_or(0) };
    let mut memo: HashMap<u32, Option<(String, String)>> = HashMap::new();
    let mut subp = |mut s: u32| -> Option<(String, String)> {
        let s0 = s;
        if let Some(r) = memo.get(&s0) { return r.clone(); }
        let mut r = None;
        for _ in 0..40 {
            let t = match meta(s) { Some(t) => t, None => break };
            if t.contains("DISubprogram(") {
                let file = field(t, "file").and_then(|f| meta(f)).map(|t| format!("{}/{}", strf(t, "directory").unwrap_or_default(), strf(t, "filename").unwrap_or_default())).unwrap_or_default();
                r = Some((strf(t, "name").unwrap_or_default(), file));
                break;
            }
            match field(t, "scope") { Some(n) => s = n, None => break }
        }
        memo.insert(s0, r.clone());
        r
    };
    let mut out = BTreeSet::new();
    let mut lines: BTreeSet<(String, u32)> = BTreeSet::new();
    let mut seen: BTreeSet<u32> = BTreeSet::new();
    let mut todo: Vec<u32> = dbg.iter().copied().collect();
    let _: BTreeMap<u8, u8> = BTreeMap::new();
    while let Some(d) = todo.pop() {
        if !seen.insert(d) { continue; }
        let t = match meta(d) { Some(t) => t, None => continue };
        if !t.contains("DILocation(") { continue; }
        if let Some(s) = field(t, "scope") {
            if let Some((n, f)) = subp(s) {
                if let Some(k) = f.find("reductionml-core/src/") {
                    let sf = f[k + 21..].to_string();
                    out.insert(format!("{sf}::{n}"));
                    lines.insert((sf, num(t, "line")));
                }
            }
        }
        if let Some(i) = field(t, "inlinedAt") { todo.push(i); }
    }
    (out, lines.len())
}
