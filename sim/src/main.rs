//! Deterministic simulation of material-color-utilities-rs under seeded schedules and faults.
//!   sim check <prop>            seeded search; evidence; exit 0/1/2
//!   sim replay <file>           run one replay file; exit 1 if the violation is there
//!   sim run <prop> <index> [v]  one run, printed
//!   sim selftest <prop> <n>     every run twice, at several worker counts: traces must agree
#![feature(alloc_error_hook, thread_local)]
#![allow(static_mut_refs, unknown_lints, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]
mod check;
mod exec;
mod gen;
mod min;
mod obj;
mod rt;
mod x;
use check::*;
use exec::*;
use rt::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU64, Ordering::*};

#[global_allocator]
static ALLOC: rt::A = rt::A;

const NOTES_CAP: usize = 96 << 20;
#[repr(C)]
struct Ctl {
    next: AtomicU64,
    best: AtomicU64, // lowest index with a violation
    stop: AtomicU64,
}
const ALLOC_FAILED: &str = "allocation failed";
fn init() {
    init_globals();
    exec::init_shared();
    unsafe {
        SHM = map_shared(std::mem::size_of::<Shm>()) as *mut Shm;
    }
    let _ = std::io::stdout().lock();
    std::panic::set_hook(Box::new(|i| {
        if i.payload().is::<obj::Probe>() {
            exec::PROBED.store(true, SeqCst);
            return;
        }
        if unsafe { CUR_REG } == 0 {
            let m = i.payload().downcast_ref::<String>().cloned().or(i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            eprintln!("sim: internal error: {} at {:?}", m, i.location());
            std::process::exit(2);
        } else {
            // a panic of the simulator's own code is an error of the check, never a finding
            let own = i.location().map(|l| l.file().starts_with("src/")).unwrap_or(false);
            let alloc = i.payload().downcast_ref::<&str>().map(|s| *s == ALLOC_FAILED).unwrap_or(false);
            if own && !alloc && !i.payload().is::<obj::CallbackPanic>() {
                let t = format!("sim: internal error in a simulated process at {:?} {}\n", i.location(), i.payload().downcast_ref::<String>().cloned().unwrap_or_default());
                unsafe { sys6(1, 2, t.as_ptr() as i64, t.len() as i64, 0, 0, 0) };
                die(9);
            }
            if unsafe { exec::DEBUGLOG } {
                let t = format!("panic at {:?}\n", i.location());
                unsafe { sys6(1, 2, t.as_ptr() as i64, t.len() as i64, 0, 0, 0) };
            }
        }
    }));
    std::alloc::set_alloc_error_hook(|_| {
        unsafe { TL.in_lib = false };
        std::panic::panic_any(ALLOC_FAILED);
    });
}
pub fn env_u(n: &str, d: u64) -> u64 {
    std::env::var(n).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}
fn tier() -> &'static str {
    if std::env::var("VERIF_TIER").map(|v| v == "thorough").unwrap_or(false) { "thorough" } else { "quick" }
}
fn prop_no(p: &str) -> u64 {
    p[1..].parse().unwrap_or(0)
}
/// (programs, variants per program)
fn budget(prop: &str) -> (u64, u64) {
    let (n, v) = match prop {
        "C01" => (800, 4),
        "C02" => (2600, 3),
        "C03" => (450, 4),
        "C04" => (1600, 4),
        "C05" => (2200, 6),
        "C06" => (1000, 4),
        "C07" => (1000, 5),
        "C08" => (700, 4),
        "C09" => (2700, 4),
        "C10" => (1000, 8),
        "C11" => (1600, 8),
        "C12" => (1000, 6),
        "C13" => (1600, 4),
        "C14" => (6000, 4),
        "C15" => (2400, 6),
        "C25" => (900, 2),
        "C26" => (1600, 4),
        _ => (500, 4),
    };
    let m = if tier() == "thorough" { 30 } else { 1 };
    let n = env_u("SIM_PROGRAMS", n * m);
    (n, env_u("SIM_VARIANTS", v))
}
#[derive(Default, Clone)]
pub struct Stats {
    pub runs: u64,
    pub programs: u64,
    pub answers: u64,
    pub aborted: u64,
    pub skipped: u64,
    pub steps: u64,
    pub clock: u64,
    pub fired: [u64; NF],
    pub epochs: u64,
    pub crashed: u64,
    pub asked: u64,
    pub forks: u64,
    pub closer: u64, // programs that made the library touch static variables of its own
    pub sched: BTreeSet<u64>,
    pub nontrivial: BTreeSet<u64>,
    pub reqs: BTreeSet<u64>,
    pub sites: BTreeSet<u64>,
    pub kinds: BTreeMap<String, u64>,
    pub traces: BTreeMap<u64, u64>,
    pub samples: Vec<String>,
    pub viol: Option<(u64, u64, String, String, String)>, // index, variant, class, text, plan
}
fn esc(s: &str) -> String {
    s.replace('\n', "\u{1}").replace('\t', "\u{2}")
}
fn unesc(s: &str) -> String {
    s.replace('\u{1}', "\n").replace('\u{2}', "\t")
}
impl Stats {
    fn put(&self) -> String {
        let mut s = format!("N\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\n", self.runs, self.programs, self.answers, self.aborted, self.skipped, self.steps, self.clock, self.epochs, self.crashed, self.asked, self.forks, self.closer);
        s.push_str("F");
        for f in self.fired {
            s.push_str(&format!("\t{}", f));
        }
        s.push('\n');
        for (k, set) in [("S", &self.sched), ("T", &self.nontrivial), ("Q", &self.reqs), ("I", &self.sites)] {
            s.push_str(k);
            for v in set.iter() {
                s.push_str(&format!("\t{:x}", v));
            }
            s.push('\n');
        }
        for (k, v) in &self.kinds {
            s.push_str(&format!("K\t{}\t{}\n", k, v));
        }
        for (k, v) in &self.traces {
            s.push_str(&format!("H\t{}\t{}\n", k, v));
        }
        for e in &self.samples {
            s.push_str(&format!("E\t{}\n", esc(e)));
        }
        if let Some((i, v, c, t, p)) = &self.viol {
            s.push_str(&format!("V\t{}\t{}\t{}\t{}\t{}\n", i, v, c, esc(t), esc(p)));
        }
        s.push_str("END\n");
        s
    }
    fn add(&mut self, s: &str) -> bool {
        let mut done = false;
        for l in s.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            match f[0] {
                "N" => {
                    let n: Vec<u64> = f[1..].iter().map(|v| v.parse().unwrap()).collect();
                    self.runs += n[0];
                    self.programs += n[1];
                    self.answers += n[2];
                    self.aborted += n[3];
                    self.skipped += n[4];
                    self.steps += n[5];
                    self.clock += n[6];
                    self.epochs += n[7];
                    self.crashed += n[8];
                    self.asked += n[9];
                    self.forks += n[10];
                    self.closer += n[11];
                }
                "F" => {
                    for k in 0..NF {
                        self.fired[k] += f[k + 1].parse::<u64>().unwrap();
                    }
                }
                "S" | "T" | "Q" | "I" => {
                    let set = match f[0] {
                        "S" => &mut self.sched,
                        "T" => &mut self.nontrivial,
                        "Q" => &mut self.reqs,
                        _ => &mut self.sites,
                    };
                    for v in &f[1..] {
                        set.insert(u64::from_str_radix(v, 16).unwrap());
                    }
                }
                "K" => *self.kinds.entry(f[1].to_string()).or_default() += f[2].parse::<u64>().unwrap(),
                "H" => {
                    self.traces.insert(f[1].parse().unwrap(), f[2].parse().unwrap());
                }
                "E" => self.samples.push(unesc(f[1])),
                "V" => {
                    let v = (f[1].parse().unwrap(), f[2].parse().unwrap(), f[3].to_string(), unesc(f[4]), unesc(f[5]));
                    if self.viol.as_ref().map(|o| (v.0, v.1) < (o.0, o.1)).unwrap_or(true) {
                        self.viol = Some(v);
                    }
                }
                "END" => done = true,
                _ => {}
            }
        }
        done
    }
}
fn note_run(st: &mut Stats, plan: &Plan, rr: &RunRes, f: &gen::Faults, ck: &Checked) {
    st.runs += 1;
    st.steps += rr.steps;
    st.clock += rr.clock;
    st.epochs += rr.status.len() as u64;
    st.crashed += rr.status.iter().filter(|s| s.0 == 2).count() as u64;
    for k in 0..NF {
        st.fired[k] += rr.fired[k];
    }
    let mut ph = 0u64;
    for r in &rr.recs {
        if r.kind != "begin" {
            let h = h2(&r.req).0;
            ph = mix(ph ^ h);
            if st.reqs.len() < 200_000 {
                st.reqs.insert(h);
            }
            let x = x::X::parse(&r.req);
            let k = match x.head() {
                "on" => format!("{}.{}", x.at(1).head(), x.at(2).head()),
                "pure" => x.at(1).to_string(),
                h => format!("bag.{}", h),
            };
            *st.kinds.entry(k).or_default() += 1;
        }
    }
    for s in &rr.sites {
        st.sites.insert(*s);
    }
    if rr.sched_events > 0 && st.sched.len() < 400_000 {
        st.sched.insert(mix(rr.sched ^ ph));
    }
    let faulted = [F_PREEMPT, F_PREEMPT_SHARED, F_CRASH, F_ALLOC, F_CALLBACK, F_BOUNDARY, F_TORN, F_BITFLIP].iter().any(|k| rr.fired[*k] > 0) || (rr.fired[F_ENTROPY] > 0 && !plan.epochs.is_empty());
    let must = match f.must {
        "af" => rr.fired[F_ALLOC] > 0,
        "cp" => rr.fired[F_CALLBACK] > 0,
        _ => faulted,
    };
    if must && ck.answers > 0 && st.nontrivial.len() < 400_000 {
        st.nontrivial.insert(mix(rr.trace ^ ph));
    }
}
/// Growth has to go on for much longer: something that is filled once, however slowly because
/// faults keep interrupting it, is no violation.
fn confirm(p: &Plan, rr: &RunRes, o: &mut Oracle) -> Option<(Viol, Plan)> {
    let mut q = p.clone();
    let per = rr.recs.iter().filter(|r| r.kind == "round").map(|r| r.resp[1]).max().unwrap_or(1).max(1);
    let n = (2_000_000_000 / per).clamp(64, 512);
    for e in q.epochs.iter_mut() {
        e.rounds = e.rounds.signum() * (e.rounds.abs() / 1000 * 1000 + n);
    }
    let rr = run_plan(&q);
    let v = verify(&q, &rr, o, &mut Checked { answers: 0, aborted: 0, skipped: 0 })?;
    if v.class == "grow" || v.class == "slower" { Some((v, q)) } else { None }
}
const DUELS: u64 = 4;
const DUEL_RUNS: u64 = 7;
/// The v-th plan of a program: the program itself, then variants of it; where the library uses static
/// variables, as many again, and then duels over them, each with variants of its own.
fn nth(prop: &str, seed: u64, idx: u64, nvar: u64, v: u64, base: &Plan, pf: &gen::Profile, f: &gen::Faults, own: &mut (Plan, gen::Profile), o: &mut Oracle) -> Plan {
    let mut r = Rng::new(seed ^ 0x5eed, prop_no(prop) << 32 | idx, v);
    if v == 0 {
        return base.clone();
    }
    if v <= 2 * nvar {
        return gen::variant(base, pf, f, &mut r);
    }
    if (v - 2 * nvar - 1) % DUEL_RUNS == 0 {
        own.0 = gen::duel(base, pf, &mut gen::G::new(r, o));
        return own.0.clone();
    }
    gen::variant(&own.0, &own.1, f, &mut r)
}
/// All runs of one program index. Returns the first violation.
fn one_index(prop: &str, seed: u64, idx: u64, nvar: u64, o: &mut Oracle, st: &mut Stats) -> Option<(u64, Viol, Plan)> {
    let mut g = gen::G::new(Rng::new(seed, prop_no(prop), idx), o);
    let (base, f) = gen::program(prop, &mut g);
    st.programs += 1;
    let mut ck = Checked { answers: 0, aborted: 0, skipped: 0 };
    let mut tr = 0u64;
    let mut res = None;
    let mut pf = Default::default();
    let mut own = (base.clone(), Default::default());
    let mut total = nvar;
    let mut v = 0;
    while v <= total {
        let plan = nth(prop, seed, idx, nvar, v, &base, &pf, &f, &mut own, o);
        let rr = run_plan(&plan);
        if let Some(h) = &rr.harness {
            eprintln!("sim: {} (property {} seed {} index {} variant {})", h, prop, seed, idx, v);
            std::process::exit(2);
        }
        if v == 0 {
            pf = gen::profile(&rr);
            // static variables of the library in use: look longer, and at duels over them
            if rr.statics > 0 && base.epochs.iter().all(|e| e.rounds == 1) {
                total = 2 * nvar + DUELS * DUEL_RUNS;
                st.closer += 1;
            }
        }
        if v > 2 * nvar && (v - 2 * nvar - 1) % DUEL_RUNS == 0 {
            own.1 = gen::profile(&rr);
        }
        let before = ck.answers;
        let vi = verify(&plan, &rr, o, &mut ck);
        note_run(st, &plan, &rr, &f, &Checked { answers: ck.answers - before, aborted: 0, skipped: 0 });
        tr = mix(tr ^ rr.trace);
        if idx < 2 && v == total {
            let mut t = plan.text();
            if t.len() > 3000 {
                t.truncate(t.char_indices().take_while(|c| c.0 < 3000).last().unwrap().0);
                t.push_str(" ...");
            }
            st.samples.push(format!("seed {} index {} variant {} trace {:016x} switches {}: {}", seed, idx, v, rr.trace, rr.sched_events, t));
        }
        if let Some(vi) = vi {
            let (vi, plan) = if vi.class == "grow" || vi.class == "slower" {
                match confirm(&plan, &rr, o) {
                    Some(c) => c,
                    None => {
                        v += 1;
                        continue;
                    }
                }
            } else {
                (vi, plan)
            };
            res = Some((v, vi, plan));
            break;
        }
        v += 1;
    }
    st.traces.insert(idx, tr);
    st.answers += ck.answers;
    st.aborted += ck.aborted;
    st.skipped += ck.skipped;
    res
}
fn search(prop: &str, seed: u64, from: u64, n: u64, nvar: u64, workers: usize, cap_s: f64) -> Stats {
    let ctl = unsafe { &*(map_shared(4096) as *const Ctl) };
    ctl.best.store(u64::MAX, SeqCst);
    ctl.next.store(from, SeqCst);
    let t0 = real_now();
    let mut bufs = vec![];
    let mut pids = vec![];
    for _ in 0..workers {
        let buf = map_shared(NOTES_CAP);
        let pid = unsafe { fork() };
        if pid == 0 {
            unsafe {
                sys6(157, 1, 9, 0, 0, 0, 0); // die with the parent
                let cov = SHM as usize + std::mem::offset_of!(Shm, cov);
                SHM = map_shared(std::mem::size_of::<Shm>()) as *mut Shm;
                let mut o = Oracle::new();
                let mut st = Stats::default();
                loop {
                    let i = ctl.next.fetch_add(1, SeqCst);
                    if i >= from + n || i > ctl.best.load(SeqCst) || real_now() - t0 > cap_s {
                        break;
                    }
                    if let Some((v, vi, plan)) = one_index(prop, seed, i, nvar, &mut o, &mut st) {
                        ctl.best.fetch_min(i, SeqCst);
                        if st.viol.as_ref().map(|b| i < b.0).unwrap_or(true) {
                            st.viol = Some((i, v, vi.class, vi.text, plan.text()));
                        }
                    }
                }
                st.asked = o.asked;
                st.forks = o.forks;
                let s = st.put();
                if s.len() > NOTES_CAP {
                    exit_now(2);
                }
                std::ptr::copy_nonoverlapping(s.as_ptr(), buf, s.len());
                for k in 0..NEDGE {
                    if shm().cov[k] != 0 {
                        *((cov + k) as *mut u8) = 1;
                    }
                }
                exit_now(0);
            }
        }
        pids.push(pid);
        bufs.push(buf);
    }
    let mut st = Stats::default();
    let mut bad = false;
    for (pid, b) in pids.iter().zip(&bufs) {
        if wait(*pid).is_err() {
            bad = true;
            continue;
        }
        let s = unsafe { std::slice::from_raw_parts(*b, NOTES_CAP) };
        let e = s.windows(5).position(|w| w == b"\nEND\n");
        match e {
            Some(e) => {
                let t = std::str::from_utf8(&s[..e + 5]).unwrap();
                st.add(t);
            }
            None => bad = true,
        }
    }
    for b in bufs {
        unsafe { sys6(11, b as i64, NOTES_CAP as i64, 0, 0, 0, 0) };
    }
    if bad {
        eprintln!("sim: a worker failed");
        std::process::exit(2);
    }
    st
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn coverage_edges() -> (u64, u64) {
    let n = nguards() as u64;
    let c = unsafe { (1..=nguards() as usize).filter(|i| shm().cov[*i & (NEDGE - 1)] != 0).count() as u64 };
    (c, n)
}
fn evidence(prop: &str, seed: u64, st: &Stats, wall: f64, nviol: u64, dir: &str, workers: usize) {
    let (ce, ne) = coverage_edges();
    let mut f = String::new();
    for k in 0..NF {
        if !f.is_empty() {
            f.push_str(", ");
        }
        f.push_str(&format!("{}: {}", js(FNAMES[k]), st.fired[k]));
    }
    let kinds = st.kinds.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ");
    let samples = st.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(",\n   ");
    let rule = match prop {
        "C10" | "C11" => "a run is non-trivial if an injected allocation failure fired inside a library request and at least one later answer was compared with the oracle; distinct by the hash of its requests, schedule and event log",
        "C12" => "a run is non-trivial if an injected callback panic fired inside a library request and at least one answer was compared with the oracle; distinct by the hash of its requests, schedule and event log",
        _ => "a run is non-trivial if at least one preemption, boundary switch, crash, store fault or simulated entropy read took effect inside it and at least one answer was compared with the oracle; distinct by the hash of its requests, schedule and event log",
    };
    let s = format!(
        r#"{{
 "property": {p}, "tier": {t}, "seed": {seed}, "level": "exploration",
 "coverage": {{
  "evaluations": {runs},
  "distinct_nontrivial": {nt},
  "rule": {rule},
  "programs": {progs},
  "programs_in_which_the_library_used_static_variables": {closer},
  "answers_checked": {ans},
  "requests_aborted_by_injected_faults": {ab},
  "answers_skipped_because_fresh_process_dies": {sk},
  "simulated_processes": {ep},
  "simulated_processes_crashed": {cr},
  "oracle_processes": {forks},
  "distinct_requests": {reqs},
  "distinct_interleavings": {sched},
  "interleaving_measure": "hash of the sequence of (thread, operation, step) at which the scheduler switched, with the requests",
  "distinct_fault_or_switch_sites": {sites},
  "library_edges_reached": {ce}, "library_edges_total": {ne},
  "library_steps_simulated": {steps},
  "simulated_seconds": {sim:.3},
  "simulated_time_measure": "2 ns per library step plus what the simulated clock advanced",
  "runs_per_hour": {rph:.0}, "seeds_per_hour": {sph:.0},
  "faults_fired": {{{f}}},
  "requests_by_kind": {{{kinds}}},
  "workers": {workers},
  "real_components": ["all of material-color-utilities-rs (compiled from /repo with yield points inserted by the compiler)", "Rust std", "rand crate"],
  "stub_components": ["thread scheduler", "entropy (getrandom)", "clocks and sleeps", "futex wait/wake", "cpu count", "allocator", "files, output, environment (effects noted, not carried out)", "durable store", "process crash and restart"],
  "samples": [{samples}]
 }},
 "assumptions": ["library code interleaves at compiler-inserted yield points (every edge, load and store), one thread at a time: weak memory orders are not explored", "a fresh process asked the single request is the reference answer"],
 "wall_s": {wall:.2},
 "violations": {nviol}
}}
"#,
        p = js(prop), t = js(tier()), runs = st.runs, nt = st.nontrivial.len(), rule = js(rule), progs = st.programs, closer = st.closer, ans = st.answers, ab = st.aborted,
        sk = st.skipped, ep = st.epochs, cr = st.crashed, forks = st.forks, reqs = st.reqs.len(), sched = st.sched.len(), sites = st.sites.len(),
        steps = st.steps, sim = st.clock as f64 * 1e-9, rph = st.runs as f64 / wall * 3600.0, sph = st.programs as f64 / wall * 3600.0,
    );
    let _ = std::fs::create_dir_all(format!("{}/evidence", dir));
    if let Err(e) = std::fs::write(format!("{}/evidence/{}.json", dir, prop), s) {
        eprintln!("sim: cannot write evidence: {}", e);
        std::process::exit(2);
    }
}
fn replay_text(prop: &str, seed: u64, idx: u64, var: u64, v: &Viol, trace: u64, plan: &Plan) -> String {
    let mut s = format!("# property {}\n# seed {} index {} variant {}\n# class {}\n# trace {:016x}\n", prop, seed, idx, var, v.class, trace);
    for l in v.text.lines() {
        s.push_str(&format!("# {}\n", l));
    }
    for e in plan.x().l()[2..].iter() {
        for p in e.tail() {
            if matches!(p.head(), "setup" | "thread") {
                for (i, o) in p.tail().iter().enumerate() {
                    let t = o.readable();
                    s.push_str(&format!("#   {} op {}: {}\n", p.head(), i, t.chars().take(300).collect::<String>()));
                }
            } else {
                s.push_str(&format!("#   {}\n", p.readable()));
            }
        }
    }
    s.push_str(&plan.text());
    s
}
fn parse_replay(s: &str) -> (Plan, String, u64) {
    let mut body = String::new();
    let (mut class, mut trace) = (String::new(), 0);
    for l in s.lines() {
        if let Some(r) = l.strip_prefix("# class ") {
            class = r.to_string();
        } else if let Some(r) = l.strip_prefix("# trace ") {
            trace = u64::from_str_radix(r, 16).unwrap_or(0);
        }
        if !l.starts_with('#') {
            body.push_str(l);
            body.push('\n');
        }
    }
    (Plan::from(&x::X::parse(&body)), class, trace)
}
fn cmd_check(prop: &str) -> i32 {
    let dir = std::env::var("SIM_DIR").unwrap_or("/verif".into());
    let seed = env_u("VERIF_SEED", 1);
    let (n, nvar) = budget(prop);
    let workers = env_u("SIM_WORKERS", 8) as usize;
    let cap = env_u("SIM_CAP_S", if tier() == "thorough" { 3000 } else { 300 }) as f64;
    println!("sim: property {} seed {} tier {} programs {} variants {}", prop, seed, tier(), n, nvar);
    let t0 = real_now();
    let mut st = search(prop, seed, 0, n, nvar, workers, cap);
    let wall = real_now() - t0;
    let viol = st.viol.take();
    evidence(prop, seed, &st, wall, viol.is_some() as u64, &dir, workers);
    println!("sim: {} runs, {} answers checked, {} distinct non-trivial, {:.1} s", st.runs, st.answers, st.nontrivial.len(), wall);
    let (idx, var, class, text, plan) = match viol {
        None => return 0,
        Some(v) => v,
    };
    let plan = Plan::from(&x::X::parse(&plan));
    let vi = Viol { class, text };
    let _ = std::fs::create_dir_all(format!("{}/replays", dir));
    let path = format!("{}/replays/{}-{}-{}-{}.sim", dir, prop, seed, idx, var);
    let me = std::env::current_exe().unwrap();
    let mut o = Oracle::new();
    let (mp, mv, mt) = min::minimise(&plan, &vi, &mut o, env_u("SIM_MIN_S", 20) as f64);
    for (p, v, t) in [(mp, mv, mt), (plan.clone(), vi.clone(), 0)] {
        let t = if t == 0 { run_plan(&p).trace } else { t };
        std::fs::write(&path, replay_text(prop, seed, idx, var, &v, t, &p)).unwrap();
        let out = std::process::Command::new(&me).arg("replay").arg(&path).output();
        if let Ok(out) = out {
            if out.status.code() == Some(1) {
                println!("{}", String::from_utf8_lossy(&out.stdout).lines().filter(|l| !l.starts_with("VIOLATION")).collect::<Vec<_>>().join("\n"));
                println!("VIOLATION property={} replay={}", prop, path);
                return 1;
            }
        }
    }
    eprintln!("sim: the violation did not replay: {}", vi.text);
    2
}
fn cmd_replay(f: &str) -> i32 {
    let s = match std::fs::read_to_string(f) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("sim: {}: {}", f, e);
            return 2;
        }
    };
    let (p, class, trace) = parse_replay(&s);
    let rr = run_plan(&p);
    if let Some(h) = &rr.harness {
        eprintln!("sim: {}", h);
        return 2;
    }
    let mut o = Oracle::new();
    let mut ck = Checked { answers: 0, aborted: 0, skipped: 0 };
    let v = verify(&p, &rr, &mut o, &mut ck);
    println!("replay: {} operations, {} schedule/fault events, trace {:016x}{}", p.nops(), p.nevs(), rr.trace, if trace == rr.trace { " (as recorded)" } else { " (differs from the recorded trace)" });
    match v {
        Some(v) => {
            println!("replay: {}", v.text);
            if v.class != class {
                println!("replay: class {} (recorded {})", v.class, class);
            }
            println!("VIOLATION property={} replay={}", p.prop, f);
            1
        }
        None => {
            println!("replay: no violation");
            0
        }
    }
}
fn cmd_run(a: &[String]) -> i32 {
    let prop = &a[0];
    let idx: u64 = a[1].parse().unwrap();
    let v: u64 = a.get(2).map(|s| s.parse().unwrap()).unwrap_or(0);
    let seed = env_u("VERIF_SEED", 1);
    let mut o = Oracle::new();
    let mut g = gen::G::new(Rng::new(seed, prop_no(prop), idx), &mut o);
    let (base, f) = gen::program(prop, &mut g);
    let mut plan = base.clone();
    let mut rr = run_plan(&base);
    if v > 0 {
        let (_, nvar) = budget(prop);
        let pf = gen::profile(&rr);
        let mut own = (base.clone(), Default::default());
        if v > 2 * nvar && (v - 2 * nvar - 1) % DUEL_RUNS != 0 {
            let first = v - (v - 2 * nvar - 1) % DUEL_RUNS;
            let d = nth(prop, seed, idx, nvar, first, &base, &pf, &f, &mut own, &mut o);
            own.1 = gen::profile(&run_plan(&d));
        }
        plan = nth(prop, seed, idx, nvar, v, &base, &pf, &f, &mut own, &mut o);
        exec::set_debug();
        rr = run_plan(&plan);
    }
    print!("{}", plan.text());
    for r in &rr.recs {
        if r.kind == "begin" {
            continue;
        }
        println!("e{} t{} o{} {} steps={} gs={} allocs={} cbs={} {} => {:?}", r.epoch, r.tid, r.op, r.kind, r.steps, r.gs, r.allocs, r.cbs, x::X::parse(&r.req).readable(), r.resp);
    }
    println!("status {:?} fired {:?} trace {:016x}", rr.status, rr.fired, rr.trace);
    let mut ck = Checked { answers: 0, aborted: 0, skipped: 0 };
    match verify(&plan, &rr, &mut o, &mut ck) {
        Some(v) => {
            println!("VIOLATION {} {}", v.class, v.text);
            1
        }
        None => 0,
    }
}
fn cmd_selftest(prop: &str, n: u64) -> i32 {
    let seed = env_u("VERIF_SEED", 1);
    let (_, nvar) = budget(prop);
    let mut all: Vec<BTreeMap<u64, u64>> = vec![];
    for w in [1usize, 3, 8, 8] {
        let st = search(prop, seed, 0, n, nvar, w, 1e9);
        all.push(st.traces);
    }
    let mut bad = 0;
    for t in &all[1..] {
        for (k, v) in t {
            if all[0].get(k) != Some(v) {
                bad += 1;
                println!("selftest: {} index {} differs", prop, k);
            }
        }
    }
    let h = all[0].iter().fold(0, |h, (k, v)| mix(h ^ k ^ mix(*v)));
    println!("selftest: {} {} programs, 4 times at 1, 3, 8, 8 workers: {} differences, hash {:016x}", prop, n, bad, h);
    (bad > 0) as i32
}
fn main() {
    // the same addresses every time, where the sandbox allows it
    unsafe {
        let cur = sys6(135, 0xffffffff, 0, 0, 0, 0, 0);
        if cur >= 0 && cur & 0x40000 == 0 && std::env::var("SIM_NOASLR").is_err() && sys6(135, cur | 0x40000, 0, 0, 0, 0, 0) >= 0 {
            use std::os::unix::process::CommandExt;
            let e = std::process::Command::new("/proc/self/exe").args(std::env::args().skip(1)).env("SIM_NOASLR", "1").exec();
            eprintln!("sim: {}", e);
        }
    }
    init();
    let a: Vec<String> = std::env::args().collect();
    let rc = match a.get(1).map(|s| s.as_str()) {
        Some("check") => cmd_check(&a[2]),
        Some("replay") => cmd_replay(&a[2]),
        Some("run") => cmd_run(&a[2..]),
        Some("selftest") => cmd_selftest(&a[2], a.get(3).and_then(|s| s.parse().ok()).unwrap_or(40)),
        _ => {
            eprintln!("usage: sim check|replay|run|selftest ..");
            2
        }
    };
    std::process::exit(rc);
}
