//! Executing a plan: epochs of simulated processes, each with threads running operations under
//! the plan's schedule and faults; and the cold oracle (one request in one fresh process).
#![allow(static_mut_refs)]
use crate::obj::*;
use crate::rt::{self, *};
use crate::x;
use crate::x::{ToX, X};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub struct Ev {
    pub kind: String, // sw swg crash crashg af cp
    pub tid: i64,
    pub op: i64,
    pub k: i64,
    pub arg: i64,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Epoch {
    pub env: i64,
    pub heap: i64,
    pub clock: i64,
    pub ncpu: i64,
    pub limit: i64, // steps without an answer that count as a hang
    // how often the whole program is repeated in the process; negative: with the shared objects
    // kept; 1000 more: the (only) thread repeats what it does
    pub rounds: i64,
    pub setup: Vec<X>,
    pub threads: Vec<Vec<X>>,
    pub evs: Vec<Ev>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Plan {
    pub prop: String,
    pub epochs: Vec<Epoch>,
}
impl Epoch {
    pub fn new(env: u64) -> Epoch {
        Epoch { env: (env >> 1) as i64 | 1, heap: 0, clock: 0, ncpu: 4, limit: 400_000_000, rounds: 1, setup: vec![], threads: vec![], evs: vec![] }
    }
    pub fn x(&self) -> X {
        let mut v = vec!["epoch".x(), x!("env", self.env, self.heap, self.clock, self.ncpu, self.limit, self.rounds)];
        v.push(X::L(std::iter::once("setup".x()).chain(self.setup.iter().cloned()).collect()));
        for t in &self.threads {
            v.push(X::L(std::iter::once("thread".x()).chain(t.iter().cloned()).collect()));
        }
        for e in &self.evs {
            v.push(x!("ev", e.kind.as_str(), e.tid, e.op, e.k, e.arg));
        }
        X::L(v)
    }
    pub fn from(x: &X) -> Epoch {
        let mut e = Epoch::new(0);
        for p in x.tail() {
            match p.head() {
                "env" => {
                    e.env = p.at(1).i();
                    e.heap = p.at(2).i();
                    e.clock = p.at(3).i();
                    e.ncpu = p.at(4).i();
                    e.limit = p.at(5).i();
                    e.rounds = if p.l().len() > 6 { p.at(6).i() } else { 1 };
                }
                "setup" => e.setup = p.tail().to_vec(),
                "thread" => e.threads.push(p.tail().to_vec()),
                "ev" => e.evs.push(Ev { kind: p.at(1).s().to_string(), tid: p.at(2).i(), op: p.at(3).i(), k: p.at(4).i(), arg: p.at(5).i() }),
                _ => {}
            }
        }
        e
    }
}
impl Plan {
    pub fn x(&self) -> X {
        X::L(vec!["plan".x(), self.prop.as_str().x()].into_iter().chain(self.epochs.iter().map(|e| e.x())).collect())
    }
    pub fn from(x: &X) -> Plan {
        Plan { prop: x.at(1).s().to_string(), epochs: x.l()[2..].iter().map(Epoch::from).collect() }
    }
    pub fn text(&self) -> String {
        let mut s = format!("(plan {}\n", self.prop);
        for e in &self.epochs {
            s.push_str(" (epoch ");
            if let X::L(v) = e.x() {
                for p in &v[1..] {
                    s.push_str(&format!("\n  {}", p));
                }
            }
            s.push_str(")\n");
        }
        s.push_str(")\n");
        s
    }
    pub fn nops(&self) -> usize {
        self.epochs.iter().map(|e| e.threads.iter().map(|t| t.iter().filter(|o| o.head() != "nop").count()).sum::<usize>()).sum()
    }
    pub fn nevs(&self) -> usize {
        self.epochs.iter().map(|e| e.evs.len()).sum()
    }
}

#[derive(Clone, Debug)]
pub struct Rec {
    pub epoch: usize,
    pub tid: usize,
    pub op: usize,
    pub kind: String, // ok panic abort (of a request), bag, hctabort, begin
    pub steps: u64,
    pub gs: u64,
    pub allocs: u64,
    pub cbs: u64,
    pub req: String,
    pub resp: Ints,
}
#[derive(Clone, Debug, Default)]
pub struct RunRes {
    pub recs: Vec<Rec>,
    pub status: Vec<(u32, i32, usize, usize)>, // status, exit, tid, op per epoch
    pub fired: [u64; NF],
    pub sched: u64,
    pub sched_events: u64,
    pub statics: u64,
    pub clock: u64,
    pub steps: u64,
    pub trace: u64,
    pub sites: Vec<u64>,
    pub inflight_afired: bool,
    pub harness: Option<String>,
}

// ------------------------------------------------------------------ inside the simulated process
pub struct Slot {
    obj: Option<Obj>,
    recipe: X,
    src: Option<X>, // what the stored list it was restored from was taken from
}
static mut SHARED: [Option<Slot>; 64] = [const { None }; 64];
pub fn init_shared() {
    unsafe {
        OLO = &raw const SHARED as usize;
        OHI = OLO + std::mem::size_of_val(&*&raw const SHARED);
    }
}
#[thread_local]
static mut LOCAL: [Option<Slot>; 16] = [const { None }; 16];
static mut PLAN_EPOCH: *const Epoch = std::ptr::null();
static mut ROUND: i64 = 0;
pub static PROBED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub static mut DEBUGLOG: bool = false;
pub fn set_debug() {
    unsafe { DEBUGLOG = true }
}

unsafe fn slot(n: usize) -> &'static mut Option<Slot> {
    if n < 16 { &mut LOCAL[n] } else { &mut SHARED[n & 63] }
}
unsafe fn log(s: &str) {
    let m = shm();
    let b = s.as_bytes();
    if m.log_len + b.len() > LOGCAP {
        die(5);
    }
    m.log[m.log_len..m.log_len + b.len()].copy_from_slice(b);
    m.log_len += b.len();
}
fn ints_s(v: &[i64]) -> String {
    let mut s = String::with_capacity(v.len() * 8);
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            s.push(' ');
        }
        s.push_str(&x.to_string());
    }
    s
}
unsafe fn record(kind: &str, req: &str, resp: &[i64], extra: &[i64]) {
    if ROUND > 0 && ROUND < (*PLAN_EPOCH).rounds.abs() % 1000 - 1 && kind != "round" {
        return;
    }
    let s = format!("R\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\n", TL.tid, TL.op, kind, TL.count, TL.gcount, TL.acount, TL.cbcount, req, ints_s(resp), ints_s(extra));
    log(&s);
}
unsafe fn begin(req: &str) {
    log(&format!("B\t{}\t{}\t{}\n", TL.tid, TL.op, req));
}
/// one yield point in simulator code (used by the storage stub between chunks of a write)
unsafe fn sim_step() {
    rt::__sanitizer_cov_load1(std::ptr::null());
}
// ---- durable store: "K key len\tprov\t" + len fixed-width words + "\n", written in chunks
unsafe fn store_put(key: i64, prov: &str, v: &[i64], torn: i64) {
    let m = shm();
    let mut b = format!("K {} {}\t{}\t", key, v.len(), prov).into_bytes();
    let hdr = b.len();
    for i in v {
        b.extend(format!("{:016x}", *i as u64).bytes());
    }
    let full = b.len();
    let mut upto = full;
    if torn >= 0 && (torn as usize) < v.len() {
        // lost tail: the write is acknowledged by the device but only part of it is there
        upto = hdr + 16 * torn as usize;
        fire(F_TORN);
    }
    if m.store_len + full + 2 > STORECAP {
        die(5);
    }
    let start = m.store_len;
    // header and the first bytes go first, then chunks of 40 bytes, each followed by a yield point
    let mut p = 0;
    while p < upto {
        let e = if p < hdr { hdr } else { (p + 40).min(upto) };
        m.store[start + p..start + e].copy_from_slice(&b[p..e]);
        m.store[start + e] = b'\n';
        m.store_len = start + e + 1;
        p = e;
        sim_step();
    }
}
/// last record of the key: provenance, declared length, the words that are there
unsafe fn store_get(key: i64) -> Option<(X, usize, Ints)> {
    let m = shm();
    let s = std::str::from_utf8(&m.store[..m.store_len]).unwrap_or("");
    let mut r = None;
    for l in s.split('\n') {
        let f: Vec<&str> = l.split('\t').collect();
        if f.len() != 3 {
            continue;
        }
        let h: Vec<&str> = f[0].split(' ').collect();
        if h.len() != 3 || h[0] != "K" || h[1] != key.to_string() {
            continue;
        }
        let mut v = vec![];
        for c in f[2].as_bytes().chunks(16) {
            if c.len() == 16 {
                v.push(u64::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap() as i64);
            }
        }
        r = Some((X::parse(f[1]), h[2].parse().unwrap(), v));
    }
    r
}
/// Replace (key k) by the stored words (to run) and by their provenance (to ask the oracle).
/// None: nothing (complete) is stored.
unsafe fn resolve(q: &X) -> Option<(X, X)> {
    if q.head() == "key" {
        let (prov, len, v) = store_get(q.at(1).i())?;
        if v.len() != len {
            return None;
        }
        return Some((X::ints(&v), x!("of", prov)));
    }
    match q {
        X::L(v) => {
            let mut a = vec![];
            let mut b = vec![];
            for e in v {
                let (p, q) = resolve(e)?;
                a.push(p);
                b.push(q);
            }
            Some((X::L(a), X::L(b)))
        }
        _ => Some((q.clone(), q.clone())),
    }
}
unsafe fn finish(out: Out, req: &str) -> bool {
    let faulted = TL.afired > 0 || TL.cbfired > 0;
    match out {
        Out::Ok(v) => {
            record("ok", req, &v, &[]);
            true
        }
        Out::Panic => {
            record(if faulted { "abort" } else { "panic" }, req, &[], &[]);
            false
        }
    }
}
fn depth(r: &X) -> usize {
    if r.head() == "tuned" { 1 + depth(r.at(1)) } else { 0 }
}
fn has_fp(r: &X) -> bool {
    matches!(r.head(), "of" | "fromhct" | "plist" | "core" | "corec" | "clist" | "hint" | "hct" | "sch" | "dyn" | "tuned")
}
unsafe fn exec(op: &X, warm: bool) {
    match op.head() {
        "nop" => {}
        "new" | "load" | "loadn" => {
            let n = op.at(1).i() as usize;
            let mut src = None;
            let recipe = if op.head() == "new" {
                op.at(2).clone()
            } else {
                // (load slot key plist|clist) / (loadn slot key kind n): restore from storage
                let (prov, len, mut v) = match store_get(op.at(2).i()) {
                    Some(r) => r,
                    None => {
                        if n < 16 {
                            *slot(n) = None;
                        }
                        return;
                    }
                };
                if v.len() == len && prov.head() == "on" && op.head() == "load" {
                    src = Some(prov.at(1).clone());
                }
                if op.head() == "loadn" {
                    fire(F_TORN);
                    let n = op.at(4).i().max(0) as usize;
                    while v.len() < n {
                        v.push(*v.last().unwrap_or(&0));
                    }
                    v.truncate(n);
                }
                x!(op.at(3).s(), X::ints(&v))
            };
            let req = if has_fp(&recipe) { x!("on", &recipe, x!("fp")).to_string() } else { String::new() };
            if n >= 16 && n < 32 {
                lock(n);
            }
            *slot(n) = None;
            if n >= 16 {
                SHARED_ALLOC = true;
            }
            begin(&req);
            let mut built = None;
            let out = guarded(|| {
                let o = build(&recipe);
                let v = if req.is_empty() { vec![] } else { query_ref(&o, &x!("fp"), None) };
                built = Some(o);
                v
            });
            SHARED_ALLOC = false;
            if req.is_empty() {
                if out == Out::Panic && TL.afired + TL.cbfired == 0 {
                    record("panic", &x!("on", &recipe, x!("nofp")).to_string(), &[], &[]);
                }
            } else {
                finish(out, &req);
            }
            if let Some(o) = built {
                *slot(n) = Some(Slot { obj: Some(o), recipe, src });
            }
            if n >= 16 && n < 32 {
                unlock(n);
            }
        }
        "clone" => {
            let (d, s) = (op.at(1).i() as usize, op.at(2).i() as usize);
            let (l1, l2) = (s >= 16 && s < 32, d >= 16 && d < 32 && d != s);
            if l1 && l2 && d < s {
                lock(d);
                lock(s);
            } else {
                if l1 {
                    lock(s);
                }
                if l2 {
                    lock(d);
                }
            }
            let mut made = None;
            if let Some(sl) = slot(s) {
                if let Some(o) = &sl.obj {
                    let rc = sl.recipe.clone();
                    guarded(|| {
                        made = clone_obj(o).map(|o| Slot { obj: Some(o), recipe: rc, src: None });
                        vec![]
                    });
                }
            }
            if made.is_some() {
                *slot(d) = made;
            }
            if l1 {
                unlock(s);
            }
            if l2 {
                unlock(d);
            }
        }
        "drop" => {
            let n = op.at(1).i() as usize;
            if n < 16 {
                *slot(n) = None;
            }
        }
        "tune" => {
            // (tune slot field value): the caller changes a field of its own scheme
            let n = op.at(1).i() as usize;
            if n < 16 {
                if let Some(sl) = slot(n) {
                    if let (Some(o @ Obj::Sch(_)), true) = (sl.obj.as_mut(), depth(&sl.recipe) < 40) {
                        let mut done = false;
                        guarded(|| {
                            tune(o, op.at(2).i(), op.at(3));
                            done = true;
                            vec![]
                        });
                        if done {
                            sl.recipe = x!("tuned", &sl.recipe, op.at(2), op.at(3));
                        } else {
                            *slot(n) = None;
                        }
                    }
                }
            }
        }
        "q" | "put" => {
            // (q slot query) / (put key slot query torn)
            let put = op.head() == "put";
            let n = op.at(if put { 2 } else { 1 }).i() as usize;
            let q0 = op.at(if put { 3 } else { 2 });
            let locked = n >= 16 && n < 32;
            let frozen = n >= 32;
            if locked {
                lock(n);
            }
            q_op(op, n, q0, put, frozen, warm);
            if locked {
                unlock(n);
            }
        }
        "pure" | "putp" => {
            // (pure name args..) / (putp key torn (pure ..))
            let putp = op.head() == "putp";
            let p = if putp { op.at(3) } else { op };
            let (run, cold) = match resolve(p) {
                Some(r) => r,
                None => return,
            };
            let req = cold.to_string();
            if warm {
                own_warm(&run);
            }
            begin(&req);
            let mut got = vec![];
            let out = guarded(|| eval(&run));
            if let Out::Ok(v) = &out {
                got = v.clone();
            }
            if finish(out, &req) && putp {
                store_put(op.at(1).i(), &req, &got, op.at(2).i());
            }
        }
        "flip" => {
            // (flip key word bit): the stored copy rots
            let m = shm();
            if let Some((_, len, mut v)) = store_get(op.at(1).i()) {
                if !v.is_empty() && v.len() == len {
                    let i = op.at(2).i() as usize % v.len();
                    v[i] ^= 1 << (op.at(3).i() as u64 % 24);
                    fire(F_BITFLIP);
                    let _ = m;
                    store_put(op.at(1).i(), "(rot)", &v, -1);
                }
            }
        }
        h => {
            eprintln!("sim: bad op {}", h);
            die(9)
        }
    }
}
/// Run the request once on throwaway objects before a fault is armed in it, so that process- or
/// thread-wide one-time initialisation is not what the fault hits.
unsafe fn own_warm(run0: &X) {
    // half of the time another request of the same kind, so that the fault finds anything that
    // is remembered per request still cold
    let other = if (TL.afail_at + TL.afail_n) % 2 == 0 { other_of(run0) } else { None };
    let run = other.as_ref().unwrap_or(run0);
    let (a, n) = (TL.afail_at, TL.afail_n);
    TL.afail_at = u64::MAX;
    let (c, g) = (TL.count, TL.gcount);
    let (nt, lim) = (TL.ntrig, TL.limit);
    TL.ntrig = 0;
    arm();
    let _ = guarded(|| eval(run));
    TL.afail_at = a;
    TL.afail_n = n;
    TL.ntrig = nt;
    TL.limit = lim;
    TL.count = c;
    TL.gcount = g;
    TL.acount = 0;
    TL.cbcount = 0;
    arm();
}
fn other_of(r: &X) -> Option<X> {
    if r.head() != "on" {
        return None;
    }
    let h = x!("hint", 0xff6b3f21i64);
    let sch = x!("sch", 2, &h, 0, 0.3);
    let mut base = r.at(1);
    while base.head() == "tuned" {
        base = base.at(1);
    }
    let rec = match base.head() {
        "of" | "fromhct" | "plist" => x!("of", 217.25, 41.5),
        "core" | "corec" => x!(base.head(), 0xff6b3f21i64),
        "clist" => x!("core", 0xff6b3f21i64),
        "hint" | "hct" => h,
        "temp" => x!("temp", h),
        "sch" | "dyn" => sch.clone(),
        "role" | "custom" => {
            if arg_recipe(r.at(2)).is_some() {
                let mut q = r.at(2).clone();
                q.lm()[1] = sch;
                return Some(x!("on", r.at(1), q));
            }
            return None;
        }
        _ => return None,
    };
    Some(x!("on", rec, r.at(2)))
}
unsafe fn q_op(op: &X, n: usize, q0: &X, put: bool, frozen: bool, warm: bool) {
    let sl = match slot(n) {
        Some(s) if s.obj.is_some() => s,
        _ => return,
    };
    let (q, _) = match resolve(q0) {
        Some(r) => r,
        None => return,
    };
    // (adj dim delta): a setter call relative to the current value
    let q = match sl.obj.as_ref().unwrap() {
        Obj::Hct(h) if q.head() == "adj" => {
            let now = match q.at(1).i() {
                0 => h.get_hue(),
                1 => h.get_chroma(),
                _ => h.get_tone(),
            };
            x!("set", q.at(1), now + q.at(2).f())
        }
        _ => q,
    };
    // the query's object argument
    let mut cq = q.clone();
    let mut argref: Option<*const Obj> = None;
    if let Some(ar) = arg_recipe(&q) {
        if ar.head() == "slot" {
            let an = ar.at(1).i() as usize;
            if an == n {
                return;
            }
            match slot(an) {
                Some(s) if s.obj.is_some() => {
                    argref = Some(s.obj.as_ref().unwrap() as *const Obj);
                    cq.lm()[1] = s.recipe.clone();
                }
                _ => return,
            }
        } else if ar.head() == "src" {
            match &sl.src {
                Some(s) => cq.lm()[1] = s.clone(),
                None => return,
            }
        } else if ar.head() == "self" {
            cq.lm()[1] = sl.recipe.clone();
        }
    }
    let bag = sl.recipe.head() == "bag";
    let set = q.head() == "set";
    let reqx = x!("on", &sl.recipe, &cq);
    let req = if bag { String::new() } else { reqx.to_string() };
    if warm && !bag {
        own_warm(&reqx);
    }
    let lk = frozen && !shareable(sl.obj.as_ref().unwrap());
    if lk {
        lock(n);
    }
    begin(&req);
    let objp: *mut Obj = sl.obj.as_mut().unwrap();
    let mut got = vec![];
    let out = guarded(|| {
        let arg = match argref {
            Some(p) => Some(Arg::Ref(unsafe { &*p })),
            None => arg_recipe(&cq).map(|x| Arg::Own(build(x))),
        };
        let v = if frozen { query_ref(unsafe { &*objp }, &cq, arg) } else { query(unsafe { &mut *objp }, &cq, arg) };
        got = v.clone();
        v
    });
    if lk {
        unlock(n);
    }
    if bag {
        let m = if argref.is_some() { "bag" } else { "bagr" };
        match out {
            Out::Ok(v) => record(m, &format!("{}", cq), &v, &[]),
            Out::Panic => {
                // a fault hit the collection itself: its content is the collection's business
                if TL.afired > 0 {
                    record("abort", "", &[], &[]);
                    *slot(n) = None;
                } else {
                    record("bag", &format!("{}", cq), &[9], &[]);
                }
            }
        }
        return;
    }
    if set {
        let st = match &*objp {
            Obj::Hct(h) => vec![h.to_int(), fb(h.get_hue()), fb(h.get_chroma()), fb(h.get_tone())],
            _ => vec![],
        };
        if let Some(argb) = st.first() {
            let s = slot(n).as_mut().unwrap();
            if out == Out::Panic {
                record(if TL.afired > 0 { "hctabort" } else { "panic" }, &req, &st, &[]);
            } else {
                record("ok", &req, &st, &[]);
            }
            s.recipe = x!("hint", *argb);
            return;
        }
    }
    let ok = finish(out, &req);
    if ok && put {
        store_put(op.at(1).i(), &req, &got, op.at(4).i());
    }
}

unsafe fn arm_op(e: &Epoch, tid: usize, i: usize) -> bool {
    let tl = &mut TL;
    tl.count = 0;
    tl.gcount = 0;
    tl.acount = 0;
    tl.cbcount = 0;
    tl.afired = 0;
    tl.cbfired = 0;
    tl.yields = 0;
    tl.futexes = 0;
    tl.afail_at = u64::MAX;
    tl.cbfail_at = u64::MAX;
    tl.ntrig = 0;
    tl.op = i as u32;
    tl.limit = e.limit as u64;
    tl.fair = FAIR_QUANTUM;
    let mut af = false;
    for v in &e.evs {
        if v.tid as usize != tid || v.op as usize != i {
            continue;
        }
        match v.kind.as_str() {
            "af" => {
                tl.afail_at = v.k.max(1) as u64;
                tl.afail_n = v.arg.max(1) as u64;
                af = true;
            }
            "cp" => tl.cbfail_at = v.k.max(1) as u64,
            k => {
                if tl.ntrig < MAXTRIG && v.k > 0 {
                    tl.trig[tl.ntrig] = Trig {
                        k: v.k as u64,
                        class: (k == "swg" || k == "crashg") as u8,
                        act: k.starts_with("crash") as u8,
                        arg: v.arg as u32,
                    };
                    tl.ntrig += 1;
                }
            }
        }
    }
    arm();
    af
}
unsafe fn thread_main(tid: usize) {
    TL = TL0;
    TL.tid = tid as u32;
    main_wake();
    park(tid);
    let e = &*PLAN_EPOCH;
    if tid == 0 && (ROUND == 0 || e.rounds > 0) {
        for (i, op) in e.setup.iter().enumerate() {
            arm_op(e, 9999, 100000 + i);
            TL.active = true;
            exec(op, false);
            TL.active = false;
        }
    }
    let times = if e.rounds > 1000 { e.rounds - 1000 } else { 1 };
    for rep in 0..times {
        if times > 1 {
            ROUND = rep;
            shm().store_len = 0;
        }
        let before = shm().steps;
        thread_ops(e, tid);
        // objects are dropped while the thread still counts as running
        for s in LOCAL.iter_mut() {
            *s = None;
        }
        if times > 1 {
            let v = [LIVE, (shm().steps - before) as i64, 0];
            record("round", "", &v, &[]);
        }
    }
    thread_done();
}
unsafe fn thread_ops(e: &Epoch, tid: usize) {
    for (i, op) in e.threads[tid].iter().enumerate() {
        // boundary decisions
        let mut crash = false;
        TL.op = i as u32;
        TL.count = 0;
        for v in &e.evs {
            if v.tid as usize == tid && v.op as usize == i && v.k == 0 {
                if v.kind == "sw" {
                    if yield_to(v.arg as usize) {
                        fire(F_BOUNDARY);
                    }
                } else if v.kind == "crash" {
                    crash = true;
                }
            }
        }
        if crash {
            fire(F_CRASH);
            die(2);
        }
        let af = arm_op(e, tid, i);
        TL.active = true;
        shm().inflight_afired[tid] = 0;
        exec(op, af);
        TL.active = false;
        TL.next = u64::MAX;
        TL.gnext = u64::MAX;
        TL.afail_at = u64::MAX;
        TL.cbfail_at = u64::MAX;
        shm().inflight_afired[tid] = 0;
        shm().steps += TL.count;
    }
}
unsafe fn child_epoch(e: &Epoch) -> ! {
    limits(40);
    PLAN_EPOCH = e;
    ENV_SEED = e.env as u64;
    CLOCK_MODE = e.clock as u64;
    NCPU = e.ncpu.max(1) as u64;
    LIMIT = e.limit as u64;
    TL = TL0;
    fresh_heap(e.heap as u64);
    let nt = e.threads.len();
    S.callers = nt;
    S.n = nt;
    let stored = shm().store_len;
    for r in 0..if e.rounds > 1000 { 1 } else { e.rounds.abs().max(1) } {
        ROUND = r;
        // bursts of new schemes in between
        SALT = if e.rounds < 0 && r + 1 < -e.rounds { (r as u64) << 40 } else { 0 };
        shm().store_len = stored;
        let before = shm().steps;
        let mut hs = vec![];
        for t in 0..nt {
            S.st[t] = St::Run;
            hs.push(std::thread::Builder::new().stack_size(4 << 20).spawn(move || unsafe { thread_main(t) }).unwrap());
            main_wait();
        }
        S.on = true;
        start_first(0);
        main_wait();
        S.on = false;
        if e.rounds.abs() > 1 && e.rounds < 1000 {
            // the threads end and everything is dropped; what is in use now is what stays
            for h in hs.drain(..) {
                let _ = h.join();
            }
            if e.rounds > 0 {
                for s in SHARED.iter_mut() {
                    *s = None;
                }
            }
            drop(hs);
            let left = (nt..S.n).filter(|t| S.st[*t] != St::Done).count() as i64;
            let v = [LIVE, (shm().steps - before) as i64, left];
            record("round", "", &v, &[]);
        }
    }
    ending();
    shm().status = 1;
    exit_now(0);
}
/// Effects that only show afterwards: buffered output, another panic hook.
unsafe fn ending() {
    use std::io::Write;
    ENDING = true;
    let _ = std::io::stdout().flush();
    let _ = std::panic::catch_unwind(|| std::panic::panic_any(Probe));
    if !PROBED.load(std::sync::atomic::Ordering::SeqCst) {
        shm().effect = 0;
        effect(4);
    }
    ENDING = false;
}
unsafe fn reset_shm(all: bool) {
    let m = shm();
    m.log_len = 0;
    m.status = 0;
    m.effect = 0;
    m.inflight_afired = [0; MAXT];
    m.hang_op = 0;
    m.hang_tid = 0;
    m.sched_hash = 0;
    m.sched_events = 0;
    m.statics = 0;
    m.fired = [0; NF];
    m.clock = 0;
    m.steps = 0;
    m.nsites = 0;
    if all {
        m.store_len = 0;
    }
}
fn parse_ints(s: &str) -> Ints {
    s.split(' ').filter(|t| !t.is_empty()).map(|t| t.parse().unwrap()).collect()
}
pub fn run_plan(p: &Plan) -> RunRes {
    let mut rr = RunRes::default();
    unsafe { reset_shm(true) };
    for (ei, e) in p.epochs.iter().enumerate() {
        let mut tries = 0;
        let saved = unsafe { (shm().store_len, shm().store[..shm().store_len].to_vec()) };
        let st = loop {
            unsafe { reset_shm(false) };
            let pid = unsafe { fork() };
            if pid == 0 {
                unsafe { child_epoch(e) };
            }
            let r = wait(pid);
            // a signal (other than by the code's own doing) may be the machine's: retry once
            if let Err(s) = r {
                if (s & 0x7f) == 14 || (s & 0x7f) == 9 {
                    tries += 1;
                    if tries <= 1 {
                        unsafe {
                            shm().store_len = saved.0;
                            shm().store[..saved.0].copy_from_slice(&saved.1);
                        }
                        continue;
                    }
                }
            }
            break r;
        };
        let m = unsafe { shm() };
        if m.status == 9 || m.status == 5 {
            rr.harness = Some(format!("simulator error (status {}) in epoch {}", m.status, ei));
            return rr;
        }
        let log = std::str::from_utf8(&m.log[..m.log_len]).unwrap_or("").to_string();
        let mut th = mix(m.sched_hash ^ 5);
        for l in log.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            if f[0] == "R" && f.len() == 11 {
                rr.recs.push(Rec {
                    epoch: ei,
                    tid: f[1].parse().unwrap(),
                    op: f[2].parse().unwrap(),
                    kind: f[3].to_string(),
                    steps: f[4].parse().unwrap(),
                    gs: f[5].parse().unwrap(),
                    allocs: f[6].parse().unwrap(),
                    cbs: f[7].parse().unwrap(),
                    req: f[8].to_string(),
                    resp: parse_ints(f[9]),
                    
                });
            } else if f[0] == "B" && f.len() == 4 {
                rr.recs.push(Rec { epoch: ei, tid: f[1].parse().unwrap(), op: f[2].parse().unwrap(), kind: "begin".into(), steps: 0, gs: 0, allocs: 0, cbs: 0, req: f[3].to_string(), resp: vec![] });
            }
            for b in l.bytes() {
                th = (th ^ b as u64).wrapping_mul(0x100000001b3);
            }
            th = mix(th);
        }
        if m.effect != 0 {
            rr.recs.push(Rec { epoch: ei, tid: m.effect_tid as usize, op: m.effect_op as usize, kind: "effect".into(), steps: 0, gs: 0, allocs: 0, cbs: 0, req: String::new(), resp: vec![m.effect as i64] });
        }
        for k in 0..NF {
            rr.fired[k] += m.fired[k];
        }
        for i in 0..m.nsites {
            rr.sites.push(m.sites[i]);
        }
        rr.sched = mix(rr.sched ^ m.sched_hash);
        rr.sched_events += m.sched_events;
        rr.statics += m.statics;
        rr.clock += m.clock + m.steps * 2;
        rr.steps += m.steps;
        rr.trace = mix(rr.trace ^ th ^ m.status as u64);
        rr.inflight_afired = m.inflight_afired.iter().any(|x| *x != 0);
        let ec = match st {
            Ok(()) => 0,
            Err(s) => s,
        };
        rr.status.push((m.status, ec, m.hang_tid as usize, m.hang_op as usize));
        if m.status != 1 && m.status != 2 && !rr.inflight_afired {
            break;
        }
        if m.status == 0 && ec == 0 {
            rr.harness = Some(format!("process of epoch {} ended without a status", ei));
            return rr;
        }
    }
    rr
}

// ------------------------------------------------------------------ the cold oracle
#[derive(Clone, Debug, PartialEq)]
pub enum Cold {
    Ok(Ints),
    Panic,
    Dead, // hangs or dies even alone
}
#[derive(Clone, Debug)]
pub struct ColdRes {
    pub out: Cold,
    pub steps: u64,
}
pub struct Oracle {
    memo: BTreeMap<(u64, u64), ColdRes>,
    pub asked: u64,
    pub forks: u64,
}
pub fn h2(s: &str) -> (u64, u64) {
    let (mut a, mut b) = (0xcbf29ce484222325u64, 0x9E3779B97F4A7C15u64);
    for c in s.bytes() {
        a = (a ^ c as u64).wrapping_mul(0x100000001b3);
        b = mix(b ^ c as u64);
    }
    (a, b)
}
impl Oracle {
    pub fn new() -> Oracle {
        Oracle { memo: BTreeMap::new(), asked: 0, forks: 0 }
    }
    pub fn ask(&mut self, req: &str) -> ColdRes {
        self.asked += 1;
        let k = h2(req);
        if let Some(r) = self.memo.get(&k) {
            return r.clone();
        }
        self.forks += 1;
        let mut r = cold(req);
        if r.out == Cold::Dead {
            r = cold(req);
        }
        if self.memo.len() > 400_000 {
            self.memo.clear();
        }
        self.memo.insert(k, r.clone());
        r
    }
}
fn cold(req: &str) -> ColdRes {
    unsafe {
        let (sl, ss, sf, se) = (shm().sched_hash, shm().steps, shm().fired, shm().sched_events);
        let sclock = shm().clock;
        let sn = shm().nsites;
        shm().log_len = 0;
        shm().status = 0;
        let seff = shm().effect;
        let pid = fork();
        if pid == 0 {
            limits(40);
            ENV_SEED = 0;
            TL = TL0;
            fresh_heap(0);
            let r = X::parse(req);
            // alone, but any threads of the library's own are under the scheduler here too
            S.n = 1;
            S.callers = 1;
            S.st[0] = St::Run;
            S.on = true;
            TL.active = true;
            TL.limit = 400_000_000;
            LIMIT = 400_000_000;
            arm();
            let out = guarded(|| {
                if r.head() == "on" && r.at(2).head() == "nofp" {
                    build(r.at(1));
                    vec![]
                } else {
                    eval(&r)
                }
            });
            let (c, a) = (TL.count, TL.acount);
            TL.active = false;
            S.on = false;
            let s = match out {
                Out::Ok(v) => format!("ok\t{}\t{}\t{}", c, a, ints_s(&v)),
                Out::Panic => format!("panic\t{}\t{}\t", c, a),
            };
            log(&s);
            shm().status = 1;
            exit_now(0);
        }
        let w = wait(pid);
        let m = shm();
        if m.status == 9 {
            eprintln!("sim: oracle cannot evaluate {}", req);
            std::process::exit(2);
        }
        let res = if w.is_ok() && m.status == 1 {
            let s = std::str::from_utf8(&m.log[..m.log_len]).unwrap();
            let f: Vec<&str> = s.split('\t').collect();
            ColdRes {
                out: if f[0] == "ok" { Cold::Ok(parse_ints(f[3])) } else { Cold::Panic },
                steps: f[1].parse().unwrap(),
            }
        } else {
            ColdRes { out: Cold::Dead, steps: 0 }
        };
        m.effect = seff;
        m.sched_hash = sl;
        m.steps = ss;
        m.fired = sf;
        m.sched_events = se;
        m.clock = sclock;
        m.nsites = sn;
        res
    }
}
