//! Deciding a run: every answer in its history against the cold oracle, plus the axioms.
use crate::exec::*;
use crate::x;
use crate::x::X;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Viol {
    pub class: String, // what minimisation preserves
    pub text: String,
}
const COMMON: [i64; 13] = [0, 10, 20, 30, 40, 50, 60, 70, 80, 90, 95, 99, 100];

fn short(v: &[i64]) -> String {
    let mut s: Vec<String> = v.iter().take(12).map(|i| if *i > 0x00ff_ffff && *i <= 0xffff_ffff { format!("{:#x}", i) } else { i.to_string() }).collect();
    if v.len() > 12 {
        s.push(format!(".. {} values", v.len()));
    }
    s.join(" ")
}
fn readable(req: &str) -> String {
    let mut s = X::parse(req).readable();
    if s.len() > 400 {
        let mut n = 400;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        s.truncate(n);
        s.push_str(" ..");
    }
    s
}
pub struct Checked {
    pub answers: u64,
    pub aborted: u64,
    pub skipped: u64,
}

pub fn verify(p: &Plan, rr: &RunRes, o: &mut Oracle, ck: &mut Checked) -> Option<Viol> {
    let mut open: BTreeMap<(usize, usize), String> = BTreeMap::new();
    let mut first: Option<Viol> = None;
    for r in &rr.recs {
        let here = || format!("epoch {} thread {} op {}", r.epoch, r.tid, r.op);
        if r.kind == "begin" {
            open.insert((r.epoch, r.tid), r.req.clone());
            continue;
        }
        if r.kind == "round" {
            continue;
        }
        if r.kind == "effect" {
            // (what the runtime prints when a process has to be aborted is not the library's doing)
            if p.prop == "C26" && rr.status[r.epoch].0 == 1 {
                let what = crate::rt::EFFECTS[(r.resp[0] as usize).min(7)];
                let q = rr.recs.iter().filter(|x| (x.epoch, x.tid, x.op) == (r.epoch, r.tid, r.op) && x.kind == "begin").last().map(|x| readable(&x.req)).unwrap_or_default();
                return Some(Viol { class: "effect".into(), text: format!("{}: the library {} while asked {}", here(), what, q) });
            }
            continue;
        }
        open.remove(&(r.epoch, r.tid));
        if p.prop == "C26" {
            ck.answers += 1;
            continue;
        }
        let v = decide(p, r, o, ck).map(|(c, t)| Viol { class: c.to_string(), text: format!("{}: {}", here(), t) });
        if v.is_some() {
            first = v;
            break;
        }
    }
    if first.is_some() {
        return first;
    }
    if p.prop == "C26" {
        return None;
    }
    if let Some(v) = growth(rr, p.epochs.iter().any(|e| e.rounds < 0)) {
        return Some(v);
    }
    // how each process ended
    for (ei, (st, ec, tid, op)) in rr.status.iter().enumerate() {
        let inflight: Vec<(usize, String)> = open.range((ei, 0)..(ei + 1, 0)).map(|(k, v)| (k.1, v.clone())).collect();
        // (a request that waits for itself is blocked in a fresh process as well, and no better for it)
        let dead_alone = *st != 4 && inflight.iter().any(|(_, q)| !q.is_empty() && o.ask(q).out == Cold::Dead);
        if dead_alone || rr.inflight_afired {
            continue;
        }
        let what = match st {
            1 | 2 => continue,
            3 => ("hang", format!("no progress: no answer within {} million steps (or 30000 yields)", p.epochs[ei].limit / 1_000_000)),
            4 => ("deadlock", "every thread of the process is blocked".to_string()),
            _ => {
                let sig = ec & 0x7f;
                if sig == 14 || sig == 9 {
                    ("hang", "no answer within 40 s".to_string())
                } else {
                    ("died", format!("the process died (wait status {:#x})", ec))
                }
            }
        };
        let q = inflight.iter().find(|(t, _)| t == tid).or(inflight.first()).map(|(_, q)| readable(q)).unwrap_or_default();
        return Some(Viol { class: what.0.into(), text: format!("epoch {} thread {} op {}: {} while asking {}", ei, tid, op, what.1, q) });
    }
    None
}
/// Rounds of the same requests: what is in use and done afterwards must stop growing. The rounds
/// looked at double, so that something that grows by doubling its capacity shows at each of them.
/// With objects kept, what they hold may vary from round to round (they are asked for ever new
/// schemes), and has to stay bounded.
fn growth(rr: &RunRes, kept: bool) -> Option<Viol> {
    let rounds: Vec<&Rec> = rr.recs.iter().filter(|r| r.kind == "round").collect();
    if rounds.len() < 16 {
        return None;
    }
    let at = |k: usize| [8, 4, 2, 1].map(|d| rounds[rounds.len() / d - 1].resp[k]);
    let up = |v: &[i64; 4]| v[0] <= v[1] && v[1] < v[2] && v[2] < v[3];
    for (k, what) in [(0, "bytes in use"), (2, "threads alive")] {
        let v = at(k);
        if up(&v) && (!kept || (k == 0 && v[2] > v[1] + v[1] / 4 + 4096 && v[3] > v[2] + v[2] / 4 + 4096)) {
            return Some(Viol { class: "grow".into(), text: format!("repeating the same requests: {} after an eighth, a quarter, half and all of {} rounds, {}: {:?}", what, rounds.len(), if kept { "the same objects kept" } else { "everything dropped" }, v) });
        }
    }
    let v = at(1);
    if up(&v) && v[3] - v[2] > v[2] - v[1] && v[3] > v[0] + if kept { v[0] } else { v[0] / 25 } + 400 {
        return Some(Viol { class: "slower".into(), text: format!("repeating the same requests: steps in a round after an eighth, a quarter, half and all of {} rounds: {:?}", rounds.len(), v) });
    }
    None
}
fn decide(p: &Plan, r: &Rec, o: &mut Oracle, ck: &mut Checked) -> Option<(&'static str, String)> {
    match r.kind.as_str() {
        "abort" => {
            ck.aborted += 1;
            return None;
        }
        "bag" | "bagr" => {
            ck.answers += 1;
            if r.resp.len() != 6 {
                return Some(("bag", format!("hashed collection: {} panicked", readable(&r.req))));
            }
            let v = &r.resp;
            if v[0] != v[1] || v[1] != v[2] {
                return Some(("bag", format!("hashed collection: {}: lookup says {}, comparing with every member says {} (reversed {})", readable(&r.req), v[0], v[1], v[2])));
            }
            if v[3] != 1 {
                return Some(("bag", format!("{}: equal values with different hashes", readable(&r.req))));
            }
            if v[4] != 1 || v[5] != 1 {
                return Some(("bag", format!("hashed collection: {}: reflexive={} size consistent={}", readable(&r.req), v[4], v[5])));
            }
            return None;
        }
        _ => {}
    }
    let c = o.ask(&r.req);
    let rq = X::parse(&r.req);
    if r.kind == "hctabort" {
        // a setter that did not complete: the color is the old one or the new one
        ck.aborted += 1;
        ck.answers += 1;
        let old = o.ask(&x!("on", rq.at(1), x!("fp")).to_string()).out;
        if old == Cold::Dead || c.out == Cold::Dead {
            return None;
        }
        if old != Cold::Ok(r.resp.clone()) && c.out != Cold::Ok(r.resp.clone()) {
            return Some(("torn", format!("{} failed half-way (allocation failure) and left {}, which is neither the old color nor the new one", readable(&r.req), short(&r.resp))));
        }
        return None;
    }
    if c.out == Cold::Dead {
        ck.skipped += 1;
        return None;
    }
    ck.answers += 1;
    if r.kind == "panic" {
        if let Cold::Ok(v) = &c.out {
            return Some(("panic", format!("{} panicked; a fresh process answers {}", readable(&r.req), short(v))));
        }
        return None;
    }
    match &c.out {
        Cold::Ok(v) if *v != r.resp => {
            return Some(("answer", format!("{} answered {}; a fresh process answers {}", readable(&r.req), short(&r.resp), short(v))));
        }
        Cold::Panic => return Some(("answer", format!("{} answered {}; a fresh process panics", readable(&r.req), short(&r.resp)))),
        _ => {}
    }
    if p.prop == "C15" && r.steps > 20 * c.steps + 3_000_000 {
        return Some(("slow", format!("{} took {} steps; {} in a fresh process", readable(&r.req), r.steps, c.steps)));
    }
    axioms(&rq, r, o, p.prop == "C04")
}
fn lit(x: &X) -> Option<Vec<i64>> {
    match x {
        X::L(v) if v.iter().all(|e| matches!(e, X::I(_))) => Some(v.iter().map(|e| e.i()).collect()),
        _ => None,
    }
}
fn axioms(rq: &X, r: &Rec, o: &mut Oracle, tones: bool) -> Option<(&'static str, String)> {
    if rq.head() != "on" {
        return None;
    }
    let (rec, q) = (rq.at(1), rq.at(2));
    let bad = |t: &str| Some(("axiom", format!("{} answered {}: {}", readable(&r.req), short(&r.resp), t)));
    let want = match rec.head() {
        "plist" => 13,
        "clist" => 65,
        _ => 0,
    };
    if want > 0 {
        if let Some(l) = lit(rec.at(1)) {
            if l.len() != want {
                return bad("a stored list of the wrong length was accepted");
            }
            if q.head() == "aslist" && r.resp != l {
                return bad("the palette's list is not the list it was restored from");
            }
            let (pi, t) = match (want, q.head()) {
                (13, "get" | "clget" | "gethct") => (0, q.at(1).f()),
                (65, "get" | "gethct" | "gethctr") => (q.at(1).i(), q.at(2).f()),
                _ => (9, 0.0),
            };
            if pi < 5 {
                if let Some(i) = COMMON.iter().position(|c| *c as f64 == t) {
                    if r.resp.first() != Some(&l[pi as usize * 13 + i]) {
                        return bad("not the color that was stored for this tone");
                    }
                }
            }
        }
    }
    if tones && matches!(q.head(), "gethct" | "gethctr") {
        // whole-tone and fractional-tone query agree
        let core = matches!(rec.head(), "core" | "corec" | "clist");
        let t = q.at(if core { 2 } else { 1 }).f();
        if t.fract() == 0.0 {
            let g = if core { x!("get", q.at(1), t as i64) } else { x!("get", t as i64) };
            if let Cold::Ok(v) = o.ask(&x!("on", rec, g).to_string()).out {
                if v.first() != r.resp.first() {
                    return bad(&format!("the whole-tone query gives {}", short(&v)));
                }
            }
        }
    }
    match q.head() {
        "set" => {
            let f = x!("on", x!("hint", r.resp[0]), x!("fp")).to_string();
            if let Cold::Ok(v) = o.ask(&f).out {
                if v != r.resp {
                    return bad(&format!("the color's dimensions are not those of its ARGB, {}", short(&v)));
                }
            }
            if rec.head() == "hint" {
                let f = x!("pure", "hctset", rec.at(1), q.at(1), q.at(2)).to_string();
                if let Cold::Ok(v) = o.ask(&f).out {
                    if v != r.resp {
                        return bad(&format!("building the color afresh from the same hue, chroma and tone gives {}", short(&v)));
                    }
                }
            }
        }
        "eq" if r.resp[0] != r.resp[1] => return bad("equality is not symmetric"),
        "eqsrc" if r.resp != [1, 1] => return bad("the restored palette does not equal its source"),
        _ => {}
    }
    None
}
