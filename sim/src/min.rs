//! Minimising a failing plan: drop epochs, threads, operations, schedule and fault events, shrink images.
use crate::check::*;
use crate::exec::*;
use crate::rt::real_now;
use crate::x;
use crate::x::X;

struct M<'a> {
    o: &'a mut Oracle,
    class: String,
    t0: f64,
    cap: f64,
    runs: u64,
    best: Plan,
    v: Viol,
    trace: u64,
}
impl<'a> M<'a> {
    fn over(&self) -> bool {
        self.runs > 600 || real_now() - self.t0 > self.cap
    }
    fn attempt(&mut self, p: Plan) -> bool {
        if self.over() || p == self.best {
            return false;
        }
        self.runs += 1;
        let rr = run_plan(&p);
        if rr.harness.is_some() {
            return false;
        }
        let mut ck = Checked { answers: 0, aborted: 0, skipped: 0 };
        match verify(&p, &rr, self.o, &mut ck) {
            Some(v) if v.class == self.class => {
                self.best = p;
                self.v = v;
                self.trace = rr.trace;
                true
            }
            _ => false,
        }
    }
}
fn nop() -> X {
    x!("nop")
}
pub fn minimise(p: &Plan, v: &Viol, o: &mut Oracle, cap: f64) -> (Plan, Viol, u64) {
    let mut m = M { o, class: v.class.clone(), t0: real_now(), cap, runs: 0, best: p.clone(), v: v.clone(), trace: 0 };
    for _round in 0..4 {
        let before = m.best.clone();
        // whole epochs
        let mut i = 0;
        while m.best.epochs.len() > 1 && i < m.best.epochs.len() {
            let mut q = m.best.clone();
            q.epochs.remove(i);
            if !m.attempt(q) {
                i += 1;
            }
        }
        for e in 0..m.best.epochs.len() {
            // all events, then halves, then one by one
            let mut size = m.best.epochs[e].evs.len();
            while size >= 1 {
                let mut s = 0;
                while s < m.best.epochs[e].evs.len() {
                    let mut q = m.best.clone();
                    let n = q.epochs[e].evs.len();
                    q.epochs[e].evs.drain(s..(s + size).min(n));
                    if !m.attempt(q) {
                        s += size;
                    }
                }
                size /= 2;
            }
            // threads: empty, then remove from the end
            for t in 0..m.best.epochs[e].threads.len() {
                let mut q = m.best.clone();
                for op in q.epochs[e].threads[t].iter_mut() {
                    *op = nop();
                }
                q.epochs[e].evs.retain(|v| v.tid as usize != t);
                m.attempt(q);
            }
            // operations
            for t in 0..m.best.epochs[e].threads.len() {
                let mut size = m.best.epochs[e].threads[t].len() / 2;
                while size >= 1 {
                    let mut s = 0;
                    while s < m.best.epochs[e].threads[t].len() {
                        let mut q = m.best.clone();
                        let n = q.epochs[e].threads[t].len();
                        let mut any = false;
                        for op in q.epochs[e].threads[t][s..(s + size).min(n)].iter_mut() {
                            if op.head() != "nop" {
                                *op = nop();
                                any = true;
                            }
                        }
                        if any {
                            m.attempt(q);
                        }
                        s += size;
                    }
                    size /= 2;
                }
            }
            let mut s = 0;
            while s < m.best.epochs[e].setup.len() {
                let mut q = m.best.clone();
                q.epochs[e].setup.remove(s);
                if !m.attempt(q) {
                    s += 1;
                }
            }
            // plain environment
            for f in [|q: &mut Epoch| q.heap = 0, |q: &mut Epoch| q.clock = 0, |q: &mut Epoch| q.ncpu = 4, |q: &mut Epoch| q.env = 0] {
                let mut q = m.best.clone();
                f(&mut q.epochs[e]);
                m.attempt(q);
            }
        }
        // squeeze out the nops
        let mut q = m.best.clone();
        for e in q.epochs.iter_mut() {
            for (t, ops) in e.threads.iter_mut().enumerate() {
                let mut map = vec![];
                let mut n = 0i64;
                for o in ops.iter() {
                    map.push(n);
                    if o.head() != "nop" {
                        n += 1;
                    }
                }
                for v in e.evs.iter_mut() {
                    if v.tid as usize == t && (v.op as usize) < map.len() {
                        v.op = map[v.op as usize];
                    }
                }
                ops.retain(|o| o.head() != "nop");
            }
            while e.threads.len() > 1 && e.threads.last().unwrap().is_empty() {
                e.threads.pop();
            }
        }
        m.attempt(q);
        // images
        let mut k = 0;
        while k < 40 {
            let mut q = m.best.clone();
            let mut n = 0;
            let mut hit = false;
            for e in q.epochs.iter_mut() {
                for op in e.setup.iter_mut().chain(e.threads.iter_mut().flatten()) {
                    shrink_img(op, k, &mut n, &mut hit);
                }
            }
            if !hit {
                break;
            }
            if !m.attempt(q) {
                k += 1;
            }
        }
        if m.best == before || m.over() {
            break;
        }
    }
    (m.best, m.v, m.trace)
}
fn shrink_img(x: &mut X, k: usize, n: &mut usize, hit: &mut bool) {
    if x.head() == "img" {
        if *n == k && x.at(3).i() > 1 {
            let h = x.at(3).i() / 2;
            x.lm()[3] = X::I(h);
            *hit = true;
        }
        if x.at(3).i() > 0 {
            *n += 1;
        }
        return;
    }
    if let X::L(v) = x {
        for e in v.iter_mut() {
            shrink_img(e, k, n, hit);
        }
    }
}
