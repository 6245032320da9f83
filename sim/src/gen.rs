//! Seeded generation: programs (what the caller threads ask for) and variants (schedules, faults,
//! environments) of a program. Every choice comes from one Rng.
use crate::exec::*;
use crate::obj::{PURE, ROLES};
use crate::rt::Rng;
use crate::x;
use crate::x::{ToX, X};
use std::collections::BTreeMap;

pub struct G<'a> {
    pub r: Rng,
    pub o: &'a mut Oracle,
    pool: Vec<i64>,
    hues: Vec<f64>,
    chromas: Vec<f64>,
    tones: Vec<f64>,
    odd: u64, // how rarely numbers are odd ones
}
const COMMON: [i64; 13] = [0, 10, 20, 30, 40, 50, 60, 70, 80, 90, 95, 99, 100];

impl<'a> G<'a> {
    pub fn new(r: Rng, o: &'a mut Oracle) -> G<'a> {
        let mut g = G { r, o, pool: vec![], hues: vec![], chromas: vec![], tones: vec![], odd: 30 };
        for _ in 0..3 {
            let c = g.color0();
            g.pool.push(c);
            let h = g.hue0();
            g.hues.push(h);
            let c = g.chroma0();
            g.chromas.push(c);
            let t = g.tone0();
            g.tones.push(t);
        }
        g
    }
    fn color0(&mut self) -> i64 {
        let r = &mut self.r;
        match r.below(12) {
            0 => *r.pick(&[0xffff0000i64, 0xff00ff00, 0xff0000ff, 0xff000000, 0xffffffff, 0xff4285f4, 0xff808080, 0xffffff00, 0xff00ffff]),
            1 => 0xff000000 | 0x010101 * r.below(256) as i64,
            2 => (r.below(256) as i64) << 24 | r.below(1 << 24) as i64,
            3 => 0xffffffff ^ r.below(1 << 24) as i64 & 0x070707,
            _ => 0xff000000 | r.below(1 << 24) as i64,
        }
    }
    pub fn color(&mut self) -> i64 {
        if self.r.chance(2, 5) {
            let c = *self.r.pick(&self.pool.clone());
            return self.near_c(c);
        }
        self.color0()
    }
    fn near_c(&mut self, c: i64) -> i64 {
        let r = &mut self.r;
        match r.below(6) {
            0 | 1 => c,
            2 => c ^ 1 << r.below(24),
            3 => c ^ 1 << (24 + r.below(8)),
            4 => (c & 0xff000000) | ((c & 0xffffff) + 1) & 0xffffff,
            _ => (c & !0xff0000ff) | (c & 0xff) << 24 | 0xff & (c >> 8),
        }
    }
    fn hue0(&mut self) -> f64 {
        let r = &mut self.r;
        match r.below(8) {
            0 => *r.pick(&[0.0, -0.0, 360.0, 359.9999999, 180.0, 90.0, 25.0, 270.0]),
            1 => r.range(0, 360) as f64,
            2 => r.range(0, 720) as f64 / 2.0,
            3 => r.f() * 1200.0 - 400.0,
            _ => r.f() * 360.0,
        }
    }
    fn chroma0(&mut self) -> f64 {
        let r = &mut self.r;
        match r.below(6) {
            0 => *r.pick(&[0.0, 4.0, 8.0, 16.0, 24.0, 36.0, 48.0, 84.0, 200.0, 0.5, 16.51]),
            1 => r.range(0, 130) as f64,
            2 => r.f() * 8.0,
            _ => r.f() * 120.0,
        }
    }
    fn tone0(&mut self) -> f64 {
        let r = &mut self.r;
        match r.below(8) {
            0 => *r.pick(&COMMON) as f64,
            1 | 2 => r.range(0, 100) as f64,
            3 => r.range(0, 200) as f64 / 2.0,
            4 => r.f() * 110.0 - 5.0,
            _ => r.f() * 100.0,
        }
    }
    pub fn near(&mut self, v: f64) -> f64 {
        let r = &mut self.r;
        let d = *r.pick(&[1e-13, 1e-10, 1e-8, 1e-6, 1e-5, 1e-4, 1e-3, 0.004, 0.01, 0.05, 0.1, 0.25, 0.4, 0.5, 0.75, 1.0, 2.0, 360.0]);
        match r.below(10) {
            0 => v,
            1 => v.round(),
            2 => v.floor(),
            3 => v.ceil(),
            4 => if v == 0.0 { -v } else { v * (1.0 + 1e-15) },
            5 | 6 => v - d,
            _ => v + d,
        }
    }
    pub fn hue(&mut self) -> f64 {
        if self.r.chance(1, 2) {
            let h = *self.r.pick(&self.hues.clone());
            return if self.r.chance(1, 3) { h } else { self.near(h) };
        }
        self.hue0()
    }
    pub fn chroma(&mut self) -> f64 {
        if self.r.chance(1, 2) {
            let h = *self.r.pick(&self.chromas.clone());
            return if self.r.chance(1, 3) { h } else { self.near(h).abs() };
        }
        self.chroma0()
    }
    pub fn tone(&mut self) -> f64 {
        if self.r.chance(1, 2) {
            let h = *self.r.pick(&self.tones.clone());
            return if self.r.chance(1, 3) { h } else { self.near(h) };
        }
        self.tone0()
    }
    fn contrast(&mut self) -> f64 {
        let r = &mut self.r;
        match r.below(4) {
            0 => *r.pick(&[0.0, -0.0, 0.5, 1.0, -1.0, 0.25, -0.5]),
            1 => *r.pick(&[0.0, 0.5, 1.0]) + *r.pick(&[1e-9, -1e-9, 1e-4, -1e-4, 0.01, 0.05]),
            2 => r.f() * 2.0 - 1.0,
            _ => 0.0,
        }
    }
    fn ask(&mut self, req: &X) -> Option<Vec<i64>> {
        match self.o.ask(&req.to_string()).out {
            Cold::Ok(v) => Some(v),
            _ => None,
        }
    }
    /// Two almost identical requests with different answers: one number of `req` is moved until
    /// the answer changes, and the change is closed in on by bisection.
    fn edge(&mut self, req: &X) -> Option<(X, X)> {
        let n = count_fl(req);
        if n == 0 {
            return None;
        }
        let k = self.r.below(n as u64) as usize;
        let v = get_fl(req, k, &mut 0)?;
        let with = |f: f64| {
            let mut o = req.clone();
            set_fl(&mut o, k, f, &mut 0);
            o
        };
        let a = self.ask(&with(v))?;
        let d = *self.r.pick(&[0.01, 0.1, 0.5, 1.0, 2.0]);
        let d = if self.r.chance(1, 2) { d } else { -d };
        let (mut lo, mut hi) = (v, v + d);
        if self.ask(&with(hi))? == a {
            hi = v + 8.0 * d;
            if self.ask(&with(hi))? == a {
                return None;
            }
        }
        let tol = *self.r.pick(&[1e-2, 1e-3, 1e-4, 1e-6, 1e-7, 1e-8, 1e-9, 1e-11]);
        for _ in 0..50 {
            let m = (lo + hi) / 2.0;
            if (hi - lo).abs() < tol || m == lo || m == hi {
                break;
            }
            if self.ask(&with(m))? == a {
                lo = m
            } else {
                hi = m
            }
        }
        let (p, q) = (with(lo), with(hi));
        Some(if self.r.chance(1, 2) { (p, q) } else { (q, p) })
    }
    /// a color a few steps away in one or two channels
    fn close_c(&mut self, c: i64) -> i64 {
        let mut c = c;
        for _ in 0..self.r.range(1, 2) {
            let sh = 8 * self.r.below(3);
            let v = ((c >> sh & 0xff) + self.r.range(-3, 3)).clamp(0, 255);
            c = c & !(0xff << sh) | v << sh;
        }
        c
    }
    // ---------------------------------------------------------------- recipes
    fn hct(&mut self) -> X {
        if self.r.chance(1, 2) { x!("hint", self.color()) } else { x!("hct", self.hue(), self.chroma(), self.tone()) }
    }
    fn pal(&mut self) -> X {
        match self.r.below(8) {
            0 => x!("fromhct", self.hct()),
            1 => {
                let p = x!("of", self.hue(), self.chroma());
                self.listed(&p)
            }
            2 => {
                let n: Vec<X> = (0..13).map(|_| self.color().x()).collect();
                x!("plist", X::L(n))
            }
            _ => x!("of", self.hue(), self.chroma()),
        }
    }
    /// the same palette, rebuilt from its list of colors
    fn listed(&mut self, p: &X) -> X {
        let q = if p.head().starts_with("core") || matches!(p.head(), "clist" | "tuned") { "clist" } else { "plist" };
        match self.ask(&x!("on", p, x!("aslist"))) {
            Some(v) => x!(q, X::ints(&v)),
            None => p.clone(),
        }
    }
    /// a palette that is almost, or should be, the same as `p`
    fn pal_twin(&mut self, p: &X) -> X {
        match (self.r.below(7), p.head()) {
            (0, _) => self.listed(p),
            (1, "of") => x!("of", self.near(p.at(1).f()), p.at(2)),
            (2, "of") => x!("of", p.at(1), self.near(p.at(2).f()).abs()),
            (3, "of") => {
                let l = self.listed(p);
                if let Some(f) = self.ask(&x!("on", &l, x!("fp"))) {
                    return x!("of", f64::from_bits(f[0] as u64), f64::from_bits(f[1] as u64));
                }
                l
            }
            (4, "fromhct") => {
                if let Some(f) = self.ask(&x!("on", p, x!("fp"))) {
                    return x!("of", f64::from_bits(f[0] as u64), f64::from_bits(f[1] as u64));
                }
                p.clone()
            }
            (_, "plist") => {
                let mut q = p.clone();
                let i = self.r.below(13) as usize;
                if let X::L(v) = &mut q.lm()[1] {
                    if i < v.len() {
                        v[i] = X::I(v[i].i() ^ 1 << self.r.below(24));
                    }
                }
                q
            }
            (5, "of") => p.clone(),
            _ => self.pal(),
        }
    }
    fn core(&mut self) -> X {
        match self.r.below(5) {
            0 => {
                let c = x!("core", self.color());
                self.listed(&c)
            }
            1 | 2 => x!("corec", self.color()),
            _ => x!("core", self.color()),
        }
    }
    fn core_twin(&mut self, c: &X) -> X {
        match self.r.below(4) {
            0 => self.listed(c),
            1 | 2 if c.head() == "tuned" => x!("tuned", self.core_twin(&c.at(1).clone()), c.at(2), c.at(3)),
            1 if c.head() != "clist" => x!(if c.head() == "core" { "corec" } else { "core" }, c.at(1)),
            2 if c.head() != "clist" => x!(c.head(), self.near_c(c.at(1).i())),
            _ => c.clone(),
        }
    }
    fn scheme(&mut self) -> X {
        if self.r.chance(2, 5) {
            let pals: Vec<X> = (0..5).map(|_| self.pal()).collect();
            let mut v = vec!["dyn".x(), self.color().x(), self.r.range(0, 8).x(), self.contrast().x(), self.r.range(0, 1).x()];
            v.extend(pals);
            if self.r.chance(1, 4) {
                let e = if self.r.chance(1, 2) { x!("of", 25.0, 84.0) } else { self.pal() };
                v.push(e);
            }
            return X::L(v);
        }
        // content/fidelity schemes build a temperature cache: slow, so rarer
        let k = if self.r.chance(1, 12) { self.r.range(5, 6) } else { *self.r.pick(&[0, 1, 2, 3, 4, 7, 8]) };
        x!("sch", k, x!("hint", self.color()), self.r.range(0, 1), self.contrast())
    }
    /// a scheme that differs from `s` in one respect only (or in none)
    fn scheme_twin(&mut self, s: &X) -> X {
        let mut t = s.clone();
        let k = self.r.below(10);
        if s.head() == "sch" {
            match k {
                0 | 1 => t.lm()[3] = X::I(1 - s.at(3).i()),
                2 | 3 | 4 => t.lm()[4] = X::F(self.contrast()),
                5 => t.lm()[2] = x!("hint", self.near_c(s.at(2).at(1).i())),
                6 => t.lm()[1] = X::I(*self.r.pick(&[0, 1, 2, 3, 4, 7, 8])),
                7 => {
                    // the same scheme assembled by hand from its parts
                    if let Some(f) = self.ask(&x!("on", s, x!("fp"))) {
                        let b = |i: usize| X::F(f64::from_bits(f[i] as u64));
                        let mut v = vec!["dyn".x(), X::I(f[0]), s.at(1).clone(), s.at(4).clone(), s.at(3).clone()];
                        for p in 0..5 {
                            v.push(x!("of", b(8 + p * 6), b(9 + p * 6)));
                        }
                        return X::L(v);
                    }
                }
                _ => {}
            }
        } else {
            match k {
                0 => t.lm()[4] = X::I(1 - s.at(4).i()),
                1 | 2 => t.lm()[3] = X::F(self.contrast()),
                3 => t.lm()[1] = X::I(self.near_c(s.at(1).i())),
                4 => t.lm()[2] = X::I(self.r.range(0, 8)),
                5 => {
                    if s.at(3).f() == 0.0 {
                        t.lm()[3] = X::F(-s.at(3).f())
                    }
                }
                6 | 7 | 8 => {
                    if s.l().len() > 10 && self.r.chance(1, 3) {
                        t.lm()[10] = self.pal_twin(&s.at(10).clone());
                        return t;
                    }
                    let i = 5 + self.r.below(5) as usize;
                    t.lm()[i] = self.pal_twin(&s.at(i).clone());
                }
                _ => {}
            }
        }
        t
    }
    fn dc(&mut self) -> X {
        if self.r.chance(2, 3) {
            x!("role", self.r.below(ROLES.len() as u64))
        } else {
            self.custom()
        }
    }
    fn custom(&mut self) -> X {
        let r = &mut self.r;
        let pair = if r.chance(1, 3) { r.range(1, 7) } else { 0 };
        let bg = if r.chance(2, 3) { r.range(1, 9) } else { 0 };
        let bg2 = if bg > 0 && r.chance(1, 3) { r.range(1, 9) } else { 0 };
        let (n, p, tk, isbg, cu) = (r.range(0, 6), r.range(0, 5), if r.chance(1, 4) { r.range(5, 8) } else { r.range(0, 4) }, r.chance(1, 3), if bg > 0 { r.range(0, 4) } else { 0 });
        let t = self.tone().clamp(0.0, 100.0);
        x!("custom", n, p, tk, t, isbg, bg, bg2, cu, pair)
    }
    // ---------------------------------------------------------------- queries
    fn pal_q(&mut self) -> X {
        let t = self.tone();
        match self.r.below(12) {
            0 | 1 | 2 | 3 => x!("get", t.round() as i64),
            4 | 5 | 6 | 7 => x!("gethct", if self.r.chance(1, 3) { t.round() } else { t }),
            8 => x!("aslist"),
            9 => x!("clget", t.round() as i64),
            10 => x!("fp"),
            _ => x!("str"),
        }
    }
    fn core_q(&mut self) -> X {
        let t = self.tone();
        match self.r.below(8) {
            0 | 1 | 2 => x!("get", self.r.range(0, 5), t.round() as i64),
            3 | 4 => x!("gethct", self.r.range(0, 5), if self.r.chance(1, 3) { t.round() } else { t }),
            5 => x!("aslist"),
            6 => x!("fp"),
            _ => x!("str"),
        }
    }
    fn temp_q(&mut self) -> X {
        match self.r.below(14) {
            0 => x!("warm"),
            1 => x!("cold"),
            2 => x!("comp"),
            3 | 4 => x!("irel"),
            5 | 6 => x!("ana", "none", "none"),
            7 => x!("ana", self.r.range(1, 9), self.r.range(1, 16)),
            8 => x!("ana", self.r.range(2, 6), *self.r.pick(&[6i64, 12, 24])),
            9 => x!("rel", self.color()),
            10 => x!("rel", self.r.range(0, 359) as f64),
            11 => x!("bytemp"),
            12 => x!("temps"),
            _ => x!("byhue"),
        }
    }
    fn sch_q(&mut self) -> X {
        match self.r.below(10) {
            0 => x!("fp"),
            1 => x!("palhct", self.r.range(0, 5), self.tone()),
            2 | 3 => x!("roledc", self.r.below(ROLES.len() as u64)),
            _ => x!("role", self.r.below(ROLES.len() as u64)),
        }
    }
    fn dc_q(&mut self, s: X) -> X {
        x!(*self.r.pick(&["argb", "argb", "hct", "hct", "tone", "via", "viah"]), s)
    }
    fn hct_q(&mut self) -> X {
        match self.r.below(8) {
            0 => x!("fp"),
            1 => x!("str"),
            2 => x!("invc", self.vc()),
            3 | 4 => self.setq(0),
            5 | 6 => self.setq(1),
            _ => self.setq(2),
        }
    }
    fn setq(&mut self, d: i64) -> X {
        if self.r.chance(1, 4) {
            // relative to the current value, mostly by very little
            let m = *self.r.pick(&[0.0, 1e-12, 1e-9, 1e-6, 1e-4, 1e-3, 0.01, 0.02, 0.05, 0.1, 0.25, 0.5, 1.0, 360.0, 180.0]);
            let m = if self.r.chance(1, 2) { m * self.r.f() } else { m };
            return x!("adj", d, if self.r.chance(1, 2) { m } else { -m });
        }
        match d {
            0 => x!("set", 0, self.hue()),
            1 => x!("set", 1, self.chroma()),
            _ => x!("set", 2, self.tone()),
        }
    }
    /// many tones in a row: long histories for caches that grow, fill up or are trimmed
    fn sweep(&mut self) -> (i64, i64, i64) {
        let r = &mut self.r;
        let n = *r.pick(&[8i64, 12, 20, 30, 50, 101, 140]);
        match r.below(4) {
            0 => (0, n, 1),
            1 => (r.range(0, 60), n, 1),
            2 => (100, n, -1),
            _ => (r.range(-20, 50), n, r.range(1, 3)),
        }
    }
    fn many(&mut self, name: &str) -> X {
        let n = match name {
            "scheme" | "legacy" => self.r.range(2, 8),
            "keycolor" | "fix" => *self.r.pick(&[5i64, 20, 40]),
            _ => *self.r.pick(&[5i64, 20, 40, 70, 150, 300, 300, 1100, 2500]),
        };
        x!("pure", "many", name, n, self.r.below(1 << 30))
    }
    /// a burst, then some of its requests again, one at a time
    fn burst(&mut self, ops: &mut Vec<X>, name: &str) {
        let m = self.many(name);
        ops.push(m.clone());
        if name != "scheme" && name != "legacy" {
            let n = m.at(3).i();
            for _ in 0..self.r.below(6) {
                let i = self.r.below(n as u64) as i64;
                ops.push(crate::obj::burst_item(name, m.at(4).i(), i));
            }
        }
    }
    fn tune(&mut self, slot: i64) -> X {
        match self.r.below(8) {
            0 | 1 => x!("tune", slot, 0, self.contrast()),
            2 => x!("tune", slot, 1, self.r.range(0, 1)),
            3 => x!("tune", slot, 2, self.r.range(0, 8)),
            4 => x!("tune", slot, 3, self.color()),
            _ => x!("tune", slot, self.r.range(4, 9), self.pal()),
        }
    }
    fn vc(&mut self) -> X {
        if self.r.chance(1, 4) {
            return x!("vcdef");
        }
        let r = &mut self.r;
        let wp = r.chance(1, 3);
        let mut v = vec!["vc".x()];
        for w in [95.047, 100.0, 108.883] {
            v.push(if wp { (w + r.range(-2, 2) as f64).x() } else { "none".x() });
        }
        let al = *r.pick(&[11.72, 200.0, 0.0, 40.0, 11.725676, 1.0]);
        v.push(if r.chance(1, 2) { al.x() } else { "none".x() });
        let bl = *r.pick(&[50.0, 30.0, 0.0, 100.0, 50.001, 49.0]);
        v.push(if r.chance(1, 2) { bl.x() } else { "none".x() });
        let su = *r.pick(&[2.0, 1.0, 0.0, 1.5, 1.999]);
        v.push(if r.chance(1, 2) { su.x() } else { "none".x() });
        v.push(if r.chance(1, 2) { r.range(0, 1).x() } else { "none".x() });
        X::L(v)
    }
    fn pure_q(&mut self, heavy: bool) -> X {
        loop {
            let (n, sig) = *self.r.pick(PURE);
            if !heavy && (n == "scheme" || n == "legacy") {
                continue;
            }
            let mut v = vec!["pure".x(), n.x()];
            for k in sig.chars() {
                v.push(match k {
                    'c' => self.color().x(),
                    'h' => self.hue().x(),
                    'k' => self.chroma().x(),
                    't' => self.tone().x(),
                    'r' => (1.0 + self.r.f() * if self.r.chance(1, 5) { 21.0 } else { 8.0 }).x(),
                    'u' => (*self.r.pick(&[0.0, 1.0, 0.5, self.r.clone().f()])).x(),
                    'n' => self.r.range(0, 8).x(),
                    'm' => (if self.r.chance(1, 20) { self.r.range(5, 6) } else { *self.r.pick(&[0i64, 1, 2, 3, 4, 7, 8]) }).x(),
                    'z' => self.contrast().x(),
                    'b' => self.r.range(0, 255).x(),
                    'v' => self.vc(),
                    'l' => (self.r.f() * 160.0 - 80.0).x(),
                    'd' => (self.r.f() * 2000.0 - 1000.0).x(),
                    'i' => self.r.range(-1000, 1000).x(),
                    'x' => (self.r.f() * 100.0).x(),
                    _ => unreachable!(),
                });
            }
            if self.r.chance(1, self.odd) {
                // no number one should ask with, but one gets the same answer every time
                let fs: Vec<usize> = (2..v.len()).filter(|i| matches!(v[*i], X::F(_))).collect();
                if !fs.is_empty() {
                    let i = *self.r.pick(&fs);
                    v[i] = X::F(*self.r.pick(&[f64::NAN, f64::NAN, f64::INFINITY, -0.0, 5e-324, 1e300, -1.0]));
                }
            }
            return X::L(v);
        }
    }
    /// the same request with one number changed a little
    fn mutate(&mut self, op: &X) -> X {
        let mut o = op.clone();
        let n = count_nums(&o);
        if n > 0 {
            let k = self.r.below(n as u64) as usize;
            let mut i = 0;
            self.mut_at(&mut o, k, &mut i);
        }
        o
    }
    fn mut_at(&mut self, x: &mut X, k: usize, i: &mut usize) {
        match x {
            X::L(v) => {
                for e in v {
                    self.mut_at(e, k, i);
                }
            }
            X::I(n) => {
                if *i == k {
                    *n = if *n > 0xffff { self.near_c(*n) } else { (*n + self.r.range(-1, 1)).max(0) };
                }
                *i += 1;
            }
            X::F(f) => {
                if *i == k {
                    *f = self.near(*f);
                }
                *i += 1;
            }
            _ => {}
        }
    }
    fn img(&mut self, small: bool) -> X {
        let r = &mut self.r;
        let kind = r.range(0, 9);
        let nc = match r.below(4) {
            0 => r.range(1, 5),
            1 => r.range(3, 16),
            2 => r.range(8, 60),
            _ => r.range(2, if small { 40 } else { 300 }),
        };
        let n = match r.below(5) {
            0 => r.range(1, 12),
            1 | 2 => r.range(8, 120),
            3 => r.range(50, 400),
            _ => r.range(20, if small { 300 } else { 1500 }),
        };
        let n = if kind == 1 && n > 300 { n / 3 } else { n };
        if !small && r.chance(1, 10) {
            // a photo-sized picture of few colors
            let k = *r.pick(&[0i64, 2, 3, 4, 5, 6, 8]);
            return x!("img", k, r.below(1 << 30), *r.pick(&[33000i64, 66000, 131100, 263000]), r.range(2, 40), 0, 0);
        }
        if !small && r.chance(1, 3) {
            // a large picture of few colors
            let k = *r.pick(&[0i64, 2, 3, 4, 5, 6, 8]);
            return x!("img", k, r.below(1 << 30), r.range(2000, 20000), r.range(2, 60), 0, 0);
        }
        x!("img", kind, r.below(1 << 30), n, nc, 0, 0)
    }
    fn img_twin(&mut self, i: &X) -> X {
        let mut t = i.clone();
        match self.r.below(4) {
            0 => t.lm()[5] = X::I(self.r.range(1, 1 << 20)),
            1 => t.lm()[6] = X::I(self.r.range(1, 1 << 20)),
            2 => t.lm()[3] = X::I((i.at(3).i() + self.r.range(-1, 1)).max(1)),
            _ => {}
        }
        t
    }
    fn maxc(&mut self) -> i64 {
        match self.r.below(8) {
            0 => self.r.range(1, 3),
            1 => 16,
            2 => self.r.range(17, 40),
            _ => self.r.range(2, 9),
        }
    }
    fn score_map(&mut self) -> X {
        let r = &mut self.r;
        let n = match r.below(16) {
            0 if r.chance(1, 2) => r.range(100, 300),
            0..=3 => r.range(1, 3),
            4..=8 => r.range(2, 8),
            9..=12 => r.range(5, 30),
            _ => r.range(21, 64),
        } as usize;
        let popmode = r.below(7);
        let mut v: Vec<X> = vec![];
        let mut keys: Vec<i64> = vec![];
        for i in 0..n {
            let c = if i > 0 && self.r.chance(1, 3) {
                // the same or nearly the same color under another key
                let k = *self.r.pick(&keys.clone());
                match self.r.below(3) {
                    0 => (k & 0xffffff) | (self.r.below(256) as i64) << 24,
                    1 => k ^ 1 << self.r.below(24),
                    _ => (k & 0xff000000) | (k & 0xff) << 16 | (k & 0xff00) | (k >> 16 & 0xff),
                }
            } else if self.r.chance(1, 6) {
                0xff000000 | 0x010101 * self.r.below(256) as i64
            } else {
                self.color()
            };
            if keys.contains(&c) {
                continue;
            }
            keys.push(c);
            let p = match popmode {
                0 => 0,
                1 => 1,
                2 => 100,
                3 => self.r.range(0, 1),
                4 => if i == 0 { 99 * n as i64 } else { 1 },
                5 => self.r.range(1, 1000),
                _ => self.r.range(1, 3) * 50,
            };
            v.push(X::I(c));
            v.push(X::I(p));
        }
        X::L(v)
    }
    fn score_q(&mut self, m: &X) -> X {
        let d = match self.r.below(3) {
            0 => "none".x(),
            _ => self.r.range(1, 8).x(),
        };
        let fbk = if self.r.chance(1, 4) { self.color().x() } else { "none".x() };
        let fl = if self.r.chance(1, 2) { "none".x() } else { self.r.range(0, 1).x() };
        x!("pure", "score", m, d, fbk, fl)
    }
}
fn count_fl(x: &X) -> usize {
    match x {
        X::L(v) => v.iter().map(count_fl).sum(),
        X::F(_) => 1,
        _ => 0,
    }
}
fn get_fl(x: &X, k: usize, i: &mut usize) -> Option<f64> {
    match x {
        X::L(v) => v.iter().find_map(|e| get_fl(e, k, i)),
        X::F(f) => {
            *i += 1;
            if *i == k + 1 { Some(*f) } else { None }
        }
        _ => None,
    }
}
fn set_fl(x: &mut X, k: usize, v: f64, i: &mut usize) {
    match x {
        X::L(l) => l.iter_mut().for_each(|e| set_fl(e, k, v, i)),
        X::F(f) => {
            if *i == k {
                *f = v;
            }
            *i += 1;
        }
        _ => {}
    }
}
fn count_nums(x: &X) -> usize {
    match x {
        X::L(v) => v.iter().map(count_nums).sum(),
        X::S(_) => 0,
        _ => 1,
    }
}

#[derive(Clone, Default)]
pub struct Faults {
    pub sw: bool,
    pub crash: bool,
    pub af: bool,
    pub cp: bool,
    pub must: &'static str, // a fault kind that makes the run count
}
fn nthreads(g: &mut G) -> usize {
    *g.r.pick(&[1usize, 2, 2, 3, 3, 4])
}
fn len(g: &mut G, a: i64, b: i64) -> usize {
    g.r.range(a, b) as usize
}

/// A program for the property: epochs with operations, no schedule and no faults yet.
pub fn program(prop: &str, g: &mut G) -> (Plan, Faults) {
    let mut p = Plan { prop: prop.to_string(), epochs: vec![] };
    let mut f = Faults { sw: true, ..Default::default() };
    match prop {
        "C01" => c01(g, &mut p, false),
        "C02" => c02(g, &mut p),
        "C03" => {
            f.crash = true;
            c03(g, &mut p)
        }
        "C04" => c04(g, &mut p),
        "C05" => {
            f.crash = true;
            c05(g, &mut p)
        }
        "C06" => c06(g, &mut p, false),
        "C07" => c07(g, &mut p),
        "C08" => c08(g, &mut p),
        "C09" => c09(g, &mut p, false),
        "C10" => {
            f.af = true;
            f.must = "af";
            c10(g, &mut p)
        }
        "C11" => {
            f.af = true;
            f.must = "af";
            c09(g, &mut p, true)
        }
        "C12" => {
            f.cp = true;
            f.must = "cp";
            c06(g, &mut p, true)
        }
        "C13" => c13(g, &mut p),
        "C14" => c14(g, &mut p),
        "C15" => {
            f.af = true;
            f.cp = true;
            f.crash = true;
            c15(g, &mut p)
        }
        "C25" => {
            f.af = true;
            f.cp = true;
            if g.r.chance(1, 6) {
                kept(g, &mut p);
            } else if g.r.chance(1, 3) {
                // a tour of the stateless functions, with unusual numbers
                g.odd = 2;
                let mut e = epoch(g);
                e.threads.push((0..40).map(|_| g.pure_q(false)).collect());
                e.rounds = *g.r.pick(&[16i64, 1016, 1016]);
                p.epochs.push(e);
            } else {
                g.odd = 5;
                let light = g.r.chance(1, 2);
                if light {
                    c14(g, &mut p);
                } else {
                    mixed(g, &mut p);
                }
                repeated(&mut p, if light { 24 } else { 6 });
                if g.r.chance(1, 3) {
                    // all the rounds on one thread
                    let e = &mut p.epochs[0];
                    e.threads.retain(|t| !t.is_empty());
                    e.threads.truncate(1);
                    e.rounds = 1016;
                }
            }
        }
        "C26" => {
            f.af = true;
            f.cp = true;
            g.odd = *g.r.pick(&[4u64, 30]);
            match g.r.below(48) {
                0 => c01(g, &mut p, true),
                1 => c03(g, &mut p),
                _ => mixed(g, &mut p),
            }
        }
        _ => panic!("sim: no property {}", prop),
    }
    if g.r.chance(1, 6) {
        echo(g, &mut p);
    }
    (p, f)
}
/// All threads keep asking the same two or three things: what one leaves behind, another finds.
fn echo(g: &mut G, p: &mut Plan) {
    let can = |o: &X| (o.head() == "pure" && !o.at(1).s().starts_with("many")) || (o.head() == "q" && o.at(2).head() != "set" && o.at(2).head() != "adj");
    for e in p.epochs.iter_mut() {
        let all: Vec<X> = e.threads.iter().flatten().filter(|o| can(o)).cloned().collect();
        if all.is_empty() {
            continue;
        }
        let mut pool: Vec<X> = vec![];
        for _ in 0..g.r.range(2, 3) {
            pool.push(g.r.pick(&all).clone());
        }
        // prefer what threads share to what each has of its own
        for o in all.iter() {
            if g.r.chance(1, 8) && (o.head() == "pure" || o.at(1).i() >= 16) {
                pool[0] = o.clone();
            }
        }
        // two requests that differ in one respect: what is half of one and half of the other shows
        if pool[0].head() == "pure" && g.r.chance(1, 2) {
            pool.truncate(1);
            let o = g.mutate(&pool[0].clone());
            pool.push(o);
        }
        for t in e.threads.iter_mut() {
            for o in t.iter_mut() {
                if can(o) && g.r.chance(4, 5) {
                    *o = g.r.pick(&pool).clone();
                }
            }
        }
    }
}
/// A short program in which threads contend for what one operation of the program touched.
pub fn duel(base: &Plan, pf: &Profile, g: &mut G) -> Plan {
    let at: Vec<_> = pf.iter().filter(|(_, v)| v.1 > 0).map(|(k, _)| *k).collect();
    if at.is_empty() {
        return base.clone();
    }
    let (ei, t, op) = *g.r.pick(&at);
    let old = &base.epochs[ei];
    let Some(o) = old.threads.get(t).and_then(|t| t.get(op)).cloned() else { return base.clone() };
    let mut e = old.clone();
    e.evs.clear();
    e.threads.clear();
    let nt = g.r.range(2, 3);
    match o.head() {
        "pure" => {
            let mut pool = vec![o.clone(), if o.at(1).s().starts_with("many") { o.clone() } else { g.mutate(&o) }];
            if g.r.chance(1, 3) {
                pool.push(g.mutate(&o));
            }
            for _ in 0..nt {
                e.threads.push((0..g.r.range(2, 7)).map(|_| g.r.pick(&pool).clone()).collect());
            }
        }
        "new" => {
            let q = o.at(2).clone();
            for _ in 0..nt {
                let mut ops = vec![];
                for _ in 0..g.r.range(2, 6) {
                    let w = match q.head() {
                        _ if g.r.chance(1, 2) => q.clone(),
                        "core" | "corec" | "clist" => g.core_twin(&q),
                        "sch" | "dyn" => g.scheme_twin(&q),
                        "of" | "fromhct" | "plist" => g.pal_twin(&q),
                        "hint" => x!("hint", g.near_c(q.at(1).i())),
                        _ => q.clone(),
                    };
                    ops.push(x!("new", o.at(1), w));
                }
                e.threads.push(ops);
            }
        }
        _ => {
            // threads like that one, which ask only a few things
            let own = &old.threads[t];
            let mut pool = vec![o.clone()];
            for _ in 0..g.r.range(1, 2) {
                let k = *g.r.pick(&at);
                if k.0 == ei && k.1 == t && own[k.2].head() == o.head() {
                    pool.push(own[k.2].clone());
                }
            }
            for _ in 0..nt {
                let mut ops: Vec<X> = own[..op].iter().filter(|o| o.head() == "new").cloned().collect();
                for _ in 0..g.r.range(2, 6) {
                    ops.push(g.r.pick(&pool).clone());
                }
                e.threads.push(ops);
            }
        }
    }
    Plan { prop: base.prop.clone(), epochs: vec![e] }
}
fn epoch(g: &mut G) -> Epoch {
    Epoch::new(g.r.u())
}
fn c01(g: &mut G, p: &mut Plan, photo: bool) {
    let mut e = epoch(g);
    let nt = *g.r.pick(&[1usize, 1, 2, 2, 3]);
    let big = g.r.chance(1, 8);
    let mut a = g.img(!big && !photo);
    if photo {
        // larger and smaller than thresholds one may think of
        a = x!("img", *g.r.pick(&[0i64, 2, 3, 4, 5, 6, 8]), g.r.below(1 << 30), *g.r.pick(&[33000i64, 66000, 131100, 263000, 1100000]), g.r.range(2, 12), 0, 0);
    }
    let b = if g.r.chance(1, 2) { g.img_twin(&a) } else { g.img(true) };
    let imgs = [a, b];
    let mx = if g.r.chance(1, 20) { *g.r.pick(&[64i64, 128, 256]) } else { g.maxc() };
    let burst = g.r.chance(1, 4);
    for _ in 0..nt {
        let mut ops = vec![x!("new", 0, x!("wu")), x!("new", 1, x!("celebi")), x!("new", 2, x!("map"))];
        for _ in 0..len(g, 2, 5) {
            let im = g.r.pick(&imgs).clone();
            let m = if g.r.chance(2, 3) { mx } else { g.maxc() };
            let wm = g.r.range(0, 1);
            if burst && g.r.chance(1, 4) {
                if g.r.chance(1, 2) {
                    ops.push(x!("pure", "manywsm", g.r.range(2, 8), g.r.below(1 << 30), 1));
                } else {
                    ops.push(x!("pure", "manywsm", *g.r.pick(&[3i64, 10, 40]), g.r.below(1 << 30)));
                }
            }
            match g.r.below(10) {
                0..=4 => ops.push(x!("q", 1, x!("quant", im, m, wm))),
                5 | 6 => ops.push(x!("q", 0, x!("quant", im, m, wm))),
                7 => ops.push(x!("q", 2, x!("quant", im, m, wm))),
                _ => {
                    let st: X = match g.r.below(4) {
                        0 => "none".x(),
                        3 => {
                            // next to each other
                            let c = g.color();
                            X::L((0..g.r.range(2, 5)).map(|_| X::I(if g.r.chance(1, 3) { c } else { g.near_c(c) })).collect())
                        }
                        1 => X::L((0..g.r.range(0, 6)).map(|_| g.color().x()).collect()),
                        _ => {
                            let n = g.r.range(1, 4);
                            X::L((0..n).map(|_| X::I(0xff000000 | g.r.below(1 << 24) as i64)).collect())
                        }
                    };
                    // starting clusters may not outnumber the clusters
                    let ns = if let X::L(v) = &st { v.len() as i64 } else { 0 };
                    let it = if g.r.chance(1, 2) { "none".x() } else { g.r.range(0, 12).x() };
                    ops.push(x!("pure", "wsm", im, m.max(ns), st, it, wm))
                }
            }
        }
        e.threads.push(ops);
    }
    p.epochs.push(e);
}
fn c02(g: &mut G, p: &mut Plan) {
    let mut e = epoch(g);
    let m1 = g.score_map();
    let m2 = if g.r.chance(1, 2) { g.mutate(&m1) } else { g.score_map() };
    let im = g.img(true);
    let burst = g.r.chance(1, 5);
    for _ in 0..nthreads(g) {
        let mut ops = vec![];
        for _ in 0..len(g, 3, 10) {
            if burst && g.r.chance(1, 4) {
                ops.push(x!("pure", "manyscore", *g.r.pick(&[3i64, 10, 40, 150]), g.r.below(1 << 30)));
                continue;
            }
            let q = match g.r.below(8) {
                0..=4 => g.score_q(&m1),
                5 | 6 => g.score_q(&m2),
                _ => {
                    let mp = x!("of", x!("on", x!("map"), x!("quant", &im, 8, 0)));
                    g.score_q(&mp)
                }
            };
            ops.push(q);
        }
        e.threads.push(ops);
    }
    p.epochs.push(e);
}
fn c03(g: &mut G, p: &mut Plan) {
    // stage 1 quantize and store, stage 2 score and store, stage 3 theme; a crash can hit anywhere
    let im = g.img(true);
    let tw = g.img_twin(&im);
    let ims = [im.clone(), im, tw];
    let mx = if g.r.chance(1, 20) { *g.r.pick(&[64i64, 128]) } else { g.maxc().max(3) };
    let kind = *g.r.pick(&[0i64, 1, 2, 3, 4, 7, 8, 2, 2, 6, 5]);
    let (dark, con) = (g.r.range(0, 1), g.contrast());
    let ne = len(g, 2, 3);
    // slides: pictures (and stored rankings) of one color each, close together, in various settings
    let slides = g.r.chance(1, 2);
    let base = g.color0() | 0xff000000;
    for _ in 0..ne {
        let mut e = epoch(g);
        for _ in 0..*g.r.pick(&[1usize, 1, 2]) {
            let mut ops = vec![];
            if slides {
                for _ in 0..len(g, 2, 6) {
                    if g.r.chance(1, 12) {
                        let m = g.many("scheme");
                        ops.push(m);
                        continue;
                    }
                    let c = match g.r.below(8) {
                        0 => base,
                        1..=4 => {
                            let d = g.r.range(-6, 6) << (8 * g.r.below(3));
                            0xff000000 | (base + d) & 0xffffff
                        }
                        5 => 0xff000000 | g.near_c(base) & 0xffffff,
                        _ => g.color(),
                    };
                    let kk = if g.r.chance(1, 5) { *g.r.pick(&[0i64, 1, 2, 3, 4, 7, 8, 6]) } else { kind };
                    let dk = if g.r.chance(1, 4) { 1 - dark } else { dark };
                    let cn = if g.r.chance(1, 5) { g.contrast() } else { con };
                    if g.r.chance(1, 3) {
                        let mut px: Vec<X> = (0..g.r.range(1, 6)).map(|_| X::I(c)).collect();
                        if g.r.chance(1, 3) {
                            let o = g.color() | 0xff000000;
                            px.push(X::I(o));
                        }
                        ops.push(x!("pure", "theme", X::L(px), mx, 4, kk, dk, cn));
                    } else {
                        ops.push(x!("pure", "themes", X::L(vec![X::I(c)]), kk, dk, cn));
                    }
                }
            }
            for _ in 0..len(g, 1, 4) {
                let k = g.r.range(0, 1);
                let im = g.r.pick(&ims).clone();
                match g.r.below(6) {
                    0 | 1 => ops.push(x!("pure", "theme", im, mx, 4, kind, dark, con)),
                    2 | 3 => ops.push(x!("putp", k, -1, x!("pure", "wsmc", im, mx))),
                    4 => ops.push(x!("pure", "themeq", x!("key", k), 4, kind, dark, con)),
                    _ => {
                        ops.push(x!("putp", k + 10, -1, x!("pure", "score", x!("key", k), 4, "none", "none")));
                        ops.push(x!("pure", "themes", x!("key", k + 10), kind, dark, con));
                    }
                }
            }
            // wsmc is shorthand for celebi on a fresh quantizer
            for o in ops.iter_mut() {
                if o.head() == "putp" && o.at(3).at(1) == &X::S("wsmc".into()) {
                    let (i, m) = (o.at(3).at(2).clone(), o.at(3).at(3).clone());
                    let key = o.at(1).clone();
                    *o = x!("putp", key, -1, x!("on", x!("celebi"), x!("quant", i, m, 0)));
                }
            }
            e.threads.push(ops);
        }
        p.epochs.push(e);
    }
    // after the last restart: everything stored must still lead to the theme of the whole pipeline
    let mut e = epoch(g);
    let mut ops = vec![];
    for k in 0..2 {
        ops.push(x!("pure", "themeq", x!("key", k), 4, kind, dark, con));
        ops.push(x!("pure", "themes", x!("key", k + 10), kind, dark, con));
    }
    ops.push(x!("pure", "theme", &ims[0], mx, 4, kind, dark, con));
    e.threads.push(ops);
    p.epochs.push(e);
}
fn c04(g: &mut G, p: &mut Plan) {
    let mut e = epoch(g);
    let base = g.pal();
    let mut recs = vec![base.clone()];
    for _ in 0..3 {
        let t = if g.r.chance(2, 3) { g.pal_twin(&base) } else { g.pal() };
        recs.push(t);
    }
    let mut tones: Vec<f64> = vec![];
    if g.r.chance(1, 8) {
        // palettes, or tones, on either side of a change of color
        let q = if g.r.chance(1, 2) { x!("aslist") } else { x!("gethct", g.tone()) };
        if let Some((a, b)) = g.edge(&x!("on", &base, q)) {
            for z in [a, b] {
                recs.insert(0, z.at(1).clone());
                if z.at(2).head() == "gethct" {
                    tones.push(z.at(2).at(1).f());
                }
            }
        }
    }
    let core = g.core();
    let ctw = g.core_twin(&core);
    // shared: locked palettes 16,17, core 18; read-only palettes 32,33
    for (i, n) in [16, 17, 32, 33].iter().enumerate() {
        e.setup.push(x!("new", *n, &recs[i % recs.len()]));
    }
    e.setup.push(x!("new", 18, &core));
    let long = g.r.chance(1, 8);
    let burst = g.r.chance(1, 4);
    for _ in 0..nthreads(g) {
        let mut ops = vec![x!("new", 0, g.r.pick(&recs).clone()), x!("new", 1, g.r.pick(&recs).clone())];
        let n = if long { len(g, 60, 160) } else { len(g, 5, 30) };
        for _ in 0..n {
            let s = *g.r.pick(&[0i64, 0, 0, 1, 1, 2, 16, 17]);
            if burst && g.r.chance(1, 6) {
                let (a, n, st) = g.sweep();
                ops.push(if g.r.chance(1, 4) { x!("q", 18, x!("sweep", g.r.range(0, 5), a, n, st)) } else { x!("q", s, x!("sweep", a, n, st)) });
                continue;
            }
            match g.r.below(20) {
                0 => ops.push(x!("new", g.r.range(0, 1), g.r.pick(&recs).clone())),
                1 => ops.push(x!("clone", *g.r.pick(&[2i64, 1, 16]), *g.r.pick(&[0i64, 16, 32, 17]))),
                2 => ops.push(x!("q", s, x!("eq", g.r.pick(&recs).clone()))),
                3 => ops.push(x!("q", *g.r.pick(&[32i64, 33]), x!("gethct", g.tone()))),
                4 => ops.push(x!("q", *g.r.pick(&[32i64, 33]), x!("clget", g.tone().round() as i64))),
                5 | 6 => ops.push(x!("q", 18, g.core_q())),
                7 if g.r.chance(1, 3) => ops.push(x!("new", 5, if g.r.chance(1, 2) { core.clone() } else { ctw.clone() })),
                8 => ops.push(x!("q", 5, g.core_q())),
                9..=13 if !tones.is_empty() => {
                    let t = *g.r.pick(&tones);
                    ops.push(x!("q", s, x!("gethct", t)));
                    ops.push(x!("q", if g.r.chance(1, 2) { s } else { g.r.range(0, 1) }, x!("gethct", *g.r.pick(&tones))));
                }
                _ => ops.push(x!("q", s, g.pal_q())),
            }
        }
        e.threads.push(ops);
    }
    p.epochs.push(e);
}
fn c05(g: &mut G, p: &mut Plan) {
    let base = g.pal();
    let mut recs = vec![base.clone(), g.pal(), g.pal_twin(&base)];
    recs.push(g.pal());
    let cores = vec![g.core(), g.core()];
    let ne = len(g, 2, 3);
    let dirty = g.r.chance(1, 3); // rot, short reads, lost tails
    for ei in 0..ne + 1 {
        let mut e = epoch(g);
        let nt = if ei == ne { 1 } else { *g.r.pick(&[1usize, 1, 2]) };
        for t in 0..nt {
            let mut ops = vec![];
            for round in 0..len(g, 1, 3) {
                let torn = if dirty && g.r.chance(1, 4) { g.r.range(0, 12) } else { -1 };
                if ei < ne && g.r.chance(3, 4) {
                    // build, use, store
                    if g.r.chance(2, 3) {
                        let i = g.r.below(recs.len() as u64) as usize;
                        ops.push(x!("new", 0, &recs[i]));
                        for _ in 0..g.r.below(4) {
                            ops.push(x!("q", 0, g.pal_q()));
                        }
                        if g.r.chance(1, 6) {
                            let (a, n, st) = g.sweep();
                            ops.push(x!("q", 0, x!("sweep", a, n, st)));
                        }
                        ops.push(x!("put", i as i64, 0, x!("aslist"), torn));
                    } else {
                        let i = g.r.below(2) as usize;
                        ops.push(x!("new", 1, &cores[i]));
                        for _ in 0..g.r.below(3) {
                            ops.push(x!("q", 1, g.core_q()));
                        }
                        ops.push(x!("put", 10 + i as i64, 1, x!("aslist"), torn));
                    }
                }
                if dirty && g.r.chance(1, 4) {
                    ops.push(x!("flip", *g.r.pick(&[0i64, 1, 2, 3, 10, 11]), g.r.range(0, 64), g.r.range(0, 23)));
                }
                // restore and use
                let i = g.r.below(recs.len() as u64) as i64;
                let sl = 2 + (round as i64 + t as i64) % 3;
                if g.r.chance(2, 3) {
                    if dirty && g.r.chance(1, 3) {
                        let n = if g.r.chance(1, 2) { g.r.range(0, 70) } else { *g.r.pick(&[0i64, 1, 5, 12, 14, 26, 39, 65]) };
                        ops.push(x!("loadn", sl, i, "plist", n));
                    } else {
                        ops.push(x!("load", sl, i, "plist"));
                    }
                    for _ in 0..g.r.range(1, 4) {
                        let q = match g.r.below(5) {
                            0 => x!("aslist"),
                            1 | 2 => x!("get", *g.r.pick(&COMMON)),
                            3 => x!("gethct", *g.r.pick(&COMMON) as f64),
                            _ => g.pal_q(),
                        };
                        ops.push(x!("q", sl, q));
                    }
                    if g.r.chance(1, 6) {
                        let (a, n, st) = g.sweep();
                        ops.push(x!("q", sl, x!("sweep", a, n, st)));
                    }
                    ops.push(x!("q", sl, x!("aslist")));
                    if !dirty {
                        ops.push(x!("q", sl, x!("eqsrc", x!("src"))));
                        if g.r.chance(1, 3) {
                            ops.push(x!("put", i, sl, x!("aslist"), -1));
                        }
                    }
                } else {
                    let i = g.r.below(2) as i64;
                    if dirty && g.r.chance(1, 3) {
                        let n = if g.r.chance(1, 2) { g.r.range(0, 140) } else { *g.r.pick(&[0i64, 13, 26, 39, 52, 64, 66, 78, 91, 130]) };
                        ops.push(x!("loadn", 6, 10 + i, "clist", n));
                    } else {
                        ops.push(x!("load", 6, 10 + i, "clist"));
                    }
                    for _ in 0..g.r.range(1, 3) {
                        ops.push(x!("q", 6, x!("get", g.r.range(0, 4), *g.r.pick(&COMMON))));
                    }
                    if g.r.chance(1, 6) {
                        let (a, n, st) = g.sweep();
                        ops.push(x!("q", 6, x!("sweep", g.r.range(0, 4), a, n, st)));
                    }
                    ops.push(x!("q", 6, x!("aslist")));
                    if !dirty && g.r.chance(1, 3) {
                        ops.push(x!("pure", "fixed", g.r.range(0, 1), x!("key", 10 + i)));
                    }
                    if !dirty {
                        ops.push(x!("q", 6, x!("eqsrc", x!("src"))));
                    }
                }
            }
            e.threads.push(ops);
        }
        p.epochs.push(e);
    }
}
fn c06(g: &mut G, p: &mut Plan, panics: bool) {
    let mut e = epoch(g);
    let base = g.scheme();
    let mut sch = vec![base.clone()];
    let k = len(g, 2, 7);
    for _ in 0..k {
        let b = g.r.pick(&sch).clone();
        let s = if g.r.chance(3, 4) { g.scheme_twin(&b) } else { g.scheme() };
        sch.push(s);
    }
    let dcs: Vec<X> = (0..3).map(|_| if panics { g.custom() } else { g.dc() }).collect();
    if !panics && g.r.chance(1, 8) {
        // schemes on either side of a change of the color
        let b = g.r.pick(&sch).clone();
        if let Some((x, y)) = g.edge(&x!("on", &dcs[0], x!("argb", b))) {
            for z in [x, y] {
                sch.insert(0, z.at(2).at(1).clone());
            }
        }
    }
    let nt = if panics { *g.r.pick(&[1usize, 1, 2]) } else { *g.r.pick(&[1usize, 1, 2, 3]) };
    // read-only shared schemes 32..
    for (i, s) in sch.iter().enumerate().take(8) {
        e.setup.push(x!("new", 32 + i, s));
    }
    for _ in 0..nt {
        let mut ops = vec![];
        for i in 0..3 {
            ops.push(x!("new", i, &dcs[i as usize]));
        }
        // two local schemes that are re-created in place
        ops.push(x!("new", 4, g.r.pick(&sch).clone()));
        ops.push(x!("new", 5, g.r.pick(&sch).clone()));
        let focus = g.r.chance(1, 2);
        let burst = g.r.chance(1, 6);
        let n = if g.r.chance(1, 10) { len(g, 60, 120) } else { len(g, 8, 36) };
        for _ in 0..n {
            let d = if focus { 0 } else { g.r.range(0, 2) };
            let s = match g.r.below(5) {
                0 => 4,
                1 => 5,
                _ => 32 + g.r.below(sch.len().min(8) as u64) as i64,
            };
            match g.r.below(14) {
                0 => ops.push(x!("new", g.r.range(4, 5), g.r.pick(&sch).clone())),
                1 => ops.push(x!("clone", g.r.range(4, 5), 32 + g.r.below(sch.len().min(8) as u64) as i64)),
                2 if g.r.chance(1, 3) => ops.push(x!("new", g.r.range(0, 2), g.r.pick(&dcs).clone())),
                2 => {
                    let sl = g.r.range(4, 5);
                    ops.push(g.tune(sl));
                    let q = g.dc_q(x!("slot", sl));
                    ops.push(x!("q", d, q));
                }
                3 if burst && g.r.chance(1, 2) => ops.push(x!("q", d, x!("sweepd", x!("slot", s), *g.r.pick(&[4i64, 6, 12, 40, 150]), g.r.below(1 << 30)))),
                _ => {
                    let q = g.dc_q(x!("slot", s));
                    ops.push(x!("q", d, q));
                }
            }
        }
        e.threads.push(ops);
    }
    p.epochs.push(e);
}
fn c07(g: &mut G, p: &mut Plan) {
    let mut e = epoch(g);
    let base = g.scheme();
    let tw = g.scheme_twin(&base);
    let ot = g.scheme();
    let recs = [base, tw, ot];
    for (i, s) in recs.iter().enumerate() {
        e.setup.push(x!("new", 32 + i, s));
    }
    let (c1, c2) = (g.color(), g.color());
    let few: Vec<X> = (0..3).map(|_| x!("q", 32 + g.r.below(3) as i64, g.sch_q())).collect();
    let focus = g.r.chance(1, 3);
    for _ in 0..*g.r.pick(&[2usize, 2, 3, 4, 5]) {
        let mut ops = vec![];
        for _ in 0..len(g, 3, 14) {
            let s = 32 + g.r.below(3) as i64;
            if focus && g.r.chance(5, 6) {
                ops.push(g.r.pick(&few).clone());
                continue;
            }
            match g.r.below(16) {
                0 => ops.push(x!("clone", 0, s)),
                1 => ops.push(x!("q", 0, g.sch_q())),
                2 => ops.push(x!("new", 1, g.r.pick(&recs).clone())),
                3 => ops.push(x!("q", 1, g.sch_q())),
                8 if g.r.chance(1, 3) => {
                    // a copy changes; the original does not
                    let c = g.r.range(0, 1);
                    ops.push(g.tune(c));
                    ops.push(x!("q", c, g.sch_q()));
                }
                9 => {
                    // the same question to the original, to a changed copy and to the original
                    let q = g.sch_q();
                    ops.push(x!("q", s, &q));
                    ops.push(x!("clone", 0, s));
                    ops.push(g.tune(0));
                    ops.push(x!("q", 0, &q));
                    ops.push(x!("q", s, q));
                }
                4 => ops.push(x!("q", s, x!("eq", g.r.pick(&recs).clone()))),
                5 if g.r.chance(1, 3) => {
                    let c = g.core();
                    ops.push(x!("pure", "fixed", g.r.range(0, 1), c))
                }
                5 => ops.push(x!("pure", "legacy", g.r.range(0, 3), if g.r.chance(1, 2) { c1 } else { c2 })),
                6 if g.r.chance(1, 3) => ops.push(x!("q", s, x!("all"))),
                7 => ops.push(x!("q", s, x!("hash"))),
                8 if g.r.chance(1, 6) => ops.push(x!("pure", "many", *g.r.pick(&["scheme", "legacy"]), g.r.range(2, 8), g.r.below(1 << 30))),
                _ => ops.push(x!("q", s, g.sch_q())),
            }
        }
        e.threads.push(ops);
    }
    p.epochs.push(e);
}
fn c08(g: &mut G, p: &mut Plan) {
    let mut e = epoch(g);
    let a = g.hct();
    let close = g.r.chance(1, 2);
    let a = if close { x!("hint", g.color()) } else { a };
    let b = if close {
        let c = a.at(1).i();
        x!("hint", g.close_c(c))
    } else if g.r.chance(1, 2) {
        g.mutate(&a)
    } else {
        g.hct()
    };
    let recs = [x!("temp", &a), x!("temp", &b)];
    let shared = g.r.chance(1, 2);
    if shared {
        e.setup.push(x!("new", 16, &recs[0]));
    }
    for _ in 0..*g.r.pick(&[1usize, 1, 2, 2]) {
        let mut ops = vec![];
        if !shared || g.r.chance(1, 3) {
            ops.push(x!("new", 0, g.r.pick(&recs).clone()));
        }
        for _ in 0..len(g, 2, 7) {
            let s = if shared && (ops.is_empty() || g.r.chance(2, 3)) { 16 } else { 0 };
            if g.r.chance(1, 8) {
                ops.push(x!("new", 0, g.r.pick(&recs).clone()));
            }
            if close && g.r.chance(1, 4) {
                // the same question to two caches of colors close together
                let (k, q) = (g.r.below(2) as usize, g.temp_q());
                for i in [k, 1 - k] {
                    ops.push(x!("new", 1, &recs[i]));
                    ops.push(x!("q", 1, q.clone()));
                }
                continue;
            }
            if g.r.chance(1, 4) {
                // more and fewer of the same colors, from the same cache
                let d = g.r.range(1, 16);
                let n = g.r.range(1, 2 * d);
                let step = g.r.range(1, 2);
                let mut qs = vec![x!("ana", n, d), x!("ana", (n - step).max(1), d)];
                match g.r.below(4) {
                    0 => qs.push(x!("ana", n, d + 1)),
                    1 => qs.push(x!("ana", n + step, d)),
                    2 => qs.push(x!("ana", n, "none")),
                    _ => {}
                }
                if g.r.chance(1, 2) {
                    qs.reverse();
                }
                if g.r.chance(1, 3) {
                    qs.push(qs[0].clone());
                }
                for q in qs {
                    ops.push(x!("q", s, q));
                }
                continue;
            }
            ops.push(x!("q", s, g.temp_q()));
        }
        e.threads.push(ops);
    }
    p.epochs.push(e);
}
fn c09(g: &mut G, p: &mut Plan, faults: bool) {
    let mut e = epoch(g);
    let recs = [g.hct(), g.hct()];
    let mut sets: Vec<X> = vec![];
    if !faults && g.r.chance(1, 10) {
        // values on either side of a change of color
        let d = g.r.range(0, 2);
        let q = match d {
            0 => x!("set", 0, g.hue()),
            1 => x!("set", 1, g.chroma()),
            _ => x!("set", 2, g.tone()),
        };
        let h = x!("hint", g.color());
        if let Some((a, b)) = g.edge(&x!("on", h, q)) {
            sets = vec![a, b];
        }
    }
    e.setup.push(x!("new", 16, &recs[0]));
    e.setup.push(x!("new", 32, &recs[1]));
    for _ in 0..nthreads(g) {
        let mut ops = vec![x!("new", 0, g.r.pick(&recs).clone()), x!("new", 1, g.r.pick(&recs).clone())];
        let n = if g.r.chance(1, 10) { len(g, 40, 90) } else { len(g, 4, 24) };
        for _ in 0..n {
            let s = *g.r.pick(&[0i64, 0, 0, 1, 16, 16]);
            if !sets.is_empty() && g.r.chance(1, 4) {
                for z in &sets {
                    ops.push(x!("new", 2, z.at(1).clone()));
                    ops.push(x!("q", 2, z.at(2).clone()));
                }
                continue;
            }
            match g.r.below(if faults { 9 } else { 14 }) {
                0 => ops.push(x!("clone", *g.r.pick(&[1i64, 0, 2, 16]), *g.r.pick(&[0i64, 16, 32]))),
                1 if g.r.chance(1, 2) => ops.push(x!("new", g.r.range(0, 1), g.hct())),
                2 => ops.push(x!("q", s, x!("fp"))),
                3 if !faults => ops.push(x!("q", s, x!("eq", g.hct()))),
                4 if !faults => ops.push(x!("q", 32, x!("invc", g.vc()))),
                _ => {
                    let q = if faults {
                        let d = g.r.range(0, 2);
                        g.setq(d)
                    } else {
                        g.hct_q()
                    };
                    ops.push(x!("q", s, q));
                    if faults {
                        ops.push(x!("q", s, x!("fp")));
                    }
                }
            }
        }
        e.threads.push(ops);
    }
    p.epochs.push(e);
}
fn c10(g: &mut G, p: &mut Plan) {
    let mut e = epoch(g);
    let pal = g.pal();
    let core = g.core();
    let what = g.r.below(6);
    for _ in 0..*g.r.pick(&[1usize, 1, 2]) {
        let mut ops = vec![];
        match what {
            0 | 1 => {
                ops.push(x!("new", 0, &pal));
                ops.push(x!("new", 1, g.pal_twin(&pal)));
                for _ in 0..len(g, 6, 26) {
                    match g.r.below(8) {
                        0 => ops.push(x!("clone", 2, 0)),
                        1 => ops.push(x!("q", 2, g.pal_q())),
                        _ => ops.push(x!("q", g.r.range(0, 1), g.pal_q())),
                    }
                }
            }
            2 => {
                ops.push(x!("new", 0, &core));
                for _ in 0..len(g, 4, 14) {
                    ops.push(x!("q", 0, g.core_q()));
                }
            }
            3 => {
                ops.push(x!("new", 0, x!("temp", g.hct())));
                for _ in 0..len(g, 3, 6) {
                    let q = g.temp_q();
                    ops.push(x!("q", 0, q.clone()));
                    if g.r.chance(1, 2) {
                        ops.push(x!("q", 0, q));
                    }
                }
            }
            4 => {
                let b = g.scheme();
                let recs = [b.clone(), g.scheme_twin(&b), g.scheme_twin(&b)];
                for (i, s) in recs.iter().enumerate() {
                    ops.push(x!("new", 4 + i, s));
                }
                ops.push(x!("new", 0, g.dc()));
                ops.push(x!("new", 1, g.dc()));
                for _ in 0..len(g, 6, 20) {
                    let s = x!("slot", g.r.range(4, 6));
                    let q = g.dc_q(s);
                    ops.push(x!("q", g.r.range(0, 1), q));
                }
            }
            _ => {
                let a = g.img(true);
                let b = g.img_twin(&a);
                ops.push(x!("new", 0, x!("wu")));
                for _ in 0..len(g, 2, 4) {
                    let i = if g.r.chance(1, 2) { a.clone() } else { b.clone() };
                    ops.push(x!("q", 0, x!("quant", i, g.r.range(2, 6), 0)));
                }
            }
        }
        e.threads.push(ops);
    }
    p.epochs.push(e);
}
fn c13(g: &mut G, p: &mut Plan) {
    let mut e = epoch(g);
    let kind = g.r.below(4);
    let base = match kind {
        0 => g.pal(),
        1 => g.core(),
        2 => g.scheme(),
        _ => g.hct(),
    };
    let mut recs = vec![base.clone()];
    for _ in 0..len(g, 3, 9) {
        let b = g.r.pick(&recs).clone();
        recs.push(match kind {
            0 => g.pal_twin(&b),
            1 if g.r.chance(1, 3) => {
                // one palette replaced, as often as not by the one it was or one very like it
                let f = if g.r.chance(1, 2) { 9 } else { g.r.range(4, 9) };
                let p = if f == 9 && g.r.chance(1, 3) { x!("of", 25.0, 84.0) } else { g.pal() };
                x!("tuned", b, f, p)
            }
            1 => g.core_twin(&b),
            2 => g.scheme_twin(&b),
            _ => if g.r.chance(1, 2) { g.mutate(&b) } else { b },
        });
    }
    if g.r.chance(1, 8) {
        // on either side of a change of color
        let q = match kind {
            0 => Some(x!("gethct", g.tone0())),
            2 => Some(x!("role", g.r.below(ROLES.len() as u64))),
            3 => Some(x!("fp")),
            _ => None,
        };
        if let Some((a, b)) = q.and_then(|q| g.edge(&x!("on", &base, q))) {
            recs.insert(0, a.at(1).clone());
            recs.insert(1, b.at(1).clone());
        }
    }
    for (i, r) in recs.iter().enumerate().take(3) {
        e.setup.push(x!("new", 32 + i, r));
    }
    for _ in 0..*g.r.pick(&[1usize, 1, 2, 3]) {
        let mut ops = vec![x!("new", 9, x!("bag"))];
        for i in 0..3 {
            ops.push(x!("new", i, g.r.pick(&recs).clone()));
        }
        for _ in 0..len(g, 6, 24) {
            let s = g.r.range(0, 2);
            match g.r.below(12) {
                0 => ops.push(x!("new", s, g.r.pick(&recs).clone())),
                1 => ops.push(match kind {
                    0 => x!("q", s, g.pal_q()),
                    1 => x!("q", s, g.core_q()),
                    2 => x!("q", s, g.sch_q()),
                    _ => x!("q", s, g.hct_q()),
                }),
                2 => ops.push(x!("q", s, x!("eq", x!("slot", (s + 1) % 3)))),
                3 => ops.push(x!("q", s, x!("hash"))),
                10 if kind == 2 => ops.push(g.tune(s)),
                4 => ops.push(x!("q", 32 + s, x!("eq", g.r.pick(&recs).clone()))),
                5 | 6 => {
                    let a = if g.r.chance(1, 2) { x!("slot", s) } else { g.r.pick(&recs).clone() };
                    ops.push(x!("q", 9, x!("has", a)))
                }
                7 => ops.push(x!("q", 9, x!("rem", x!("slot", s)))),
                _ => {
                    let a = if g.r.chance(1, 2) { x!("slot", if g.r.chance(1, 4) { 32 + s } else { s }) } else { g.r.pick(&recs).clone() };
                    ops.push(x!("q", 9, x!("ins", a)))
                }
            }
        }
        e.threads.push(ops);
    }
    p.epochs.push(e);
}
fn c14(g: &mut G, p: &mut Plan) {
    let mut e = epoch(g);
    let mut seen: Vec<X> = vec![];
    let heavy = g.r.chance(1, 4);
    let burst = g.r.chance(1, 5);
    let narrow = g.r.chance(1, 2); // few kinds of request, many near-misses
    let kinds: Vec<X> = (0..3).map(|_| g.pure_q(heavy)).collect();
    let mut edges: Vec<(X, X)> = vec![];
    if g.r.chance(1, 8) {
        for _ in 0..3 {
            let q = if g.r.chance(1, 3) { x!("pure", "hctfrom", g.hue0(), g.chroma0(), g.tone0()) } else { g.pure_q(false) };
            if let Some(e) = g.edge(&q) {
                edges.push(e);
            }
        }
    }
    for _ in 0..*g.r.pick(&[1usize, 2, 2, 3, 4]) {
        let mut ops = vec![];
        for _ in 0..if heavy { len(g, 3, 8) } else { len(g, 4, 24) } {
            if burst && g.r.chance(1, 4) {
                let k = if narrow { g.r.pick(&kinds).at(1).s().to_string() } else { g.pure_q(heavy).at(1).s().to_string() };
                g.burst(&mut ops, &k);
                continue;
            }
            if !edges.is_empty() && g.r.chance(1, 3) {
                let (a, b) = g.r.pick(&edges).clone();
                ops.push(a);
                ops.push(b);
                continue;
            }
            let q = if narrow {
                let k = g.r.pick(&kinds).clone();
                if g.r.chance(1, 4) { k } else { g.mutate(&k) }
            } else if !seen.is_empty() && g.r.chance(1, 2) {
                let k = g.r.pick(&seen).clone();
                if g.r.chance(1, 3) { k } else { g.mutate(&k) }
            } else {
                g.pure_q(heavy)
            };
            seen.push(q.clone());
            ops.push(q);
        }
        e.threads.push(ops);
    }
    p.epochs.push(e);
}
fn c15(g: &mut G, p: &mut Plan) {
    // a bit of everything, in one service, with every fault kind; then a quiet tail
    let ne = *g.r.pick(&[1usize, 1, 2]);
    let pal = g.pal();
    let sch = g.scheme();
    let tw = g.scheme_twin(&sch);
    let im = g.img(true);
    let th = x!("temp", g.hct());
    let light = g.r.chance(3, 4);
    if g.r.chance(1, 2) {
        // contention: all threads keep asking the same kind of thing, in twin settings
        let mut e = epoch(g);
        let kind = *g.r.pick(&[0, 1, 2, 3, 4, 4, 5, 6, 6]);
        let made = match g.r.below(8) {
            0..=2 => g.core(),
            3 | 4 => g.scheme(),
            5 => x!("temp", g.hct()),
            6 => g.hct(),
            _ => g.dc(),
        };
        let role = g.dc();
        let warm = g.many("hctfrom");
        let mut maps = vec![];
        let brief = g.r.chance(1, 2);
        for _ in 0..3 {
            let mut m = g.score_map();
            for _ in 0..9 {
                // mostly large maps
                if m.l().len() >= 60 || g.r.chance(1, 6) {
                    break;
                }
                m = g.score_map();
            }
            maps.push(m);
        }
        let nt = if kind >= 4 { g.r.range(2, 4) } else { *g.r.pick(&[2i64, 2, 2, 3, 4]) };
        for _ in 0..nt {
            let mine = if g.r.chance(1, 2) { sch.clone() } else { g.scheme_twin(&sch) };
            let mut ops = vec![];
            match kind {
                0 | 1 => {
                    let r = if g.r.chance(2, 3) { role.clone() } else { g.dc() };
                    ops.push(x!("new", 0, r));
                    ops.push(x!("new", 4, &mine));
                }
                2 => ops.push(x!("new", 0, if g.r.chance(1, 2) { pal.clone() } else { g.pal_twin(&pal) })),
                6 => {
                    // the same things made again and again
                    for _ in 0..len(g, 4, 9) {
                        let o = match made.head() {
                            _ if g.r.chance(1, 2) => made.clone(),
                            "core" | "corec" | "clist" => g.core_twin(&made),
                            "sch" | "dyn" => g.scheme_twin(&made),
                            _ => g.hct(),
                        };
                        ops.push(x!("new", g.r.range(0, 3), o));
                    }
                    e.threads.push(ops);
                    continue;
                }
                _ => {}
            }
            for _ in 0..if brief { len(g, 1, 2) } else { len(g, 2, 5) } {
                ops.push(match kind {
                    0 | 1 if g.r.chance(2, 3) => x!("q", 0, x!("sweepd", x!("slot", 4), *g.r.pick(&[3i64, 10, 40, 80]), g.r.below(1 << 30))),
                    0 | 1 => x!("q", 0, g.dc_q(x!("slot", 4))),
                    2 => {
                        let (a, n, st) = g.sweep();
                        x!("q", 0, x!("sweep", a, n, st))
                    }
                    4 if g.r.chance(1, 3) => x!("pure", "manyscore", *g.r.pick(&[3i64, 10, 40]), g.r.below(1 << 30)),
                    4 => {
                        let m = g.r.pick(&maps).clone();
                        g.score_q(&m)
                    }
                    5 if g.r.chance(1, 2) => x!("pure", "manywsm", g.r.range(2, 6), g.r.below(1 << 30)),
                    5 => x!("pure", "wsm", &im, g.r.range(2, 12), "none", "none", 0),
                    _ if g.r.chance(1, 2) => warm.clone(),
                    _ => g.pure_q(false),
                });
            }
            e.threads.push(ops);
        }
        p.epochs.push(e);
        return;
    }
    for _ in 0..ne {
        let mut e = epoch(g);
        e.setup.push(x!("new", 16, &pal));
        e.setup.push(x!("new", 32, &sch));
        e.setup.push(x!("new", 33, &tw));
        for _ in 0..nthreads(g) {
            let mut ops = vec![x!("new", 0, g.custom()), x!("new", 1, x!("hint", g.color()))];
            for i in 0..len(g, 4, 16) {
                let q = match g.r.below(12) {
                    0 | 1 => x!("q", 16, g.pal_q()),
                    2 | 3 => {
                        let s = x!("slot", g.r.range(32, 33));
                        x!("q", 0, g.dc_q(s))
                    }
                    4 => x!("q", g.r.range(32, 33), g.sch_q()),
                    5 | 6 => x!("q", 1, g.hct_q()),
                    7 => x!("putp", 0, -1, x!("on", &pal, x!("aslist"))),
                    8 => x!("load", 3, 0, "plist"),
                    9 => x!("q", 3, g.pal_q()),
                    10 if !light && i < 5 => {
                        if g.r.chance(1, 2) {
                            ops.push(x!("new", 6, &th));
                            x!("q", 6, g.temp_q())
                        } else {
                            x!("pure", "theme", &im, 4, 4, 2, 0, 0.0)
                        }
                    }
                    _ => g.pure_q(false),
                };
                ops.push(q);
            }
            e.threads.push(ops);
        }
        p.epochs.push(e);
    }
}

/// A program as for one of the other properties.
fn mixed(g: &mut G, p: &mut Plan) {
    match g.r.below(14) {
        0 => c01(g, p, false),
        1 => c02(g, p),
        2 => c03(g, p),
        3 => c04(g, p),
        4 => c05(g, p),
        5 => c06(g, p, true),
        6 => c06(g, p, false),
        7 => c07(g, p),
        8 => c08(g, p),
        9 => c09(g, p, false),
        10 => c10(g, p),
        11 => c13(g, p),
        12 => c14(g, p),
        _ => c15(g, p),
    }
}
/// Objects that live long and are asked again and again, dynamic colors for ever new schemes.
fn kept(g: &mut G, p: &mut Plan) {
    let mut e = epoch(g);
    e.rounds = -16;
    e.setup.push(x!("new", 16, g.dc()));
    e.setup.push(x!("new", 17, x!("of", g.r.f() * 360.0, g.r.f() * 60.0)));
    let c = g.color();
    e.setup.push(x!("new", 18, x!("core", c)));
    e.setup.push(x!("new", 32, g.scheme()));
    e.setup.push(x!("new", 33, g.scheme()));
    for _ in 0..g.r.range(1, 2) {
        let mut ops = vec![];
        for _ in 0..g.r.range(1, 3) {
            ops.push(x!("q", 16, x!("sweepd", x!("slot", g.r.range(32, 33)), g.r.range(12, 30), g.r.below(1 << 30))));
        }
        for _ in 0..g.r.range(0, 3) {
            ops.push(x!("q", 17, x!("sweep", g.r.range(0, 90), g.r.range(1, 12), 1)));
            ops.push(x!("q", 18, x!("sweep", g.r.range(0, 4), g.r.range(0, 90), g.r.range(1, 12), 1)));
            let q = g.dc_q(x!("slot", 32));
            ops.push(x!("q", 16, q));
        }
        e.threads.push(ops);
    }
    p.epochs.push(e);
}
/// One short process life, to be repeated.
fn repeated(p: &mut Plan, n: usize) {
    p.epochs.truncate(1);
    for e in p.epochs.iter_mut() {
        e.rounds = 16;
        e.threads.truncate(4);
        for t in e.threads.iter_mut() {
            t.retain(|o| small(o));
            t.truncate(n);
        }
        if e.threads.iter().all(|t| t.is_empty()) {
            e.threads[0].push(x!("pure", "hctfrom", 20.0, 30.0, 40.0));
        }
    }
}
fn small(o: &X) -> bool {
    match o {
        X::L(v) => {
            if o.head() == "img" && o.at(3).i() > 300 {
                return false;
            }
            if o.head() == "pure" && o.at(1).to_string().starts_with("many") && o.tail()[1..].iter().take(2).any(|a| matches!(a, X::I(n) if *n > 12 && *n <= 1000)) {
                return false;
            }
            v.iter().all(small)
        }
        _ => true,
    }
}

/// What a run told us about each operation: (epoch, tid, op) -> steps, shared accesses, allocations, callbacks.
pub type Profile = BTreeMap<(usize, usize, usize), (u64, u64, u64, u64)>;
pub fn profile(rr: &RunRes) -> Profile {
    let mut p = Profile::new();
    for r in &rr.recs {
        if r.kind != "begin" && r.op < 100000 {
            p.insert((r.epoch, r.tid, r.op), (r.steps, r.gs, r.allocs, r.cbs));
        }
    }
    p
}
fn logk(r: &mut Rng, n: u64) -> i64 {
    if n == 0 {
        return 1;
    }
    match r.below(4) {
        0 => 1 + r.below(n) as i64,
        1 => {
            // early
            let m = (r.f() * (n as f64).ln()).exp() as i64;
            m.clamp(1, n as i64)
        }
        2 => {
            // late
            let m = n as i64 - (r.f() * (n as f64).ln()).exp() as i64 + 1;
            m.clamp(1, n as i64)
        }
        _ => 1 + r.below(n) as i64,
    }
}
/// where to go, and how many steps after the access to shared memory
fn after(r: &mut Rng, arg: i64) -> i64 {
    if r.chance(1, 2) { arg } else { arg | *r.pick(&[1i64, 2, 3, 4, 5, 6, 8, 11, 16, 30]) << 8 }
}
/// Add a schedule, faults and a fresh environment to the program.
pub fn variant(base: &Plan, pf: &Profile, f: &Faults, r: &mut Rng) -> Plan {
    let mut p = base.clone();
    let last = p.epochs.len() - 1;
    // far more than any request of this program needs, warm or cold
    let most = pf.values().map(|v| v.0).max().unwrap_or(0);
    for (ei, e) in p.epochs.iter_mut().enumerate() {
        e.env = (r.u() >> 1) as i64 | 1;
        e.heap = r.range(0, 2);
        e.clock = r.range(0, 3);
        e.ncpu = *r.pick(&[1i64, 2, 3, 4, 5, 7, 8, 12, 64]);
        e.limit = (40 * most as i64 + 20_000_000).min(400_000_000);
        e.evs.clear();
        let nt = e.threads.len() as i64;
        let at: Vec<_> = pf.range((ei, 0, 0)..(ei + 1, 0, 0)).map(|(k, v)| (*k, *v)).collect();
        if at.is_empty() {
            continue;
        }
        // faults stop before the tail of a mixed run
        let quiet = |tid: i64, op: i64, e: &Epoch| f.af && f.cp && op as usize * 4 > e.threads[tid as usize].len() * 3;
        if f.sw && nt > 1 {
            // state that threads share, if there is any, is worth a closer look
            let common = at.iter().any(|(_, v)| v.1 > 0);
            let mode = if (base.prop == "C15" || common) && r.chance(1, 3) { 6 } else { r.below(7) };
            if mode == 6 {
                // a huddle: every thread is stopped inside the same few operations, in turn
                let rounds = r.range(1, 3);
                for _ in 0..rounds {
                    let o = r.below(e.threads.iter().map(|t| t.len()).max().unwrap_or(1) as u64) as usize;
                    let near = r.chance(1, 2);
                    for t in 0..nt as usize {
                        let hit = at.iter().filter(|((_, x, _), v)| *x == t && v.0 > 0).min_by_key(|((_, _, p), _)| (*p as i64 - o as i64).abs());
                        if let Some(((_, _, p), (st, gs, _, _))) = hit {
                            for _ in 0..r.range(1, 2) {
                                let arg = if r.chance(2, 3) { (t as i64 + 1) % nt } else { r.range(0, nt - 1) };
                                if *gs > 0 && r.chance(2, 3) {
                                    let k = if near { 1 + r.below((*gs).min(12)) as i64 } else { logk(r, *gs) };
                                    e.evs.push(Ev { kind: "swg".into(), tid: t as i64, op: *p as i64, k, arg: after(r, arg) });
                                } else {
                                    e.evs.push(Ev { kind: "sw".into(), tid: t as i64, op: *p as i64, k: logk(r, *st), arg });
                                }
                            }
                        }
                    }
                }
            }
            let boundary = matches!(mode, 1 | 2 | 4);
            if boundary {
                let den = *r.pick(&[1u64, 2, 3, 6]);
                for t in 0..nt {
                    for o in 0..e.threads[t as usize].len() as i64 {
                        if r.chance(1, den) {
                            e.evs.push(Ev { kind: "sw".into(), tid: t, op: o, k: 0, arg: r.range(0, nt - 1) });
                        }
                    }
                }
            }
            let n = match mode {
                0 | 1 => 0,
                6 => r.range(0, 2),
                2 => r.range(1, 3),
                3 => r.range(1, 4),
                4 => r.range(3, 12),
                _ => r.range(10, 40),
            };
            for _ in 0..n {
                let ((_, t, o), (st, gs, _, _)) = *r.pick(&at);
                if gs > 0 && r.chance(1, 2) {
                    let arg = r.range(0, nt - 1);
                    e.evs.push(Ev { kind: "swg".into(), tid: t as i64, op: o as i64, k: logk(r, gs), arg: after(r, arg) });
                } else {
                    e.evs.push(Ev { kind: "sw".into(), tid: t as i64, op: o as i64, k: logk(r, st), arg: r.range(0, nt - 1) });
                }
            }
        }
        if f.af && (f.must == "af" || r.chance(1, 3)) {
            let cand: Vec<_> = at.iter().filter(|(k, v)| v.2 > 0 && !quiet(k.1 as i64, k.2 as i64, e)).collect();
            if !cand.is_empty() {
                for _ in 0..r.range(1, 4) {
                    let ((_, t, o), (_, _, al, _)) = **r.pick(&cand);
                    e.evs.push(Ev { kind: "af".into(), tid: t as i64, op: o as i64, k: logk(r, al), arg: *r.pick(&[1i64, 1, 1, 2, 5]) });
                }
            }
        }
        if f.cp && (f.must == "cp" || r.chance(1, 3)) {
            let cand: Vec<_> = at.iter().filter(|(k, v)| v.3 > 0 && !quiet(k.1 as i64, k.2 as i64, e)).collect();
            if !cand.is_empty() {
                for _ in 0..r.range(1, 5) {
                    let ((_, t, o), (_, _, _, c)) = **r.pick(&cand);
                    e.evs.push(Ev { kind: "cp".into(), tid: t as i64, op: o as i64, k: 1 + r.below(c) as i64, arg: 0 });
                }
            }
        }
        if f.crash && ei < last && r.chance(3, 4) {
            let ((_, t, o), (st, gs, _, _)) = *r.pick(&at);
            let (t, o) = (t as i64, o as i64);
            if r.chance(1, 5) {
                e.evs.push(Ev { kind: "crash".into(), tid: t, op: o, k: 0, arg: 0 });
            } else if gs > 0 && r.chance(1, 4) {
                e.evs.push(Ev { kind: "crashg".into(), tid: t, op: o, k: logk(r, gs), arg: after(r, 0) });
            } else {
                e.evs.push(Ev { kind: "crash".into(), tid: t, op: o, k: logk(r, st), arg: 0 });
            }
        }
        e.evs.dedup();
    }
    p
}
