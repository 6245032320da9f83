//! The library's public API behind requests: build an object from a recipe, ask it a query.
//! The same code answers warm requests (inside a simulated run) and cold ones (the oracle).
use crate::rt::{self, mix, Rng, TL};
use crate::x::X;
use material_color_utilities_rs as m;
use m::blend::blend::Blend;
use m::contrast::contrast::Contrast;
use m::dislike::dislike_analyzer::DislikeAnalyzer;
use m::dynamiccolor::dynamic_color::DynamicColor;
use m::dynamiccolor::dynamic_scheme::DynamicScheme;
use m::dynamiccolor::material_dynamic_colors::MaterialDynamicColors as MDC;
use m::dynamiccolor::src::contrast_curve::ContrastCurve;
use m::dynamiccolor::src::tone_delta_pair::{ToneDeltaPair, TonePolarity};
use m::dynamiccolor::variant::Variant;
use m::hct::cam16::Cam16;
use m::hct::hct::Hct;
use m::hct::src::hct_solver::HctSolver;
use m::hct::viewing_conditions::ViewingConditions;
use m::palettes::core_palette::CorePalette;
use m::palettes::tonal_palette::TonalPalette;
use m::quantize::quantizer::{Quantizer, QuantizerResult};
use m::quantize::quantizer_celebi::QuantizerCelebi;
use m::quantize::quantizer_map::QuantizerMap;
use m::quantize::quantizer_wsmeans::QuantizerWsmeans;
use m::quantize::quantizer_wu::QuantizerWu;
use m::score::score::Score;
use m::temperature::temperature_cache::TemperatureCache;
use m::utils::color_utils::ColorUtils;
use m::utils::math_utils::MathUtils;
use m::utils::string_utils::StringUtils;
use std::collections::{HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type Ints = Vec<i64>;

/// Run library code: allocations inside count (and may be made to fail).
#[inline(always)]
pub fn lib<T>(f: impl FnOnce() -> T) -> T {
    unsafe {
        let old = TL.in_lib;
        TL.in_lib = true;
        TL.eff = true;
        let r = f();
        TL.in_lib = old;
        r
    }
}
pub static mut SALT: u64 = 0;
pub struct CallbackPanic;
pub struct Probe;
/// A user callback is entered: the plan may make it panic.
fn cb() {
    unsafe {
        TL.cbcount += 1;
        if TL.cbcount == TL.cbfail_at {
            TL.cbfired += 1;
            rt::fire(rt::F_CALLBACK);
            TL.in_lib = false;
            std::panic::panic_any(CallbackPanic);
        }
    }
}
pub fn fb(v: f64) -> i64 {
    if v.is_nan() {
        return 0x7ff8_dead_0000_0000u64 as i64;
    }
    (v + 0.0).to_bits() as i64
}
pub fn digest(v: &[i64]) -> i64 {
    let mut h = 0x1234567u64;
    for i in v {
        h = mix(h ^ *i as u64);
    }
    h as i64
}
fn strv(s: &str) -> Ints {
    let mut h = 7u64;
    for b in s.bytes() {
        h = mix(h ^ b as u64);
    }
    vec![s.len() as i64, h as i64]
}
fn hv(h: &Hct) -> Ints {
    vec![h.to_int(), fb(h.get_hue()), fb(h.get_chroma()), fb(h.get_tone())]
}
fn hvs(v: &[Hct]) -> Ints {
    v.iter().flat_map(|h| hv(h)).collect()
}
fn camv(c: &Cam16) -> Ints {
    [c.hue, c.chroma, c.j, c.q, c.m, c.s, c.jstar, c.astar, c.bstar].iter().map(|f| fb(*f)).collect()
}
fn fv(v: &[f64]) -> Ints {
    v.iter().map(|f| fb(*f)).collect()
}

// ------------------------------------------------------------------ roles
macro_rules! roles {($(($r:ident, $g:ident)),* $(,)?) => {
    pub const ROLES: &[(&str, fn(&DynamicScheme) -> i64, fn() -> DynamicColor)] = &[$((stringify!($r), DynamicScheme::$g, MDC::$r)),*];
}}
roles!(
    (primary_palette_key_color, get_primary_palette_key_color), (secondary_palette_key_color, get_secondary_palette_key_color),
    (tertiary_palette_key_color, get_tertiary_palette_key_color), (neutral_palette_key_color, get_neutral_palette_key_color),
    (neutral_variant_palette_key_color, get_neutral_variant_palette_key_color), (background, get_background),
    (on_background, get_on_background), (surface, get_surface), (surface_dim, get_surface_dim), (surface_bright, get_surface_bright),
    (surface_container_lowest, get_surface_container_lowest), (surface_container_low, get_surface_container_low),
    (surface_container, get_surface_container), (surface_container_high, get_surface_container_high),
    (surface_container_highest, get_surface_container_highest), (on_surface, get_on_surface), (surface_variant, get_surface_variant),
    (on_surface_variant, get_on_surface_variant), (inverse_surface, get_inverse_surface), (inverse_on_surface, get_inverse_on_surface),
    (outline, get_outline), (outline_variant, get_outline_variant), (shadow, get_shadow), (scrim, get_scrim),
    (surface_tint, get_surface_tint), (primary, get_primary), (on_primary, get_on_primary), (primary_container, get_primary_container),
    (on_primary_container, get_on_primary_container), (inverse_primary, get_inverse_primary), (secondary, get_secondary),
    (on_secondary, get_on_secondary), (secondary_container, get_secondary_container), (on_secondary_container, get_on_secondary_container),
    (tertiary, get_tertiary), (on_tertiary, get_on_tertiary), (tertiary_container, get_tertiary_container),
    (on_tertiary_container, get_on_tertiary_container), (error, get_error), (on_error, get_on_error),
    (error_container, get_error_container), (on_error_container, get_on_error_container), (primary_fixed, get_primary_fixed),
    (primary_fixed_dim, get_primary_fixed_dim), (on_primary_fixed, get_on_primary_fixed),
    (on_primary_fixed_variant, get_on_primary_fixed_variant), (secondary_fixed, get_secondary_fixed),
    (secondary_fixed_dim, get_secondary_fixed_dim), (on_secondary_fixed, get_on_secondary_fixed),
    (on_secondary_fixed_variant, get_on_secondary_fixed_variant), (tertiary_fixed, get_tertiary_fixed),
    (tertiary_fixed_dim, get_tertiary_fixed_dim), (on_tertiary_fixed, get_on_tertiary_fixed),
    (on_tertiary_fixed_variant, get_on_tertiary_fixed_variant),
);

// ------------------------------------------------------------------ objects
pub enum Quant {
    Map(QuantizerMap),
    Wu(QuantizerWu),
    Celebi(QuantizerCelebi),
}
pub enum Key {
    P(TonalPalette),
    C(CorePalette),
    S(DynamicScheme),
    H(Hct),
}
impl PartialEq for Key {
    fn eq(&self, o: &Key) -> bool {
        match (self, o) {
            (Key::P(a), Key::P(b)) => a == b,
            (Key::C(a), Key::C(b)) => a == b,
            (Key::S(a), Key::S(b)) => a == b,
            (Key::H(a), Key::H(b)) => a == b,
            _ => false,
        }
    }
}
impl Eq for Key {}
impl Hash for Key {
    fn hash<H: Hasher>(&self, h: &mut H) {
        match self {
            Key::P(a) => a.hash(h),
            Key::C(a) => a.hash(h),
            Key::S(a) => a.hash(h),
            Key::H(a) => a.hash(h),
        }
    }
}
pub enum Obj {
    Pal(TonalPalette),
    Core(CorePalette),
    Hct(Hct),
    Temp(TemperatureCache),
    Dc(DynamicColor),
    Sch(DynamicScheme),
    Qz(Quant),
    Bag(HashSet<Key>),
}
// Is the type still shareable between threads? If not, the simulator takes its lock around it.
pub struct W<T>(std::marker::PhantomData<T>);
#[allow(dead_code)]
pub trait NotSync {
    const SYNC: bool = false;
}
impl<T> NotSync for W<T> {}
impl<T: Sync + Send> W<T> {
    pub const SYNC: bool = true;
}
pub fn shareable(o: &Obj) -> bool {
    match o {
        Obj::Pal(_) => W::<TonalPalette>::SYNC,
        Obj::Core(_) => W::<CorePalette>::SYNC,
        Obj::Hct(_) => W::<Hct>::SYNC,
        Obj::Sch(_) => W::<DynamicScheme>::SYNC,
        _ => false,
    }
}

fn variant(i: i64) -> Variant {
    match i {
        0 => Variant::Monochrome,
        1 => Variant::Neutral,
        2 => Variant::TonalSpot,
        3 => Variant::Vibrant,
        4 => Variant::Expressive,
        5 => Variant::Content,
        6 => Variant::Fidelity,
        7 => Variant::Rainbow,
        _ => Variant::FruitSalad,
    }
}
pub fn scheme_of(kind: i64, h: Hct, dark: bool, c: f64) -> DynamicScheme {
    use m::scheme::*;
    lib(|| match kind {
        0 => scheme_monochrome::SchemeMonochrome::new(h, dark, c).dynamic_scheme,
        1 => scheme_neutral::SchemeNeutral::new(h, dark, c).dynamic_scheme,
        2 => scheme_tonal_spot::SchemeTonalSpot::new(h, dark, c).dynamic_scheme,
        3 => scheme_vibrant::SchemeVibrant::new(h, dark, c).dynamic_scheme,
        4 => scheme_expressive::SchemeExpressive::new(h, dark, c).dynamic_scheme,
        5 => scheme_content::SchemeContent::new(h, dark, c).dynamic_scheme,
        6 => scheme_fidelity::SchemeFidelity::new(h, dark, c).dynamic_scheme,
        7 => scheme_rainbow::SchemeRainbow::new(h, dark, c).dynamic_scheme,
        _ => scheme_fruit_salad::SchemeFruitSalad::new(h, dark, c).dynamic_scheme,
    })
}
fn legacy(kind: i64, argb: i64) -> Ints {
    #[allow(deprecated)]
    let s = lib(|| match kind {
        0 => m::scheme::scheme::Scheme::light(argb),
        1 => m::scheme::scheme::Scheme::dark(argb),
        2 => m::scheme::scheme::Scheme::light_content(argb),
        _ => m::scheme::scheme::Scheme::dark_content(argb),
    });
    fixed_colors(s)
}
fn fixed(kind: i64, c: CorePalette) -> Ints {
    #[allow(deprecated)]
    let s = lib(|| if kind % 2 == 0 { m::scheme::scheme::Scheme::light_from_core_palette(c) } else { m::scheme::scheme::Scheme::dark_from_core_palette(c) });
    fixed_colors(s)
}
#[allow(deprecated)]
fn fixed_colors(s: m::scheme::scheme::Scheme) -> Ints {
    #[allow(deprecated)]
    let v = vec![
        s.primary, s.on_primary, s.primary_container, s.on_primary_container, s.secondary, s.on_secondary, s.secondary_container,
        s.on_secondary_container, s.tertiary, s.on_tertiary, s.tertiary_container, s.on_tertiary_container, s.error, s.on_error,
        s.error_container, s.on_error_container, s.background, s.on_background, s.surface, s.on_surface, s.surface_variant,
        s.on_surface_variant, s.outline, s.outline_variant, s.shadow, s.scrim, s.inverse_surface, s.inverse_on_surface, s.inverse_primary,
    ];
    v
}
fn pal_i(s: &DynamicScheme, i: i64) -> &TonalPalette {
    match i {
        0 => &s.primary_palette,
        1 => &s.secondary_palette,
        2 => &s.tertiary_palette,
        3 => &s.neutral_palette,
        4 => &s.neutral_variant_palette,
        _ => &s.error_palette,
    }
}
fn curve(i: i64) -> Option<ContrastCurve> {
    match i {
        1 => Some(ContrastCurve::new(1.0, 1.0, 3.0, 7.0)),
        2 => Some(ContrastCurve::new(3.0, 4.5, 7.0, 11.0)),
        3 => Some(ContrastCurve::new(4.5, 7.0, 11.0, 21.0)),
        4 => Some(ContrastCurve::new(1.5, 3.0, 4.5, 7.0)),
        _ => None,
    }
}
/// A user-defined dynamic color; every closure is a callback the plan can make panic.
/// (custom name pal tonekind tone isbg bg bg2 curve pair)
fn custom(name: i64, p: i64, tk: i64, tv: f64, isbg: bool, bg: i64, bg2: i64, cu: i64, pair: i64, depth: i64) -> DynamicColor {
    let mkbg = move |b: i64| -> Option<Box<dyn Fn(&DynamicScheme) -> DynamicColor>> {
        if b == 0 || depth > 2 {
            return None;
        }
        Some(Box::new(move |s: &DynamicScheme| {
            cb();
            match b {
                1 => MDC::highest_surface(s),
                2 => MDC::surface(),
                3 => MDC::primary_container(),
                4 => MDC::inverse_surface(),
                5 => custom(900 + b, 3, 1, 40.0, true, 0, 0, 0, 0, depth + 1),
                6 => custom(900 + b, 0, 0, 55.0, true, 2, 0, 2, 0, depth + 1),
                7 => MDC::surface_bright(),
                8 => MDC::surface_dim(),
                _ => MDC::secondary_container(),
            }
        }))
    };
    let tdp: Option<Box<dyn Fn(&DynamicScheme) -> ToneDeltaPair>> = if pair == 0 || depth > 0 {
        None
    } else {
        Some(Box::new(move |_s: &DynamicScheme| {
            cb();
            let me = custom(name, p, tk, tv, isbg, bg, bg2, cu.max(1), 0, depth + 1);
            let other = custom(name + 5000, p, tk, tv + if pair % 2 == 0 { 10.0 } else { -10.0 }, isbg, bg, bg2, 4, 0, depth + 1);
            let pol = match pair % 4 {
                0 => TonePolarity::Darker,
                1 => TonePolarity::Lighter,
                2 => TonePolarity::Nearer,
                _ => TonePolarity::Farther,
            };
            if pair < 4 {
                ToneDeltaPair::new(me, other, 10.0, pol, pair % 3 == 0)
            } else {
                ToneDeltaPair::new(other, me, 15.0, pol, pair % 3 == 0)
            }
        }))
    };
    // names need not be unique, nor there at all
    let nm = match name {
        0 => None,
        5 => Some("primary".to_string()),
        6 => Some("surface".to_string()),
        n => Some(format!("custom{}", n)),
    };
    let cu = if pair != 0 { cu.max(1) } else { cu };
    let bg = if pair != 0 || (bg2 != 0 && bg == 0) { bg.max(1) } else { bg };
    let (bg2, cu) = if bg2 != 0 { (bg2, cu.max(1)) } else { (bg2, cu) };
    DynamicColor::from_palette(
        nm.as_deref(),
        Box::new(move |s| {
            cb();
            pal_i(s, p)
        }),
        Box::new(move |s| {
            cb();
            match tk {
                0 => tv,
                1 => if s.is_dark { 100.0 - tv } else { tv },
                2 => pal_i(s, p).key_color.get_tone(),
                3 => (tv + 10.0 * s.contrast_level).clamp(0.0, 100.0),
                // callbacks that use the library themselves
                5 => Hct::from_int(s.get_primary_container()).get_tone(),
                6 => {
                    let mut q = pal_i(s, p).clone();
                    Hct::from_int(q.get(tv as i64)).get_tone()
                }
                7 => {
                    let mut t = s.clone();
                    t.is_dark = !t.is_dark;
                    MDC::surface().get_hct(&t).get_tone()
                }
                8 => {
                    let mut h = s.source_color_hct.clone();
                    h.set_tone(tv);
                    h.get_tone()
                }
                _ => if matches!(s.variant, Variant::Monochrome) { tv / 2.0 } else { s.source_color_hct.get_tone() },
            }
        }),
        Some(isbg),
        mkbg(bg),
        mkbg(bg2),
        curve(cu),
        tdp,
    )
}
fn hct_r(r: &X) -> Hct {
    match r.head() {
        "hint" => lib(|| Hct::from_int(r.at(1).i())),
        "hct" => lib(|| Hct::from(r.at(1).f(), r.at(2).f(), r.at(3).f())),
        _ => panic!("sim: bad hct recipe {}", r),
    }
}
fn pal_r(r: &X) -> TonalPalette {
    match build(r) {
        Obj::Pal(p) => p,
        _ => panic!("sim: palette recipe expected"),
    }
}
pub fn build(r: &X) -> Obj {
    match r.head() {
        "of" => Obj::Pal(lib(|| TonalPalette::of(r.at(1).f(), r.at(2).f()))),
        "fromhct" => {
            let h = hct_r(r.at(1));
            Obj::Pal(lib(|| TonalPalette::from_hct(&h)))
        }
        "plist" => {
            let v = ints_of(r.at(1));
            Obj::Pal(lib(|| TonalPalette::from_list(&v)))
        }
        "core" => Obj::Core(lib(|| CorePalette::of(r.at(1).i()))),
        "corec" => Obj::Core(lib(|| CorePalette::content_of(r.at(1).i()))),
        "clist" => {
            let v = ints_of(r.at(1));
            Obj::Core(lib(|| CorePalette::from_list(&v)))
        }
        "hint" | "hct" => Obj::Hct(hct_r(r)),
        "temp" => {
            let h = hct_r(r.at(1));
            Obj::Temp(lib(|| TemperatureCache::new(h)))
        }
        "role" => Obj::Dc(lib(|| ROLES[r.at(1).i() as usize % ROLES.len()].2())),
        "custom" => {
            let a = r.l();
            let d = lib(|| custom(a[1].i(), a[2].i(), a[3].i(), a[4].f(), a[5].i() != 0, a[6].i(), a[7].i(), a[8].i(), a[9].i(), 0));
            Obj::Dc(d)
        }
        "sch" => {
            let h = hct_r(r.at(2));
            Obj::Sch(scheme_of(r.at(1).i(), h, r.at(3).i() != 0, r.at(4).f()))
        }
        "dyn" => {
            let a = r.l();
            let p: Vec<TonalPalette> = a[5..10].iter().map(pal_r).collect();
            let mut it = p.into_iter();
            let (p1, p2, p3, p4, p5) = (it.next().unwrap(), it.next().unwrap(), it.next().unwrap(), it.next().unwrap(), it.next().unwrap());
            let c = match &a[3] {
                X::S(_) => None,
                v => Some(v.f()),
            };
            let (argb, v, dark) = (a[1].i(), variant(a[2].i()), a[4].i() != 0);
            let mut s = lib(|| DynamicScheme::new(argb, v, c, dark, p1, p2, p3, p4, p5));
            if a.len() > 10 {
                // the caller's own error palette
                s.error_palette = pal_r(&a[10]);
            }
            Obj::Sch(s)
        }
        "tuned" => {
            let mut o = build(r.at(1));
            tune(&mut o, r.at(2).i(), r.at(3));
            o
        }
        "wu" => Obj::Qz(Quant::Wu(lib(QuantizerWu::new))),
        "map" => Obj::Qz(Quant::Map(QuantizerMap {})),
        "celebi" => Obj::Qz(Quant::Celebi(QuantizerCelebi {})),
        "bag" => Obj::Bag(HashSet::new()),
        _ => panic!("sim: bad recipe {}", r),
    }
}
/// The caller changes a public field of a scheme or core palette it owns.
pub fn tune(o: &mut Obj, field: i64, v: &X) {
    let s = match o {
        Obj::Sch(s) => s,
        Obj::Core(c) => {
            let p = pal_r(v);
            match field {
                4 => c.primary = p,
                5 => c.secondary = p,
                6 => c.tertiary = p,
                7 => c.neutral = p,
                8 => c.neutral_variant = p,
                _ => c.error = p,
            }
            return;
        }
        _ => return,
    };
    match field {
        0 => s.contrast_level = v.f(),
        1 => s.is_dark = v.i() != 0,
        2 => s.variant = variant(v.i()),
        3 => {
            s.source_color_argb = v.i();
            s.source_color_hct = lib(|| Hct::from_int(v.i()));
        }
        4 => s.primary_palette = pal_r(v),
        5 => s.secondary_palette = pal_r(v),
        6 => s.tertiary_palette = pal_r(v),
        7 => s.neutral_palette = pal_r(v),
        8 => s.neutral_variant_palette = pal_r(v),
        _ => s.error_palette = pal_r(v),
    }
}
pub fn clone_obj(o: &Obj) -> Option<Obj> {
    Some(match o {
        Obj::Pal(p) => Obj::Pal(lib(|| p.clone())),
        Obj::Hct(p) => Obj::Hct(lib(|| p.clone())),
        Obj::Sch(p) => Obj::Sch(lib(|| p.clone())),
        _ => return None,
    })
}

// ------------------------------------------------------------------ images and integer lists
pub fn image(a: &[X]) -> Ints {
    let kind = a[0].i();
    let seed = a[1].i() as u64;
    let n = a[2].i().clamp(0, 400000) as usize;
    let nc = a[3].i().clamp(1, 4096) as usize;
    let perm = a[4].i() as u64;
    let edit = a[5].i();
    let mut r = Rng::new(0x1316, seed, kind as u64);
    let mut base: Ints = vec![];
    let bins: Vec<i64> = (0..1 + r.below(3)).map(|_| (r.u() & 0xf8f8f8) as i64).collect();
    for i in 0..nc {
        let rgb = match kind {
            2 => ((i * 255 / nc) as i64) * 0x010101 ^ ((r.u() & 0x0f0f0f) as i64),
            3 => *r.pick(&bins) | (r.u() & 0x070707) as i64,
            4 => {
                // symmetric lattice: many exactly equal distances
                let s = [0i64, 64, 128, 192, 255];
                s[i % 5] << 16 | s[(i / 5) % 5] << 8 | s[(i / 25) % 5]
            }
            8 => ((r.u() & 0xff) as i64) * 0x010101,
            9 => *r.pick(&bins) | (r.u() & 0x010101) as i64, // hardly different
            _ => (r.u() & 0xffffff) as i64,
        };
        let alpha = if kind == 5 { *r.pick(&[255i64, 255, 128, 0, 254]) } else { 255 };
        base.push(alpha << 24 | rgb);
    }
    let mut v: Ints = (0..n)
        .map(|i| match kind {
            6 | 4 => base[i % nc],
            7 => base[0],
            1 => 0xff000000 | (r.u() & 0xffffff) as i64,
            _ => {
                let a = r.below(nc as u64) as usize;
                let b = r.below(nc as u64) as usize;
                base[a.min(b)]
            }
        })
        .collect();
    if edit != 0 && n > 0 {
        let p = (edit as u64 % n as u64) as usize;
        v[p] ^= 1 << ((edit as u64 / n as u64) % 24);
    }
    if perm != 0 {
        let mut q = Rng::new(77, perm, 0);
        for i in (1..v.len()).rev() {
            let j = q.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
    v
}
pub fn ints_of(x: &X) -> Ints {
    match x.head() {
        "img" => image(x.tail()),
        "of" => eval(x.at(1)),
        "" => x.l().iter().map(|i| i.i()).collect(),
        _ => panic!("sim: bad list {}", x),
    }
}
fn map_of(x: &X) -> HashMap<i64, i64> {
    let v = ints_of(x);
    let mut pairs: Vec<(i64, i64)> = v.chunks(2).filter(|c| c.len() == 2).map(|c| (c[0], c[1])).collect();
    // one population per color, whatever the order of insertion
    let mut seen = HashSet::new();
    pairs.retain(|p| seen.insert(p.0));
    // the caller's map may have been filled in any order and with any capacity
    let e = unsafe { rt::ENV_SEED };
    let mut m = HashMap::new();
    if e != 0 {
        let mut r = Rng::new(e, 0x3A9, 1);
        for i in (1..pairs.len()).rev() {
            let j = r.below(i as u64 + 1) as usize;
            pairs.swap(i, j);
        }
        m = HashMap::with_capacity(r.below(200) as usize);
    }
    for (k, v) in pairs {
        m.insert(k, v);
    }
    m
}
fn sorted(mm: &HashMap<i64, i64>) -> Ints {
    let mut v: Vec<(i64, i64)> = mm.iter().map(|(a, b)| (*a, *b)).collect();
    v.sort();
    v.into_iter().flat_map(|(a, b)| [a, b]).collect()
}
fn qres(r: QuantizerResult, with_map: bool) -> Ints {
    let mut v = sorted(&r.color_to_count);
    if with_map {
        let w = sorted(&r.input_pixel_to_cluster_pixel);
        v.push(w.len() as i64);
        v.push(digest(&w));
    }
    v
}
fn opt_i(x: &X) -> Option<i64> {
    match x {
        X::S(_) => None,
        v => Some(v.i()),
    }
}
fn opt_f(x: &X) -> Option<f64> {
    match x {
        X::S(_) => None,
        v => Some(v.f()),
    }
}
fn vc_of(x: &X) -> ViewingConditions {
    if x.head() != "vc" {
        return lib(ViewingConditions::s_rgb);
    }
    let a = x.tail();
    let wp = if let X::S(_) = &a[0] { None } else { Some(vec![a[0].f(), a[1].f(), a[2].f()]) };
    let (p, q, s, d) = (opt_f(&a[3]), opt_f(&a[4]), opt_f(&a[5]), opt_i(&a[6]).map(|i| i != 0));
    lib(|| ViewingConditions::make(wp, p, q, s, d))
}
fn vcv(v: &ViewingConditions) -> Ints {
    let mut r = fv(&[v.adapting_luminance, v.background_lstar, v.surround, v.background_y_to_white_point_y, v.aw, v.nbb, v.ncb, v.c, v.n_c, v.fl, v.f_lroot, v.z]);
    r.extend(fv(&v.white_point));
    r.extend(fv(&v.rgb_d));
    r.extend(fv(&v.drgb_inverse));
    r.push(v.discounting_illuminant as i64);
    r
}

// ------------------------------------------------------------------ queries on objects
pub enum Arg<'a> {
    Ref(&'a Obj),
    Own(Obj),
}
impl<'a> Arg<'a> {
    pub fn get(&self) -> &Obj {
        match self {
            Arg::Ref(r) => r,
            Arg::Own(o) => o,
        }
    }
}
fn fixed_hash(k: &impl Hash, salt: u64) -> i64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    salt.hash(&mut h);
    lib(|| k.hash(&mut h));
    h.finish() as i64
}
fn pal_fp(p: &TonalPalette) -> Ints {
    let mut v = vec![fb(p.hue), fb(p.chroma)];
    v.extend(hv(&p.key_color));
    v
}
fn core_i(c: &mut CorePalette, i: i64) -> &mut TonalPalette {
    match i {
        0 => &mut c.primary,
        1 => &mut c.secondary,
        2 => &mut c.tertiary,
        3 => &mut c.neutral,
        4 => &mut c.neutral_variant,
        _ => &mut c.error,
    }
}
/// Queries that need exclusive access; everything else goes to `query_ref`.
pub fn query(o: &mut Obj, q: &X, arg: Option<Arg>) -> Ints {
    match (o, q.head()) {
        (Obj::Pal(p), "get") => vec![lib(|| p.get(q.at(1).i()))],
        (Obj::Pal(p), "sweep") => {
            let (a, n, st) = (q.at(1).i(), q.at(2).i(), q.at(3).i());
            let v: Ints = (0..n).map(|i| lib(|| p.get(a + i * st))).collect();
            vec![digest(&v)]
        }
        (Obj::Core(c), "sweep") => {
            let (a, n, st) = (q.at(2).i(), q.at(3).i(), q.at(4).i());
            let v: Ints = (0..n).map(|i| lib(|| core_i(c, q.at(1).i()).get(a + i * st))).collect();
            vec![digest(&v)]
        }
        (Obj::Dc(d), "sweepd") => {
            // the same scheme at many contrast levels, light and dark
            let a = arg.expect("sim: scheme argument");
            let s = match a.get() {
                Obj::Sch(s) => s,
                _ => panic!("sim: scheme expected"),
            };
            let mut r = Rng::new(0x53E3, q.at(3).i() as u64 ^ unsafe { SALT }, 0);
            let mut v: Ints = vec![];
            for _ in 0..q.at(2).i() {
                let mut t = lib(|| s.clone());
                match q.at(3).i() % 4 {
                    1 => t.source_color_argb = 0xff000000 | (r.u() & 0xffffff) as i64,
                    2 => {
                        let (h, c) = (r.f() * 360.0, r.f() * 60.0);
                        t.primary_palette = lib(|| TonalPalette::of(h, c));
                    }
                    _ => {
                        t.contrast_level = r.f() * 2.0 - 1.0;
                        t.is_dark = r.chance(1, 2);
                    }
                }
                v.push(lib(|| d.get_argb(&t)));
            }
            vec![digest(&v)]
        }
        (Obj::Pal(p), "aslist") => lib(|| p.get_as_list()),
        (Obj::Core(c), "aslist") => lib(|| c.as_list()),
        (Obj::Core(c), "get") => vec![lib(|| core_i(c, q.at(1).i()).get(q.at(2).i()))],
        (Obj::Core(c), "gethct") => hv(&lib(|| core_i(c, q.at(1).i()).get_hct(q.at(2).f()))),
        (Obj::Hct(h), "set") => {
            let v = q.at(2).f();
            lib(|| match q.at(1).i() {
                0 => h.set_hue(v),
                1 => h.set_chroma(v),
                _ => h.set_tone(v),
            });
            hv(h)
        }
        (Obj::Temp(t), "warm") => hv(&lib(|| t.get_warmest())),
        (Obj::Temp(t), "cold") => hv(&lib(|| t.get_coldest())),
        (Obj::Temp(t), "comp") => hv(&lib(|| t.get_complement())),
        (Obj::Temp(t), "irel") => vec![fb(lib(|| t.get_input_relative_temperature()))],
        (Obj::Temp(t), "ana") => {
            let (c, d) = (opt_i(q.at(1)), opt_i(q.at(2)));
            hvs(&lib(|| t.analogous(c, d)))
        }
        (Obj::Temp(t), "rel") => {
            // (rel hue): a member color, built independently of the cache; (rel argb) for others
            let h = match q.at(1) {
                X::F(hue) => {
                    let (c, tn) = (t.input.get_chroma(), t.input.get_tone());
                    lib(|| Hct::from(*hue, c, tn))
                }
                v => lib(|| Hct::from_int(v.i())),
            };
            vec![fb(lib(|| t.relative_temperature(&h)))]
        }
        (Obj::Temp(t), "bytemp") => hvs(&lib(|| t.get_hcts_by_temp())),
        (Obj::Temp(t), "byhue") => hvs(&lib(|| t.get_hcts_by_hue())),
        (Obj::Temp(t), "temps") => {
            let m = lib(|| t.get_temps_by_hct());
            let mut v: Vec<(i64, i64)> = m.iter().map(|(h, f)| (h.to_int(), fb(*f))).collect();
            v.sort();
            v.into_iter().flat_map(|(a, b)| [a, b]).collect()
        }
        (Obj::Dc(d), k @ ("argb" | "hct" | "tone" | "via" | "viah")) => {
            let a = arg.expect("sim: scheme argument");
            let s = match a.get() {
                Obj::Sch(s) => s,
                _ => panic!("sim: scheme expected"),
            };
            match k {
                "argb" => vec![lib(|| d.get_argb(s))],
                "hct" => hv(&lib(|| d.get_hct(s))),
                "via" => vec![lib(|| s.get_argb(d))],
                "viah" => hv(&lib(|| s.get_hct(d))),
                _ => vec![fb(lib(|| d.get_tone(s)))],
            }
        }
        (Obj::Qz(z), "quant") => {
            let px = ints_of(q.at(1));
            let mx = q.at(2).i();
            let wm = q.at(3).i() != 0;
            let r = lib(|| match z {
                Quant::Map(z) => z.quantize(&px, mx, Some(wm)),
                Quant::Wu(z) => z.quantize(&px, mx, Some(wm)),
                Quant::Celebi(z) => z.quantize(&px, mx, Some(wm)),
            });
            qres(r, wm)
        }
        (Obj::Bag(b), k @ ("ins" | "has" | "rem")) => {
            let key = to_key(arg.expect("sim: bag argument").get(), q);
            // contains() must say what comparing with every member says
            let any = lib(|| b.iter().any(|m| *m == key));
            let any2 = lib(|| b.iter().any(|m| key == *m));
            let has = lib(|| b.contains(&key));
            let same = b.iter().all(|m| !(*m == key) || (fixed_hash(m, 1) == fixed_hash(&key, 1) && fixed_hash(m, 99) == fixed_hash(&key, 99)));
            let refl = lib(|| key == key);
            let n = b.len();
            let changed = match k {
                "ins" => lib(|| b.insert(key)),
                "rem" => lib(|| b.remove(&key)),
                _ => false,
            };
            let ok_len = match (k, changed) {
                ("ins", true) => b.len() == n + 1 && !has,
                ("ins", false) => b.len() == n && has,
                ("rem", true) => b.len() == n - 1 && has,
                ("rem", false) => b.len() == n && !has,
                _ => true,
            };
            vec![has as i64, any as i64, any2 as i64, same as i64, refl as i64, ok_len as i64]
        }
        (o, _) => query_ref(o, q, arg),
    }
}
fn to_key(o: &Obj, _q: &X) -> Key {
    match o {
        Obj::Pal(p) => Key::P(p.clone()),
        Obj::Sch(s) => Key::S(s.clone()),
        Obj::Hct(h) => Key::H(h.clone()),
        Obj::Core(c) => {
            // CorePalette has no Clone: copy palette by palette, caches included
            let mut k = lib(|| CorePalette::of(0xff000000));
            k.primary = c.primary.clone();
            k.secondary = c.secondary.clone();
            k.tertiary = c.tertiary.clone();
            k.neutral = c.neutral.clone();
            k.neutral_variant = c.neutral_variant.clone();
            k.error = c.error.clone();
            Key::C(k)
        }
        _ => panic!("sim: not a key"),
    }
}
pub fn query_ref(o: &Obj, q: &X, arg: Option<Arg>) -> Ints {
    match (o, q.head()) {
        (Obj::Pal(p), "gethct") => hv(&lib(|| p.get_hct(q.at(1).f()))),
        (Obj::Pal(p), "str") => strv(&lib(|| p.to_string())),
        (Obj::Pal(p), "fp") => pal_fp(p),
        (Obj::Pal(p), "clget") => {
            let mut c = lib(|| p.clone());
            vec![lib(|| c.get(q.at(1).i()))]
        }
        (Obj::Core(c), "str") => strv(&lib(|| c.to_string())),
        (Obj::Core(c), "fp") => [&c.primary, &c.secondary, &c.tertiary, &c.neutral, &c.neutral_variant, &c.error].iter().flat_map(|p| pal_fp(p)).collect(),
        (Obj::Core(c), "gethctr") => {
            let p = match q.at(1).i() {
                0 => &c.primary,
                1 => &c.secondary,
                2 => &c.tertiary,
                3 => &c.neutral,
                4 => &c.neutral_variant,
                _ => &c.error,
            };
            hv(&lib(|| p.get_hct(q.at(2).f())))
        }
        (Obj::Hct(h), "fp") => hv(h),
        (Obj::Hct(h), "str") => strv(&lib(|| h.to_string())),
        (Obj::Hct(h), "invc") => {
            let v = vc_of(q.at(1));
            hv(&lib(|| h.in_viewing_conditions(&v)))
        }
        (Obj::Sch(s), "role") => vec![lib(|| ROLES[q.at(1).i() as usize % ROLES.len()].1(s))],
        (Obj::Sch(s), "roledc") => {
            let mut d = lib(|| ROLES[q.at(1).i() as usize % ROLES.len()].2());
            hv(&lib(|| d.get_hct(s)))
        }
        (Obj::Sch(s), "all") => ROLES.iter().map(|r| lib(|| r.1(s))).collect(),
        (Obj::Sch(s), "palhct") => hv(&lib(|| pal_i(s, q.at(1).i()).get_hct(q.at(2).f()))),
        (Obj::Sch(s), "fp") => {
            let mut v = vec![s.source_color_argb, s.is_dark as i64, fb(s.contrast_level), strv(&format!("{:?}", s.variant))[1]];
            v.extend(hv(&s.source_color_hct));
            for i in 0..6 {
                v.extend(pal_fp(pal_i(s, i)));
            }
            v
        }
        (a, "eq" | "eqsrc") => {
            let b = arg.expect("sim: eq argument");
            let r = match (a, b.get()) {
                (Obj::Pal(a), Obj::Pal(b)) => (lib(|| a == b), lib(|| b == a)),
                (Obj::Core(a), Obj::Core(b)) => (lib(|| a == b), lib(|| b == a)),
                (Obj::Sch(a), Obj::Sch(b)) => (lib(|| a == b), lib(|| b == a)),
                (Obj::Hct(a), Obj::Hct(b)) => (lib(|| a == b), lib(|| b == a)),
                (a, b) => panic!("sim: eq of different kinds {:?} {:?} {}", std::mem::discriminant(a), std::mem::discriminant(b), q),
            };
            vec![r.0 as i64, r.1 as i64]
        }
        (_, "hash") => {
            let h = match o {
                Obj::Pal(a) => fixed_hash(a, 3),
                Obj::Core(a) => fixed_hash(a, 3),
                Obj::Sch(a) => fixed_hash(a, 3),
                Obj::Hct(a) => fixed_hash(a, 3),
                _ => panic!("sim: no hash"),
            };
            vec![h]
        }
        (_, h) => panic!("sim: bad query {}", h),
    }
}

// ------------------------------------------------------------------ stateless requests
pub const PURE: &[(&str, &str)] = &[
    // name, argument kinds: c argb, h hue, k chroma, t tone, r ratio, u unit, n small int, v viewing conditions, l lab, d degrees, i int
    ("hctfrom", "hkt"), ("hctint", "c"), ("solvecam", "hkt"), ("camint", "c"), ("camvc", "cv"), ("camjch", "tkh"), ("camjchvc", "tkhv"),
    ("camucs", "tll"), ("camucsvc", "tllv"), ("camdist", "cc"), ("camviewed", "cv"), ("camtoint", "c"), ("camxyz", "xxxv"), ("vcmake", "v"),
    ("invc", "cv"), ("lab", "c"), ("argblab", "tll"), ("xyz", "c"), ("argbxyz", "xxx"), ("lstar", "c"), ("argblstar", "t"),
    ("ylstar", "t"), ("lstary", "t"), ("linear", "b"), ("delinear", "t"), ("white", ""), ("sanit", "d"), ("saniti", "i"), ("rotdir", "hh"),
    ("diffdeg", "hh"), ("lerp", "ttu"), ("matmul", "xxx"), ("hex", "c"), ("unhex", "c"), ("hexstr", "ci"), ("ratio", "tt"), ("lighter", "tr"), ("darker", "tr"),
    ("lighteru", "tr"), ("darkeru", "tr"), ("harmonize", "cc"), ("hcthue", "ccu"), ("ucs", "ccu"), ("disliked", "c"), ("fix", "c"),
    ("keycolor", "hk"), ("rothue", "cn"), ("fgtone", "tr"), ("enlight", "t"), ("rawtemp", "c"), ("curve", "nu"), ("legacy", "nc"),
    ("scheme", "mcbz"), ("chan", "c"), ("argbrgb", "bbb"), ("linrgb", "ttt"),
    ("solveint", "hkt"), ("prefers", "t"), ("clampd", "ttt"), ("signum", "l"),
];
pub fn pure(name: &str, a: &[X]) -> Ints {
    let f = |i: usize| a[i].f();
    let n = |i: usize| a[i].i();
    match name {
        "hctfrom" => hv(&lib(|| Hct::from(f(0), f(1), f(2)))),
        "hctint" => hv(&lib(|| Hct::from_int(n(0)))),
        "hctset" => {
            // reference for a setter: what building the color afresh from the three dimensions gives
            let h = lib(|| Hct::from_int(n(0)));
            let (mut hu, mut c, mut t) = (h.get_hue(), h.get_chroma(), h.get_tone());
            match n(1) {
                0 => hu = f(2),
                1 => c = f(2),
                _ => t = f(2),
            }
            hv(&lib(|| Hct::from(hu, c, t)))
        }
        "solvecam" => camv(&lib(|| HctSolver::solve_to_cam(f(0), f(1), f(2)))),
        "camint" => camv(&lib(|| Cam16::from_int(n(0)))),
        "camtoint" => vec![lib(|| Cam16::from_int(n(0)).to_int())],
        "camvc" => {
            let v = vc_of(&a[1]);
            camv(&lib(|| Cam16::from_int_in_viewing_conditions(n(0), &v)))
        }
        "camjch" => camv(&lib(|| Cam16::from_jch(f(0), f(1), f(2)))),
        "camjchvc" => {
            let v = vc_of(&a[3]);
            camv(&lib(|| Cam16::from_jch_in_viewing_conditions(f(0), f(1), f(2), &v)))
        }
        "camucs" => camv(&lib(|| Cam16::from_ucs(f(0), f(1), f(2)))),
        "camucsvc" => {
            let v = vc_of(&a[3]);
            camv(&lib(|| Cam16::from_ucs_in_viewing_conditions(f(0), f(1), f(2), &v)))
        }
        "camdist" => vec![fb(lib(|| Cam16::from_int(n(0)).distance(&Cam16::from_int(n(1)))))],
        "camviewed" => {
            let v = vc_of(&a[1]);
            vec![lib(|| Cam16::from_int(n(0)).viewed(&v))]
        }
        "camxyz" => {
            let v = vc_of(&a[3]);
            let c = lib(|| Cam16::from_xyz_in_viewing_conditions(f(0), f(1), f(2), &v));
            let mut r = camv(&c);
            r.extend(fv(&lib(|| c.xyz_in_viewing_conditions(&v, None))));
            r
        }
        "vcmake" => vcv(&vc_of(&a[0])),
        "invc" => {
            let v = vc_of(&a[1]);
            hv(&lib(|| Hct::from_int(n(0)).in_viewing_conditions(&v)))
        }
        "lab" => fv(&lib(|| ColorUtils::lab_from_argb(n(0)))),
        "argblab" => vec![lib(|| ColorUtils::argb_from_lab(f(0), f(1), f(2)))],
        "xyz" => fv(&lib(|| ColorUtils::xyz_from_argb(n(0)))),
        "argbxyz" => vec![lib(|| ColorUtils::argb_from_xyz(f(0), f(1), f(2)))],
        "lstar" => vec![fb(lib(|| ColorUtils::lstar_from_argb(n(0))))],
        "argblstar" => vec![lib(|| ColorUtils::argb_from_lstar(f(0)))],
        "ylstar" => vec![fb(lib(|| ColorUtils::y_from_lstar(f(0))))],
        "lstary" => vec![fb(lib(|| ColorUtils::lstar_from_y(f(0))))],
        "linear" => vec![fb(lib(|| ColorUtils::linearized(n(0))))],
        "delinear" => vec![lib(|| ColorUtils::delinearized(f(0)))],
        "argbrgb" => vec![lib(|| ColorUtils::argb_from_rgb(n(0), n(1), n(2)))],
        "linrgb" => vec![lib(|| ColorUtils::argb_from_linrgb(vec![f(0), f(1), f(2)]))],
        "chan" => vec![ColorUtils::alpha_from_argb(n(0)), ColorUtils::red_from_argb(n(0)), ColorUtils::green_from_argb(n(0)), ColorUtils::blue_from_argb(n(0)), ColorUtils::is_opaque(n(0)) as i64],
        "white" => fv(&lib(ColorUtils::white_point_d65)),
        "sanit" => vec![fb(lib(|| MathUtils::sanitize_degrees_double(f(0))))],
        "saniti" => vec![lib(|| MathUtils::sanitize_degrees_int(n(0)))],
        "rotdir" => vec![fb(lib(|| MathUtils::rotation_direction(f(0), f(1))))],
        "diffdeg" => vec![fb(lib(|| MathUtils::difference_degrees(f(0), f(1))))],
        "lerp" => vec![fb(lib(|| MathUtils::lerp(f(0), f(1), f(2))))],
        "matmul" => fv(&lib(|| MathUtils::matrix_multiply(vec![f(0), f(1), f(2)], vec![vec![f(0), 0.5, 0.1], vec![0.2, f(1), 0.3], vec![0.7, 0.1, f(2)]]))),
        "hex" => {
            let mut v = strv(&lib(|| StringUtils::hex_from_argb(n(0), None)));
            v.extend(strv(&lib(|| StringUtils::hex_from_argb(n(0), Some(false)))));
            v
        }
        "unhex" => {
            let s = format!("#{:08x}", n(0));
            vec![lib(|| StringUtils::argb_from_hex(s)).unwrap_or(-1)]
        }
        "hexstr" => {
            // strings people type, most of them no colors
            let c = n(0);
            let s = match n(1).rem_euclid(12) {
                0 => format!("#{:06x}", c & 0xffffff),
                1 => format!("{:06X}", c & 0xffffff),
                2 => format!("#{:03x}", c & 0xfff),
                3 => String::new(),
                4 => "#".to_string(),
                5 => format!("#{:04x}x{:02x}", c & 0xffff, c >> 24 & 0xff),
                6 => format!("{:06x}gg", c & 0xffffff),
                7 => format!("##{:x}", c),
                8 => format!("+{:x}", c),
                9 => format!("-{:x}", c),
                10 => format!("#{:08x}{:08x}{:08x}", c, c, c),
                _ => format!(" {:06x}\u{e9}", c & 0xffffff),
            };
            vec![lib(|| StringUtils::argb_from_hex(s)).map_or(0, |v| v ^ 1 << 62)]
        }
        "ratio" => vec![fb(lib(|| Contrast::ratio_of_tones(f(0), f(1))))],
        "lighter" => vec![fb(lib(|| Contrast::lighter(f(0), f(1))))],
        "darker" => vec![fb(lib(|| Contrast::darker(f(0), f(1))))],
        "lighteru" => vec![fb(lib(|| Contrast::lighter_unsafe(f(0), f(1))))],
        "darkeru" => vec![fb(lib(|| Contrast::darker_unsafe(f(0), f(1))))],
        "harmonize" => vec![lib(|| Blend::harmonize(n(0), n(1)))],
        "hcthue" => vec![lib(|| Blend::hct_hue(n(0), n(1), f(2)))],
        "ucs" => vec![lib(|| Blend::cam16_ucs(n(0), n(1), f(2)))],
        "disliked" => vec![lib(|| DislikeAnalyzer::is_disliked(&Hct::from_int(n(0)))) as i64],
        "fix" => hv(&lib(|| DislikeAnalyzer::fix_if_disliked(&Hct::from_int(n(0))))),
        "keycolor" => hv(&lib(|| TonalPalette::create_key_color(f(0), f(1)))),
        "rothue" => {
            let k = n(1).rem_euclid(3);
            let (h, r): (Vec<f64>, Vec<f64>) = match k {
                0 => (vec![0.0], vec![45.0]),
                1 => (vec![0.0, 41.0, 61.0, 101.0, 131.0, 181.0, 251.0, 301.0, 360.0], vec![18.0, 15.0, 10.0, 12.0, 15.0, 18.0, 15.0, 12.0, 12.0]),
                _ => (vec![0.0, 21.0, 51.0, 121.0, 151.0, 191.0, 271.0, 321.0, 360.0], vec![45.0, 95.0, 45.0, 20.0, 45.0, 90.0, 45.0, 45.0, 45.0]),
            };
            vec![fb(lib(|| DynamicScheme::get_rotated_hue(&Hct::from_int(n(0)), &h, &r)))]
        }
        "fgtone" => vec![fb(lib(|| DynamicColor::foreground_tone(f(0), f(1))))],
        "solveint" => vec![lib(|| HctSolver::solve_to_int(f(0), f(1), f(2)))],
        "prefers" => vec![lib(|| DynamicColor::tone_prefers_light_foreground(f(0))) as i64, lib(|| DynamicColor::tone_allows_light_foreground(f(0))) as i64],
        "clampd" => {
            let (lo, hi) = (f(0).min(f(1)), f(0).max(f(1)));
            vec![fb(lib(|| m::utils::math_utils::MathUtils::clamp_double(lo, hi, f(2)))), lib(|| m::utils::math_utils::MathUtils::clamp_int(lo as i64, hi as i64, f(2) as i64))]
        }
        "signum" => vec![lib(|| m::utils::math_utils::MathUtils::signum(f(0)))],
        "fixed" => {
            // (fixed kind core): the fixed scheme of a core palette, or of a stored one
            let c = match a[1].head() {
                "core" | "corec" | "clist" => build(&a[1]),
                _ => build(&crate::x!("clist", X::ints(&ints_of(&a[1])))),
            };
            let c = match c {
                Obj::Core(c) => c,
                _ => panic!("sim: core palette expected"),
            };
            fixed(n(0), c)
        }
        "enlight" => vec![fb(lib(|| DynamicColor::enable_light_foreground(f(0))))],
        "rawtemp" => vec![fb(lib(|| TemperatureCache::raw_temperature(&Hct::from_int(n(0)))))],
        "curve" => vec![fb(lib(|| curve(1 + n(0).rem_euclid(4)).unwrap().get(f(1) * 2.0 - 1.0)))],
        "legacy" => legacy(n(0).rem_euclid(4), n(1)),
        "scheme" => {
            let h = lib(|| Hct::from_int(n(1)));
            let s = Obj::Sch(scheme_of(n(0).rem_euclid(9), h, n(2) % 2 != 0, f(3)));
            let mut v = query_ref(&s, &crate::x!("fp"), None);
            v.extend(query_ref(&s, &crate::x!("all"), None));
            v
        }
        "score" => {
            let m = map_of(&a[0]);
            let (d, fbk, fl) = (opt_i(&a[1]), opt_i(&a[2]), opt_i(&a[3]).map(|i| i != 0));
            lib(|| Score::score(&m, d, fbk, fl))
        }
        "wsm" => {
            // (wsm pixels max start iters map)
            let px = ints_of(&a[0]);
            let mx = n(1);
            let st = if let X::S(_) = &a[2] { None } else { Some(ints_of(&a[2])) };
            let it = opt_i(&a[3]);
            let wm = n(4) != 0;
            qres(lib(|| QuantizerWsmeans::quantize(&px, mx, st.as_ref(), None, it, Some(wm))), wm)
        }
        "theme" => {
            // (theme pixels max desired kind dark contrast): image to theme, the whole pipeline
            let px = ints_of(&a[0]);
            let mx = n(1);
            let r = lib(|| QuantizerCelebi {}.quantize(&px, mx, None));
            let sc = lib(|| Score::score(&r.color_to_count, Some(n(2)), None, None));
            themes(&sc, &a[3..])
        }
        "themeq" => {
            // from a stored quantization: (themeq map desired kind dark contrast)
            let m = map_of(&a[0]);
            let sc = lib(|| Score::score(&m, Some(n(1)), None, None));
            themes(&sc, &a[2..])
        }
        "themes" => themes(&ints_of(&a[0]), &a[1..]),
        "many" => {
            // (many name n seed): a long history of one kind of request
            let (f, sig) = *PURE.iter().find(|p| p.0 == a[0].s()).expect("sim: bad many");
            let mut r = Rng::new(0x3A47, a[2].i() as u64, 5);
            let mut v: Ints = vec![];
            for _ in 0..a[1].i() {
                let args: Vec<X> = sig.chars().map(|k| rand_arg(&mut r, k)).collect();
                v.push(digest(&pure(f, &args)));
            }
            vec![digest(&v)]
        }
        "manyscore" => {
            let mut r = Rng::new(0x3A48, a[1].i() as u64, 5);
            let mut v: Ints = vec![];
            for _ in 0..a[0].i() {
                let m: HashMap<i64, i64> = (0..r.range(1, 12)).map(|_| (0xff000000 | (r.u() & 0xffffff) as i64, r.range(1, 9))).collect();
                v.push(digest(&lib(|| Score::score(&m, None, None, None))));
            }
            vec![digest(&v)]
        }
        "manywsm" => {
            let mut r = Rng::new(0x3A49, a[1].i() as u64, 5);
            let mut v: Ints = vec![];
            for _ in 0..a[0].i() {
                // (manywsm n seed big): big pictures, many centroids
                let big = a.len() > 2;
                let (lo, hi) = if big { (50, 400) } else { (3, 30) };
                let px: Ints = (0..r.range(lo, hi)).map(|_| 0xff000000 | (r.u() & 0xffffff) as i64).collect();
                let m = if big { r.range(8, 40) } else { r.range(2, 6) };
                v.push(digest(&qres(lib(|| QuantizerWsmeans::quantize(&px, m, None, None, None, None)), false)));
            }
            vec![digest(&v)]
        }
        _ => panic!("sim: bad pure {}", name),
    }
}
/// the requests a burst consists of
pub fn burst_item(name: &str, seed: i64, i: i64) -> X {
    let (_, sig) = *PURE.iter().find(|p| p.0 == name).expect("sim: bad many");
    let mut r = Rng::new(0x3A47, seed as u64, 5);
    for _ in 0..i {
        for k in sig.chars() {
            rand_arg(&mut r, k);
        }
    }
    let mut v = vec![X::S("pure".into()), X::S(name.into())];
    v.extend(sig.chars().map(|k| rand_arg(&mut r, k)));
    X::L(v)
}
fn rand_arg(r: &mut Rng, k: char) -> X {
    match k {
        'c' => X::I(0xff000000 | (r.u() & 0xffffff) as i64),
        'h' => X::F(r.f() * 360.0),
        'k' => X::F(r.f() * 120.0),
        't' | 'x' => X::F(r.f() * 100.0),
        'r' => X::F(1.0 + r.f() * 8.0),
        'u' => X::F(r.f()),
        'n' => X::I(r.range(0, 8)),
        'm' => X::I(*r.pick(&[0i64, 1, 2, 3, 4, 7, 8])),
        'z' => X::F(r.f() * 2.0 - 1.0),
        'b' => X::I(r.range(0, 255)),
        'v' => crate::x!("vc", "none", "none", "none", r.f() * 200.0, r.f() * 100.0, r.f() * 2.0, r.range(0, 1)),
        'l' => X::F(r.f() * 160.0 - 80.0),
        'd' => X::F(r.f() * 2000.0 - 1000.0),
        _ => X::I(r.range(-1000, 1000)),
    }
}
fn themes(sc: &[i64], a: &[X]) -> Ints {
    let mut v = vec![sc.len() as i64];
    for c in sc.iter() {
        v.push(*c);
    }
    if let Some(c) = sc.first() {
        let h = lib(|| Hct::from_int(*c));
        let s = Obj::Sch(scheme_of(a[0].i().rem_euclid(9), h, a[1].i() != 0, a[2].f()));
        v.extend(query_ref(&s, &crate::x!("all"), None));
    }
    v
}
/// Evaluate a complete request on fresh objects.
pub fn eval(r: &X) -> Ints {
    match r.head() {
        "on" => {
            let mut o = build(r.at(1));
            let q = r.at(2);
            let arg = arg_recipe(q).map(|x| Arg::Own(build(x)));
            query(&mut o, q, arg)
        }
        "pure" => pure(r.at(1).s(), &r.l()[2..]),
        _ => panic!("sim: bad request {}", r),
    }
}
/// The argument of a query that is itself an object (a scheme to resolve in, a value to compare with).
pub fn arg_recipe(q: &X) -> Option<&X> {
    match q.head() {
        "argb" | "hct" | "tone" | "via" | "viah" | "sweepd" | "eq" | "eqsrc" | "ins" | "has" | "rem" => Some(q.at(1)),
        _ => None,
    }
}
pub fn shorten(v: Ints) -> Ints {
    if v.len() > 600 {
        vec![v.len() as i64, digest(&v)]
    } else {
        v
    }
}
#[derive(Debug, Clone, PartialEq)]
pub enum Out {
    Ok(Ints),
    Panic,
}
pub fn guarded(f: impl FnOnce() -> Ints) -> Out {
    let r = catch_unwind(AssertUnwindSafe(f));
    unsafe {
        TL.in_lib = false;
        rt::check_fp();
        TL.eff = false;
    }
    match r {
        Ok(v) => Out::Ok(shorten(v)),
        Err(e) => {
            let bad = e.downcast_ref::<String>().map(|s| s.starts_with("sim:")).unwrap_or(false) || e.downcast_ref::<&str>().map(|s| s.starts_with("sim:")).unwrap_or(false);
            if bad {
                let t = format!("{:?}\n", e.downcast_ref::<String>()); unsafe { rt::sys6(1, 2, t.as_ptr() as i64, t.len() as i64, 0, 0, 0) }; rt::die(9);
            }
            Out::Panic
        }
    }
}
