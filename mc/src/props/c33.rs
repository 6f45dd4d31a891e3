//! C33: derived and composed Store/Load implementations write and read exactly what is declared.
use super::tlb::{raw_cell, W};
use crate::fw::*;
use crate::model::bits::*;
use crate::{bad, ck, ckeq};
use std::fmt::Debug;
use std::num::{NonZeroU16, NonZeroU32, NonZeroU8};
use std::rc::Rc;
use std::sync::Arc;
use tycho_types::cell::*;
use tycho_types::dict::Dict;
use tycho_types::error::Error;
use tycho_types::num::{SplitDepth, Tokens, Uint15, VarUint24, VarUint56};

pub const META: Meta = Meta {
    id: "C33",
    level: "model_checking",
    rule: "a state is one value of one declaration: tags of every width from 1 to 32 bits in both notations, versioned tags of every kind of width with every combination of changed and default fields, validated structures, every primitive, container and tuple, generic, borrowed and nested structures. Each value is written into builders of every fill level around the capacity and under every context, read back with and without more data behind it, and read from every truncation and with every other value of its tag; non-trivial: a tag, a version, a validation or a limit decides",
    assumptions: &["declarations which the derive macros refuse at compile time are out of scope"],
    run,
};

type Loads<'b, T> = dyn Fn(&mut CellSlice<'_>) -> Result<T, Error> + 'b;
/// v is written as w and w is read as v
fn trip<T: Store + for<'a> Load<'a> + PartialEq + Debug>(key: &str, v: &T, w: &W, l: &mut L) -> R { trip_with(key, v, w, &|s| T::load_from(s), l) }
fn trip_with<T: Store + PartialEq + Debug>(key: &str, v: &T, w: &W, load: &Loads<'_, T>, l: &mut L) -> R {
    let ctx = || format!("{key} {v:?}");
    l.ev();
    l.st(1);
    let c = match np(&format!("{key}/panic"), ctx, || CellBuilder::build_from(v))? { Ok(c) => c, Err(e) => bad!(format!("{key}/not-stored"), "{e:?} {}", ctx()) };
    let want = w.build();
    ck!(c == want, format!("{key}/stored"), "{} {} refs, declared {} {} refs {}", show(&cell_bits(c.as_ref())), c.reference_count(), show(&w.b), w.r.len(), ctx());
    let (n, r) = (w.b.len(), w.r.len());
    for (xb, xr) in [(0, 0), (1, 0), (0, 1), (1023 - n, 4 - r)] {
        if r + xr > 4 { continue }
        let mut b = w.b.clone();
        b.extend((0..xb).map(|i| (i % 3 == 0) as u8));
        let mut refs = w.refs();
        refs.extend((0..xr).map(|i| cell_of(&uint(i as u128, 9))));
        let c = raw_cell(&b, &refs);
        let mut s = c.as_slice().unwrap();
        let x = np(&format!("{key}/panic"), ctx, || load(&mut s))?;
        ck!(x.as_ref() == Ok(v), format!("{key}/loaded"), "{x:?} {}", ctx());
        ckeq!((s.size_bits() as usize, s.size_refs() as usize), (xb, xr), format!("{key}/rest"), "{}", ctx());
    }
    for k in 0..n {
        let c = raw_cell(&w.b[..k], &w.refs());
        l.tr(1);
        let x = np(&format!("{key}/panic"), ctx, || load(&mut c.as_slice().unwrap()))?;
        ck!(x.as_ref() == Err(&Error::CellUnderflow), format!("{key}/short"), "{k} of {n} bits: {x:?} {}", ctx());
    }
    for k in 0..r {
        let c = raw_cell(&w.b, &w.refs()[..k]);
        let x = np(&format!("{key}/panic"), ctx, || load(&mut c.as_slice().unwrap()))?;
        ck!(x.as_ref() == Err(&Error::CellUnderflow), format!("{key}/short-refs"), "{k} of {r} refs: {x:?} {}", ctx());
    }
    // every fill of the builder around the capacity
    let mut fills: Vec<(usize, usize)> = (0..=4).map(|p| (0, p)).collect();
    for d in 0..=(n + 1).min(40) { fills.push(((1023 - n + d).min(1023), 0)) }
    for (pb, pr) in fills {
        let mut b = CellBuilder::new();
        b.store_zeros(pb as u16).unwrap();
        for _ in 0..pr { b.store_reference(Cell::default()).unwrap() }
        let fits = pb + n <= 1023 && pr + r <= 4;
        let x = np(&format!("{key}/panic"), ctx, || v.store_into(&mut b, Cell::empty_context()))?;
        if fits {
            ck!(x.is_ok(), format!("{key}/capacity"), "after {pb} bits {pr} refs: {x:?} {}", ctx());
            let c = b.build().unwrap();
            ck!(cell_bits(c.as_ref())[pb..] == w.b[..] && c.reference_count() as usize == pr + r, format!("{key}/offset"), "after {pb} bits {pr} refs {}", ctx());
        } else {
            l.nt();
            ck!(x == Err(Error::CellOverflow), format!("{key}/capacity"), "after {pb} bits {pr} refs: {x:?} {}", ctx());
        }
    }
    Ok(())
}
/// reading w fails with the given error
fn refused<T: Debug>(key: &str, w: &W, e: Error, load: &Loads<'_, T>, l: &mut L) -> R {
    l.ev();
    l.nt();
    let c = w.build();
    let x = np(&format!("{key}/panic"), || show(&w.b), || load(&mut c.as_slice().unwrap()))?;
    ck!(matches!(&x, Err(y) if *y == e), format!("{key}/refused"), "{} read as {x:?}, expected {e:?}", show(&w.b));
    Ok(())
}

// ---- tags of every width --------------------------------------------------
trait Tagged: Store + for<'a> Load<'a> + PartialEq + Debug { const TAG: &'static str; fn make(x: u8) -> Self; }
fn tag_bits(s: &str) -> B {
    if let Some(h) = s.strip_prefix('#') { h.chars().flat_map(|c| uint(c.to_digit(16).unwrap() as u128, 4)).collect() }
    else { s[1..].chars().map(|c| (c == '1') as u8).collect() }
}
fn one_tag<T: Tagged>(all: usize, l: &mut L) -> R {
    let t = tag_bits(T::TAG);
    let key = format!("tag/{}", T::TAG);
    for x in [0u8, 1, 0x80, 0xa5, 0xff] {
        let mut w = W::new();
        w.raw(&t).u(8, x as u128);
        trip(&key, &T::make(x), &w, l)?;
        // every other tag, or all that differ in one or two bits
        let n = t.len();
        let mut others: Vec<B> = vec![];
        if n <= all { for o in 0..1u128 << n { let b = uint(o, n); if b != t { others.push(b) } } }
        else { for i in 0..n { for j in i..n { let mut b = t.clone(); b[i] ^= 1; if j > i { b[j] ^= 1 } others.push(b) } } others.push(t.iter().map(|x| 1 - x).collect()); others.push(t.iter().rev().copied().collect()); others.retain(|b| *b != t) }
        for o in others {
            let mut w = W::new();
            w.raw(&o).u(8, x as u128);
            refused(&key, &w, Error::InvalidTag, &|s| T::load_from(s), l)?;
        }
    }
    Ok(())
}
macro_rules! tags {
    ($($n:ident $t:literal),* $(,)?) => {
        mod tagged { use super::*; $( #[derive(Store, Load, PartialEq, Debug)] #[tlb(tag = $t)] pub struct $n { pub x: u8 } impl Tagged for $n { const TAG: &'static str = $t; fn make(x: u8) -> Self { $n { x } } } )* }
        const TAGS: &[fn(usize, &mut L) -> R] = &[$(one_tag::<tagged::$n>),*];
    };
}
tags! {
    B1 "$0", B1b "$1", B2 "$01", B2b "$10", B3 "$011", B3b "$000", B4 "$1101", B5 "$00101", B6 "$110001", B7 "$0110111", B7b "$1111111", B8 "$10110010", B8b "$00000000",
    B9 "$101100101", B10 "$0000000011", B11 "$11111111111", B12 "$101100101011", B13 "$0110010101101", B14 "$10110010101101", B15 "$101100101011011", B16 "$1011001010110111", B17 "$10110010101101110",
    B18 "$011001010110111011", B20 "$10110010101101110111", B23 "$10110010101101110111010", B24 "$101100101011011101110101", B25 "$1011001010110111011101011", B28 "$1011001010110111011101011010", B31 "$1011001010110111011101011010011", B32 "$10110010101101110111010110100110",
    H1 "#0", H1b "#f", H1c "#8", H2 "#a5", H2b "#00", H2c "#ff", H3 "#0a5", H3b "#fff", H3c "#e01", H4 "#b5ee", H4b "#0001", H4c "#ABCD", H5 "#9023a", H6 "#b8fdf1", H6b "#00000f", H7 "#fe12345", H7b "#0000000", H8 "#9bc7a987", H8b "#ffffffff", H8c "#00000001",
}

// ---- versioned tags -------------------------------------------------------
fn since(fields: &[(Option<usize>, bool)]) -> usize { fields.iter().filter(|f| f.1).filter_map(|f| f.0).max().unwrap_or(0) }
mod ver {
    use super::*;
    pub fn valid(x: &CheckedV) -> bool { x.a != 0 && x.b != 7 }
    pub fn positive(x: &Checked) -> bool { x.a <= x.b }
    #[derive(Store, Load, PartialEq, Debug, Clone)]
    #[tlb(tag = ["#11", "#12", "#13"])]
    pub struct V8 { pub a: u16, #[tlb(since_tag = 1)] pub b: u8, pub c: bool, #[tlb(since_tag = 2)] pub d: Option<u8>, #[tlb(since_tag = 1)] pub e: Tokens }
    #[derive(Store, Load, PartialEq, Debug, Clone)]
    #[tlb(tag = ["$0", "$1"])]
    pub struct V1 { #[tlb(since_tag = 1)] pub a: u8, pub b: u8, #[tlb(since_tag = 1)] pub c: bool }
    #[derive(Store, Load, PartialEq, Debug, Clone)]
    #[tlb(tag = ["$101", "$001", "$110", "$111"])]
    pub struct V3 { pub a: bool, #[tlb(since_tag = 3)] pub b: HashBytes, #[tlb(since_tag = 2)] pub c: u32, #[tlb(since_tag = 1)] pub d: bool }
    #[derive(Store, Load, PartialEq, Debug, Clone)]
    #[tlb(tag = ["#cb5e", "#cb5f"])]
    pub struct V16 { #[tlb(since_tag = 1)] pub a: u8, #[tlb(since_tag = 1)] pub b: i16 }
    #[derive(Store, Load, PartialEq, Debug, Clone)]
    #[tlb(tag = ["#b8e48dfb", "#e4b8dfbb"])]
    pub struct V32 { pub a: Option<Cell>, #[tlb(since_tag = 1)] pub b: Option<Cell>, #[tlb(since_tag = 1)] pub c: bool }
    #[derive(Store, Load, PartialEq, Debug, Clone)]
    #[tlb(tag = ["#123", "#321"])]
    pub struct V12 { pub a: (u8, bool), #[tlb(since_tag = 1)] pub b: (u8, bool) }
    /// fields which belong to every version
    #[derive(Store, Load, PartialEq, Debug, Clone)]
    #[tlb(tag = ["#5", "#6"])]
    pub struct Plain { pub a: u8, #[tlb(since_tag = 0)] pub b: u8, #[tlb(since_tag = 1)] pub c: u8 }
    #[derive(Store, Load, PartialEq, Debug, Clone)]
    #[tlb(tag = "#77", validate_with = "positive")]
    pub struct Checked { pub a: u8, pub b: u8 }
    #[derive(Store, Load, PartialEq, Debug, Clone)]
    #[tlb(tag = ["#77", "#78"], validate_with = "valid")]
    pub struct CheckedV { pub a: u8, #[tlb(since_tag = 1)] pub b: u8 }
    #[derive(Store, Load, PartialEq, Debug, Clone)]
    pub struct Unit;
    #[derive(Store, Load, PartialEq, Debug, Clone)]
    #[tlb(tag = "#beef")]
    pub struct UnitTag;
    #[derive(Store, Load, PartialEq, Debug, Clone)]
    pub struct Pair(pub u8, pub i64);
    #[derive(Store, Load, PartialEq, Debug, Clone)]
    #[tlb(tag = "$10")]
    pub struct Gen<T: for<'a> Load<'a> + Store, U: for<'a> Load<'a> + Store>(pub T, pub bool, pub U);
    #[derive(Store, Load, PartialEq, Debug, Clone)]
    pub struct All { pub a: bool, pub b: i8, pub c: u8, pub d: i16, pub e: u16, pub f: i32, pub g: u32, pub h: i64, pub i: u64, pub j: i128, pub k: u128 }
    #[derive(Store, Load, PartialEq, Debug, Clone)]
    pub struct Paths { pub a: std::num::NonZeroU8, pub b: std::num::NonZeroU16, pub c: NonZeroU32, pub d: tycho_types::cell::HashBytes, pub e: Cell, pub f: Dict<u8, u8> }
    #[derive(Store, Load, Debug, Clone)]
    pub struct Borrowed<'tlb> { pub a: u8, pub b: Cell, pub c: bool, pub rest: CellSlice<'tlb> }
}
/// a value together with the bits of each version: fields in order, each with its first version and whether it differs from its default
struct F(Option<usize>, bool, W);
fn f(since: Option<usize>, differs: bool, make: impl FnOnce(&mut W)) -> F { let mut w = W::new(); make(&mut w); F(since, differs, w) }
fn versions<T: Store + for<'a> Load<'a> + PartialEq + Debug>(key: &str, v: &T, tags: &[&str], fields: &[F], l: &mut L) -> R {
    let at = |n: usize, tag: B| { let mut w = W::new(); w.raw(&tag); for x in fields { if x.0.is_none_or(|s| s <= n) { w.inline(&x.2); } } w };
    let n = since(&fields.iter().map(|x| (x.0, x.1)).collect::<Vec<_>>());
    trip(key, v, &at(n, tag_bits(tags[n])), l)?;
    // the same value in each later version
    for (m, t) in tags.iter().enumerate().skip(n) {
        l.ev();
        l.nt();
        let w = at(m, tag_bits(t));
        let c = w.build();
        let mut s = c.as_slice().unwrap();
        let x = np(&format!("{key}/panic"), || format!("{v:?}"), || T::load_from(&mut s))?;
        ck!(x.as_ref() == Ok(v) && s.is_empty(), format!("{key}/later"), "version {m}: {x:?} for {v:?}");
        for k in 0..w.b.len() {
            let c = raw_cell(&w.b[..k], &w.refs());
            let x = T::load_from(&mut c.as_slice().unwrap());
            ck!(x.as_ref() == Err(&Error::CellUnderflow), format!("{key}/short"), "version {m}, {k} of {} bits: {x:?}", w.b.len());
        }
    }
    // unknown tags
    let known: Vec<B> = tags.iter().map(|t| tag_bits(t)).collect();
    let len = known[0].len();
    let mut others: Vec<B> = if len <= 12 { (0..1u128 << len).map(|x| uint(x, len)).collect() } else { (0..len).flat_map(|i| known.iter().map(move |k| { let mut b = k.clone(); b[i] ^= 1; b })).collect() };
    others.retain(|o| !known.contains(o));
    for o in others { refused(key, &at(tags.len() - 1, o), Error::InvalidTag, &|s| T::load_from(s), l)? }
    Ok(())
}

// ---- contexts --------------------------------------------------------------
#[derive(Default)]
struct Count(std::cell::Cell<u32>, std::cell::Cell<u32>);
impl CellContext for Count {
    fn finalize_cell(&self, p: CellParts<'_>) -> Result<Cell, Error> { self.0.set(self.0.get() + 1); if self.0.get() == self.1.get() { return Err(Error::Cancelled) } Cell::empty_context().finalize_cell(p) }
    fn load_cell(&self, c: Cell, _: LoadMode) -> Result<Cell, Error> { Ok(c) }
    fn load_dyn_cell<'s: 'a, 'a>(&'s self, c: &'a DynCell, _: LoadMode) -> Result<&'a DynCell, Error> { Ok(c) }
}
/// a number in a cell of its own, created by the context
#[derive(PartialEq, Debug, Clone, Default)]
struct Own(u8);
impl Store for Own { fn store_into(&self, b: &mut CellBuilder, cx: &dyn CellContext) -> Result<(), Error> { let c = { let mut x = CellBuilder::new(); x.store_u8(self.0)?; x.build_ext(cx)? }; b.store_reference(c) } }
impl<'a> Load<'a> for Own { fn load_from(s: &mut CellSlice<'a>) -> Result<Self, Error> { Ok(Own(s.load_reference_as_slice()?.load_u8()?)) } }
#[derive(Store, Load, PartialEq, Debug, Clone)]
#[tlb(tag = ["$01", "$10"])]
struct Owns { a: Own, b: Option<Own>, #[tlb(since_tag = 1)] c: Option<(Own, bool)>, d: Box<Own> }
#[derive(Store, Load, PartialEq, Debug, Clone)]
struct Wrap<T: Store + for<'a> Load<'a>>(T, Arc<Own>);

fn run(r: &Run) {
    r.section("tags", TAGS.len() as u64, |i, l| TAGS[i as usize](r.pick(10, 18), l));
    let nums: Vec<u128> = if r.quick() { vec![0u128, 1, 0x7f, 0x80, 0xa55a] } else { (0..=255).chain([0xa55a, 0x7fff, 0x8000, 0xffff]).collect() };
    r.section("versions", nums.len() as u64 * 32, |i, l| {
        let mut ix = Ix(i);
        let x = nums[ix.us(nums.len())];
        let set = ix.us(32);
        let on = |k: usize| set >> k & 1 == 1;
        let pick = |k: usize, v: u128| if on(k) { v | 1 } else { 0 };
        let cell = cell_of(&uint(x, 16));
        {
            let (b, d, e) = (pick(0, x & 255) as u8, on(1).then_some(x as u8), pick(2, x));
            let v = ver::V8 { a: x as u16, b, c: on(3), d, e: Tokens::new(e) };
            let tok = |w: &mut W| { let n = (128 - e.leading_zeros() as usize).div_ceil(8); w.u(4, n as u128).u(8 * n, e); };
            versions("v8", &v, &["#11", "#12", "#13"], &[f(None, true, |w| { w.u(16, x); }), f(Some(1), on(0), |w| { w.u(8, b as u128); }), f(None, true, |w| { w.bit(on(3)); }), f(Some(2), on(1), |w| { w.bit(on(1)); if on(1) { w.u(8, x & 255); } }), f(Some(1), on(2), tok)], l)?;
        }
        versions("v1", &ver::V1 { a: pick(0, x & 255) as u8, b: x as u8, c: on(1) }, &["$0", "$1"], &[f(Some(1), on(0), |w| { w.u(8, pick(0, x & 255)); }), f(None, true, |w| { w.u(8, x & 255); }), f(Some(1), on(1), |w| { w.bit(on(1)); })], l)?;
        let h = HashBytes([if on(0) { x as u8 | 1 } else { 0 }; 32]);
        versions("v3", &ver::V3 { a: on(2), b: h, c: pick(1, x) as u32, d: on(3) }, &["$101", "$001", "$110", "$111"], &[f(None, true, |w| { w.bit(on(2)); }), f(Some(3), on(0), |w| { w.raw(&from_bytes(&h.0, 256)); }), f(Some(2), on(1), |w| { w.u(32, pick(1, x)); }), f(Some(1), on(3), |w| { w.bit(on(3)); })], l)?;
        let neg = if on(1) { -(x as i16 & 0x7fff) - 1 } else { 0 };
        versions("v16", &ver::V16 { a: pick(0, x & 255) as u8, b: neg }, &["#cb5e", "#cb5f"], &[f(Some(1), on(0), |w| { w.u(8, pick(0, x & 255)); }), f(Some(1), on(1), |w| { w.u(16, neg as u16 as u128); })], l)?;
        let oc = |k: usize| on(k).then(|| cell.clone());
        let ow = |k: usize| { let c = oc(k); move |w: &mut W| { w.bit(c.is_some()); if let Some(c) = &c { w.cell(c); } } };
        versions("v32", &ver::V32 { a: oc(0), b: oc(1), c: on(2) }, &["#b8e48dfb", "#e4b8dfbb"], &[f(None, true, ow(0)), f(Some(1), on(1), ow(1)), f(Some(1), on(2), |w| { w.bit(on(2)); })], l)?;
        versions("v12", &ver::V12 { a: (x as u8, on(3)), b: (pick(0, x & 255) as u8, on(1)) }, &["#123", "#321"], &[f(None, true, |w| { w.u(8, x & 255).bit(on(3)); }), f(Some(1), on(0) || on(1), |w| { w.u(8, pick(0, x & 255)).bit(on(1)); })], l)?;
        versions("always", &ver::Plain { a: x as u8, b: pick(0, x & 255) as u8, c: pick(1, x & 255) as u8 }, &["#5", "#6"], &[f(None, true, |w| { w.u(8, x & 255); }), f(Some(0), on(0), |w| { w.u(8, pick(0, x & 255)); }), f(Some(1), on(1), |w| { w.u(8, pick(1, x & 255)); })], l)?;
        Ok(())
    });
    r.section("validated", 256, |i, l| {
        let a = i as u8;
        for b in 0..=255u8 {
            let v = ver::Checked { a, b };
            let w = |tag: u128, y: bool| { let mut w = W::new(); w.u(8, tag).u(8, a as u128); if y { w.u(8, b as u128); } w };
            let none = |ok: bool, s: &dyn Store, w: W, load: &Loads<'_, bool>, key: &str, l: &mut L| -> R {
                l.ev();
                l.st(1);
                if !ok { l.nt() }
                let mut x = CellBuilder::new();
                let st = s.store_into(&mut x, Cell::empty_context());
                if ok { ck!(st.is_ok() && cell_bits(x.build().unwrap().as_ref()) == w.b, format!("{key}/stored"), "{a} {b}") } else { ck!(st == Err(Error::InvalidData) && x.size_bits() == 0, format!("{key}/invalid-stored"), "{a} {b}: {st:?}") }
                let c = w.build();
                let g = load(&mut c.as_slice().unwrap());
                if ok { ck!(g == Ok(true), format!("{key}/loaded"), "{a} {b}: {g:?}") } else { ck!(g == Err(Error::InvalidData), format!("{key}/invalid-loaded"), "{a} {b}: {g:?}") }
                Ok(())
            };
            none(a <= b, &v, w(0x77, true), &|s| ver::Checked::load_from(s).map(|x| x == v), "validated", l)?;
            let u = ver::CheckedV { a, b };
            none(a != 0 && b != 7, &u, w(if b != 0 { 0x78 } else { 0x77 }, b != 0), &|s| ver::CheckedV::load_from(s).map(|x| x == u), "validated-version", l)?;
        }
        Ok(())
    });
    let vals = [0u128, 1, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, 0x7fff_ffff, 0x8000_0000, u32::MAX as u128, i64::MAX as u128, 1 << 63, u64::MAX as u128, i128::MAX as u128, 1 << 127, u128::MAX, 0x0123_4567_89ab_cdef_1122_3344_5566_7788];
    let vals = &vals;
    r.section("primitives", vals.len() as u64, |i, l| {
        let x = vals[i as usize];
        macro_rules! num { ($($t:ident $n:literal),*) => { $(
            let m = if $n == 128 { x } else { x & ((1u128 << $n) - 1) };
            let mut w = W::new(); w.u($n, m);
            trip(stringify!($t), &(x as $t), &w, l)?;
            for some in [false, true] { let mut o = W::new(); o.bit(some); if some { o.u($n, m); } trip(concat!("option-", stringify!($t)), &some.then_some(x as $t), &o, l)?; }
            trip(concat!("box-", stringify!($t)), &Box::new(x as $t), &w, l)?;
            trip(concat!("arc-", stringify!($t)), &Arc::new(x as $t), &w, l)?;
            trip(concat!("rc-", stringify!($t)), &Rc::new(x as $t), &w, l)?;
            ck!(CellBuilder::build_from(&&&(x as $t)).is_ok_and(|c| cell_bits(c.as_ref()) == w.b), concat!("reference-", stringify!($t)), "{x}");
            ck!(CellBuilder::build_from(&mut (x as $t)).is_ok_and(|c| cell_bits(c.as_ref()) == w.b), concat!("reference-", stringify!($t)), "{x}");
        )* } }
        num!(u8 8, i8 8, u16 16, i16 16, u32 32, i32 32, u64 64, i64 64, u128 128, i128 128);
        trip("unit", &(), &W::new(), l)?;
        let b = x & 1 == 1;
        { let mut w = W::new(); w.bit(b); trip("bool", &b, &w, l)?; trip("option-unit", &b.then_some(()), &w, l)?; }
        for (o, i) in [(false, false), (true, false), (true, true)] { let mut w = W::new(); w.bit(o); if o { w.bit(i); if i { w.u(16, x & 0xffff); } } trip("option-option", &o.then(|| i.then_some(x as u16)), &w, l)? }
        let h = HashBytes([x as u8; 32]);
        { let mut w = W::new(); w.raw(&from_bytes(&h.0, 256)); trip("hash", &h, &w, l)?; }
        let c = cell_of(&uint(x, 128));
        { let mut w = W::new(); w.cell(&c); trip("cell", &c, &w, l)?; trip("lazy", &Lazy::<u128>::from_raw(c.clone()).unwrap(), &w, l)?; }
        { let mut w = W::new(); w.bit(true).cell(&c); trip("option-cell", &Some(c.clone()), &w, l)?; }
        // tuples
        let n = |k: u32| x.rotate_left(k * 7);
        macro_rules! tup { ($($e:expr),*; $($b:expr),*) => {{ let mut w = W::new(); $( { let (k, v): (usize, u128) = $b; w.u(k, if k == 128 { v } else { v & ((1 << k) - 1) }); } )* trip("tuple", &($($e),*), &w, l)? }} }
        tup!(n(0) as u8, n(1) as u16; (8, n(0)), (16, n(1)));
        tup!(n(0) as u8, n(1) as i16, b; (8, n(0)), (16, n(1)), (1, b as u128));
        tup!(n(0) as u8, n(1) as u16, n(2) as i32, b; (8, n(0)), (16, n(1)), (32, n(2)), (1, b as u128));
        tup!(b, n(1) as u16, n(2) as i32, n(3) as u64, n(4); (1, b as u128), (16, n(1)), (32, n(2)), (64, n(3)), (128, n(4)));
        tup!(n(0) as u8, b, n(2) as i32, n(3) as u64, n(4), n(5) as i8; (8, n(0)), (1, b as u128), (32, n(2)), (64, n(3)), (128, n(4)), (8, n(5)));
        tup!((n(0) as u8, b), ((n(2) as i32, n(3) as u64), n(4)); (8, n(0)), (1, b as u128), (32, n(2)), (64, n(3)), (128, n(4)));
        // whole builders and slices
        let mut cb = CellBuilder::new();
        cb.store_u128(x).unwrap();
        cb.store_reference(c.clone()).unwrap();
        let mut w = W::new();
        w.u(128, x).cell(&c);
        ck!(CellBuilder::build_from(&cb).is_ok_and(|y| y == w.build()) && CellBuilder::build_from(cb.as_full_slice()).is_ok_and(|y| y == w.build()), "builder-stored", "{x}");
        ck!(w.build().parse::<CellSlice<'_>>().is_ok_and(|s| slice_bits(&s) == w.b && s.size_refs() == 1), "slice-loaded", "{x}");
        // structures
        let v = ver::All { a: b, b: n(1) as i8, c: n(2) as u8, d: n(3) as i16, e: n(4) as u16, f: n(5) as i32, g: n(6) as u32, h: n(7) as i64, i: n(8) as u64, j: n(9) as i128, k: n(10) };
        let mut w = W::new();
        w.bit(b);
        for (k, s) in [8usize, 8, 16, 16, 32, 32, 64, 64].iter().enumerate() { w.u(*s, n(k as u32 + 1) & ((1 << s) - 1)); }
        w.u(128, n(9)).u(128, n(10));
        trip("all-fields", &v, &w, l)?;
        { let mut w = W::new(); w.u(8, n(0) & 255).u(64, n(1) & u64::MAX as u128); trip("tuple-struct", &ver::Pair(n(0) as u8, n(1) as i64), &w, l)?; }
        trip("unit-struct", &ver::Unit, &W::new(), l)?;
        { let mut w = W::new(); w.u(16, 0xbeef); trip("unit-tag", &ver::UnitTag, &w, l)?; for o in [0u128, 0xbeee, 0x3eef, 0xefbe, 0xffff] { let mut w = W::new(); w.u(16, o); refused("unit-tag", &w, Error::InvalidTag, &|s| ver::UnitTag::load_from(s), l)? } }
        { let mut w = W::new(); w.u(2, 2).u(8, n(0) & 255).bit(b).u(2, 2).bit(b); if b { w.u(16, n(1) & 0xffff); } w.bit(!b).cell(&c); trip("generic", &ver::Gen(n(0) as u8, b, ver::Gen(b.then_some(n(1) as u16), !b, c.clone())), &w, l)?; }
        let (a8, a16, a32) = ((x as u8).max(1), (x as u16).max(1), (x as u32).max(1));
        let mut d = Dict::<u8, u8>::new();
        if b { d.set(5, 6).unwrap(); }
        let v = ver::Paths { a: NonZeroU8::new(a8).unwrap(), b: NonZeroU16::new(a16).unwrap(), c: NonZeroU32::new(a32).unwrap(), d: h, e: c.clone(), f: d.clone() };
        for zero in 0..4 {
            let z = |k: usize, v: u128| if k == zero { 0 } else { v };
            let mut w = W::new();
            w.u(8, z(1, a8 as u128)).u(16, z(2, a16 as u128)).u(32, z(3, a32 as u128)).raw(&from_bytes(&h.0, 256)).cell(&c).bit(b);
            if let Some(r) = d.root() { w.cell(r); }
            if zero == 0 { trip("paths", &v, &w, l)? } else { refused("nonzero", &w, Error::InvalidData, &|s| ver::Paths::load_from(s), l)? }
        }
        // a structure which borrows
        let mut w = W::new();
        w.u(8, n(1) & 255).cell(&c).bit(b).u(64, n(2) & u64::MAX as u128).cell(&Cell::default());
        let cell = w.build();
        l.ev();
        let y = cell.parse::<ver::Borrowed<'_>>();
        ck!(y.as_ref().is_ok_and(|y| y.a == n(1) as u8 && y.b.repr_hash() == c.repr_hash() && y.c == b && slice_bits(&y.rest) == w.b[9..] && y.rest.size_refs() == 1), "borrowed", "{y:?}");
        Ok(())
    });
    r.section("small-numbers", 256, |i, l| {
        let x = i as u128;
        { let mut w = W::new(); w.u(15, x << 7); trip("u15", &Uint15::new((x << 7) as u16), &w, l)?; }
        if (1..31).contains(&x) { let mut w = W::new(); w.u(5, x); trip("split-depth", &SplitDepth::new(x as u8).unwrap(), &w, l)?; }
        let n = (x > 0) as usize;
        { let mut w = W::new(); w.u(2, n as u128).u(8 * n, x); trip("u24", &VarUint24::new(x as u32), &w, l)?; }
        { let mut w = W::new(); w.u(3, n as u128).u(8 * n, x); trip("u56", &VarUint56::new(x as u64), &w, l)?; }
        { let mut w = W::new(); w.u(4, n as u128).u(8 * n, x); trip("tokens", &Tokens::new(x), &w, l) }
    });
    // cells of fields are created by the given context, and its refusal is passed on
    r.section("contexts", 16, |i, l| {
        let (a, b, c) = (i & 1 == 1, i & 2 == 2, i & 4 == 4);
        let v = Owns { a: Own(a as u8), b: b.then_some(Own(3)), c: c.then_some((Own(4), i & 8 == 8)), d: Box::new(Own(9)) };
        let wrapped = Wrap(v.clone(), Arc::new(Own(1)));
        let (n, m) = (2 + b as u32 + c as u32, 3 + b as u32 + c as u32);
        for (s, n) in [(&v as &dyn Store, n), (&wrapped, m)] {
            if n > 4 { continue }
            let cx = Count::default();
            let mut x = CellBuilder::new();
            ck!(s.store_into(&mut x, &cx).is_ok(), "contexts/stored", "{v:?}");
            ckeq!(cx.0.get(), n, "contexts/created", "{v:?}");
            for k in 1..=n {
                l.ev();
                l.nt();
                let cx = Count::default();
                cx.1.set(k);
                let e = s.store_into(&mut CellBuilder::new(), &cx);
                ck!(e == Err(Error::Cancelled) && cx.0.get() == k, "contexts/refused", "creation {k}: {e:?} after {}", cx.0.get());
            }
            l.tr(n as u64);
        }
        if n <= 4 {
            let mut w = W::new();
            let own = |w: &mut W, x: u128| { w.cell(&cell_of(&uint(x, 8))); };
            w.u(2, if c { 2 } else { 1 });
            own(&mut w, a as u128);
            w.bit(b);
            if b { own(&mut w, 3) }
            if c { w.bit(true); own(&mut w, 4); w.bit(i & 8 == 8); }
            own(&mut w, 9);
            trip("contexts", &v, &w, l)?;
        }
        Ok(())
    });
}
