//! C03: slices against bit-string windows.
use crate::fw::*;
use crate::model::bits::*;
use std::cmp::Ordering;
use tycho_types::cell::*;
use tycho_types::error::Error;

pub const META: Meta = Meta {
    id: "C03",
    level: "model_checking",
    rule: "a state is a slice window (cell content, bit window, reference window); a transition is one real slice operation executed on it and compared with the same operation on the window's own bit string and reference list; non-trivial: the operation succeeds on a non-empty result or is refused",
    assumptions: &["RefsIter::peek_prev (documented as looking at the previous child of the cell) is only exercised from the start of the cell"],
    run,
};

/// Model window.
#[derive(Clone)]
struct W { bits: B, refs: Vec<usize> }

struct C { cell: Cell, bits: B, kids: Vec<Cell> }
fn mkc(bits: B, k: usize) -> C {
    let kids: Vec<Cell> = (0..k).map(|i| cell_of(&uint(i as u128 + 1, 16))).collect();
    let mut b = builder_of(&bits);
    for c in &kids { b.store_reference(c.clone()).unwrap() }
    C { cell: b.build().unwrap(), bits, kids }
}
fn win<'a>(c: &'a C, s: usize, e: usize, r0: usize, r1: usize) -> (CellSlice<'a>, W) {
    // built through skip_first/only_first, themselves checked in `window-ops`
    let mut sl = c.cell.as_slice().unwrap();
    sl.only_first(e as u16, r1 as u8).unwrap();
    sl.skip_first(s as u16, r0 as u8).unwrap();
    (sl, W { bits: c.bits[s..e].to_vec(), refs: (r0..r1).collect() })
}
fn same(sl: &CellSlice<'_>, w: &W, c: &C) -> bool {
    sl.size_bits() as usize == w.bits.len() && sl.size_refs() as usize == w.refs.len()
        && sl.is_data_empty() == w.bits.is_empty() && sl.is_refs_empty() == w.refs.is_empty()
        && sl.is_empty() == (w.bits.is_empty() && w.refs.is_empty())
        && (0..w.bits.len()).all(|i| sl.get_bit(i as u16).map(|b| b as u8) == Ok(w.bits[i]))
        && w.refs.iter().enumerate().all(|(i, &k)| sl.get_reference(i as u8).is_ok_and(|r| r.repr_hash() == c.kids[k].repr_hash()))
        && sl.get_bit(w.bits.len() as u16).is_err() && sl.get_reference(w.refs.len() as u8).is_err()
}
/// get: `len` bits at `off` in the window, if they fit.
fn sub(w: &W, off: usize, len: usize) -> Option<&[u8]> { w.bits.get(off..off.checked_add(len)?) }

fn ck_res<T: PartialEq + std::fmt::Debug>(got: Result<T, Error>, want: Option<T>, l: &mut L, key: &str, ctx: &dyn Fn() -> String) -> R {
    l.tr(1); l.ev();
    match (got, want) {
        (Ok(a), Some(b)) => { l.nt(); ck!(a == b, key, "impl={a:?} model={b:?} {}", ctx()) }
        (Err(e), None) => { l.nt(); ck!(matches!(e, Error::CellUnderflow), format!("{key}-error"), "{e:?} {}", ctx()) }
        (Ok(a), None) => bad!(format!("{key}-beyond"), "impl={a:?} {}", ctx()),
        (Err(e), Some(b)) => bad!(format!("{key}-refused"), "{e:?} model={b:?} {}", ctx()),
    }
    Ok(())
}

fn bytes32(b: &[u8]) -> [u8; 32] { pack(b).try_into().unwrap() }

fn reads(c: &C, s: usize, e: usize, offs: &[usize], lens: &[usize], l: &mut L) -> R {
    let (sl, w) = win(c, s, e, 0, 0);
    let cx = |what: &str, o: usize, n: usize| format!("{what} offset={o} bits={n} window={s}..{e} of {}", c.bits.len());
    let p = |what: &'static str, o: usize, n: usize| move || format!("{what} offset={o} bits={n} window={s}..{e}");
    for &o in offs {
        let o16 = o as u16;
        ck_res(np("panic-get_bit", p("get_bit", o, 1), || sl.get_bit(o16))?, sub(&w, o, 1).map(|b| b[0] == 1), l, "get_bit", &|| cx("get_bit", o, 1))?;
        ck_res(np("panic-get_u8", p("get_u8", o, 8), || sl.get_u8(o16))?, sub(&w, o, 8).map(|b| to_u128(b) as u8), l, "get_u8", &|| cx("get_u8", o, 8))?;
        ck_res(np("panic-get_u16", p("get_u16", o, 16), || sl.get_u16(o16))?, sub(&w, o, 16).map(|b| to_u128(b) as u16), l, "get_u16", &|| cx("get_u16", o, 16))?;
        ck_res(np("panic-get_u32", p("get_u32", o, 32), || sl.get_u32(o16))?, sub(&w, o, 32).map(|b| to_u128(b) as u32), l, "get_u32", &|| cx("get_u32", o, 32))?;
        ck_res(np("panic-get_u64", p("get_u64", o, 64), || sl.get_u64(o16))?, sub(&w, o, 64).map(|b| to_u128(b) as u64), l, "get_u64", &|| cx("get_u64", o, 64))?;
        ck_res(np("panic-get_u128", p("get_u128", o, 128), || sl.get_u128(o16))?, sub(&w, o, 128).map(to_u128), l, "get_u128", &|| cx("get_u128", o, 128))?;
        ck_res(np("panic-get_u256", p("get_u256", o, 256), || sl.get_u256(o16))?, sub(&w, o, 256).map(|b| HashBytes(bytes32(b))), l, "get_u256", &|| cx("get_u256", o, 256))?;
        for &n in lens {
            let n16 = n as u16;
            let small = if n == 0 { Some(0) } else if n <= 8 { sub(&w, o, n).map(|b| to_u128(b) as u8) } else { None };
            ck_res(np("panic-get_small_uint", p("get_small_uint", o, n), || sl.get_small_uint(o16, n16))?, small, l, "get_small_uint", &|| cx("get_small_uint", o, n))?;
            let ui = if n == 0 { Some(0) } else if n <= 64 { sub(&w, o, n).map(|b| to_u128(b) as u64) } else { None };
            ck_res(np("panic-get_uint", p("get_uint", o, n), || sl.get_uint(o16, n16))?, ui, l, "get_uint", &|| cx("get_uint", o, n))?;
            // raw reads into an exact and an oversized dirty buffer
            let mut buf = [0x5au8; 129];
            let want = if n == 0 { Some(vec![]) } else { sub(&w, o, n).map(pack) };
            if n <= 1032 {
                let g = np("panic-get_raw", p("get_raw", o, n), || sl.get_raw(o16, &mut buf[..n.div_ceil(8)], n16).map(|t| t.to_vec()))?;
                ck_res(g, want.clone(), l, "get_raw", &|| cx("get_raw", o, n))?;
                ck!(buf[n.div_ceil(8)..].iter().all(|&x| x == 0x5a), "get_raw-overrun", "{}", cx("get_raw", o, n));
            }
            let mut buf = [0x5au8; 128];
            let want = if n <= 1024 { want } else { None };
            let g = np("panic-get_raw", p("get_raw", o, n), || sl.get_raw(o16, &mut buf, n16).map(|t| t.to_vec()))?;
            ck_res(g, want, l, "get_raw", &|| cx("get_raw-128", o, n))?;
            if n > 8 && n <= 1024 {
                let mut buf = [0u8; 128];
                let g = np("panic-get_raw", p("get_raw", o, n), || sl.get_raw(o16, &mut buf[..n.div_ceil(8) - 1], n16).map(|t| t.to_vec()))?;
                ck!(g.is_err(), "get_raw-short-target", "{}", cx("get_raw", o, n));
            }
        }
    }
    Ok(())
}

/// Loads (advancing reads) return what the matching get returns and advance exactly on success.
fn loads(c: &C, s: usize, e: usize, r0: usize, r1: usize, l: &mut L) -> R {
    let (sl0, w) = win(c, s, e, r0, r1);
    let n = w.bits.len();
    macro_rules! ld { ($key:expr, $bits:expr, $ex:expr, $want:expr) => {{
        let mut sl = sl0;
        let k: usize = $bits;
        let f: &dyn Fn(&mut CellSlice<'_>) -> Result<_, Error> = &$ex;
        let got = np(concat!("panic-", $key), || format!("{} window={s}..{e} bits={k}", $key), || f(&mut sl))?;
        let ok = got.is_ok();
        let cx = || format!("bits={k} window={s}..{e} refs={r0}..{r1}");
        ck_res(got, $want, l, $key, &cx)?;
        let w2 = if ok { W { bits: w.bits[k..].to_vec(), refs: w.refs.clone() } } else { w.clone() };
        ck!(same(&sl, &w2, c), concat!($key, "-window"), "after {} ok={ok} {}", $key, cx());
        ck!(sl.offset_bits() as usize == s + if ok { k } else { 0 } && sl.offset_refs() as usize == r0, concat!($key, "-offset"), "{}", cx());
    }} }
    ld!("load_bit", 1, |x| x.load_bit(), sub(&w, 0, 1).map(|b| b[0] == 1));
    ld!("load_u8", 8, |x| x.load_u8(), sub(&w, 0, 8).map(|b| to_u128(b) as u8));
    ld!("load_u16", 16, |x| x.load_u16(), sub(&w, 0, 16).map(|b| to_u128(b) as u16));
    ld!("load_u32", 32, |x| x.load_u32(), sub(&w, 0, 32).map(|b| to_u128(b) as u32));
    ld!("load_u64", 64, |x| x.load_u64(), sub(&w, 0, 64).map(|b| to_u128(b) as u64));
    ld!("load_u128", 128, |x| x.load_u128(), sub(&w, 0, 128).map(to_u128));
    ld!("load_u256", 256, |x| x.load_u256(), sub(&w, 0, 256).map(|b| HashBytes(bytes32(b))));
    ld!("i8", 8, |x| i8::load_from(x), sub(&w, 0, 8).map(|b| to_u128(b) as i8));
    ld!("i16", 16, |x| i16::load_from(x), sub(&w, 0, 16).map(|b| to_u128(b) as i16));
    ld!("i32", 32, |x| i32::load_from(x), sub(&w, 0, 32).map(|b| to_u128(b) as i32));
    ld!("i64", 64, |x| i64::load_from(x), sub(&w, 0, 64).map(|b| to_u128(b) as i64));
    ld!("i128", 128, |x| i128::load_from(x), sub(&w, 0, 128).map(|b| to_u128(b) as i128));
    ld!("bool", 1, |x| bool::load_from(x), sub(&w, 0, 1).map(|b| b[0] == 1));
    ld!("hash", 256, |x| HashBytes::load_from(x), sub(&w, 0, 256).map(|b| HashBytes(bytes32(b))));
    for k in [0usize, 1, 2, 5, 7, 8, 9, 13, 16, 31, 32, 33, 57, 63, 64, 65, 1023, 1024, 65535] {
        ld!("load_small_uint", k, |x| x.load_small_uint(k as u16), if k == 0 { Some(0) } else if k <= 8 { sub(&w, 0, k).map(|b| to_u128(b) as u8) } else { None });
        ld!("load_uint", k, |x| x.load_uint(k as u16), if k == 0 { Some(0) } else if k <= 64 { sub(&w, 0, k).map(|b| to_u128(b) as u64) } else { None });
        ld!("load_raw", k, |x| { let mut b = [0u8; 128]; x.load_raw(&mut b, k as u16).map(|t| t.to_vec()) }, if k <= 1024 { sub(&w, 0, k).map(pack) } else { None });
    }
    // composite loads
    {
        let mut sl = sl0;
        let got = <(u8, bool, u16)>::load_from(&mut sl);
        let want = sub(&w, 0, 25).map(|b| (to_u128(&b[..8]) as u8, b[8] == 1, to_u128(&b[9..]) as u16));
        ck_res(got, want, l, "tuple", &|| format!("window={s}..{e}"))?;
        let mut sl = sl0;
        let got = <Option<u16>>::load_from(&mut sl);
        let want = match w.bits.first() { None => None, Some(0) => Some(None), Some(_) => sub(&w, 1, 16).map(|b| Some(to_u128(b) as u16)) };
        ck_res(got, want, l, "option", &|| format!("window={s}..{e}"))?;
        let mut sl = sl0;
        let rest = sl.load_remaining();
        ck!(same(&rest, &w, c) && sl.is_empty(), "load_remaining", "window={s}..{e} refs={r0}..{r1}");
        ck!(sl0.without_references().size_refs() == 0 && sl0.without_references().size_bits() as usize == n, "without_references", "");
        ck!(sl0.is_full() == (s == 0 && e == c.bits.len() && r0 == 0 && r1 == c.kids.len()), "is_full", "window={s}..{e} refs={r0}..{r1}");
        ck!(sl0.exact_size() == Size { bits: n as u16, refs: (r1 - r0) as u8 }, "exact_size", "");
    }
    // references
    for i in 0..=255u8 {
        let want = w.refs.get(i as usize).map(|&k| *c.kids[k].repr_hash());
        let p = || format!("index {i} refs {r0}..{r1}");
        ck_res(np("panic-get_reference", p, || sl0.get_reference(i).map(|r| *r.repr_hash()))?, want, l, "get_reference", &p)?;
        ck_res(np("panic-get_reference_cloned", p, || sl0.get_reference_cloned(i).map(|r| *r.repr_hash()))?, want, l, "get_reference_cloned", &p)?;
        ck_res(np("panic-get_reference_as_slice", p, || sl0.get_reference_as_slice(i).map(|r| *r.cell().repr_hash()))?, want, l, "get_reference_as_slice", &p)?;
    }
    for kind in 0..4 {
        let mut sl = sl0;
        for j in 0..=w.refs.len() {
            let want = w.refs.get(j).map(|&k| *c.kids[k].repr_hash());
            let got = match kind { 0 => sl.load_reference().map(|r| *r.repr_hash()), 1 => sl.load_reference_cloned().map(|r| *r.repr_hash()), 2 => sl.load_reference_as_slice().map(|r| *r.cell().repr_hash()), _ => Cell::load_from(&mut sl).map(|r| *r.repr_hash()) };
            ck_res(got, want, l, "load_reference", &|| format!("kind {kind} {j} refs {r0}..{r1}"))?;
            let w2 = W { bits: w.bits.clone(), refs: w.refs[(j + 1).min(w.refs.len())..].to_vec() };
            ck!(same(&sl, &w2, c), "load_reference-window", "kind {kind} step {j}");
        }
    }
    let hs: Vec<HashBytes> = w.refs.iter().map(|&k| *c.kids[k].repr_hash()).collect();
    let rev: Vec<HashBytes> = hs.iter().rev().copied().collect();
    ck!(sl0.references().map(|r| *r.repr_hash()).collect::<Vec<_>>() == hs, "references", "refs {r0}..{r1}");
    ck!(sl0.references().rev().map(|r| *r.repr_hash()).collect::<Vec<_>>() == rev, "references-rev", "refs {r0}..{r1}");
    ck!(sl0.into_references().cloned().map(|r| *r.repr_hash()).collect::<Vec<_>>() == hs, "references-cloned", "refs {r0}..{r1}");
    ck!(sl0.references().cloned().rev().map(|r| *r.repr_hash()).collect::<Vec<_>>() == rev, "references-cloned-rev", "refs {r0}..{r1}");
    ck!(sl0.references().len() == hs.len() && sl0.references().cloned().len() == hs.len(), "references-len", "");
    // every interleaving of front/back steps
    for m in 0..64u32 {
        let (mut a, mut b) = (0usize, hs.len());
        let (mut it, mut ic) = (sl0.references(), sl0.references().cloned());
        for j in 0..6 {
            ck!(it.peek().map(|r| *r.repr_hash()) == (a < b).then(|| hs[a]), "refs-peek", "refs {r0}..{r1} {m:b} {j}");
            ck!(ic.peek().map(|r| *r.repr_hash()) == (a < b).then(|| hs[a]), "refs-cloned-peek", "refs {r0}..{r1} {m:b} {j}");
            let back = m >> j & 1 == 1;
            let want = (a < b).then(|| if back { b -= 1; hs[b] } else { a += 1; hs[a - 1] });
            let g = if back { it.next_back() } else { it.next() }.map(|r| *r.repr_hash());
            let h = if back { ic.next_back() } else { ic.next() }.map(|r| *r.repr_hash());
            ck!(g == want && h == want && it.len() == b - a, "refs-iter", "refs {r0}..{r1} {m:b} {j}");
            if r0 == 0 && !back && a > 0 { ck!(it.peek_prev().map(|r| *r.repr_hash()) == Some(hs[a - 1]) && ic.peek_prev().map(|r| *r.repr_hash()) == Some(hs[a - 1]), "refs-peek-prev", "") }
        }
    }
    l.tr(64 * 12);
    Ok(())
}

fn window_ops(c: &C, s: usize, e: usize, r0: usize, r1: usize, bs: &[usize], rs: &[usize], l: &mut L) -> R {
    let (sl0, w) = win(c, s, e, r0, r1);
    let (n, k) = (w.bits.len(), w.refs.len());
    ck!(same(&sl0, &w, c), "window", "window={s}..{e} refs={r0}..{r1}");
    ck!(sl0.size() == Size { bits: n as u16, refs: k as u8 } && sl0.offset() == Size { bits: s as u16, refs: r0 as u8 }, "size-offset", "");
    let rg0 = sl0.range();
    ck!(rg0.size() == sl0.size() && rg0.offset() == sl0.offset() && rg0.is_full(&c.cell) == sl0.is_full() && rg0.is_empty() == sl0.is_empty(), "range", "");
    for &b in bs {
        for &r in rs {
            let (b16, r8) = (b as u16, r as u8);
            let fits = b <= n && r <= k;
            let cx = || format!("bits={b} refs={r} window={s}..{e} refs={r0}..{r1}");
            ck!(np("panic-has_remaining", cx, || sl0.has_remaining(b16, r8))? == fits, "has_remaining", "{}", cx());
            l.tr(8); l.evn(8); l.nt();
            for op in 0..4 {
                let mut sl = sl0;
                let mut rg = rg0;
                let (res, rr) = np(["panic-skip_first", "panic-only_first", "panic-skip_last", "panic-only_last"][op], cx, || match op {
                    0 => (sl.skip_first(b16, r8), rg.skip_first(b16, r8)),
                    1 => (sl.only_first(b16, r8), rg.only_first(b16, r8)),
                    2 => (sl.skip_last(b16, r8), rg.skip_last(b16, r8)),
                    _ => (sl.only_last(b16, r8), rg.only_last(b16, r8)),
                })?;
                ck!(res.is_ok() == fits && rr.is_ok() == fits, "window-op-result", "op {op} {}", cx());
                let w2 = if !fits { w.clone() } else { match op {
                    0 => W { bits: w.bits[b..].to_vec(), refs: w.refs[r..].to_vec() },
                    1 => W { bits: w.bits[..b].to_vec(), refs: w.refs[..r].to_vec() },
                    2 => W { bits: w.bits[..n - b].to_vec(), refs: w.refs[..k - r].to_vec() },
                    _ => W { bits: w.bits[n - b..].to_vec(), refs: w.refs[k - r..].to_vec() },
                } };
                ck!(same(&sl, &w2, c) && rg == sl.range(), "window-op", "op {op} {}", cx());
                ck!(same(&rg.apply(&c.cell).unwrap(), &w2, c), "range-apply", "op {op} {}", cx());
            }
            // splits
            for suffix in [false, true] {
                let mut sl = sl0;
                let mut rg = rg0;
                let (res, rr) = np("panic-split", cx, || if suffix { (sl.load_suffix(b16, r8), rg.split_suffix(b16, r8)) } else { (sl.load_prefix(b16, r8), rg.split_prefix(b16, r8)) })?;
                ck!(res.is_ok() == fits && rr.is_ok() == fits, "split-result", "suffix={suffix} {}", cx());
                if let (Ok(part), Ok(prg)) = (res, rr) {
                    let (lo, hi) = if suffix { (W { bits: w.bits[..n - b].to_vec(), refs: w.refs[..k - r].to_vec() }, W { bits: w.bits[n - b..].to_vec(), refs: w.refs[k - r..].to_vec() }) }
                        else { (W { bits: w.bits[b..].to_vec(), refs: w.refs[r..].to_vec() }, W { bits: w.bits[..b].to_vec(), refs: w.refs[..r].to_vec() }) };
                    ck!(same(&sl, &lo, c) && same(&part, &hi, c), "split", "suffix={suffix} {}", cx());
                    ck!(rg == sl.range() && prg == part.range(), "range-split", "suffix={suffix} {}", cx());
                } else { ck!(same(&sl, &w, c), "split-failed-changed", "suffix={suffix} {}", cx()) }
            }
            let p = np("panic-get_prefix", cx, || sl0.get_prefix(b16, r8))?;
            let w2 = W { bits: w.bits[..b.min(n)].to_vec(), refs: w.refs[..r.min(k)].to_vec() };
            ck!(same(&p, &w2, c) && np("panic-get_prefix", cx, || rg0.get_prefix(b16, r8))? == p.range(), "get_prefix", "{}", cx());
        }
    }
    Ok(())
}

fn pair(a: &CellSlice<'_>, wa: &[u8], b: &CellSlice<'_>, wb: &[u8], l: &mut L, cx: &dyn Fn() -> String) -> R {
    l.tr(6); l.evn(6); l.nt();
    let f = |key: &'static str, r: Result<bool, Error>, want: bool| -> R { ck!(r == Ok(want), key, "impl={r:?} model={want} a={} b={} {}", show(wa), show(wb), cx()); Ok(()) };
    let cmp = np("panic-lex_cmp", cx, || a.lex_cmp(b))?;
    ck!(cmp == Ok(wa.cmp(wb)), "lex_cmp", "impl={cmp:?} a={} b={} {}", show(wa), show(wb), cx());
    f("contents_eq", np("panic-contents_eq", cx, || a.contents_eq(b))?, wa == wb && a.size_refs() == b.size_refs())?;
    f("is_data_prefix_of", np("panic-prefix", cx, || a.is_data_prefix_of(b))?, wb.starts_with(wa))?;
    f("is_data_suffix_of", np("panic-suffix", cx, || a.is_data_suffix_of(b))?, wb.ends_with(wa))?;
    let lcp = wa.iter().zip(wb).take_while(|(x, y)| x == y).count();
    let g = np("panic-lcp", cx, || a.longest_common_data_prefix(b))?;
    ck!(g.size_bits() as usize == lcp && g.size_refs() == 0 && g.offset_bits() == a.offset_bits() && slice_bits(&g) == wa[..lcp], "lcp", "impl={} model={lcp} a={} b={} {}", g.size_bits(), show(wa), show(wb), cx());
    let st = np("panic-strip", cx, || a.strip_data_prefix(b))?;
    match (st, wa.starts_with(wb)) {
        (Some(x), true) => ck!(slice_bits(&x) == wa[wb.len()..] && x.size_refs() == a.size_refs(), "strip", "a={} b={} {}", show(wa), show(wb), cx()),
        (None, false) => {}
        (x, y) => bad!("strip", "impl={} model={y} a={} b={} {}", x.is_some(), show(wa), show(wb), cx()),
    }
    Ok(())
}

fn scans(sl: &CellSlice<'_>, w: &[u8], l: &mut L, cx: &dyn Fn() -> String) -> R {
    l.tr(5); l.evn(5); l.nt();
    for bit in [false, true] {
        let a = w.iter().take_while(|&&x| x == bit as u8).count() as u16;
        let z = w.iter().rev().take_while(|&&x| x == bit as u8).count() as u16;
        let g = np("panic-count_leading", cx, || sl.count_leading(bit))?;
        ck!(g == Ok(a), "count_leading", "bit={bit} impl={g:?} model={a} {}", cx());
        let g = np("panic-count_trailing", cx, || sl.count_trailing(bit))?;
        ck!(g == Ok(z), "count_trailing", "bit={bit} impl={g:?} model={z} {}", cx());
    }
    let u = if w.is_empty() { None } else if w.iter().all(|x| *x == w[0]) { Some(w[0] == 1) } else { None };
    let g = np("panic-test_uniform", cx, || sl.test_uniform())?;
    ck!(g == u, "test_uniform", "impl={g:?} model={u:?} {}", cx());
    Ok(())
}

fn run(r: &Run) {
    let ext = [1100usize, 32767, 32768, 64512, 65000, 65279, 65280, 65400, 65407, 65408, 65471, 65472, 65503, 65504, 65519, 65520, 65527, 65528, 65533, 65534, 65535];
    // reads: all windows of short cells, all starts of long ones
    r.section("reads-short", 2 * (0..=48u64).map(|n| (n + 1) * (n + 2) / 2).sum::<u64>(), |i, l| {
        let (mut j, p) = (i / 2, i % 2);
        let mut n = 0;
        while j >= (n + 1) * (n + 2) / 2 { j -= (n + 1) * (n + 2) / 2; n += 1 }
        let mut s = 0;
        while j >= n + 1 - s { j -= n + 1 - s; s += 1 }
        let e = s + j;
        let c = mkc(pattern(2 + p * 5, n as usize), 0);
        let m = (e - s) as usize;
        let mut offs: Vec<usize> = (0..=m + 1).collect();
        offs.extend([m + 8, 1023 - s as usize, 1024 - s as usize]);
        offs.extend(ext);
        offs.extend([65536 - s as usize - 1, (65536 - s as usize).min(65535)]);
        let lens = [0usize, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 21, 24, 25, 31, 32, 33, 39, 40, 41, 47, 48, 49, 64, 65, 1023, 1024, 1025, 65535];
        l.st(1);
        reads(&c, s as usize, e as usize, &offs, &lens, l)?;
        l.sample(|| format!("window {s}..{e} of {n} bits, all offsets"));
        Ok(())
    });
    let longs = [64usize, 72, 127, 128, 129, 136, 255, 256, 257, 264, 300, 512, 1016, 1022, 1023];
    let wl = [1usize, 7, 8, 9, 16, 17, 33, 64, 65, 128, 129, 256, 257, 263, 500, 1015, 1023];
    r.section("reads-long", longs.len() as u64 * 1024 * 2, |i, l| {
        let mut ix = Ix(i);
        let n = *ix.of(&longs);
        let s = ix.us(1024);
        let p = ix.take(2);
        if s > n { return Ok(()) }
        if p == 1 && r.quick() && s % 3 != 0 { return Ok(()) }
        let c = mkc(pattern(3 + p * 4, n), 0);
        let mut es: Vec<usize> = wl.iter().map(|k| s + k).filter(|e| *e <= n).collect();
        es.push(n);
        es.dedup();
        for e in es {
            let m = e - s;
            let mut offs = vec![0usize, 1, 3, 7, 8, 9, 15, 63, 64, 100, m, m + 1, 1023, 65535 - s, (65536 - s).min(65535), 65535];
            for k in [1usize, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257] { if m >= k { offs.push(m - k) } }
            offs.sort(); offs.dedup();
            let lens = [0usize, 1, 5, 7, 8, 9, 13, 31, 32, 33, 56, 57, 58, 63, 64, 65, 100, 128, 255, 256, 511, 1016, 1017, 1022, 1023, 1024, 40000, 65535];
            l.st(1);
            reads(&c, s, e, &offs, &lens, l)?;
        }
        Ok(())
    });
    r.section("loads", 1024 * 12, |i, l| {
        let mut ix = Ix(i);
        let s = ix.us(1024);
        let k = [0usize, 1, 7, 8, 9, 16, 25, 64, 65, 130, 257, 1023][ix.us(12)];
        let c = mkc(pattern(6, 1023), 4);
        let e = (s + k).min(1023);
        let r0 = s % 5; let r1 = r0 + (s / 5) % (5 - r0);
        l.st(1);
        loads(&c, s, e, r0, r1, l)
    });
    r.section("loads-refs", 15 * 4, |i, l| {
        let (mut j, k) = (i % 15, i / 15);
        let mut r0 = 0u64;
        while j >= 5 - r0 { j -= 5 - r0; r0 += 1 }
        let r1 = r0 + j;
        let c = mkc(pattern(6, 40), 4);
        l.st(1);
        loads(&c, k as usize, 40, r0 as usize, r1 as usize, l)
    });
    // window operations
    let argr = [0usize, 1, 2, 3, 4, 5, 127, 250, 251, 252, 253, 254, 255];
    r.section("window-ops-short", 171 * 15, |i, l| {
        let (mut j, mut k) = (i % 171, i / 171);
        let (n, mut s) = (17u64, 0);
        while j >= n + 1 - s { j -= n + 1 - s; s += 1 }
        let e = s + j;
        let mut r0 = 0u64;
        while k >= 5 - r0 { k -= 5 - r0; r0 += 1 }
        let r1 = r0 + k;
        let c = mkc(pattern(8, n as usize), 4);
        let mut bs: Vec<usize> = (0..=18).collect();
        bs.extend([1023, 32768, 65535 - 17, 65535 - s as usize, 65535]);
        bs.push((65536 - s as usize).min(65535));
        bs.push((65536 - s as usize + 1).min(65535));
        l.st(1);
        window_ops(&c, s as usize, e as usize, r0 as usize, r1 as usize, &bs, &argr, l)
    });
    r.section("window-ops-long", 1024 * 6, |i, l| {
        let mut ix = Ix(i);
        let s = ix.us(1024);
        let e = [1023, s, (s + 1).min(1023), (s + 8).min(1023), (s + 77).min(1023), (s + 512).min(1023)][ix.us(6)];
        let c = mkc(pattern(9, 1023), 3);
        let m = e - s;
        let mut bs = vec![0, 1, m, m + 1, m / 2, 1023 - s, 1024 - s, 1023, 1024, 65535 - s, (65536 - s).min(65535), (65536 - s + m / 2).min(65535), (65537 - s).min(65535), 64512, 64513, 65535];
        if m > 0 { bs.push(m - 1) }
        l.st(1);
        window_ops(&c, s, e, s % 3, 3, &bs, &[0, 1, 2, 3, 253, 254, 255], l)
    });
    // comparisons: all pairs of short strings at all small offsets
    let maxs = r.pick(6usize, 7);
    let mut strs: Vec<B> = vec![];
    for n in 0..=maxs { for v in 0..1u64 << n { strs.push(uint(v as u128, n)) } }
    let offs = [0usize, 1, 3, 6, 7, 8, 12];
    let place = |b: &[u8], off: usize, inv: u8| -> C { let mut v: B = (0..off).map(|i| pat(11, i) ^ inv).collect(); v.extend_from_slice(b); v.extend((0..11).map(|i| pat(12, i) ^ inv)); mkc(v, 2) };
    r.section("pairs-short", (strs.len() * strs.len()) as u64, |i, l| {
        let mut ix = Ix(i);
        let (a, b) = (ix.of(&strs), ix.of(&strs));
        for &oa in &offs { for &ob in &offs {
            let (ca, cb) = (place(a, oa, 0), place(b, ob, 1));
            let (sa, _) = win(&ca, oa, oa + a.len(), 0, 1);
            let (sb, _) = win(&cb, ob, ob + b.len(), 0, 1);
            l.st(1);
            pair(&sa, a, &sb, b, l, &|| format!("offsets {oa} {ob}"))?;
        } }
        Ok(())
    });
    // same underlying cell, all pairs of windows
    r.section("pairs-same-cell", 231 * 6, |i, l| {
        let (j0, p) = (i % 231, i / 231);
        let n = 20usize;
        let c = mkc(if p < 3 { pattern(p, n) } else { (0..n).map(|i| ((i / (p as usize - 1)) % 2) as u8).collect() }, 2);
        let dec = |mut j: u64| { let mut s = 0; while j >= n as u64 + 1 - s { j -= n as u64 + 1 - s; s += 1 } (s as usize, (s + j) as usize) };
        let (s1, e1) = dec(j0);
        for j in 0..231 {
            let (s2, e2) = dec(j);
            let (a, wa) = win(&c, s1, e1, 0, 1);
            let (b, wb) = win(&c, s2, e2, 1, 2);
            l.st(1);
            let eq = a.contents_eq(&b).unwrap();
            ck!(!eq, "contents_eq-refs", "different references compared equal {s1}..{e1} {s2}..{e2}");
            let (b0, _) = win(&c, s2, e2, 0, 1);
            pair(&a, &wa.bits, &b0, &wb.bits, l, &|| format!("windows {s1}..{e1} {s2}..{e2} pattern {p}"))?;
            l.tr(1);
        }
        Ok(())
    });
    // long strings with one differing bit
    let lens: Vec<usize> = if r.quick() { vec![8, 9, 16, 31, 32, 33, 40, 63, 64, 65, 71, 72, 127, 128, 129, 257, 500, 1000] } else { (7..=140).chain([255, 256, 257, 511, 512, 513, 999, 1000, 1001]).collect() };
    r.section("pairs-long", (lens.len() * 64 * 2) as u64, |i, l| {
        let mut ix = Ix(i);
        let n = *ix.of(&lens);
        let (oa, ob) = (ix.us(8), ix.us(8));
        let p = if ix.bit() { 4 } else { 1 };
        let a = pattern(p, n);
        let ca = place(&a, oa, 0);
        let (sa, _) = win(&ca, oa, oa + n, 1, 1);
        for d in 0..=n {
            if n > 200 && d % 7 != 0 && d > 20 && d + 20 < n { continue }
            let mut b = a.clone();
            if d < n { b[d] ^= 1 }
            let cb = place(&b, ob, 1);
            let (sb, _) = win(&cb, ob, ob + n, 1, 1);
            l.st(1);
            pair(&sa, &a, &sb, &b, l, &|| format!("len {n} offsets {oa} {ob} diff {d}"))?;
            let h = (n * 2) / 3;
            let (sb, _) = win(&cb, ob, ob + h, 1, 1);
            pair(&sa, &a, &sb, &b[..h], l, &|| format!("len {n}/{h} offsets {oa} {ob} diff {d}"))?;
            pair(&sb, &b[..h], &sa, &a, l, &|| format!("len {h}/{n} offsets {ob} {oa} diff {d}"))?;
        }
        Ok(())
    });
    // runs
    r.section("runs-short", 8 * (1 << 11), |i, l| {
        let mut ix = Ix(i);
        let s = ix.us(8);
        let v = ix.take(1 << 11);
        for n in 0..=11usize {
            if n < 11 && v >> n != 0 { continue }
            let b = uint(v as u128, n);
            for inv in 0..2 {
                let c = place(&b, s, inv);
                let (sl, _) = win(&c, s, s + n, 0, 0);
                l.st(1);
                scans(&sl, &b, l, &|| format!("{} at {s}", show(&b)))?;
            }
        }
        Ok(())
    });
    let maxn = r.pick(200usize, 330);
    let starts: Vec<usize> = (0..r.pick(24, 80)).chain([95, 96, 100, 127, 128, 129]).collect();
    r.section("runs-long", starts.len() as u64 * maxn as u64 * 2, |i, l| {
        let mut ix = Ix(i);
        let s = *ix.of(&starts);
        let n = ix.us(maxn) + 1;
        let bit = ix.take(2) as u8;
        for d in 0..=n {
            let mut b = vec![bit; n];
            if d < n { b[d] ^= 1 }
            for fill in [bit, 1 - bit] {
                let mut v = vec![fill; s];
                v.extend_from_slice(&b);
                v.extend(vec![fill; 70.min(1023 - v.len())]);
                let c = mkc(v, 0);
                let (sl, _) = win(&c, s, s + n, 0, 0);
                l.st(1);
                scans(&sl, &b, l, &|| format!("run of {n} x {bit} at {s}, outlier {d}, fill {fill}"))?;
            }
        }
        Ok(())
    });
    r.section("runs-max", 1024 * 4, |i, l| {
        let mut ix = Ix(i);
        let s = ix.us(1024);
        let (bit, mode) = (ix.take(2) as u8, ix.take(2));
        let mut b = vec![bit; 1023];
        if mode == 1 { b[((s + 1023) / 2).min(1022)] ^= 1; }
        if mode == 1 && s % 2 == 0 { b[1022] ^= 1 }
        let c = mkc(b.clone(), 0);
        let (sl, _) = win(&c, s, 1023, 0, 0);
        scans(&sl, &b[s..], l, &|| format!("{s}..1023 {mode}"))?;
        let (sl, _) = win(&c, 0, s, 0, 0);
        scans(&sl, &b[..s], l, &|| format!("0..{s} {mode}"))?;
        l.st(2);
        Ok(())
    });
    // sequences of advancing operations
    const SEQ: usize = 14;
    r.section("sequences", (SEQ * SEQ * SEQ * SEQ) as u64 * 6, |i, l| {
        let mut ix = Ix(i);
        let ops = [ix.us(SEQ), ix.us(SEQ), ix.us(SEQ), ix.us(SEQ)];
        let n = [90usize, 37, 300, 130, 64, 20][ix.us(6)];
        let c = mkc(pattern(7, n), 3);
        let mut sl = c.cell.as_slice().unwrap();
        let mut w = W { bits: c.bits.clone(), refs: vec![0, 1, 2] };
        for (k, op) in ops.into_iter().enumerate() {
            let m = w.bits.len();
            let take = |w: &mut W, k: usize| -> Option<B> { if w.bits.len() < k { None } else { let r = w.bits[..k].to_vec(); w.bits.drain(..k); Some(r) } };
            let cx = || format!("{ops:?} step {k} on {n}");
            match op {
                0 => { let g = sl.load_bit().map(|x| x as u8 as u128); ck_res(g, take(&mut w, 1).map(|b| to_u128(&b)), l, "seq", &cx)? }
                1 => { let g = sl.load_u8().map(|x| x as u128); ck_res(g, take(&mut w, 8).map(|b| to_u128(&b)), l, "seq", &cx)? }
                2 => { let g = sl.load_u16().map(|x| x as u128); ck_res(g, take(&mut w, 16).map(|b| to_u128(&b)), l, "seq", &cx)? }
                3 => { let g = sl.load_u64().map(|x| x as u128); ck_res(g, take(&mut w, 64).map(|b| to_u128(&b)), l, "seq", &cx)? }
                4 => { let g = sl.load_small_uint(5).map(|x| x as u128); ck_res(g, take(&mut w, 5).map(|b| to_u128(&b)), l, "seq", &cx)? }
                5 => { let g = sl.load_uint(23).map(|x| x as u128); ck_res(g, take(&mut w, 23).map(|b| to_u128(&b)), l, "seq", &cx)? }
                6 => { let mut t = [0; 2]; let g = sl.load_raw(&mut t, 11).map(|x| x.to_vec()); ck_res(g, take(&mut w, 11).map(|b| pack(&b)), l, "seq", &cx)? }
                7 => { let g = sl.load_reference().map(|x| *x.repr_hash()); let want = if w.refs.is_empty() { None } else { Some(*c.kids[w.refs.remove(0)].repr_hash()) }; ck_res(g, want, l, "seq", &cx)? }
                8 => { let ok = sl.skip_first(9, 0).is_ok(); ck!(ok == (m >= 9), "seq-skip", "{}", cx()); if ok { w.bits.drain(..9); } }
                9 => { let ok = sl.skip_last(7, 1).is_ok(); ck!(ok == (m >= 7 && !w.refs.is_empty()), "seq-skip-last", "{}", cx()); if ok { w.bits.truncate(m - 7); w.refs.pop(); } }
                10 => { let ok = sl.only_first(33, 1).is_ok(); ck!(ok == (m >= 33 && !w.refs.is_empty()), "seq-only-first", "{}", cx()); if ok { w.bits.truncate(33); w.refs.truncate(1); } }
                11 => { let ok = sl.only_last(29, 1).is_ok(); ck!(ok == (m >= 29 && !w.refs.is_empty()), "seq-only-last", "{}", cx()); if ok { w.bits.drain(..m - 29); let k = w.refs.len(); w.refs.drain(..k - 1); } }
                12 => { let g = sl.load_suffix(3, 0).map(|x| slice_bits(&x)); let want = if m < 3 { None } else { Some(w.bits.split_off(m - 3)) }; ck_res(g, want, l, "seq", &cx)? }
                _ => { let g = sl.load_u256().map(|x| x.0.to_vec()); ck_res(g, take(&mut w, 256).map(|b| pack(&b)), l, "seq", &cx)? }
            }
            ck!(same(&sl, &w, &c), "seq-window", "{}", cx());
            l.st(1);
        }
        l.sample(|| format!("{ops:?} on {n} bits, 3 refs"));
        Ok(())
    });
    // exotic cells, foreign ranges, non-zero loads
    r.section("exotic", 1, |_, l| {
        let e = CellBuilder::build_library(&HashBytes([3; 32]));
        ck!(matches!(e.as_slice(), Err(Error::UnexpectedExoticCell)) && CellSlice::new(e.as_ref()).is_err() && CellSliceRange::full(&e).apply(&e).is_err(), "exotic-slice", "");
        let s = e.as_slice_allow_exotic();
        ck!(s.size_bits() == 264 && s.get_u8(0) == Ok(2) && s.cell_type() == CellType::LibraryReference, "exotic-allow", "");
        let mut b = CellBuilder::new();
        b.store_reference(e.clone()).unwrap();
        let p = b.build().unwrap();
        let mut s = p.as_slice().unwrap();
        ck!(matches!(s.load_reference_as_slice(), Err(Error::UnexpectedExoticCell)) && s.size_refs() == 1 && s.get_reference_as_slice(0).is_err(), "exotic-child", "");
        ck!(s.load_reference().is_ok(), "exotic-child-load", "");
        for n in 0..40usize { for k in 0..=3usize { for m in 0..40usize { for q in 0..=3usize {
            let (a, c) = (mkc(pattern(2, n), k), mkc(pattern(3, m), q));
            for (x, y) in [(0usize, 0usize), (3, 1), (17, 2)] {
                if x > n || y > k { continue }
                let mut rg = CellSliceRange::full(&a.cell);
                rg.skip_first(x as u16, y as u8).unwrap();
                let s = rg.apply(&c.cell).unwrap();
                let (e, f) = (n.min(m), k.min(q));
                let w = W { bits: c.bits[x.min(e)..e].to_vec(), refs: (y.min(f)..f).collect() };
                ck!(same(&s, &w, &c), "range-foreign", "{n}/{k} skip {x},{y} applied to {m}/{q}");
                l.tr(1); l.st(1);
            }
        } } } }
        for v in 0..=255u8 {
            let c = cell_of(&uint(v as u128, 8));
            let g = std::num::NonZeroU8::load_from(&mut c.as_slice().unwrap());
            ck!(g.is_ok() == (v != 0) && g.map_or(true, |g| g.get() == v), "nonzero", "{v}");
        }
        l.tr(256);
        let _ = Ordering::Equal;
        Ok(())
    });
}
