//! C22: currency collections against maps of exact integers.
use crate::fw::*;
use crate::model::bits::*;
use crate::model::dict::{canon, read_opt, Val};
use crate::*;
use num_bigint::BigUint;
use std::collections::{BTreeMap, HashMap, HashSet};
use tycho_types::cell::*;
use tycho_types::dict::*;
use tycho_types::error::*;
use tycho_types::models::*;
use tycho_types::num::*;

pub const META: Meta = Meta {
    id: "C22",
    level: "model_checking",
    rule: "a state is a currency collection: tokens at boundary amounts and, for every currency of a small universe, absent or one of the boundary amounts (zero, one, near and at the 248 bit maximum); all pairs of such collections are operands, and histories of operations are explored breadth first to a depth with deduplication; a transition is one operation whose result (map, canonical cell, success) is compared with exact integers; non-trivial: a currency vanishes, overflows or is missing",
    assumptions: &[],
    run,
};

type Map = BTreeMap<u32, BigUint>;
fn mx(bits: u32) -> BigUint { (BigUint::from(1u8) << bits) - 1u8 }
fn v248(v: &BigUint) -> VarUint248 {
    let d: Vec<u64> = (0..4).map(|i| v.iter_u64_digits().nth(i).unwrap_or(0)).collect();
    VarUint248::from_words((d[3] as u128) << 64 | d[2] as u128, (d[1] as u128) << 64 | d[0] as u128)
}
fn enc(v: &BigUint) -> B { let n = v.bits().div_ceil(8) as usize; let mut b = uint(n as u128, 5); b.extend(big(v, n * 8)); b }
fn cell_for(m: &Map) -> Option<Cell> {
    canon(&m.iter().map(|(k, v)| (uint(*k as u128, 32), Val::new(enc(v)))).collect::<Vec<_>>(), 32).unwrap()
}
fn extra(m: &Map) -> ExtraCurrencyCollection { ExtraCurrencyCollection::from_raw(cell_for(m)) }
fn same(what: &str, ctx: &dyn Fn() -> String, got: Result<ExtraCurrencyCollection, Error>, want: &Option<Map>) -> R {
    match (got, want) {
        (Err(e), None) => { ck!(e == Error::IntOverflow, format!("{what}-error"), "{e:?} {}", ctx()); Ok(()) }
        (Ok(g), Some(w)) => {
            let raw: Option<Cell> = g.into_dict().into_root();
            if raw.as_ref().map(|c| *c.repr_hash()) != cell_for(w).as_ref().map(|c| *c.repr_hash()) {
                bad!(what, "got {:?} want {w:?} {}", read_opt(&raw, 32).map(|v| v.into_iter().map(|(k, v)| format!("{:x}={:x}", to_u128(&k), to_big(&v.bits[5..]))).collect::<Vec<_>>()), ctx())
            }
            Ok(())
        }
        (g, w) => bad!(format!("{what}-outcome"), "ok={} want ok={} {}", g.is_ok(), w.is_some(), ctx()),
    }
}

fn add(a: &Map, b: &Map) -> Option<Map> {
    let mut r = a.clone();
    for (k, v) in b {
        let s = a.get(k).cloned().unwrap_or_default() + v;
        if s > mx(248) { return None }
        if s == BigUint::default() { r.remove(k); } else { r.insert(*k, s); }
    }
    Some(r)
}
fn sub(a: &Map, b: &Map) -> Option<Map> {
    let mut r = a.clone();
    for (k, v) in b {
        let x = a.get(k).cloned().unwrap_or_default();
        if x < *v { return None }
        if x == *v { r.remove(k); } else { r.insert(*k, x - v); }
    }
    Some(r)
}
fn clamp(a: &Map, b: &Map) -> Map {
    let mut r = a.clone();
    for (k, v) in a {
        let m = b.get(k).cloned().unwrap_or_default().min(v.clone());
        // an amount that was already zero is left as it was
        if m == *v { continue }
        if m == BigUint::default() { r.remove(k); } else { r.insert(*k, m); }
    }
    r
}
fn norm(a: &Map) -> Map { a.iter().filter(|(_, v)| **v != BigUint::default()).map(|(k, v)| (*k, v.clone())).collect() }

fn collection(ids: &[u32], amounts: &[BigUint], mut code: u64) -> Map {
    let n = amounts.len() as u64 + 1;
    let mut m = Map::new();
    for id in ids { let d = code % n; code /= n; if d > 0 { m.insert(*id, amounts[d as usize - 1].clone()); } }
    m
}

fn pair(a: &Map, b: &Map, toks: &[u128], l: &mut L) -> R {
    let ctx = || format!("a={a:x?} b={b:x?}");
    let (x, y) = (extra(a), extra(b));
    let (wa, ws, wc) = (add(a, b), sub(a, b), clamp(a, b));
    if wa.is_none() || ws.as_ref().is_none_or(|w| w.len() < a.len()) || wc.len() < a.len() { l.nt() }
    l.evn(12);
    l.tr(6);
    same("extra-add", &ctx, np("panic", ctx, || x.checked_add(&y))?, &wa)?;
    same("extra-sub", &ctx, np("panic", ctx, || x.checked_sub(&y))?, &ws)?;
    same("extra-clamp", &ctx, np("panic", ctx, || x.checked_clamp(&y))?, &Some(wc.clone()))?;
    ckeq!(x == y, a == b, "eq", "{}", ctx());
    // with tokens, rotating through the pairs of token amounts
    let h = (a.len() * 7 + b.len() * 3 + a.keys().chain(b.keys()).map(|k| *k as usize % 5).sum::<usize>()) % toks.len();
    for (ta, tb) in [(toks[h], toks[(h * 3 + 1) % toks.len()]), (toks[toks.len() - 1 - h], toks[h])] {
        tokened(ta, tb, a, b, &wa, &ws, &wc, l)?;
    }
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn tokened(ta: u128, tb: u128, a: &Map, b: &Map, wa: &Option<Map>, ws: &Option<Map>, wc: &Map, l: &mut L) -> R {
    let ctx = || format!("ta={ta} tb={tb} a={a:x?} b={b:x?}");
    let c = |t: u128, m: &Map| CurrencyCollection { tokens: Tokens::new(t), other: extra(m) };
    let (x, y) = (c(ta, a), c(tb, b));
    let max = (1u128 << 120) - 1;
    let fit = |v: Option<u128>| v.filter(|v| *v <= max);
    let want = |t: Option<u128>, m: &Option<Map>| t.zip(m.clone());
    let (add, sub) = (want(fit(ta.checked_add(tb)), wa), want(ta.checked_sub(tb), ws));
    l.evn(8);
    let full = |what: &str, got: Result<CurrencyCollection, Error>, w: &Option<(u128, Map)>| -> R {
        match (got, w) {
            (Ok(g), Some((t, m))) => { ckeq!(g.tokens.into_inner(), *t, format!("{what}-tokens"), "{}", ctx()); same(what, &ctx, Ok(g.other), &Some(m.clone())) }
            (Err(e), None) => { ckeq!(e, Error::IntOverflow, format!("{what}-error"), "{}", ctx()); Ok(()) }
            (g, w) => bad!(format!("{what}-outcome"), "ok={} want ok={} {}", g.is_ok(), w.is_some(), ctx()),
        }
    };
    full("add", np("panic", ctx, || x.checked_add(&y))?, &add)?;
    full("sub", np("panic", ctx, || x.checked_sub(&y))?, &sub)?;
    full("clamp", np("panic", ctx, || x.checked_clamp(&y))?, &Some((ta.min(tb), wc.clone())))?;
    // in place: the result on success, nothing changed on failure
    let inplace = |what: &str, ok: bool, z: CurrencyCollection, w: &Option<(u128, Map)>| -> R {
        ckeq!(ok, w.is_some(), format!("{what}-outcome"), "{}", ctx());
        let keep = Some((ta, a.clone()));
        full(what, Ok(z), if w.is_some() { w } else { &keep })
    };
    let mut z = x.clone();
    let ok = z.try_add_assign(&y).is_ok();
    inplace("try_add_assign", ok, z, &add)?;
    let mut z = x.clone();
    let ok = z.try_sub_assign(&y).is_ok();
    inplace("try_sub_assign", ok, z, &sub)?;
    let mut z = x.clone();
    let ok = z.try_add_assign_tokens(Tokens::new(tb)).is_ok();
    inplace("try_add_assign_tokens", ok, z, &fit(ta.checked_add(tb)).map(|t| (t, a.clone())))?;
    let mut z = x.clone();
    let ok = z.try_sub_assign_tokens(Tokens::new(tb)).is_ok();
    inplace("try_sub_assign_tokens", ok, z, &ta.checked_sub(tb).map(|t| (t, a.clone())))?;
    // as the extra of an augmented dictionary
    let cell = |c: &CurrencyCollection| CellBuilder::build_from(c).unwrap();
    let (cx, cy) = (cell(&x), cell(&y));
    let mut out = CellBuilder::new();
    let r = np("panic", ctx, || CurrencyCollection::comp_add(&mut cx.as_slice().unwrap(), &mut cy.as_slice().unwrap(), &mut out, Cell::empty_context()))?;
    match (&r, &add) {
        (Ok(()), Some((t, m))) => { let got = out.build().unwrap(); ckeq!(cell_bits(got.as_ref()), enc_cc(*t, m), "comp_add", "{}", ctx()); ckeq!(got.reference_cloned(0).map(|c| *c.repr_hash()), cell_for(m).map(|c| *c.repr_hash()), "comp_add", "{}", ctx()); }
        (Err(_), None) => {}
        _ => bad!("comp_add-outcome", "{r:?} {}", ctx()),
    }
    Ok(())
}

fn enc_cc(t: u128, m: &Map) -> B {
    let n = (128 - t.leading_zeros()).div_ceil(8) as usize;
    let mut b = uint(n as u128, 4);
    b.extend(uint(t, n * 8));
    b.push(!m.is_empty() as u8);
    b
}

fn single(t: u128, m: &Map, l: &mut L) -> R {
    let ctx = || format!("t={t} m={m:x?}");
    let want_bits = enc_cc(t, m);
    let raw = cell_for(m);
    let c = CurrencyCollection { tokens: Tokens::new(t), other: extra(m) };
    l.evn(16);
    l.tr(1);
    // ways to build one
    let vm: BTreeMap<u32, VarUint248> = m.iter().map(|(k, v)| (*k, v248(v))).collect();
    let hm: HashMap<u32, VarUint248> = vm.clone().into_iter().collect();
    let w = Some(m.clone());
    same("from-btree", &ctx, ExtraCurrencyCollection::try_from(&vm), &w)?;
    same("from-btree", &ctx, ExtraCurrencyCollection::try_from(vm.clone()), &w)?;
    same("from-hashmap", &ctx, ExtraCurrencyCollection::try_from(&hm), &w)?;
    same("from-hashmap", &ctx, ExtraCurrencyCollection::try_from(hm), &w)?;
    same("from-iter", &ctx, ExtraCurrencyCollection::try_from_iter(vm.clone()), &w)?;
    same("from-iter-rev", &ctx, ExtraCurrencyCollection::try_from_iter(vm.clone().into_iter().rev()), &w)?;
    let mut d = Dict::<u32, VarUint248>::new();
    for (k, v) in vm.iter().rev() { ck!(d.set(*k, v).is_ok(), "set", "{}", ctx()) }
    same("from-dict", &ctx, Ok(ExtraCurrencyCollection::from(d)), &w)?;
    for (k, v) in &vm { ckeq!(c.other.as_dict().get(k).unwrap(), Some(*v), "get", "{k} {}", ctx()) }
    ckeq!(c.other.as_dict().iter().map(|x| x.unwrap()).collect::<Vec<_>>(), vm.clone().into_iter().collect::<Vec<_>>(), "iter", "{}", ctx());
    ckeq!(c.other.is_empty(), m.is_empty(), "is_empty", "{}", ctx());
    ckeq!(c.is_zero(), t == 0 && m.is_empty(), "is_zero", "{}", ctx());
    ckeq!(c.bit_len() as usize, want_bits.len(), "bit_len", "{}", ctx());
    ckeq!((c.exact_size().bits as usize, c.exact_size().refs as usize), (want_bits.len(), !m.is_empty() as usize), "exact_size", "{}", ctx());
    let nm = norm(m);
    if nm.len() < m.len() { l.nt() }
    same("normalized", &ctx, c.other.normalized(), &Some(nm.clone()))?;
    let mut z = c.other.clone();
    ck!(z.normalize().is_ok(), "normalize", "{}", ctx());
    same("normalize", &ctx, Ok(z), &Some(nm))?;
    // cell form and back
    let b = CellBuilder::build_from(&c).unwrap();
    ckeq!(cell_bits(b.as_ref()), want_bits.clone(), "store", "{}", ctx());
    ckeq!(b.reference_cloned(0), raw.clone(), "store-ref", "{}", ctx());
    ckeq!(b.parse::<CurrencyCollection>(), Ok(c.clone()), "load", "{}", ctx());
    // every truncation is an error
    for n in 0..want_bits.len() {
        let mut cb = builder_of(&want_bits[..n]);
        if let Some(r) = &raw { cb.store_reference(r.clone()).unwrap(); }
        let cut = cb.build().unwrap();
        l.ev();
        ck!(np("panic", ctx, || cut.parse::<CurrencyCollection>())?.is_err(), "load-truncated", "bits={n} {}", ctx());
    }
    if raw.is_some() { ck!(cell_of(&want_bits).parse::<CurrencyCollection>().is_err(), "load-no-ref", "{}", ctx()) }
    Ok(())
}

/// histories of operations on one collection, breadth first
fn history(toks: &[u128], operands: &[(u128, Map)], depth: usize, l: &mut L) -> R {
    let max = (1u128 << 120) - 1;
    let mk = |(t, m): &(u128, Map)| CurrencyCollection { tokens: Tokens::new(*t), other: extra(m) };
    let ops: Vec<CurrencyCollection> = operands.iter().map(mk).collect();
    let start = (0u128, Map::new());
    let mut seen = HashSet::new();
    seen.insert(start.clone());
    let mut front = vec![(start, CurrencyCollection::ZERO)];
    for _ in 0..depth {
        let mut next = vec![];
        for (st, c) in &front {
            l.st(1);
            for (j, (ot, om)) in operands.iter().enumerate() {
                for op in 0..3 {
                    let w = match op {
                        0 => st.0.checked_add(*ot).filter(|t| *t <= max).zip(add(&st.1, om)),
                        1 => st.0.checked_sub(*ot).zip(sub(&st.1, om)),
                        _ => Some((st.0.min(*ot), clamp(&st.1, om))),
                    };
                    let mut g = c.clone();
                    let ok = match op { 0 => g.try_add_assign(&ops[j]).is_ok(), 1 => g.try_sub_assign(&ops[j]).is_ok(), _ => { match c.checked_clamp(&ops[j]) { Ok(v) => { g = v; true } Err(_) => false } } };
                    let ctx = || format!("state={st:x?} op={op} operand={ot} {om:x?}");
                    l.ev();
                    l.tr(1);
                    ckeq!(ok, w.is_some(), "history-outcome", "{}", ctx());
                    let Some(w) = w else { l.nt(); continue };
                    ckeq!(g.tokens.into_inner(), w.0, "history-tokens", "{}", ctx());
                    same("history", &ctx, Ok(g.other.clone()), &Some(w.1.clone()))?;
                    if seen.insert(w.clone()) { next.push((w, g)) }
                }
            }
            for t in toks {
                let w = st.0.checked_sub(*t).map(|v| (v, st.1.clone()));
                let mut g = c.clone();
                ckeq!(g.try_sub_assign_tokens(Tokens::new(*t)).is_ok(), w.is_some(), "history-tokens", "{st:x?} - {t}");
                l.tr(1);
                if let Some(w) = w { ckeq!(g.tokens.into_inner(), w.0, "history-tokens", "{st:x?} - {t}"); if seen.insert(w.clone()) { next.push((w, g)) } }
            }
        }
        front = next;
    }
    Ok(())
}

fn run(r: &Run) {
    let q = r.quick();
    let m = mx(248);
    let one = BigUint::from(1u8);
    let amounts: Vec<BigUint> = vec![0u8.into(), one.clone(), BigUint::from(2u8), &m - 1u8, m.clone()];
    let toks: Vec<u128> = vec![0, 1, 2, (1 << 119) - 1, (1 << 119), (1 << 120) - 2, (1 << 120) - 1];
    let sets: &[&[u32]] = if q { &[&[0, 1], &[1, 0x80000001, u32::MAX], &[6, 7]] } else { &[&[0, 1, 2], &[1, 0x80000001, u32::MAX], &[6, 7, 8], &[0x7fffffff, 0x80000000, 0xc0000000]] };
    let n = amounts.len() as u64 + 1;
    for ids in sets {
        let per = n.pow(ids.len() as u32);
        r.section(&format!("pairs-{:x}-{}", ids[0], ids.len()), per, |i, l| {
            let a = collection(ids, &amounts, i);
            l.st(per);
            for j in 0..per { pair(&a, &collection(ids, &amounts, j), &toks, l)? }
            Ok(())
        });
    }
    // four currencies, amounts {absent, 1, max}: how many currencies fail and where
    let few = vec![one.clone(), m.clone()];
    let ids4: &[u32] = if q { &[0, 5, 0x8000_0000] } else { &[0, 1, 5, 0x8000_0000, u32::MAX] };
    let per = 3u64.pow(ids4.len() as u32);
    r.section("pairs-many", per, |i, l| {
        let a = collection(ids4, &few, i);
        l.st(per);
        for j in 0..per { pair(&a, &collection(ids4, &few, j), &toks, l)? }
        Ok(())
    });
    let bounds: Vec<BigUint> = (0..=31u32).flat_map(|k| if k == 0 { vec![BigUint::default()] } else { vec![one.clone() << (8 * k - 8), mx(8 * k)] }).collect();
    r.section("amounts", bounds.len() as u64, |i, l| {
        let a = &bounds[i as usize];
        for b in &bounds {
            let (x, y) = (Map::from([(7, a.clone())]), Map::from([(7, b.clone())]));
            pair(&x, &y, &toks, l)?;
            let z = Map::from([(3, b.clone()), (7, a.clone())]);
            single(toks[b.bits() as usize % toks.len()], &z, l)?;
        }
        Ok(())
    });
    let ids: &[u32] = &[0, 1, u32::MAX];
    let per = n.pow(3);
    let tt: Vec<u128> = (0..=15u32).flat_map(|k| if k == 0 { vec![0] } else { vec![1u128 << (8 * k - 8), if k == 15 { (1 << 120) - 1 } else { (1u128 << (8 * k)) - 1 }] }).collect();
    r.section("single", per, |i, l| {
        let m = collection(ids, &amounts, i);
        l.st(1);
        for t in tt.iter().step_by(if q { 5 } else { 1 }) { single(*t, &m, l)? }
        Ok(())
    });
    r.section("tokens", (tt.len() * tt.len()) as u64, |i, l| {
        let (a, b) = (tt[i as usize / tt.len()], tt[i as usize % tt.len()]);
        let (x, y) = (Map::from([(1, one.clone())]), Map::from([(1, one.clone())]));
        l.st(1);
        tokened(a, b, &x, &y, &add(&x, &y), &sub(&x, &y), &clamp(&x, &y), l)?;
        let e = Map::new();
        tokened(a, b, &e, &e, &Some(e.clone()), &Some(e.clone()), &e, l)
    });
    let opnds: Vec<(u128, Map)> = vec![
        (1, Map::new()), (toks[6], Map::from([(1, one.clone())])), (0, Map::from([(1, one.clone()), (2, m.clone())])),
        (toks[4], Map::from([(2, one.clone())])), (1, Map::from([(1, m.clone()), (0x8000_0000, one.clone())])), (0, Map::from([(1, BigUint::default()), (2, one.clone())])),
    ];
    r.section("history", 1, |_, l| history(&toks[1..3], &opnds, if q { 4 } else { 6 }, l));
}
