//! C11: iteration and ordered queries follow key order.
use super::dictlib::*;
use crate::fw::*;
use crate::model::bits::*;
use crate::model::dict::*;
use crate::*;
use tycho_types::cell::*;
use tycho_types::dict::*;
use tycho_types::error::Error;

pub const META: Meta = Meta {
    id: "C11",
    level: "model_checking",
    rule: "all dictionary states of a key universe x all iterators, directions and signedness, all bounds and all next/previous queries for every query key (present, absent, before and after all), each compared with a sorted list; union iterators over all ordered pairs of states; step-level exploration of iterators (every prefix of the iteration, clone mid-way)",
    assumptions: &["trees are the canonical trees of their content", "wide keys are explored over universes of at most six structured keys and their bit-flip neighbours"],
    run,
};

fn drain<T>(what: &str, it: &mut dyn Iterator<Item = Result<T, Error>>, max: usize) -> R<Vec<T>> {
    let mut out = vec![];
    loop {
        match it.next() {
            None => break,
            Some(Ok(x)) => out.push(x),
            Some(Err(e)) => bad!(format!("{what}/error"), "{e:?} after {}", out.len()),
        }
        ck!(out.len() <= max, format!("{what}/endless"), "more than {max} items");
    }
    ck!(it.next().is_none(), format!("{what}/not-fused"), "an item after the end");
    Ok(out)
}

fn iterate<const N: u16>(u: &Uni, tab: &[Option<Option<Cell>>], st: u64, l: &mut L) -> R {
    let Some(root) = &tab[st as usize] else { return Ok(()) };
    l.st(1);
    let raw = RawDict::<N>::from(root.clone());
    let typed = Dict::<Kb<N>, Vl>::from(root.clone());
    for m in 0..4 {
        let (rev, signed) = (m & 1 == 1, m & 2 == 2);
        let want = sorted(u.content(st), signed, rev);
        let wk: Vec<B> = want.iter().map(|e| e.0.clone()).collect();
        let wv: Vec<Val> = want.iter().map(|e| e.1.clone()).collect();
        let max = want.len() + 1;
        macro_rules! cfg { ($it:expr) => {{ let mut i = $it; if rev { i = i.reversed() } if signed { i = i.signed() } i }} }
        macro_rules! cfg2 { ($it:expr) => {{ let mut i = $it; if signed { i = i.signed() } if rev { i = i.reversed() } i }} }
        macro_rules! go { ($name:literal, $it:expr, $map:expr, $want:expr) => {{
            let got = np(concat!($name, "/panic"), || u.show(st), || { let mut it = $it; drain($name, &mut it, max) })??;
            let got: Vec<_> = got.into_iter().map($map).collect();
            ckeq!(got, $want, $name, "{} rev={rev} signed={signed} [{}]", u.name, u.show(st));
            l.ev(); l.tr(got.len() as u64); if got.len() > 1 { l.nt() }
        }} }
        go!("RawDict::iter", cfg!(raw.iter()), entry_ref, want);
        go!("RawIter::new_ext", RawIter::new_ext(root, N, rev, signed), entry_ref, want);
        go!("RawDict::iter_owned", cfg2!(raw.iter_owned()), entry, want);
        go!("RawOwnedIter::new_ext", RawOwnedIter::new_ext(root, N, rev, signed), entry, want);
        go!("RawDict::keys", cfg!(raw.keys()), |k| data_bits(&k), wk);
        go!("RawKeys::new_ext", RawKeys::new_ext(root, N, rev, signed), |k| data_bits(&k), wk);
        go!("RawDict::values", cfg!(raw.values()), |v| Val::of(&v), wv);
        go!("RawValues::new_ext", RawValues::new_ext(root, N, rev, signed), |v| Val::of(&v), wv);
        go!("RawDict::values_owned", cfg2!(raw.values_owned()), |v| Val::of_parts(&v).unwrap(), wv);
        go!("RawOwnedValues::new_ext", RawOwnedValues::new_ext(root, N, rev, signed), |v| Val::of_parts(&v).unwrap(), wv);
        go!("Dict::iter", cfg!(typed.iter()), |e: (Kb<N>, Vl)| (e.0.0, e.1.0), want);
        go!("Dict::keys", cfg2!(typed.keys()), |k: Kb<N>| k.0, wk);
        go!("Dict::values", cfg!(typed.values()), |v: Vl| v.0, wv);
        go!("Dict::raw_iter", cfg!(typed.raw_iter()), entry_ref, want);
        go!("Dict::raw_keys", cfg!(typed.raw_keys()), |k| data_bits(&k), wk);
        go!("Dict::raw_values", cfg!(typed.raw_values()), |v| Val::of(&v), wv);
        // flags reported
        let it = cfg!(raw.iter());
        ckeq!((it.is_reversed(), it.is_signed()), (rev, signed), "iter/flags", "");
        // a clone taken after every step continues with the same rest, and next_owned agrees
        let mut it = cfg!(raw.iter());
        for i in 0..=want.len() {
            let rest = drain("RawIter clone", &mut it.clone(), max)?;
            ckeq!(rest.into_iter().map(entry_ref).collect::<Vec<_>>(), want[i..].to_vec(), "RawIter/clone", "{} step {i} [{}]", u.name, u.show(st));
            let mut o = it.clone();
            let n = np("next_owned/panic", || u.show(st), || o.next_owned(root))?;
            ckeq!(n.map(|x| x.map(entry).ok()), want.get(i).map(|e| Some(e.clone())), "RawIter::next_owned", "{} step {i} rev={rev} signed={signed} [{}]", u.name, u.show(st));
            it.next();
            l.evn(2);
        }
    }
    // bounds
    for signed in [false, true] {
        let s = sorted(u.content(st), signed, false);
        for (max, want) in [(false, s.first().cloned()), (true, s.last().cloned())] {
            let b = if max { DictBound::Max } else { DictBound::Min };
            let c = || format!("{} max={max} signed={signed} [{}]", u.name, u.show(st));
            macro_rules! go { ($name:literal, $e:expr, $map:expr) => {{
                let g = np(concat!($name, "/panic"), c, || $e)?;
                ckeq!(g.map(|o| o.map($map)).ok(), Some(want.clone()), $name, "{}", c());
                l.ev(); l.tr(1); if want.is_some() { l.nt() }
            }} }
            go!("dict_find_bound", dict_find_bound(root.as_ref(), N, b, signed, ctx()), entry_ref);
            go!("dict_find_bound_owned", dict_find_bound_owned(root.as_ref(), N, b, signed, ctx()), entry);
            go!("RawDict::get_min/max", if max { raw.get_max(signed) } else { raw.get_min(signed) }, entry_ref);
            go!("RawDict::get_min/max_owned", if max { raw.get_max_owned(signed) } else { raw.get_min_owned(signed) }, entry);
            go!("RawDict::get_bound", raw.get_bound(b, signed), entry_ref);
            go!("RawDict::get_bound_owned", raw.get_bound_owned(b, signed), entry);
            go!("Dict::get_min/max", if max { typed.get_max(signed) } else { typed.get_min(signed) }, |e: (Kb<N>, Vl)| (e.0.0, e.1.0));
            go!("Dict::get_bound_raw", typed.get_bound_raw(b, signed), |e: (Kb<N>, CellSlice<'_>)| (e.0.0, Val::of(&e.1)));
        }
    }
    // neighbours
    let mut q = u.keys.clone();
    if u.n > 0 && u.keys.len() < 1 << u.n.min(20) {
        for k in &u.keys { for i in 0..u.n { if u.n <= 33 || i % 16 == 1 || i + 3 >= u.n || i < 3 { let mut k = k.clone(); k[i] ^= 1; q.push(k) } } }
        q.push(vec![0; u.n]);
        q.push(vec![1; u.n]);
        q.sort();
        q.dedup();
    }
    for signed in [false, true] {
        let s = sorted(u.content(st), signed, false);
        for k in &q {
            let kc = kcell(k);
            let ks = || kc.as_slice().unwrap();
            let tk = Kb::<N>(k.clone());
            use std::cmp::Ordering::*;
            for m in 0..4 {
                let (next, incl) = (m & 1 == 1, m & 2 == 2);
                let want = if next { s.iter().find(|e| matches!(keycmp(&e.0, k, signed), Greater) || incl && e.0 == *k) }
                    else { s.iter().rev().find(|e| matches!(keycmp(&e.0, k, signed), Less) || incl && e.0 == *k) }.cloned();
                let c = || format!("{} next={next} inclusive={incl} signed={signed} key={} [{}]", u.name, show(&k[..k.len().min(64)]), u.show(st));
                macro_rules! go { ($name:literal, $e:expr, $map:expr) => {{
                    let g = np(concat!($name, "/panic"), c, || $e)?;
                    ckeq!(g.map(|o| o.map($map)).ok(), Some(want.clone()), $name, "{}", c());
                    l.ev(); l.tr(1); if want.is_some() { l.nt() }
                }} }
                go!("dict_find_owned", dict_find_owned(root.as_ref(), N, ks(), if next { DictBound::Max } else { DictBound::Min }, incl, signed, ctx()), entry);
                go!("RawDict::get_next/prev", match m { 0 => raw.get_prev_owned(ks(), signed), 1 => raw.get_next_owned(ks(), signed), 2 => raw.get_or_prev_owned(ks(), signed), _ => raw.get_or_next_owned(ks(), signed) }, entry);
                go!("Dict::get_next/prev", match m { 0 => typed.get_prev(&tk, signed), 1 => typed.get_next(&tk, signed), 2 => typed.get_or_prev(&tk, signed), _ => typed.get_or_next(&tk, signed) }, |e: (Kb<N>, Vl)| (e.0.0, e.1.0));
            }
        }
    }
    l.sample(|| format!("{} state [{}]: all iterators and queries", u.name, u.show(st)));
    Ok(())
}

fn union<const N: u16>(u: &Uni, tab: &[Option<Option<Cell>>], a: u64, l: &mut L) -> R {
    let Some(ra) = &tab[a as usize] else { return Ok(()) };
    let da = RawDict::<N>::from(ra.clone());
    let ta = Dict::<Kb<N>, Vl>::from(ra.clone());
    for b in 0..u.states() {
        let Some(rb) = &tab[b as usize] else { continue };
        let db = RawDict::<N>::from(rb.clone());
        let tb = Dict::<Kb<N>, Vl>::from(rb.clone());
        l.st(1);
        for m in 0..4 {
            let (rev, signed) = (m & 1 == 1, m & 2 == 2);
            let mut keys: Vec<usize> = (0..u.keys.len()).filter(|&k| u.digit(a, k) + u.digit(b, k) > 0).collect();
            keys.sort_by(|&x, &y| { let o = keycmp(&u.keys[x], &u.keys[y], signed); if rev { o.reverse() } else { o } });
            let want: Vec<_> = keys.iter().map(|&k| (u.keys[k].clone(), u.val(a, k).cloned(), u.val(b, k).cloned())).collect();
            macro_rules! cfg { ($it:expr) => {{ let mut i = $it; if rev { i = i.reversed() } if signed { i = i.signed() } i }} }
            let c = || format!("{} rev={rev} signed={signed} left [{}] right [{}]", u.name, u.show(a), u.show(b));
            for way in 0..4 {
                let raws = |it: &mut UnionRawIter<'_>| -> R<Vec<(B, Option<Val>, Option<Val>)>> { Ok(drain("union", it, want.len() + 1)?.into_iter().map(|(k, x, y)| (data_bits(&k), x.map(|s| Val::of(&s)), y.map(|s| Val::of(&s)))).collect()) };
                let got = np("union/panic", c, || match way {
                    0 => raws(&mut cfg!(da.iter_union(&db))),
                    1 => raws(&mut UnionRawIter::new_ext(ra, rb, N, rev, signed)),
                    2 => raws(&mut cfg!(ta.raw_iter_union(&tb))),
                    _ => Ok(drain("union", &mut cfg!(ta.iter_union(&tb)), want.len() + 1)?.into_iter().map(|(k, x, y)| (k.0, x.map(|v| v.0), y.map(|v| v.0))).collect()),
                })??;
                ckeq!(got, want, format!("union/way{way}"), "{}", c());
                l.ev();
                l.tr(got.len() as u64);
                if a != 0 && b != 0 { l.nt() }
            }
        }
    }
    Ok(())
}

fn run(r: &Run) {
    for u in unis(r) {
        let tab = u.table();
        r.section(&format!("order/{}", u.name), u.states(), |st, l| with_width!(u.n, iterate, &u, &tab, st, l));
        if u.states() <= r.pick(800, 7000) && u.vals[0][0].bits.len() < 700 {
            r.section(&format!("union/{}", u.name), u.states(), |st, l| with_width!(u.n, union, &u, &tab, st, l));
        }
    }
    let u = Uni::full(3, 1, 0);
    let tab = u.table();
    r.section("union/full3v1f0", u.states(), |st, l| union::<3>(&u, &tab, st, l));
}
