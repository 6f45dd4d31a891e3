//! C14: bulk construction and modification equal step-by-step changes.
use super::dictlib::*;
use crate::fw::*;
use crate::model::bits::*;
use crate::model::dict::*;
use crate::*;
use std::collections::BTreeMap;
use tycho_types::dict::*;
use tycho_types::error::Error;

pub const META: Meta = Meta {
    id: "C14",
    level: "model_checking",
    rule: "all starting states of a key universe x all change lists (every key untouched, deleted or set to any value), plus all insertions of a duplicate, all adjacent swaps (unsorted input) and an error raised at every position of the list; the resulting root is compared with the canonical tree of the entries, refusals must leave the dictionary as it was; construction from maps and slices for every state",
    assumptions: &["a change report of `true` is allowed for a list that changes nothing, as the implementation announces; `false` is not allowed when the dictionary changed",
        "deletions applied to an empty dictionary are dropped before the order of the list is checked", "wide keys are explored over universes of at most six structured keys"],
    run,
};

type Item<const N: u16> = (Kb<N>, Option<Vl>);

fn list_of<const N: u16>(u: &Uni, acts: &[u64]) -> Vec<Item<N>> {
    acts.iter().enumerate().filter(|(_, a)| **a > 0).map(|(k, a)| (Kb(u.keys[k].clone()), if *a == 1 { None } else { Some(Vl(u.vals[k][*a as usize - 2].clone())) })).collect()
}
fn apply(u: &Uni, st: u64, acts: &[u64]) -> u64 {
    let mut s = st;
    for (k, a) in acts.iter().enumerate() { if *a > 0 { s = u.with(s, k, a - 1) } }
    s
}
fn showl<const N: u16>(u: &Uni, l: &[Item<N>]) -> String {
    l.iter().map(|(k, v)| format!("{}{}", u.keys.iter().position(|x| *x == k.0).map_or_else(|| show(&k.0), |i| if u.n <= 16 { show(&u.keys[i]) } else { format!("#{i}") }), v.as_ref().map_or("-".into(), |v| format!("={}", v.0.show())))).collect::<Vec<_>>().join(",")
}

fn one<const N: u16>(x: &Exp, st: u64, acts: &[u64], deep: bool, l: &mut L) -> R {
    let u = x.u;
    let Some(root) = &x.tab[st as usize] else { return Ok(()) };
    let list = list_of::<N>(u, acts);
    let to = apply(u, st, acts);
    let c = || format!("{} [{}] list <{}>", u.name, u.show(st), showl(u, &list));
    let mut d = Dict::<Kb<N>, Vl>::from(root.clone());
    let got = np("modify/panic", c, || d.modify_with_sorted_iter(list.clone()))?;
    l.ev();
    l.tr(1);
    if st != to { l.nt() }
    let judge = |what: &str, got: &Result<bool, Error>, d: &Dict<Kb<N>, Vl>| -> R {
        match &x.tab[to as usize] {
            None => {
                ck!(got.is_err(), format!("{what}/overflow-accepted"), "{}", c());
                ck!(d.root() == root, format!("{what}/changed-on-error"), "{}", c());
            }
            Some(w) => {
                ck!(got.is_ok(), format!("{what}/error"), "{got:?} {}", c());
                ck!(d.root() == w, format!("{what}/root"), "{} got {:?}", c(), read_opt(d.root(), u.n));
                ck!(matches!(got, Ok(true)) || st == to, format!("{what}/change-not-reported"), "{}", c());
                ck!(matches!(got, Ok(false)) || !list.is_empty(), format!("{what}/change-reported"), "{}", c());
            }
        }
        Ok(())
    };
    judge("modify", &got, &d)?;
    if !deep { return Ok(()) }
    for i in 0..list.len() {
        // the same key again, with another action: the first one counts
        let mut dup = list.clone();
        let other = if list[i].1.is_some() { None } else { Some(Vl(Val::new(vec![1, 0, 1]))) };
        dup.insert(i + 1, (list[i].0.clone(), other));
        let mut d = Dict::<Kb<N>, Vl>::from(root.clone());
        let got = np("modify/panic", || format!("dup {i} {}", c()), || d.modify_with_sorted_iter(dup))?;
        // (an empty dictionary drops deletions first)
        if !(st == 0 && list[i].1.is_none()) { judge("modify-dup", &got, &d)?; }
        // an error raised by the value of item i
        let mut d = Dict::<Kb<N>, Vl>::from(root.clone());
        let mut n = 0;
        let got = np("modify/panic", || format!("fail {i} {}", c()), || d.modify_with_sorted_iter_ext(list.clone(), |e| e.0.clone(), |e| { n += 1; if n == i + 1 { Err(Error::Cancelled) } else { Ok(e.1) } }, ctx()))?;
        ck!(matches!(got, Err(Error::Cancelled)) || (x.tab[to as usize].is_none() && got.is_err()), "modify-ext/error-lost", "at {i} {} got {got:?}", c());
        ck!(d.root() == root, "modify-ext/changed-on-error", "at {i} {}", c());
        // unsorted
        if i + 1 < list.len() {
            let mut sw = list.clone();
            sw.swap(i, i + 1);
            let mut d = Dict::<Kb<N>, Vl>::from(root.clone());
            let got = np("modify/panic", || format!("swap {i} {}", c()), || d.modify_with_sorted_iter(sw))?;
            let dropped = st == 0 && (list[i].1.is_none() || list[i + 1].1.is_none());
            if !dropped {
                ck!(got.is_err(), "modify-unsorted/accepted", "swap {i} {}", c());
                ck!(d.root() == root, "modify-unsorted/changed", "swap {i} {}", c());
            }
        }
        l.evn(3);
        l.tr(3);
    }
    Ok(())
}

fn all_lists<const N: u16>(x: &Exp, st: u64, deep: bool, l: &mut L) -> R {
    if x.tab[st as usize].is_none() { return Ok(()) }
    l.st(1);
    let k = x.u.keys.len();
    let b = x.u.base() + 1;
    let mut acts = vec![0; k];
    for i in 0..b.pow(k as u32) {
        let mut ix = Ix(i);
        for a in acts.iter_mut() { *a = ix.take(b) }
        one::<N>(x, st, &acts, deep, l)?;
    }
    l.sample(|| format!("{} state [{}]: all {} lists", x.u.name, x.u.show(st), b.pow(k as u32)));
    Ok(())
}
fn short_lists<const N: u16>(x: &Exp, st: u64, touched: usize, deep: bool, l: &mut L) -> R {
    if x.tab[st as usize].is_none() { return Ok(()) }
    l.st(1);
    let b = x.u.base();
    fn go<const N: u16>(x: &Exp, st: u64, at: usize, left: usize, acts: &mut Vec<u64>, b: u64, deep: bool, l: &mut L) -> R {
        one::<N>(x, st, acts, deep, l)?;
        if left == 0 { return Ok(()) }
        for k in at..acts.len() {
            for a in 1..=b { acts[k] = a; go::<N>(x, st, k + 1, left - 1, acts, b, deep, l)?; }
            acts[k] = 0;
        }
        Ok(())
    }
    go::<N>(x, st, 0, touched, &mut vec![0; x.u.keys.len()], b, deep, l)
}

fn builds<const N: u16>(x: &Exp, st: u64, l: &mut L) -> R {
    let u = x.u;
    let es = u.content(st);
    let list: Vec<(Kb<N>, Vl)> = es.iter().map(|(k, v)| (Kb(k.clone()), Vl(v.clone()))).collect();
    let map: BTreeMap<Kb<N>, Vl> = list.iter().cloned().collect();
    let c = || format!("{} [{}]", u.name, u.show(st));
    let outs = [
        ("Dict::try_from_btree", np("build/panic", c, || Dict::<Kb<N>, Vl>::try_from_btree(&map))?.map(|d| d.into_root())),
        ("Dict::try_from_sorted_slice", Dict::<Kb<N>, Vl>::try_from_sorted_slice(&list).map(|d| d.into_root())),
        ("RawDict::try_from_btree", RawDict::<N>::try_from_btree(&map).map(|d| d.into_root())),
        ("RawDict::try_from_sorted_slice", RawDict::<N>::try_from_sorted_slice(&list).map(|d| d.into_root())),
        ("build_dict_from_sorted_iter", build_dict_from_sorted_iter(list.iter().map(|(k, v)| (k, v)), ctx())),
    ];
    for (name, got) in outs {
        l.ev();
        if !es.is_empty() { l.nt() }
        match &x.tab[st as usize] {
            None => ck!(got.is_err(), format!("{name}/overflow-accepted"), "{}", c()),
            Some(w) => ck!(got.as_ref().ok() == Some(w), name, "{} got {:?}", c(), got.map(|g| read_opt(&g, u.n))),
        }
    }
    for i in 0..list.len() {
        let mut dup = list.clone();
        dup.insert(i + 1, (list[i].0.clone(), Vl(Val::new(vec![1]))));
        let got = np("build/panic", c, || Dict::<Kb<N>, Vl>::try_from_sorted_slice(&dup))?.map(|d| d.into_root());
        if let Some(w) = &x.tab[st as usize] { ck!(got.as_ref().ok() == Some(w), "build-dup", "{i} {}", c()) }
        if i + 1 < list.len() {
            let mut sw = list.clone();
            sw.swap(i, i + 1);
            ck!(Dict::<Kb<N>, Vl>::try_from_sorted_slice(&sw).is_err(), "build-unsorted/accepted", "{i} {}", c());
        }
        l.evn(2);
    }
    Ok(())
}

/// Keys whose own order is not the order of their bits.
fn signed_keys(i: u64, l: &mut L) -> R {
    const KS: [i8; 5] = [-128, -1, 0, 1, 127];
    let map: BTreeMap<i8, u8> = KS.iter().enumerate().filter(|(k, _)| i >> k & 1 == 1).map(|(k, v)| (*v, k as u8)).collect();
    let mut want = Dict::<i8, u8>::new();
    for (k, v) in &map { want.set(k, v).unwrap(); }
    l.ev();
    let mixed = map.keys().any(|k| *k < 0) && map.keys().any(|k| *k >= 0);
    let got = no_panic(|| Dict::<i8, u8>::try_from_btree(&map).ok());
    let key = if mixed { "signed-keys/build" } else { "same-sign-keys/build" };
    if got != Ok(Some(want.clone())) { l.fail(V { key: key.into(), detail: format!("{map:?}") }) }
    for (k, v) in &map {
        // starting from the dictionary without one entry
        let mut d = want.clone();
        d.remove(k).unwrap();
        let list: Vec<(i8, Option<u8>)> = map.iter().filter(|(x, _)| *x != k).map(|(x, y)| (*x, Some(y + 100))).chain([(*k, Some(*v))]).collect::<BTreeMap<_, _>>().into_iter().collect();
        let mut w = Dict::<i8, u8>::new();
        for (k, v) in &list { w.set(k, v.unwrap()).unwrap(); }
        let got = no_panic(|| d.modify_with_sorted_iter(list.clone()).is_ok());
        l.ev();
        l.nt();
        let key = if mixed { "signed-keys/modify" } else { "same-sign-keys/modify" };
        if got != Ok(true) || d != w { l.fail(V { key: key.into(), detail: format!("{map:?} {got:?}") }) }
    }
    Ok(())
}

fn run(r: &Run) {
    let mut us = vec![Uni::full(0, 3, 0), Uni::full(1, 3, 0), Uni::full(1, 3, 1), Uni::full(2, r.pick(2, 3), 0), Uni::full(2, 2, 1), Uni::full(3, 1, 0)];
    for &w in r.pick(&[8usize, 32, 256, 267][..], &[4, 5, 8, 9, 31, 32, 33, 64, 128, 256, 257, 267, 1023][..]) {
        for set in 0..4 { us.push(Uni::wide(w, 1, 0, set)); if !r.quick() { us.push(Uni::wide(w, 1, 1, set)) } }
    }
    for (w, len) in [(8, 1007), (8, 1009), (8, 1010), (32, 983), (32, 985), (256, 755), (1, 1019), (2, 1017), (2, 1018)] {
        if w >= 8 { us.push(Uni::wide(w, 1, 1000 + len, 0)); us.push(Uni::wide(w, 1, 1000 + len, 1)) } else { us.push(Uni::full(w, 2, 1000 + len)) }
    }
    for u in us {
        let tab = u.table();
        let x = Exp { u: &u, tab: &tab, j: Judge::Canon };
        let deep = u.states() <= r.pick(100, 1000);
        r.section(&format!("lists/{}", u.name), u.states(), |st, l| with_width!(u.n, all_lists, &x, st, deep, l));
    }
    for u in unis(r) {
        if u.name.starts_with("full4") && r.quick() { continue }
        let tab = u.table();
        let x = Exp { u: &u, tab: &tab, j: Judge::Canon };
        r.section(&format!("build/{}", u.name), u.states(), |st, l| with_width!(u.n, builds, &x, st, l));
        let few = u.states() > 1000;
        r.section(&format!("short/{}", u.name), u.states(), |st, l| with_width!(u.n, short_lists, &x, st, if few { r.pick(2, 3) } else { 3 }, false, l));
    }
    let u = Uni::full(4, 1, 0);
    let tab = u.table();
    let x = Exp { u: &u, tab: &tab, j: Judge::Canon };
    r.section("short/full4", u.states(), |st, l| short_lists::<4>(&x, st, r.pick(2, 3), false, l));
    r.section("signed-keys", 32, signed_keys);
}
