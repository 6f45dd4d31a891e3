//! C13: the extra of an augmented dictionary is the fold of its leaves' extras.
use super::dictlib::*;
use crate::fw::*;
use crate::model::bits::*;
use crate::model::dict::*;
use crate::*;
use std::collections::BTreeMap;
use std::ops::ControlFlow;
use tycho_types::cell::*;
use tycho_types::dict::*;
use tycho_types::error::Error;

pub const META: Meta = Meta {
    id: "C13",
    level: "model_checking",
    rule: "explicit-state exploration: from the canonical augmented tree of every state of a key universe (three extra types whose combination depends on order and shape, with variable size, references, and failure), every operation, bulk change list, split, merge and search decision is executed and the resulting root and root extra compared with an independently built tree",
    assumptions: &["wide keys are explored over universes of at most six structured keys", "a combination that fails makes the state unrepresentable: operations leading there must fail and leave the dictionary unchanged"],
    run,
};

trait X: AugDictExtra + Store + for<'a> Load<'a> + Clone + PartialEq + std::fmt::Debug + Send + Sync + 'static {
    const NAME: &'static str;
    fn make(v: u32) -> Self;
    fn val(&self) -> Val;
    fn comb(a: &Self, b: &Self) -> Option<Self>;
}
fn mix(a: u32, b: u32) -> u32 { a.wrapping_mul(3).wrapping_add(b.wrapping_mul(5)).wrapping_add(1) }
macro_rules! comp { () => {
    fn comp_add(left: &mut CellSlice, right: &mut CellSlice, b: &mut CellBuilder, cx: &dyn CellContext) -> Result<(), Error> {
        let (l, r) = (Self::load_from(left)?, Self::load_from(right)?);
        match <Self as X>::comb(&l, &r) { Some(x) => x.store_into(b, cx), None => Err(Error::IntOverflow) }
    }
} }

/// 32 bits, order sensitive.
#[derive(Clone, Debug, Default, PartialEq)]
struct Xa(u32);
impl X for Xa {
    const NAME: &'static str = "u32";
    fn make(v: u32) -> Self { Xa(v) }
    fn val(&self) -> Val { Val::new(uint(self.0 as u128, 32)) }
    fn comb(a: &Self, b: &Self) -> Option<Self> { Some(Xa(mix(a.0, b.0))) }
}
impl Store for Xa { fn store_into(&self, b: &mut CellBuilder, _: &dyn CellContext) -> Result<(), Error> { b.store_u32(self.0) } }
impl<'a> Load<'a> for Xa { fn load_from(s: &mut CellSlice<'a>) -> Result<Self, Error> { Ok(Xa(s.load_u32()?)) } }
impl AugDictExtra for Xa { comp!(); }

/// Variable size, with references.
#[derive(Clone, Debug, Default, PartialEq)]
struct Xb(u8);
impl X for Xb {
    const NAME: &'static str = "refs";
    fn make(v: u32) -> Self { Xb((v % 251) as u8) }
    fn val(&self) -> Val {
        let mut bits = uint(self.0 as u128, 8);
        bits.extend(vec![1; (self.0 % 5) as usize]);
        Val { bits, refs: if self.0 % 2 == 1 { vec![refcell(self.0 as u64)] } else { vec![] } }
    }
    fn comb(a: &Self, b: &Self) -> Option<Self> { Some(Xb((mix(a.0 as u32, b.0 as u32) % 251) as u8)) }
}
impl Store for Xb { fn store_into(&self, b: &mut CellBuilder, c: &dyn CellContext) -> Result<(), Error> { self.val().store_into(b, c) } }
impl<'a> Load<'a> for Xb {
    fn load_from(s: &mut CellSlice<'a>) -> Result<Self, Error> {
        let x = Xb(s.load_u8()?);
        s.skip_first((x.0 % 5) as u16, 0)?;
        if x.0 % 2 == 1 && *s.load_reference()?.repr_hash() != *refcell(x.0 as u64).repr_hash() { return Err(Error::InvalidData) }
        Ok(x)
    }
}
impl AugDictExtra for Xb { comp!(); }

/// Fails when the sum exceeds a limit.
#[derive(Clone, Debug, Default, PartialEq)]
struct Xc(u16);
impl X for Xc {
    const NAME: &'static str = "limited";
    fn make(v: u32) -> Self { Xc(v as u16 % 60) }
    fn val(&self) -> Val { Val::new(uint(self.0 as u128, 16)) }
    fn comb(a: &Self, b: &Self) -> Option<Self> { if a.0 + 2 * b.0 > 120 { None } else { Some(Xc(a.0 + 2 * b.0)) } }
}
impl Store for Xc { fn store_into(&self, b: &mut CellBuilder, _: &dyn CellContext) -> Result<(), Error> { b.store_u16(self.0) } }
impl<'a> Load<'a> for Xc { fn load_from(s: &mut CellSlice<'a>) -> Result<Self, Error> { Ok(Xc(s.load_u16()?)) } }
impl AugDictExtra for Xc { comp!(); }

fn extra<T: X>(k: usize, v: usize) -> T { T::make((k * 13 + v * 7 + 2) as u32) }
fn ents<T: X>(u: &Uni, st: u64) -> Vec<(Ent, T)> {
    (0..u.keys.len()).filter_map(|k| match u.digit(st, k) {
        0 => None,
        d => { let x: T = extra(k, d as usize - 1); Some((Ent { key: u.keys[k].clone(), extra: x.val(), val: u.vals[k][d as usize - 1].clone() }, x)) }
    }).collect()
}
/// Fold along the shape of the tree, on extras.
fn fold<T: X>(es: &[(B, T)], at: usize) -> Option<T> {
    if es.len() == 1 { return Some(es[0].1.clone()) }
    let mut lcp = at;
    while es[0].0[lcp] == es[es.len() - 1].0[lcp] { lcp += 1 }
    let m = es.iter().position(|e| e.0[lcp] == 1).unwrap();
    T::comb(&fold(&es[..m], lcp + 1)?, &fold(&es[m..], lcp + 1)?)
}
type Tab<T> = Vec<Option<(Option<Cell>, T)>>;
fn table<T: X>(u: &Uni) -> Tab<T> {
    (0..u.states()).map(|st| {
        let es = ents::<T>(u, st);
        if es.is_empty() { return Some((None, T::default())) }
        let xs: Vec<(B, T)> = es.iter().map(|e| (e.0.key.clone(), e.1.clone())).collect();
        let x = fold(&xs, 0)?;
        // extras inside the tree, looked up by their serialized form
        let comb = |a: &Val, b: &Val| -> Option<Val> {
            let ld = |v: &Val| -> T { let c = build_cell(&v.bits, &v.refs.iter().collect::<Vec<_>>()).unwrap(); T::load_from(&mut c.as_slice().unwrap()).unwrap() };
            T::comb(&ld(a), &ld(b)).map(|x| x.val())
        };
        let es: Vec<Ent> = es.into_iter().map(|e| e.0).collect();
        let (c, xv) = build(&es, u.n, Some(&comb))??;
        assert!(xv == x.val());
        Some((Some(c), x))
    }).collect()
}

struct Ax<'a, T> { u: &'a Uni, tab: &'a Tab<T> }
type AD<const N: u16, T> = AugDict<Kb<N>, T, Vl>;

fn load<const N: u16, T: X>(s: &(Option<Cell>, T)) -> AD<N, T> {
    let mut b = CellBuilder::new();
    match &s.0 { None => b.store_bit_zero().unwrap(), Some(c) => { b.store_bit_one().unwrap(); b.store_reference(c.clone()).unwrap() } }
    s.1.val().store_into(&mut b, ctx()).unwrap();
    b.build().unwrap().parse::<AD<N, T>>().unwrap()
}

impl<T: X> Ax<'_, T> {
    fn at<const N: u16>(&self, what: &str, from: u64, d: &AD<N, T>, to: u64, arg: &str) -> R {
        let (root, x) = self.tab[to as usize].as_ref().unwrap();
        ck!(d.dict().root() == root, format!("{what}/root"), "{} {} {arg} [{}] expected [{}] got {:?}", T::NAME, self.u.name, self.u.show(from), self.u.show(to), d.dict().root().as_ref().map(|c| c.display_tree().to_string()));
        ckeq!(*d.root_extra(), *x, format!("{what}/root-extra"), "{} {} {arg} [{}]", T::NAME, self.u.name, self.u.show(from));
        Ok(())
    }
    fn outcome<const N: u16, Q: PartialEq + std::fmt::Debug>(&self, what: &str, from: u64, to: u64, d: &AD<N, T>, got: Result<Q, Error>, ret: Q, arg: &str, l: &mut L) -> R {
        l.ev();
        l.tr(1);
        if from != to { l.nt() }
        if self.tab[to as usize].is_none() {
            l.extra("transitions_refused", 1);
            ck!(got.is_err(), format!("{what}/accepted"), "{} {} {arg} [{}]", T::NAME, self.u.name, self.u.show(from));
            return self.at(&format!("{what}/after-error"), from, d, from, arg);
        }
        ckeq!(got.ok(), Some(ret), format!("{what}/result"), "{} {} {arg} [{}]", T::NAME, self.u.name, self.u.show(from));
        self.at(what, from, d, to, arg)
    }
}

/// Decides by a bit string and records what it was shown.
struct Flow<'a, T> { path: &'a [u8], at: usize, seen: Vec<(T, T)>, leaf: bool, leaf_seen: Vec<T> }
impl<T: X> SearchByExtra<T> for Flow<'_, T> {
    fn on_leaf(&mut self, x: &T) -> bool { self.leaf_seen.push(x.clone()); self.leaf }
    fn on_edge(&mut self, a: &T, b: &T) -> ControlFlow<(), Branch> {
        self.seen.push((a.clone(), b.clone()));
        let r = match self.path.get(self.at) { Some(b) => ControlFlow::Continue(Branch::from(*b == 1)), None => ControlFlow::Break(()) };
        self.at += 1;
        r
    }
}

fn step<const N: u16, T: X>(x: &Ax<T>, st: u64, l: &mut L) -> R {
    let u = x.u;
    let Some(cur) = &x.tab[st as usize] else { return Ok(()) };
    l.st(1);
    let d0: AD<N, T> = load(cur);
    let es = ents::<T>(u, st);
    for (ki, k) in u.keys.iter().enumerate() {
        let kc = kcell(k);
        let old = u.digit(st, ki);
        let oldv = (old > 0).then(|| (extra::<T>(ki, old as usize - 1), Vl(u.vals[ki][old as usize - 1].clone())));
        let key = Kb::<N>(k.clone());
        ckeq!(d0.get(&key).ok(), Some(oldv.clone()), "AugDict::get", "{} [{}]", u.name, u.show(st));
        ckeq!(d0.contains_key(&key).ok(), Some(old > 0), "AugDict::contains_key", "{} [{}]", u.name, u.show(st));
        for v in 0..u.vals[0].len() {
            let (xv, val) = (extra::<T>(ki, v), Vl(u.vals[ki][v].clone()));
            for mode in MODES {
                let ch = if old > 0 { mode.can_replace() } else { mode.can_add() };
                let to = if ch { u.with(st, ki, v as u64 + 1) } else { st };
                let arg = format!("{mode:?} key {} := {v}", show(&k[..k.len().min(40)]));
                let mut d = d0.clone();
                let got = np("insert/panic", || arg.clone(), || match mode { SetMode::Set => d.set(&key, &xv, &val), SetMode::Add => d.add(&key, &xv, &val), SetMode::Replace => d.replace(&key, &xv, &val) })?;
                x.outcome("AugDict::set/add/replace", st, to, &d, got, ch, &arg, l)?;
                // the raw function
                let mut root = cur.0.clone();
                let got = aug_dict_insert(&mut root, &mut kc.as_slice().unwrap(), N, &xv, &val, mode, T::comp_add, ctx());
                let want = x.tab[to as usize].as_ref();
                ck!(got.is_ok() == want.is_some() && root == want.unwrap_or(cur).0, "aug_dict_insert", "{} {arg} [{}]", u.name, u.show(st));
            }
        }
        let to = u.with(st, ki, 0);
        let arg = format!("remove {}", show(&k[..k.len().min(40)]));
        let mut d = d0.clone();
        let got = np("remove/panic", || arg.clone(), || d.remove(&key))?;
        x.outcome("AugDict::remove", st, to, &d, got, oldv.clone(), &arg, l)?;
        let mut d = d0.clone();
        let got = d.remove_raw(&key).map(|o| o.map(|p| Val::of_parts(&p).unwrap()));
        let oldraw = oldv.map(|(x, v)| { let mut r = x.val(); r.bits.extend(v.0.bits); r.refs.extend(v.0.refs); r });
        x.outcome("AugDict::remove_raw", st, to, &d, got, oldraw, &arg, l)?;
        // wrong lengths
        for len in [u.n.wrapping_sub(1), u.n + 1] {
            if len > 1023 { continue }
            let mut w = k.clone();
            w.resize(len, 0);
            let wc = kcell(&w);
            let mut root = cur.0.clone();
            ck!(aug_dict_insert(&mut root, &mut wc.as_slice().unwrap(), N, &extra::<T>(0, 0), &u.vals[0][0], SetMode::Set, T::comp_add, ctx()).is_err() && root == cur.0, "aug_dict_insert/wrong-length", "");
            ck!(aug_dict_remove_owned(&mut root, &mut wc.as_slice().unwrap(), N, false, T::comp_add, ctx()).is_err() && root == cur.0, "aug_dict_remove/wrong-length", "");
        }
    }
    // construction
    let list: Vec<(Kb<N>, T, Vl)> = es.iter().map(|e| (Kb(e.0.key.clone()), e.1.clone(), Vl(e.0.val.clone()))).collect();
    let map: BTreeMap<Kb<N>, (T, Vl)> = list.iter().map(|e| (e.0.clone(), (e.1.clone(), e.2.clone()))).collect();
    for (name, d) in [("try_from_btree", np("build/panic", || u.show(st), || AD::<N, T>::try_from_btree(&map))?), ("try_from_sorted_slice", AD::<N, T>::try_from_sorted_slice(&list))] {
        l.ev();
        ck!(d.is_ok(), format!("{name}/error"), "{:?} {} [{}]", d.err(), u.name, u.show(st));
        x.at(name, st, &d.unwrap(), st, "")?;
    }
    // recomputation of the root extra, and loading from an inline root
    let mut d = d0.clone();
    ck!(d.update_root_extra().is_ok(), "update_root_extra", "");
    x.at("update_root_extra", st, &d, st, "")?;
    let c2 = CellBuilder::build_from(&d0).unwrap();
    let want = { let mut b = vec![!es.is_empty() as u8]; let xv = cur.1.val(); b.extend(xv.bits); let mut r: Vec<&Cell> = cur.0.iter().collect(); r.extend(xv.refs.iter()); build_cell(&b, &r).unwrap() };
    ck!(c2 == want, "store", "{} [{}]", u.name, u.show(st));
    if let Some(root) = &cur.0 {
        let mut s = root.as_slice().unwrap();
        let d = np("load_from_root/panic", || u.show(st), || AD::<N, T>::load_from_root_ext(&mut s, ctx()))?;
        ck!(d.is_ok() && s.is_data_empty() && s.is_refs_empty(), "load_from_root_ext", "{:?} [{}]", d.err(), u.show(st));
        x.at("load_from_root_ext", st, &d.unwrap(), st, "")?;
        if es.len() > 1 {
            let mut bits = cell_bits(root.as_ref());
            bits.extend([1, 0, 1]);
            let rf = refcell(3);
            let mut refs: Vec<Cell> = (0..root.reference_count()).map(|i| root.reference_cloned(i).unwrap()).collect();
            refs.push(rf);
            if let Some(c) = build_cell(&bits, &refs.iter().collect::<Vec<_>>()) {
                let mut s = c.as_slice().unwrap();
                let d = AD::<N, T>::load_from_root_ext(&mut s, ctx()).map_err(|e| V { key: "load_from_root_ext/rest".into(), detail: format!("{e:?}") })?;
                x.at("load_from_root_ext", st, &d, st, "")?;
                ckeq!((slice_bits(&s), s.size_refs()), (vec![1, 0, 1], 1), "load_from_root_ext/rest", "[{}]", u.show(st));
            }
        }
    }
    // iteration
    for m in 0..4 {
        let (rev, signed) = (m & 1 == 1, m & 2 == 2);
        let mut w: Vec<(B, T, Val)> = es.iter().map(|e| (e.0.key.clone(), e.1.clone(), e.0.val.clone())).collect();
        w.sort_by(|a, b| keycmp(&a.0, &b.0, signed));
        if rev { w.reverse() }
        let mut it = d0.iter();
        if rev { it = it.reversed() }
        if signed { it = it.signed() }
        let got: Vec<(B, T, Val)> = it.map(|e| e.map(|(k, x, v)| (k.0, x, v.0))).collect::<Result<_, _>>().map_err(|e| V { key: "iter/error".into(), detail: format!("{e:?}") })?;
        ckeq!(got, w, "AugDict::iter", "rev={rev} signed={signed} [{}]", u.show(st));
        let mut it = d0.values();
        if rev { it = it.reversed() }
        if signed { it = it.signed() }
        let got: Vec<(T, Val)> = it.map(|e| e.map(|(x, v)| (x, v.0))).collect::<Result<_, _>>().map_err(|e| V { key: "values/error".into(), detail: format!("{e:?}") })?;
        ckeq!(got, w.iter().map(|e| (e.1.clone(), e.2.clone())).collect::<Vec<_>>(), "AugDict::values", "rev={rev} signed={signed} [{}]", u.show(st));
        let mut it = d0.keys();
        if rev { it = it.reversed() }
        if signed { it = it.signed() }
        let got: Vec<B> = it.map(|e| e.map(|k| k.0)).collect::<Result<_, _>>().map_err(|e| V { key: "keys/error".into(), detail: format!("{e:?}") })?;
        ckeq!(got, w.iter().map(|e| e.0.clone()).collect::<Vec<_>>(), "AugDict::keys", "rev={rev} signed={signed} [{}]", u.show(st));
        l.evn(3);
    }
    // search: every decision sequence
    fn paths<T: X>(es: &[(B, T, Val)], at: usize, path: &mut B, seen: &mut Vec<(T, T)>, f: &mut dyn FnMut(&B, &[(T, T)], Option<&(B, T, Val)>) -> R) -> R {
        if es.len() == 1 { return f(path, seen, Some(&es[0])) }
        f(path, seen, None)?; // break here
        let mut lcp = at;
        while es[0].0[lcp] == es[es.len() - 1].0[lcp] { lcp += 1 }
        let m = es.iter().position(|e| e.0[lcp] == 1).unwrap();
        let fx = |e: &[(B, T, Val)]| fold(&e.iter().map(|e| (e.0.clone(), e.1.clone())).collect::<Vec<_>>(), lcp + 1).unwrap();
        seen.push((fx(&es[..m]), fx(&es[m..])));
        for b in 0..2u8 {
            path.push(b);
            paths(if b == 0 { &es[..m] } else { &es[m..] }, lcp + 1, path, seen, f)?;
            path.pop();
        }
        seen.pop();
        Ok(())
    }
    let tri: Vec<(B, T, Val)> = es.iter().map(|e| (e.0.key.clone(), e.1.clone(), e.0.val.clone())).collect();
    if tri.is_empty() {
        ck!(matches!(d0.find_by_extra(Branch::Left), Ok(None)), "find_by_extra/empty", "");
    } else {
        let show_st = u.show(st);
        let (mut n, mut st_) = (0, 0);
        paths(&tri, 0, &mut vec![], &mut vec![], &mut |p, seen, end| {
            for leaf in [true, false] {
                let mut fl = Flow::<T> { path: p, at: 0, seen: vec![], leaf, leaf_seen: vec![] };
                let got = np("find/panic", || show_st.clone(), || d0.find_by_extra(&mut fl))?.map_err(|e| V { key: "find/error".into(), detail: format!("{e:?}") })?;
                let want = end.filter(|_| leaf).cloned();
                ckeq!(got.map(|g| (g.0.0, g.1, g.2.0)), want, "find_by_extra", "path {} leaf={leaf} [{show_st}]", show(p));
                let shown = &fl.seen[..seen.len().min(fl.seen.len())];
                ckeq!(shown.to_vec(), seen.to_vec(), "find_by_extra/extras", "path {} [{show_st}]", show(p));
                ckeq!(fl.leaf_seen, end.map(|e| e.1.clone()).into_iter().collect::<Vec<_>>(), "find_by_extra/leaf-extra", "path {} [{show_st}]", show(p));
                n += 1;
            }
            st_ += 1;
            Ok(())
        })?;
        l.evn(n);
        l.tr(st_);
        for (b, e) in [(Branch::Left, tri.first()), (Branch::Right, tri.last())] {
            ckeq!(d0.find_by_extra(b).ok().flatten().map(|g| (g.0.0, g.1, g.2.0)), e.cloned(), "find_by_extra/branch", "[{}]", u.show(st));
        }
    }
    l.sample(|| format!("{} {} [{}] root extra {:?}", T::NAME, u.name, u.show(st), cur.1));
    Ok(())
}

fn lists<const N: u16, T: X>(x: &Ax<T>, st: u64, l: &mut L) -> R {
    let u = x.u;
    let Some(cur) = &x.tab[st as usize] else { return Ok(()) };
    l.st(1);
    let d0: AD<N, T> = load(cur);
    let b = u.base() + 1;
    for i in 0..b.pow(u.keys.len() as u32) {
        let mut ix = Ix(i);
        let mut to = st;
        let mut list: Vec<(Kb<N>, Option<(T, Vl)>)> = vec![];
        for (k, key) in u.keys.iter().enumerate() {
            let a = ix.take(b);
            if a == 0 { continue }
            to = u.with(to, k, a - 1);
            list.push((Kb(key.clone()), (a > 1).then(|| (extra::<T>(k, a as usize - 2), Vl(u.vals[k][a as usize - 2].clone())))));
        }
        let arg = || format!("list {:?}", list.iter().map(|e| (show(&e.0.0[..e.0.0.len().min(40)]), e.1.as_ref().map(|x| &x.0))).collect::<Vec<_>>());
        let mut d = d0.clone();
        let got = np("modify/panic", || format!("{} {} [{}]", arg(), u.name, u.show(st)), || d.modify_with_sorted_iter(list.clone()))?;
        l.ev();
        l.tr(1);
        if st != to { l.nt() }
        if x.tab[to as usize].is_none() {
            ck!(got.is_err(), "modify/accepted", "{} [{}]", arg(), u.show(st));
            x.at("modify/after-error", st, &d, st, &arg())?;
        } else {
            ck!(got.is_ok(), "modify/error", "{got:?} {} {} {} [{}]", T::NAME, u.name, arg(), u.show(st));
            ck!(got == Ok(true) || st == to, "modify/change-not-reported", "{} [{}]", arg(), u.show(st));
            x.at("modify", st, &d, to, &arg())?;
        }
        if list.len() > 1 && i % 7 == 0 && st != 0 {
            let mut sw = list.clone();
            sw.swap(0, 1);
            let mut d = d0.clone();
            let got = np("modify/panic", || arg(), || d.modify_with_sorted_iter(sw))?;
            ck!(got.is_err(), "modify-unsorted/accepted", "{} [{}]", arg(), u.show(st));
            x.at("modify-unsorted", st, &d, st, &arg())?;
        }
    }
    Ok(())
}

fn pairs<const N: u16, T: X>(x: &Ax<T>, a: u64, l: &mut L) -> R {
    let u = x.u;
    let Some(ca) = &x.tab[a as usize] else { return Ok(()) };
    let da: AD<N, T> = load(ca);
    let lcp = |st: u64| -> B { let e = u.content(st); let (Some(f), Some(l)) = (e.first(), e.last()) else { return vec![] }; f.0.iter().zip(&l.0).take_while(|(a, b)| a == b).map(|x| *x.0).collect() };
    let la = lcp(a);
    // split at every prefix
    for k in &u.keys {
        for len in 0..=u.n.min(70) {
            let p = &k[..len];
            let half = |b: u8| { let mut s = a; for (i, k) in u.keys.iter().enumerate() { if !(k.starts_with(p) && k.get(len) == Some(&b)) { s = u.with(s, i, 0) } } s };
            let pc = kcell(p);
            let got = np("split/panic", || u.show(a), || da.split_by_prefix(&pc.as_slice().unwrap()))?;
            l.ev();
            l.tr(1);
            if a == 0 || u.n == 0 { ck!(matches!(&got, Ok((l, r)) if l.is_empty() && r.is_empty()), "split/empty", ""); continue }
            let fits = len < u.n && u.content(a).iter().all(|e| e.0.starts_with(p)) && x.tab[half(0) as usize].is_some() && x.tab[half(1) as usize].is_some();
            if !fits { ck!(got.is_err(), "split/accepted", "{} prefix {} [{}]", u.name, show(p), u.show(a)); continue }
            match got {
                Ok((lft, rgt)) => {
                    if half(0) != 0 && half(1) != 0 { l.nt() }
                    x.at("split/left", a, &lft, half(0), &show(p))?;
                    x.at("split/right", a, &rgt, half(1), &show(p))?;
                }
                Err(e) => bad!("split/error", "{e:?} {} prefix {} [{}]", u.name, show(p), u.show(a)),
            }
        }
    }
    for b in 0..u.states() {
        let Some(cb) = &x.tab[b as usize] else { continue };
        let db: AD<N, T> = load(cb);
        let lb = lcp(b);
        let mut un = a;
        for k in 0..u.keys.len() { let d = u.digit(b, k); if d > 0 { un = u.with(un, k, d) } }
        let p = la.iter().zip(&lb).take_while(|(x, y)| x == y).count();
        let ok = (a == 0 || b == 0 || p < la.len() && p < lb.len() && la[p] == 0) && x.tab[un as usize].is_some();
        let got = np("merge/panic", || format!("[{}] [{}]", u.show(a), u.show(b)), || da.merge_with_right_sibling(&db))?;
        l.ev();
        l.tr(1);
        ck!(got.is_ok() == ok, if ok { "merge/error" } else { "merge/accepted" }, "{} left [{}] right [{}]", u.name, u.show(a), u.show(b));
        if let Ok(d) = got { if a != 0 && b != 0 { l.nt() } x.at("merge", a, &d, un, "merge")?; }
    }
    Ok(())
}

fn family<T: X>(r: &Run) {
    let mut us = vec![Uni::full(0, 3, 0), Uni::full(1, 3, 0), Uni::full(1, 2, 1), Uni::full(2, 2, 0), Uni::full(2, 1, 1), Uni::full(3, 1, 0)];
    for &w in r.pick(&[8usize, 32, 256][..], &[5, 8, 9, 31, 32, 64, 96, 128, 256, 267, 320][..]) {
        for set in 0..4 { us.push(Uni::wide(w, 1, 0, set)) }
        us.push(Uni::wide(w, 1, 1, 1));
    }
    for (w, len) in [(8, 970), (8, 978), (8, 990), (32, 950), (2, 984), (2, 985), (2, 1000)] { if w > 4 { us.push(Uni::wide(w, 1, 1000 + len, 0)); us.push(Uni::wide(w, 1, 1000 + len, 1)) } else { us.push(Uni::full(w, 1, 1000 + len)) } }
    if !r.quick() { us.push(Uni::full(3, 2, 0)); us.push(Uni::full(4, 1, 0)); us.push(Uni::full(2, 3, 0)) }
    for u in us {
        let tab = table::<T>(&u);
        let x = Ax { u: &u, tab: &tab };
        r.section(&format!("{}/steps/{}", T::NAME, u.name), u.states(), |st, l| with_width_t!(u.n, step, T, &x, st, l));
        if u.states() <= 300 { r.section(&format!("{}/lists/{}", T::NAME, u.name), u.states(), |st, l| with_width_t!(u.n, lists, T, &x, st, l)); }
        if u.states() <= 300 { r.section(&format!("{}/pairs/{}", T::NAME, u.name), u.states(), |st, l| with_width_t!(u.n, pairs, T, &x, st, l)); }
    }
}
fn run(r: &Run) {
    family::<Xa>(r);
    family::<Xb>(r);
    family::<Xc>(r);
}
