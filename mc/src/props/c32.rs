//! C32: a cell context sees every cell that an operation loads or creates.
use super::daglib::*;
use super::dictlib::*;
use super::tlb;
use crate::fw::*;
use crate::model::{bits::*, dict::*};
use crate::*;
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use tycho_types::boc::*;
use tycho_types::cell::*;
use tycho_types::dict::*;
use tycho_types::error::Error;
use tycho_types::merkle::*;

pub const META: Meta = Meta {
    id: "C32",
    level: "model_checking",
    rule: "dictionaries: all states of small key universes x every operation which takes a cell context x every choice of dictionary cells replaced by library references (every subset where the tree has up to 5 cells, every single one, every pair up to 11 cells, and all of them otherwise), run under a recording context which resolves the references, and compared with the plain run; every gas-charged load is compared with the path computed on an independent reading of the tree; every cell of the result which was not there before must be one the context created, and none may be created in vain; for every load and every creation the operation is run again with the context refusing exactly that one: the refusal must be returned and the dictionary stay the same; every model value is stored, and every cell of a bag decoded, every small Merkle proof and update built and applied, under the same context and with the same refusals; non-trivial: a cell is resolved, created or refused",
    assumptions: &["iterators, merge and bulk modification take cells as they are (they do not load cells through a context), so only the cells they create are judged", "an augmented dictionary recombines the extras of the siblings on the way up without loading them through the context, so for augmented dictionaries library references are not placed"],
    run,
};

type Hs = HashBytes;
#[derive(Clone, Debug, PartialEq)]
enum Ev { Load(Hs, bool, bool), Make(Hs) }
#[derive(Default)]
struct Rec<'l> { libs: Option<&'l HashMap<Hs, Cell>>, names: Option<&'l HashMap<Hs, Hs>>, ev: RefCell<Vec<Ev>>, made: RefCell<Vec<Cell>>, refuse: Option<usize> }
impl Rec<'_> {
    fn event(&self, e: Ev) -> Result<(), Error> {
        let mut v = self.ev.borrow_mut();
        v.push(e);
        if self.refuse == Some(v.len() - 1) { Err(Error::Cancelled) } else { Ok(()) }
    }
    fn name(&self, h: &Hs) -> Hs { self.names.and_then(|n| n.get(h)).copied().unwrap_or(*h) }
    fn gas(&self) -> Vec<Hs> { self.ev.borrow().iter().filter_map(|e| match e { Ev::Load(h, true, _) => Some(*h), _ => None }).collect() }
    fn makes(&self) -> usize { self.ev.borrow().iter().filter(|e| matches!(e, Ev::Make(_))).count() }
}
impl CellContext for Rec<'_> {
    fn finalize_cell(&self, p: CellParts<'_>) -> Result<Cell, Error> {
        let c = Cell::empty_context().finalize_cell(p)?;
        self.event(Ev::Make(*c.repr_hash()))?;
        self.made.borrow_mut().push(c.clone());
        Ok(c)
    }
    fn load_cell(&self, cell: Cell, m: LoadMode) -> Result<Cell, Error> {
        let r = self.libs.filter(|_| m.resolve()).and_then(|l| l.get(cell.repr_hash())).cloned().unwrap_or_else(|| cell.clone());
        self.event(Ev::Load(self.name(cell.repr_hash()), m.use_gas(), m.resolve()))?;
        Ok(r)
    }
    fn load_dyn_cell<'s: 'a, 'a>(&'s self, cell: &'a DynCell, m: LoadMode) -> Result<&'a DynCell, Error> {
        let r: &'a DynCell = match self.libs.filter(|_| m.resolve()).and_then(|l| l.get(cell.repr_hash())) { Some(c) => c.as_ref(), None => cell };
        self.event(Ev::Load(self.name(cell.repr_hash()), m.use_gas(), m.resolve()))?;
        Ok(r)
    }
}

/// A dictionary tree with some of its cells behind library references.
#[derive(Default)]
struct Lib { libs: HashMap<Hs, Cell>, names: HashMap<Hs, Hs> }
/// dictionary cells in preorder
fn edges(c: &Cell, n: usize, out: &mut Vec<Cell>) {
    out.push(c.clone());
    let (l, _) = read_label(&cell_bits(c.as_ref()), n).unwrap();
    if l.len() < n { for b in 0..2 { edges(&c.reference_cloned(b).unwrap(), n - l.len() - 1, out) } }
}
impl Lib {
    fn hide(&mut self, c: &Cell, n: usize, mask: u64, at: &mut u32) -> Cell {
        let me = *at;
        *at += 1;
        let (l, _) = read_label(&cell_bits(c.as_ref()), n).unwrap();
        let mut refs: Vec<Cell> = (0..c.reference_count()).map(|i| c.reference_cloned(i).unwrap()).collect();
        if l.len() < n { for b in 0..2 { refs[b] = self.hide(&refs[b], n - l.len() - 1, mask, at) } }
        let x = tlb::raw_cell(&cell_bits(c.as_ref()), &refs);
        self.names.insert(*x.repr_hash(), *c.repr_hash());
        if mask >> me.min(63) & 1 == 0 { return x }
        let r = CellBuilder::build_library(x.repr_hash());
        self.names.insert(*r.repr_hash(), *c.repr_hash());
        self.libs.insert(*r.repr_hash(), x);
        r
    }
    fn show(&self, c: &Cell) -> Cell {
        let c = self.libs.get(c.repr_hash()).unwrap_or(c);
        if c.is_exotic() || c.reference_count() == 0 { return c.clone() }
        let refs: Vec<Cell> = (0..c.reference_count()).map(|i| self.show(&c.reference_cloned(i).unwrap())).collect();
        tlb::raw_cell(&cell_bits(c.as_ref()), &refs)
    }
}
fn ptr(c: &DynCell) -> usize { c as *const DynCell as *const u8 as usize }
fn reach(c: &Cell, out: &mut HashMap<usize, Hs>) {
    if out.insert(ptr(c.as_ref()), *c.repr_hash()).is_some() { return }
    for i in 0..c.reference_count() { reach(&c.reference_cloned(i).unwrap(), out) }
}

/// Outcome of an operation: a comparable description, and trees in which created cells may occur.
struct Out { flag: bool, vals: Vec<(B, Val)>, trees: Vec<Option<Cell>> }
type Op<'a> = Box<dyn Fn(&mut Option<Cell>, &dyn CellContext) -> Result<Out, Error> + 'a>;
#[derive(Clone, Copy, PartialEq)]
enum Gas { Path, Bound(bool, bool), Find, Sub, Any, None }
struct O<'a> { name: String, key: B, gas: Gas, removes: bool, lib: bool, f: Op<'a> }

/// Path of a key down the tree: (cells, whether it reached a leaf, the sibling of the last cell).
fn path(root: &Option<Cell>, n: usize, key: &[u8]) -> (Vec<Hs>, bool, Option<Hs>) {
    let (mut v, mut sib) = (vec![], None);
    let Some(mut c) = root.clone() else { return (v, false, None) };
    let (mut k, mut n) = (key, n);
    loop {
        v.push(*c.repr_hash());
        let (l, _) = read_label(&cell_bits(c.as_ref()), n).unwrap();
        if k.len() <= l.len() && l.starts_with(k) { return (v, l.len() == n && k.len() == n, sib) }
        if !k.starts_with(&l) { return (v, false, sib) }
        let b = k[l.len()];
        k = &k[l.len() + 1..];
        n -= l.len() + 1;
        sib = Some(*c.reference(1 - b).unwrap().repr_hash());
        c = c.reference_cloned(b).unwrap();
    }
}

fn ops<'a, const N: u16>(u: &'a Uni) -> Vec<O<'a>> {
    let mut v: Vec<O> = vec![];
    let some = |f: bool| Out { flag: f, vals: vec![], trees: vec![] };
    let vo = |k: &[u8], x: Option<Val>| Out { flag: x.is_some(), vals: x.into_iter().map(|x| (k.to_vec(), x)).collect(), trees: vec![] };
    let eo = |x: Option<(B, Val)>| Out { flag: x.is_some(), vals: x.into_iter().collect(), trees: vec![] };
    let parts = |p: CellSliceParts| Val::of_parts(&p).expect("range fits");
    macro_rules! op { ($name:expr, $key:expr, $gas:expr, $rm:expr, $lib:expr, $f:expr) => { v.push(O { name: $name.to_string(), key: $key.to_vec(), gas: $gas, removes: $rm, lib: $lib, f: Box::new($f) }) } }
    macro_rules! raw { ($d:ident, $r:ident, $e:expr) => {{ let mut $r = RawDict::<N>::from($d.clone()); let x = $e; *$d = $r.into_root(); x }} }
    macro_rules! typed { ($d:ident, $r:ident, $e:expr) => {{ let mut $r = Dict::<Kb<N>, Vl>::from($d.clone()); let x = $e; *$d = $r.into_root(); x }} }
    for (ki, k) in u.keys.iter().enumerate() {
        let kc = kcell(k);
        for x in 0..u.vals[ki].len() {
            let val = &u.vals[ki][x];
            let c = kc.clone();
            op!("raw.set", k, Gas::Path, false, true, move |d, cx| raw!(d, r, r.set_ext(c.as_slice()?, val, cx)).map(some));
            let c = kc.clone();
            op!("raw.add", k, Gas::Path, false, true, move |d, cx| raw!(d, r, r.add_ext(c.as_slice()?, val, cx)).map(some));
            let c = kc.clone();
            op!("raw.replace", k, Gas::Path, false, true, move |d, cx| raw!(d, r, r.replace_ext(c.as_slice()?, val, cx)).map(some));
            op!("typed.set", k, Gas::Path, false, true, move |d, cx| typed!(d, r, r.set_ext(Kb::<N>(k.clone()), Vl(val.clone()), cx)).map(some));
            op!("typed.add", k, Gas::Path, false, true, move |d, cx| typed!(d, r, r.add_ext(Kb::<N>(k.clone()), Vl(val.clone()), cx)).map(some));
            op!("typed.replace", k, Gas::Path, false, true, move |d, cx| typed!(d, r, r.replace_ext(Kb::<N>(k.clone()), Vl(val.clone()), cx)).map(some));
            for m in MODES {
                let c = kc.clone();
                op!(format!("insert_owned {m:?}"), k, Gas::Path, false, true, move |d, cx| dict_insert_owned(d, &mut c.as_slice()?, N, val, m, cx).map(|(f, o)| { let mut x = vo(k, o.map(parts)); x.flag = f; x }));
            }
        }
        let c = kc.clone();
        op!("raw.remove", k, Gas::Path, true, true, move |d, cx| raw!(d, r, r.remove_ext(c.as_slice()?, cx)).map(|o| vo(k, o.map(parts))));
        op!("typed.remove", k, Gas::Path, true, true, move |d, cx| typed!(d, r, r.remove_raw_ext(Kb::<N>(k.clone()), cx)).map(|o| vo(k, o.map(parts))));
        let c = kc.clone();
        op!("raw.get", k, Gas::Path, false, true, move |d, cx| { let r = RawDict::<N>::from(d.clone()); let x = r.get_ext(c.as_slice()?, cx)?.map(|s| Val::of(&s)); Ok(vo(k, x)) });
        let c = kc.clone();
        op!("raw.get_owned", k, Gas::Path, false, true, move |d, cx| Ok(vo(k, RawDict::<N>::from(d.clone()).get_owned_ext(c.as_slice()?, cx)?.map(parts))));
        for (t, i, s) in (0..8).map(|x| (if x & 1 == 0 { DictBound::Min } else { DictBound::Max }, x & 2 == 0, x & 4 == 0)) {
            let c = kc.clone();
            op!(format!("find {t:?} inclusive={i} signed={s}"), k, Gas::Find, false, true, move |d, cx| Ok(eo(dict_find_owned(d.as_ref(), N, c.as_slice()?, t, i, s, cx)?.map(entry))));
        }
    }
    // prefixes of the keys
    let mut ps: Vec<B> = vec![];
    for k in &u.keys { for p in 0..=u.n.min(6) { ps.push(k[..p].to_vec()) } }
    ps.sort();
    ps.dedup();
    for p in ps {
        let pc = cell_of(&p);
        if p.len() < u.n {
            let c = pc.clone();
            op!("raw.split_by_prefix", p, Gas::Any, false, true, move |d, cx| { let (a, b) = RawDict::<N>::from(d.clone()).split_by_prefix_ext(&c.as_slice()?, cx)?; Ok(Out { flag: true, vals: vec![], trees: vec![a.into_root(), b.into_root()] }) });
            let c = pc.clone();
            op!("typed.split_by_prefix", p, Gas::Any, false, true, move |d, cx| { let (a, b) = Dict::<Kb<N>, Vl>::from(d.clone()).split_by_prefix_ext(&c.as_slice()?, cx)?; Ok(Out { flag: true, vals: vec![], trees: vec![a.into_root(), b.into_root()] }) });
        }
        op!("raw.get_subdict", p, Gas::Sub, false, true, move |d, cx| { let r = RawDict::<N>::from(d.clone()); let x = r.get_subdict(pc.as_slice()?, cx)?; Ok(Out { flag: x.is_some(), vals: vec![], trees: vec![x] }) });
    }
    if u.n > 0 {
        op!("raw.split", [], Gas::Any, false, true, move |d, cx| { let (a, b) = RawDict::<N>::from(d.clone()).split_ext(cx)?; Ok(Out { flag: true, vals: vec![], trees: vec![a.into_root(), b.into_root()] }) });
        op!("typed.split", [], Gas::Any, false, true, move |d, cx| { let (a, b) = Dict::<Kb<N>, Vl>::from(d.clone()).split_ext(cx)?; Ok(Out { flag: true, vals: vec![], trees: vec![a.into_root(), b.into_root()] }) });
    }
    for (b, s) in [(DictBound::Min, false), (DictBound::Max, false), (DictBound::Min, true), (DictBound::Max, true)] {
        let g = Gas::Bound(b == DictBound::Max, s);
        op!(format!("raw.get_bound {b:?} {s}"), [], g, false, true, move |d, cx| { let r = RawDict::<N>::from(d.clone()); let x = r.get_bound_ext(b, s, cx)?.map(entry_ref); Ok(eo(x)) });
        op!(format!("raw.get_bound_owned {b:?} {s}"), [], g, false, true, move |d, cx| Ok(eo(RawDict::<N>::from(d.clone()).get_bound_owned_ext(b, s, cx)?.map(entry))));
        op!(format!("raw.remove_bound {b:?} {s}"), [], g, true, true, move |d, cx| raw!(d, r, r.remove_bound_ext(b, s, cx)).map(|o| eo(o.map(entry))));
        op!(format!("typed.remove_bound {b:?} {s}"), [], g, true, true, move |d, cx| typed!(d, r, r.remove_bound_raw_ext(b, s, cx)).map(|o| eo(o.map(|(k, v)| (k.0, parts(v))))));
    }
    // lists of changes: one per pair of keys
    for i in 0..u.keys.len() { for j in i + 1..u.keys.len() { for m in 0..4 {
        let es: Vec<(B, Option<Val>)> = vec![(u.keys[i].clone(), (m & 1 == 0).then(|| u.vals[i][0].clone())), (u.keys[j].clone(), (m & 2 == 0).then(|| u.vals[j][0].clone()))];
        op!(format!("modify {m}"), [], Gas::None, false, false, move |d, cx| typed!(d, r, r.modify_with_sorted_iter_ext(es.clone(), |e| Kb::<N>(e.0.clone()), |e| Ok(e.1.map(Vl)), cx)).map(some));
    } } }
    v
}

fn dict_state<const N: u16>(u: &Uni, root: &Option<Cell>, ops: &[O], all_masks: u32, l: &mut L) -> R {
    let mut es = vec![];
    if let Some(c) = root { edges(c, u.n, &mut es) }
    let m = es.len() as u32;
    let mut masks: Vec<u64> = vec![0];
    if m <= all_masks { masks = (0..1 << m).collect() } else {
        for i in 0..m { masks.push(1 << i); if m <= 11 { for j in 0..i { masks.push(1 << i | 1 << j) } } }
        masks.push((1 << m) - 1);
    }
    l.st(masks.len() as u64);
    for mask in masks {
        let mut lib = Lib::default();
        let start = root.as_ref().map(|c| lib.hide(c, u.n, mask, &mut 0));
        let mut before = HashMap::new();
        if let Some(c) = &start { reach(c, &mut before) }
        for c in lib.libs.values() { reach(c, &mut before) }
        for v in u.vals.iter().flatten() { for r in &v.refs { reach(r, &mut before) } }
        for e in [Cell::empty_cell(), Cell::default()] { reach(&e, &mut before) }
        for o in ops {
            if mask != 0 && !o.lib { continue }
            let ctx = || format!("{} {} of {} in {} library mask {mask:b}", u.name, o.name, show(&o.key[..o.key.len().min(60)]), root.as_ref().map(|c| c.display_tree().to_string()).unwrap_or_default());
            l.ev();
            l.tr(1);
            // plain
            let mut d0 = root.clone();
            let r0 = np("context/panic", ctx, || (o.f)(&mut d0, Cell::empty_context()))?;
            // recorded
            let mut d1 = start.clone();
            let cx = Rec { libs: Some(&lib.libs), names: Some(&lib.names), ..Default::default() };
            let r1 = np("context/panic", ctx, || (o.f)(&mut d1, &cx))?;
            let (r0, r1) = match (r0, r1) {
                (Ok(a), Ok(b)) => (a, b),
                (Err(a), Err(b)) => { ckeq!((a, &d1), (b, &start), "context/error", "{}", ctx()); continue }
                (a, b) => bad!("context/outcome", "plain {:?} recorded {:?} {}", a.map(|x| x.flag), b.map(|x| x.flag), ctx()),
            };
            if mask != 0 { l.nt() }
            let sh = |c: &Option<Cell>| c.as_ref().map(|c| lib.show(c));
            ck!(r0.flag == r1.flag && r0.vals == r1.vals, "context/result", "plain {:?} recorded {:?} {}", r0.vals, r1.vals, ctx());
            ckeq!(d0, sh(&d1), "context/root", "{}", ctx());
            ckeq!(r0.trees, r1.trees.iter().map(sh).collect::<Vec<_>>(), "context/trees", "{}", ctx());
            // created cells
            let mut after = HashMap::new();
            for c in r1.trees.iter().chain([&d1]).flatten() { reach(c, &mut after) }
            let made: HashSet<usize> = cx.made.borrow().iter().map(|c| ptr(c.as_ref())).collect();
            for (p, h) in &after { ck!(before.contains_key(p) || made.contains(p), "context/created-elsewhere", "{h} {}", ctx()) }
            for c in cx.made.borrow().iter() { ck!(after.contains_key(&ptr(c.as_ref())), "context/created-in-vain", "{} {}", c.display_tree(), ctx()) }
            // charged loads
            let gas = cx.gas();
            let (p, leaf, sib) = path(root, u.n, &o.key);
            match o.gas {
                Gas::Path => {
                    let mut w = p.clone();
                    if o.removes && leaf { w.extend(sib) }
                    ckeq!(gas, w, "context/gas", "{}", ctx());
                }
                Gas::Bound(max, signed) => {
                    let es = sorted(read_opt(root, u.n).unwrap(), signed, max);
                    let (mut w, _, sib) = match es.first() { Some(e) => path(root, u.n, &e.0), None => (vec![], false, None) };
                    if o.removes { w.extend(sib) }
                    ckeq!(gas, w, "context/gas-bound", "{}", ctx());
                }
                Gas::Sub => ckeq!(gas, if o.key.is_empty() { vec![] } else { p }, "context/gas-subdict", "{}", ctx()),
                Gas::Find => {
                    // the key's path first, then what the found key needs beyond it; the cell where the key leaves the tree may be charged twice
                    ck!(gas.starts_with(&p), "context/gas-find", "{gas:?} {p:?} {}", ctx());
                    let mut rest = &gas[p.len()..];
                    if !rest.is_empty() && !p.is_empty() && rest[0] == p[p.len() - 1] { rest = &rest[1..] }
                    let w: Vec<Hs> = r1.vals.first().map(|e| path(root, u.n, &e.0).0.into_iter().filter(|h| !p.contains(h)).collect()).unwrap_or_default();
                    ckeq!(rest, &w[..], "context/gas-find", "{}", ctx());
                }
                Gas::None => ck!(gas.is_empty(), "context/gas-modify", "{}", ctx()),
                Gas::Any => {
                    let known: HashSet<Hs> = es.iter().map(|c| *c.repr_hash()).collect();
                    ck!(gas.iter().all(|h| known.contains(h)), "context/gas-split", "{gas:?} {}", ctx());
                    ck!(gas.first().is_none_or(|h| h == root.as_ref().unwrap().repr_hash()), "context/gas-split", "{gas:?} {}", ctx());
                    let mut g = gas.clone();
                    g.sort();
                    g.dedup();
                    ck!(es.iter().map(|c| *c.repr_hash()).collect::<HashSet<_>>().len() != es.len() || g.len() == gas.len(), "context/gas-split-twice", "{gas:?} {}", ctx());
                }
            }
            // a refusal at each event
            let events = cx.ev.borrow().len();
            if mask != 0 && mask != (1 << m) - 1 { continue }
            for i in 0..events {
                l.tr(1);
                l.nt();
                let mut d2 = start.clone();
                let cx = Rec { libs: Some(&lib.libs), names: Some(&lib.names), refuse: Some(i), ..Default::default() };
                let r = np("context/panic-refused", ctx, || (o.f)(&mut d2, &cx))?;
                ck!(matches!(r, Err(Error::Cancelled)), "context/refusal-ignored", "event {i} {:?} -> {:?} {}", cx.ev.borrow().get(i), r.map(|r| r.flag), ctx());
                ck!(cx.ev.borrow().len() == i + 1, "context/refusal-continued", "event {i} {}", ctx());
                ck!(d2 == start && d2.as_ref().map(|c| ptr(c.as_ref())) == start.as_ref().map(|c| ptr(c.as_ref())), "context/refusal-changed", "event {i} {}", ctx());
            }
        }
    }
    Ok(())
}

/// Runs `f` under a recording context; every cell of the result which `shared` does not hold must be created by it; then every refusal.
fn made_by(key: &str, ctx: &dyn Fn() -> String, shared: &HashMap<usize, Hs>, vain: bool, f: &dyn Fn(&dyn CellContext) -> Result<Vec<Cell>, String>, l: &mut L) -> R<Option<Vec<Cell>>> {
    let cx = Rec::default();
    l.ev();
    let r = np(&format!("{key}/panic"), ctx, || f(&cx))?;
    let Ok(out) = r else { return Ok(None) };
    let mut after = HashMap::new();
    for c in &out { reach(c, &mut after) }
    let made: HashSet<usize> = cx.made.borrow().iter().map(|c| ptr(c.as_ref())).collect();
    for (p, h) in &after { ck!(shared.contains_key(p) || made.contains(p), format!("{key}/created-elsewhere"), "{h} {}", ctx()) }
    if vain { for c in cx.made.borrow().iter() { ck!(after.contains_key(&ptr(c.as_ref())), format!("{key}/created-in-vain"), "{} {}", c.display_tree(), ctx()) } }
    if cx.makes() > 0 { l.nt() }
    for i in 0..cx.ev.borrow().len() {
        l.tr(1);
        let cx = Rec { refuse: Some(i), ..Default::default() };
        let r = np(&format!("{key}/panic"), ctx, || f(&cx))?;
        ck!(r.is_err(), format!("{key}/refusal-ignored"), "event {i} {}", ctx());
        ck!(cx.ev.borrow().len() == i + 1, format!("{key}/refusal-continued"), "event {i} {}", ctx());
    }
    Ok(Some(out))
}

/// One bit, combined with or.
#[derive(Clone, Debug, Default, PartialEq)]
struct Xo(bool);
impl Store for Xo { fn store_into(&self, b: &mut CellBuilder, _: &dyn CellContext) -> Result<(), Error> { b.store_bit(self.0) } }
impl<'a> Load<'a> for Xo { fn load_from(s: &mut CellSlice<'a>) -> Result<Self, Error> { Ok(Xo(s.load_bit()?)) } }
impl AugDictExtra for Xo {
    fn comp_add(left: &mut CellSlice, right: &mut CellSlice, b: &mut CellBuilder, cx: &dyn CellContext) -> Result<(), Error> {
        let (l, r) = (Xo::load_from(left)?, Xo::load_from(right)?);
        Xo(l.0 | r.0).store_into(b, cx)
    }
}
fn aug_state<const N: u16>(u: &Uni, st: u64, l: &mut L) -> R {
    type D<const N: u16> = AugDict<Kb<N>, Xo, bool>;
    type F<'a, const N: u16> = Box<dyn Fn(&mut D<N>, &dyn CellContext) -> Result<Vec<D<N>>, Error> + 'a>;
    let mut d = D::<N>::new();
    let mut ix = Ix(st);
    let mut es = vec![];
    for k in u.keys.iter().take(8) {
        let e = ix.take(3);
        if e == 0 { continue }
        es.push((k.clone(), e == 2));
        if let Err(e) = d.set(Kb::<N>(k.clone()), Xo(e == 2), true) { bad!("aug/build", "{e}") }
    }
    l.st(1);
    let root = d.dict().root().clone();
    let mut ops: Vec<(String, B, Gas, bool, F<N>)> = vec![];
    for k in &u.keys {
        let kb = || Kb::<N>(k.clone());
        for x in [false, true] {
            ops.push(("set".into(), k.clone(), Gas::Path, false, Box::new(move |d, cx| d.set_ext(kb(), Xo(x), false, cx).map(|_| vec![]))));
            ops.push(("add".into(), k.clone(), Gas::Path, false, Box::new(move |d, cx| d.add_ext(kb(), Xo(x), false, cx).map(|_| vec![]))));
            ops.push(("replace".into(), k.clone(), Gas::Path, false, Box::new(move |d, cx| d.replace_ext(kb(), Xo(x), false, cx).map(|_| vec![]))));
        }
        ops.push(("remove".into(), k.clone(), Gas::Path, true, Box::new(move |d, cx| d.remove_raw_ext(kb(), cx).map(|_| vec![]))));
        for x in [None, Some((Xo(true), false))] {
            for k2 in u.keys.iter().filter(|k2| *k2 > k).take(3) {
                let x = x.clone();
                ops.push(("modify".into(), vec![], Gas::None, false, Box::new(move |d, cx| d.modify_with_sorted_iter_ext([(k.clone(), x.clone()), (k2.clone(), Some((Xo(false), true)))], |e| Kb::<N>(e.0.clone()), |e| Ok(e.1), cx).map(|_| vec![]))));
            }
        }
    }
    if N > 0 {
        ops.push(("split".into(), vec![], Gas::Any, false, Box::new(|d, cx| d.split_ext(cx).map(|(a, b)| vec![a, b]))));
        ops.push(("split-merge".into(), vec![], Gas::None, false, Box::new(|d, cx| { let (a, b) = d.split()?; Ok(vec![a.merge_with_right_sibling_ext(&b, cx)?]) })));
        for p in 1..u.n.min(4) { for k in &u.keys { let c = cell_of(&k[..p]); ops.push(("split-at".into(), k[..p].to_vec(), Gas::Any, false, Box::new(move |d, cx| d.split_by_prefix_ext(&c.as_slice()?, cx).map(|(a, b)| vec![a, b])))) } }
    }
    if root.is_some() { ops.push(("load".into(), vec![], Gas::None, false, Box::new(|d, cx| { let c = d.dict().root().clone().unwrap(); let x = D::<N>::load_from_root_ext(&mut c.as_slice()?, cx)?; Ok(vec![x]) }))) }
    let mut before = shared_statics();
    if let Some(c) = &root { reach(c, &mut before) }
    for (name, key, gas, rm, f) in &ops {
        let ctx = || format!("{} {name} {} of {es:?}", u.name, show(&key[..key.len().min(60)]));
        l.ev();
        l.tr(1);
        let (mut d0, mut d1) = (d.clone(), d.clone());
        let cx = Rec::default();
        let r0 = np("aug/panic", ctx, || f(&mut d0, Cell::empty_context()))?;
        let r1 = np("aug/panic", ctx, || f(&mut d1, &cx))?;
        let (Ok(r0), Ok(r1)) = (&r0, &r1) else { ck!(r0.is_err() && r1.is_err(), "aug/outcome", "{}", ctx()); continue };
        ck!(r0 == r1 && d0 == d1, "aug/result", "{}", ctx());
        let mut after = HashMap::new();
        for c in r1.iter().map(|d| d.dict().root()).chain([d1.dict().root()]).flatten() { reach(c, &mut after) }
        let made: HashSet<usize> = cx.made.borrow().iter().map(|c| ptr(c.as_ref())).collect();
        let mut before = before.clone();
        if name == "split-merge" { for (p, h) in &after { if !made.contains(p) { before.insert(*p, *h); } } ck!(r1[0].dict().root().as_ref().is_none_or(|c| made.contains(&ptr(c.as_ref())) || es.is_empty() || es.iter().all(|e| e.0[0] == es[0].0[0])), "aug/created-elsewhere", "{}", ctx()) }
        for (p, h) in &after { ck!(before.contains_key(p) || made.contains(p), "aug/created-elsewhere", "{h} {}", ctx()) }
        for c in cx.made.borrow().iter() { ck!(after.contains_key(&ptr(c.as_ref())), "aug/created-in-vain", "{} {}", c.display_tree(), ctx()) }
        let got = cx.gas();
        match gas {
            Gas::Path => {
                let (mut w, leaf, sib) = path(&root, u.n, key);
                if *rm && leaf { w.extend(sib) }
                ckeq!(got, w, "aug/gas", "{}", ctx());
            }
            Gas::None => ck!(got.is_empty(), "aug/gas-none", "{}", ctx()),
            _ => {}
        }
        for i in 0..cx.ev.borrow().len() {
            l.tr(1);
            l.nt();
            let mut d2 = d.clone();
            let cx = Rec { refuse: Some(i), ..Default::default() };
            let r = np("aug/panic-refused", ctx, || f(&mut d2, &cx))?;
            ck!(matches!(r, Err(Error::Cancelled)), "aug/refusal-ignored", "event {i} {}", ctx());
            ck!(cx.ev.borrow().len() == i + 1, "aug/refusal-continued", "event {i} {}", ctx());
            ck!(d2 == d, "aug/refusal-changed", "event {i} {}", ctx());
        }
    }
    Ok(())
}

struct Models<'a> { r: &'a Run }
impl tlb::Vis for Models<'_> {
    fn visit(&mut self, name: &'static str, f: &tlb::Fam) {
        let paths = tlb::explore_(&|g, w| { (f.make)(g, w); });
        self.r.section(&format!("store/{name}"), paths.len() as u64, |i, l| {
            let mut g = tlb::G::new(&paths[i as usize]);
            let mut w = tlb::W::new();
            let v = (f.make)(&mut g, &mut w);
            l.st(1);
            let store = |cx: &dyn CellContext| -> Result<Cell, Error> { let mut b = CellBuilder::new(); v.store_into(&mut b, cx)?; b.build_ext(cx) };
            let Ok(a) = store(Cell::empty_context()) else { return Ok(()) };
            let b = store(Cell::empty_context()).unwrap();
            // what both hold was there before
            let (mut x, mut y) = (HashMap::new(), HashMap::new());
            reach(&a, &mut x);
            reach(&b, &mut y);
            x.retain(|p, _| y.contains_key(p));
            let got = made_by("store", &|| format!("{name} {:?}", g.path), &x, false, &|cx| store(cx).map(|c| vec![c]).map_err(|e| e.to_string()), l)?;
            ckeq!(got, Some(vec![a]), "store/differs", "{name} {:?}", g.path);
            Ok(())
        });
    }
}

struct Flt<'a>(&'a HashMap<Hs, u8>);
impl MerkleFilter for Flt<'_> {
    fn check(&self, h: &Hs) -> FilterAction { match self.0.get(h) { Some(1) => FilterAction::Include, Some(2) => FilterAction::IncludeSubtree, _ => FilterAction::Skip } }
}

fn run(r: &Run) {
    let mut us = vec![Uni::full(0, 2, 1), Uni::full(1, 2, 1), Uni::full(2, 1, 1), Uni::full(3, 1, 0)];
    if !r.quick() { us.push(Uni::full(2, 2, 1)); us.push(Uni::full(3, 1, 1)); us.push(Uni::new("sub4", 4, [0u128, 1, 2, 3, 5, 8, 9, 12, 15].iter().map(|k| uint(*k, 4)).collect(), 1, 0)) }
    for s in 0..4 { us.push(Uni::wide(32, 1, 1, s)); us.push(Uni::wide(256, 1, 0, s)); if !r.quick() { us.push(Uni::wide(267, 1, 0, s)); us.push(Uni::wide(9, 2, 1, s)) } }
    for u in &us {
        let tab = u.table();
        r.section(&format!("dict/{}", u.name), u.states(), |st, l| {
            let Some(root) = &tab[st as usize] else { return Ok(()) };
            fn go<const N: u16>(r: &Run, u: &Uni, root: &Option<Cell>, l: &mut L) -> R { let o = ops::<N>(u); dict_state::<N>(u, root, &o, r.pick(5, 7), l) }
            with_width!(u.n, go, r, u, root, l)
        });
        // merge of the two halves, and a dictionary as a root
        r.section(&format!("merge/{}", u.name), u.states(), |st, l| {
            let Some(root) = &tab[st as usize] else { return Ok(()) };
            fn go<const N: u16>(root: &Option<Cell>, l: &mut L) -> R {
                let d = Dict::<Kb<N>, Vl>::from(root.clone());
                let ctx = || root.as_ref().map(|c| c.display_tree().to_string()).unwrap_or_default();
                if let Some(c) = root {
                    l.st(1);
                    let got = made_by("load-root", &ctx, &kids(c), true, &|cx| { let mut s = c.as_slice_allow_exotic(); let x = RawDict::<N>::load_from_root_ext(&mut s, cx).map_err(|e| e.to_string())?; Ok(x.into_root().into_iter().collect()) }, l)?;
                    ckeq!(got, Some(vec![c.clone()]), "load-root/differs", "{}", ctx());
                    let got = made_by("load-root", &ctx, &kids(c), true, &|cx| { let mut s = c.as_slice_allow_exotic(); let x = Dict::<Kb<N>, Vl>::load_from_root_ext(&mut s, cx).map_err(|e| e.to_string())?; Ok(x.into_root().into_iter().collect()) }, l)?;
                    ckeq!(got, Some(vec![c.clone()]), "load-root/differs", "{}", ctx());
                }
                if N == 0 { return Ok(()) }
                let (a, b) = d.split().map_err(|e| V { key: "merge/split".into(), detail: e.to_string() })?;
                let mut old = HashMap::new();
                for c in [a.root(), b.root(), root].into_iter().flatten() { reach(c, &mut old) }
                let got = made_by("merge", &ctx, &old, true, &|cx| a.merge_with_right_sibling_ext(&b, cx).map(|x| x.into_root().into_iter().collect()).map_err(|e| e.to_string()), l)?;
                ckeq!(got, Some(root.iter().cloned().collect()), "merge/differs", "{}", ctx());
                Ok(())
            }
            with_width!(u.n, go, root, l)
        });
    }
    for u in &us {
        if u.vals[0].len() > 1 { continue }
        // each key: absent, extra 0, extra 1
        r.section(&format!("aug/{}", u.name), 3u64.pow(u.keys.len().min(r.pick(6, 8)) as u32), |st, l| {
            fn go<const N: u16>(u: &Uni, st: u64, l: &mut L) -> R { aug_state::<N>(u, st, l) }
            with_width!(u.n, go, u, st, l)
        });
    }
    tlb::families(&mut Models { r });
    // bags
    let mut ds = vec![];
    for n in 1..=r.pick(3, 4) { ds.extend(dags(Cfg { n, ..BASE })) }
    r.section("bags", ds.len() as u64, |i, l| {
        let d = &ds[i as usize];
        l.st(1);
        let c = d.rroot();
        let ctx = || d.show();
        let bag = Boc::encode(c);
        let stat = shared_statics();
        let distinct: HashSet<Hs> = { let mut m = HashMap::new(); reach(c, &mut m); m.into_values().collect() };
        let cx = Rec::default();
        let x = np("decode/panic", ctx, || Boc::decode_ext(&bag, &cx))?;
        ck!(x.as_ref().is_ok_and(|x| x == c), "decode/differs", "{}", ctx());
        ckeq!(cx.ev.borrow().iter().filter_map(|e| match e { Ev::Make(h) => Some(*h), _ => None }).collect::<HashSet<_>>(), distinct, "decode/created", "{}", ctx());
        ckeq!(cx.makes(), distinct.len(), "decode/created-twice", "{}", ctx());
        made_by("decode", &ctx, &stat, true, &|cx| Boc::decode_ext(&bag, cx).map(|x| vec![x]).map_err(|e| e.to_string()), l)?;
        let pair = Boc::encode_pair((c.as_ref(), d.real[0].as_ref()));
        made_by("decode-pair", &ctx, &stat, true, &|cx| Boc::decode_pair_ext(&pair, cx).map(|x| vec![x.0, x.1]).map_err(|e| e.to_string()), l)?;
        // as a value
        let mut old = HashMap::new();
        reach(c, &mut old);
        let got = made_by("repr", &ctx, &old, true, &|cx| CellBuilder::build_from_ext(c, cx).map(|x| vec![x]).map_err(|e| e.to_string()), l)?;
        ckeq!(got, CellBuilder::build_from(c).ok().map(|x| vec![x]), "repr/differs", "");
        let cx = Rec::default();
        ckeq!(BocRepr::encode_ext(c, &cx).ok(), BocRepr::encode(c).ok(), "repr/encode", "");
        ckeq!(cx.makes(), 1, "repr/created", "");
        let got = made_by("library", &ctx, &HashMap::new(), true, &|cx| Ok(vec![std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| CellBuilder::build_library_ext(c.repr_hash(), cx))).map_err(|_| "refused")?]), l);
        if let Ok(got) = got { ckeq!(got, Some(vec![CellBuilder::build_library(c.repr_hash())]), "library/differs", "") }
        Ok(())
    });
    r.section("merkle", ds.len() as u64, |i, l| {
        let d = &ds[i as usize];
        if d.root().level() != 0 { return Ok(()) }
        let root = d.rroot();
        let hs: Vec<Hs> = { let mut m = HashMap::new(); reach(root, &mut m); let mut v: Vec<Hs> = m.into_values().collect(); v.sort(); v.dedup(); v };
        let mut old = HashMap::new();
        reach(root, &mut old);
        for code in 0..3u64.pow(hs.len() as u32) {
            let mut ix = Ix(code);
            let map: HashMap<Hs, u8> = hs.iter().map(|h| (*h, ix.take(3) as u8)).collect();
            let ctx = || format!("{} {map:?}", d.show());
            l.st(1);
            let want = MerkleProof::create(root.as_ref(), Flt(&map)).build().ok();
            let got = made_by("proof", &ctx, &old, false, &|cx| MerkleProof::create(root.as_ref(), Flt(&map)).build_ext(cx).map(|p| vec![p.cell]).map_err(|e| e.to_string()), l)?;
            ckeq!(got, want.map(|p| vec![p.cell]), "proof/differs", "{}", ctx());
            made_by("proof-raw", &ctx, &old, false, &|cx| MerkleProof::create(root.as_ref(), Flt(&map)).build_raw_ext(cx).map(|p| vec![p]).map_err(|e| e.to_string()), l)?;
            // an update to this tree from each of its own cells
            for o in d.real.iter().filter(|c| c.level() == 0) {
                let up = MerkleUpdate::create(o.as_ref(), root.as_ref(), Flt(&map)).build();
                let Ok(up) = up else { continue };
                let mut both = old.clone();
                reach(o, &mut both);
                let got = made_by("update", &ctx, &both, false, &|cx| MerkleUpdate::create(o.as_ref(), root.as_ref(), Flt(&map)).build_ext(cx).map(|u| vec![u.old, u.new]).map_err(|e| e.to_string()), l)?;
                ckeq!(got, Some(vec![up.old.clone(), up.new.clone()]), "update/differs", "{}", ctx());
                let mut old = HashMap::new();
                reach(o, &mut old);
                reach(&up.new, &mut old);
                let got = made_by("apply", &ctx, &old, false, &|cx| up.apply_ext(o, cx).map(|c| vec![c]).map_err(|e| e.to_string()), l)?;
                ckeq!(got, up.apply(o).ok().map(|c| vec![c]), "apply/differs", "{}", ctx());
            }
        }
        Ok(())
    });
}
fn kids(c: &Cell) -> HashMap<usize, Hs> { let mut m = HashMap::new(); for i in 0..c.reference_count() { reach(&c.reference_cloned(i).unwrap(), &mut m) } m }
fn shared_statics() -> HashMap<usize, Hs> { let mut m = HashMap::new(); for c in [Cell::empty_cell(), Cell::default()] { reach(&c, &mut m) } m }
