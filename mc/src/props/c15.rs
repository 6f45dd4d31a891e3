//! C15: dictionary and model code ends with a value or an error on every tree of cells.
use super::dictlib::Kb;
use crate::fw::*;
use crate::model::bits::*;
use crate::*;
use std::ops::ControlFlow;
use tycho_types::cell::*;
use tycho_types::dict::*;
use tycho_types::error::Error;

pub const META: Meta = Meta {
    id: "C15",
    level: "model_checking",
    rule: "inputs: a state is one tree of cells (every root of up to seven bits with every choice of up to three references from a pool of valid, malformed, pruned, library, Merkle and virtualized cells, every fork of two malformed leaves, deep chains) interpreted with a key width, or a stored chain structure with one fault (a cell replaced, emptied, truncated, extended, bits changed, references removed, duplicated or exchanged); a transition is one read, update, iteration or accessor executed under a panic monitor, with a bound on the items an iterator yields and a watchdog on the time of a case; non-trivial: the operation ended with an error",
    assumptions: &["a pool of cells stands for all malformed children; key widths at most 9 bits except in chains", "debug assertions and overflow checks are on"],
    run,
};

/// One bit, combined with or.
#[derive(Clone, Debug, Default, PartialEq)]
struct Xo(bool);
impl Store for Xo { fn store_into(&self, b: &mut CellBuilder, _: &dyn CellContext) -> Result<(), Error> { b.store_bit(self.0) } }
impl<'a> Load<'a> for Xo { fn load_from(s: &mut CellSlice<'a>) -> Result<Self, Error> { Ok(Xo(s.load_bit()?)) } }
impl AugDictExtra for Xo {
    fn comp_add(left: &mut CellSlice, right: &mut CellSlice, b: &mut CellBuilder, cx: &dyn CellContext) -> Result<(), Error> {
        let (l, r) = (Xo::load_from(left)?, Xo::load_from(right)?);
        Xo(l.0 | r.0).store_into(b, cx)
    }
}
struct Flow(u8);
impl SearchByExtra<Xo> for Flow {
    fn on_leaf(&mut self, x: &Xo) -> bool { self.0 != 2 || x.0 }
    fn on_edge(&mut self, l: &Xo, _: &Xo) -> ControlFlow<(), Branch> {
        match self.0 { 0 => ControlFlow::Continue(Branch::Left), 1 => ControlFlow::Continue(Branch::Right), _ => if l.0 { ControlFlow::Continue(Branch::Left) } else { ControlFlow::Break(()) } }
    }
}

/// Results of one tree.
struct T<'a, 'l> { l: &'l mut L, ctx: &'a dyn Fn() -> String }
impl T<'_, '_> {
    fn op<X>(&mut self, key: &str, f: impl FnOnce() -> Result<X, Error>) -> R<Option<X>> {
        self.l.tr(1);
        match np(key, self.ctx, f) { Ok(Ok(x)) => Ok(Some(x)), Ok(Err(_)) => { self.l.nt(); Ok(None) } Err(v) => { self.l.fail(v); Ok(None) } }
    }
    /// An update: if it fails, the dictionary is as before.
    fn upd<X>(&mut self, key: &str, d: &mut Option<Cell>, f: impl FnOnce(&mut Option<Cell>) -> Result<X, Error>) -> R {
        let old = d.clone();
        if self.op(key, || f(d))?.is_none() { ck!(same(&old, d), format!("{key}/changed-on-error"), "{}", (self.ctx)()) }
        Ok(())
    }
    /// An iterator ends: at most one error, which is the last item, and no more than `max` values.
    fn iter<X>(&mut self, key: &str, max: usize, it: impl FnOnce() -> Box<dyn Iterator<Item = Result<X, Error>>>) -> R {
        self.l.tr(1);
        let r = np(key, self.ctx, || {
            let mut i = it();
            let mut n = 0usize;
            let mut errs = 0usize;
            while n <= max {
                match i.next() {
                    None => return (n, errs, i.next().is_some()),
                    Some(Ok(_)) => { if errs > 0 { return (n, errs, true) } }
                    Some(Err(_)) => errs += 1,
                }
                n += 1;
            }
            (n, errs, false)
        })?;
        if r.1 > 0 { self.l.nt() }
        ck!(r.0 <= max, format!("{key}/endless"), "more than {max} items, {} errors {}", r.1, (self.ctx)());
        ck!(r.1 <= 1 && !r.2, format!("{key}/after-end"), "{r:?} {}", (self.ctx)());
        Ok(())
    }
}

fn same(a: &Option<Cell>, b: &Option<Cell>) -> bool { match (a, b) { (None, None) => true, (Some(a), Some(b)) => a.repr_hash() == b.repr_hash(), _ => false } }
/// A context failing at its `at`-th call, or resolving every library to one cell.
struct Cx { at: std::cell::Cell<usize>, lib: Option<Cell> }
impl Cx {
    fn tick(&self) -> Result<(), Error> { let k = self.at.get(); if k == 0 { return Err(Error::Cancelled) } self.at.set(k.wrapping_sub(1)); Ok(()) }
    fn res<'a>(&'a self, c: &'a DynCell, m: LoadMode) -> &'a DynCell { match &self.lib { Some(l) if m.resolve() && c.cell_type() == CellType::LibraryReference => l.as_ref(), _ => c } }
}
impl CellContext for Cx {
    fn finalize_cell(&self, c: CellParts<'_>) -> Result<Cell, Error> { self.tick()?; Cell::empty_context().finalize_cell(c) }
    fn load_cell(&self, c: Cell, m: LoadMode) -> Result<Cell, Error> { self.tick()?; match &self.lib { Some(l) if m.resolve() && c.cell_type() == CellType::LibraryReference => Ok(l.clone()), _ => Ok(c) } }
    fn load_dyn_cell<'s: 'a, 'a>(&'s self, c: &'a DynCell, m: LoadMode) -> Result<&'a DynCell, Error> { self.tick()?; Ok(self.res(c, m)) }
}

fn it<'a, X: 'a, I: Iterator<Item = Result<X, Error>> + 'a>(i: I) -> Box<dyn Iterator<Item = Result<X, Error>> + 'a> { Box::new(i) }

/// All operations on one tree.
fn dict_ops(root: &Cell, other: &Cell, n: u16, cx: &dyn CellContext, t: &mut T) -> R {
    let r = Some(root.clone());
    let o = Some(other.clone());
    let nn = n as usize;
    let max = 1usize << nn.min(10);
    let keys: Vec<Cell> = match n { 0 => vec![cell_of(&[])], 1 => vec![cell_of(&[0]), cell_of(&[1])], _ => {
        let mut a = vec![0; nn]; let b = vec![1; nn];
        let mut v = vec![cell_of(&a), cell_of(&b)];
        a[nn - 1] = 1; v.push(cell_of(&a));
        let mut c = b.clone(); c[1] = 0; v.push(cell_of(&c));
        v
    } };
    let val = cell_of(&[1, 0, 1]);
    for k in &keys {
        let ks = || k.as_slice_allow_exotic();
        t.op("get", || dict_get(r.as_ref(), n, ks(), cx))?;
        t.op("get-owned", || dict_get_owned(r.as_ref(), n, ks(), cx))?;
        for b in [DictBound::Min, DictBound::Max] { for incl in [false, true] { for signed in [false, true] {
            t.op("find-owned", || dict_find_owned(r.as_ref(), n, ks(), b, incl, signed, cx))?;
        } } }
        for mode in [SetMode::Set, SetMode::Replace, SetMode::Add] {
            let mut d = r.clone();
            t.upd("insert", &mut d, |d| dict_insert(d, &mut ks(), n, &val.as_slice_allow_exotic(), mode, cx))?;
            let mut d = r.clone();
            t.upd("insert-owned", &mut d, |d| dict_insert_owned(d, &mut ks(), n, &val.as_slice_allow_exotic(), mode, cx))?;
            let mut d = r.clone();
            t.upd("aug-insert", &mut d, |d| aug_dict_insert(d, &mut ks(), n, &Xo(true), &val.as_slice_allow_exotic(), mode, Xo::comp_add, cx))?;
        }
        for sub in [false, true] {
            let mut d = r.clone();
            t.upd("remove", &mut d, |d| dict_remove_owned(d, &mut ks(), n, sub, cx))?;
            let mut d = r.clone();
            t.upd("aug-remove", &mut d, |d| aug_dict_remove_owned(d, &mut ks(), n, sub, Xo::comp_add, cx))?;
        }
        for pl in 0..=n.min(3) {
            let pfx = || ks().get_prefix(pl, 0);
            t.op("subdict", || dict_get_subdict(r.as_ref(), n, &mut pfx(), cx))?;
            t.op("split-by-prefix", || dict_split_by_prefix(r.as_ref(), n, &pfx(), cx))?;
        }
    }
    for b in [DictBound::Min, DictBound::Max] { for signed in [false, true] {
        t.op("find-bound", || dict_find_bound(r.as_ref(), n, b, signed, cx))?;
        t.op("find-bound-owned", || dict_find_bound_owned(r.as_ref(), n, b, signed, cx))?;
        let mut d = r.clone();
        t.upd("remove-bound", &mut d, |d| dict_remove_bound_owned(d, n, b, signed, cx))?;
    } }
    t.op("split-raw", || dict_split_raw(r.as_ref(), n, cx))?;
    t.op("load-from-root", || dict_load_from_root(&mut root.as_slice_allow_exotic(), n, cx))?;
    let (rr, oo) = (&r, &o);
    // iterators borrow the tree for the whole call
    for (rev, signed) in [(false, false), (true, false), (false, true), (true, true)] {
        let (a, b): (&'static Option<Cell>, &'static Option<Cell>) = unsafe { (std::mem::transmute(rr), std::mem::transmute(oo)) };
        t.iter("iter", max, || it(RawIter::new_ext(a, n, rev, signed)))?;
        t.iter("iter-owned", max, || it(RawOwnedIter::new_ext(a, n, rev, signed)))?;
        t.iter("iter-keys", max, || it(RawKeys::new_ext(a, n, rev, signed)))?;
        t.iter("iter-values", max, || it(RawValues::new_ext(a, n, rev, signed)))?;
        t.iter("iter-values-owned", max, || it(RawOwnedValues::new_ext(a, n, rev, signed)))?;
        t.iter("union", max, || it(UnionRawIter::new_ext(a, b, n, rev, signed)))?;
        t.iter("union-reverse", max, || it(UnionRawIter::new_ext(b, a, n, rev, signed)))?;
    }
    for (l, rt) in [(&r, &o), (&o, &r), (&r, &None), (&None, &r), (&r, &r)] {
        t.op("merge-siblings", || dict_merge_siblings(l, rt, n, cx))?;
        t.op("aug-merge-siblings", || aug_dict_merge_siblings(l, rt, n, Xo::comp_add, cx))?;
        let mut d = l.clone();
        t.upd("merge", &mut d, |d| dict_merge(d, rt, n, cx))?;
    }
    for f in 0..3 { t.op("find-by-extra", || aug_dict_find_by_extra::<Xo, _>(r.as_ref(), n, Flow(f)).map(|x| x.is_some()))?; }
    Ok(())
}

/// Every update with a context failing at its k-th call.
fn failing(root: &Cell, other: &Cell, n: u16, k: usize, t: &mut T) -> R {
    let cx = || Cx { at: std::cell::Cell::new(k), lib: None };
    let nn = n as usize;
    let keys: Vec<Cell> = if nn <= 3 { (0..1u64 << nn).map(|x| cell_of(&uint(x as u128, nn))).collect() } else { vec![cell_of(&vec![0; nn]), cell_of(&vec![1; nn]), cell_of(&pattern(7, nn))] };
    let val = cell_of(&[1, 0, 1]);
    for k in &keys {
        let ks = || k.as_slice_allow_exotic();
        for mode in [SetMode::Set, SetMode::Replace, SetMode::Add] {
            let mut d = Some(root.clone());
            t.upd("insert", &mut d, |d| dict_insert(d, &mut ks(), n, &val.as_slice_allow_exotic(), mode, &cx()))?;
            let mut d = Some(root.clone());
            t.upd("insert-owned", &mut d, |d| dict_insert_owned(d, &mut ks(), n, &val.as_slice_allow_exotic(), mode, &cx()))?;
        }
        let mut d = Some(root.clone());
        t.upd("remove", &mut d, |d| dict_remove_owned(d, &mut ks(), n, false, &cx()))?;
        for b in [DictBound::Min, DictBound::Max] { t.op("find-owned", || dict_find_owned(Some(root), n, ks(), b, false, false, &cx()))?; }
        for pl in 0..=n.min(2) {
            let pfx = || ks().get_prefix(pl, 0);
            t.op("subdict", || dict_get_subdict(Some(root), n, &mut pfx(), &cx()))?;
            t.op("split-by-prefix", || dict_split_by_prefix(Some(root), n, &pfx(), &cx()))?;
        }
    }
    for b in [DictBound::Min, DictBound::Max] {
        let mut d = Some(root.clone());
        t.upd("remove-bound", &mut d, |d| dict_remove_bound_owned(d, n, b, false, &cx()))?;
    }
    let mut d = Some(root.clone());
    t.upd("merge", &mut d, |d| dict_merge(d, &Some(other.clone()), n, &cx()))?;
    t.op("split-raw", || dict_split_raw(Some(root), n, &cx()))?;
    match n { 2 => bulk::<2>(root, &cx, t), 3 => bulk::<3>(root, &cx, t), _ => bulk::<9>(root, &cx, t) }
}
fn bulk<const N: u16>(root: &Cell, cx: &dyn Fn() -> Cx, t: &mut T) -> R {
    let n = N as usize;
    let mut ks: Vec<B> = vec![vec![0; n], pattern(7, n), vec![1; n]];
    ks.sort();
    ks.dedup();
    for m in 1..3u32.pow(ks.len() as u32) {
        let list: Vec<(Kb<N>, Option<u8>)> = ks.iter().enumerate().filter_map(|(i, k)| match m / 3u32.pow(i as u32) % 3 { 0 => None, 1 => Some((Kb(k.clone()), None)), _ => Some((Kb(k.clone()), Some(7))) }).collect();
        let mut d = Some(root.clone());
        t.upd("modify", &mut d, |d| dict_modify_from_sorted_iter(d, list.clone(), |x| x.0.clone(), |x| Ok(x.1), &cx()))?;
    }
    Ok(())
}

/// Bulk changes and typed dictionaries.
fn typed<const N: u16>(root: &Cell, other: &Cell, t: &mut T) -> R {
    let cx = Cell::empty_context();
    let n = N as usize;
    let max = 1usize << n.min(10);
    let mut ks: Vec<B> = vec![vec![0; n], vec![1; n]];
    if n > 1 { let mut a = vec![0; n]; a[n - 1] = 1; ks.push(a.clone()); a[0] = 1; ks.push(a) }
    ks.sort();
    ks.dedup();
    let k3 = 3u32.pow(ks.len() as u32);
    for m in 1..k3 {
        let list: Vec<(Kb<N>, Option<u8>)> = ks.iter().enumerate().filter_map(|(i, k)| match m / 3u32.pow(i as u32) % 3 { 0 => None, 1 => Some((Kb(k.clone()), None)), _ => Some((Kb(k.clone()), Some(7))) }).collect();
        let mut d = Some(root.clone());
        t.upd("modify", &mut d, |d| dict_modify_from_sorted_iter(d, list.clone(), |x| x.0.clone(), |x| Ok(x.1), cx))?;
        let mut d = Some(root.clone());
        t.upd("aug-modify", &mut d, |d| aug_dict_modify_from_sorted_iter(d, list.clone(), |x| x.0.clone(), |x| Ok(x.1.map(|v| (Xo(true), v))), Xo::comp_add, cx))?;
    }
    type A<const N: u16> = AugDict<Kb<N>, Xo, bool>;
    let outer = raw2(&[1, 0], &[root.clone()]);
    let outer2 = raw2(&[1, 0], &[other.clone()]);
    let mut s = root.as_slice_allow_exotic();
    if let Some(a) = t.op("aug-from-root", || A::<N>::load_from_root_ext(&mut s, cx))? { aug(&a, &a, max, &ks, t)? }
    let a = A::<N>::load_from(&mut outer.as_slice_allow_exotic()).unwrap();
    let b = A::<N>::load_from(&mut outer2.as_slice_allow_exotic()).unwrap();
    aug(&a, &b, max, &ks, t)?;
    let d: Dict<Kb<N>, u8> = Dict::from(Some(root.clone()));
    let e: Dict<Kb<N>, u8> = Dict::from(Some(other.clone()));
    // SAFETY: the dictionaries outlive the calls
    let (sd, se): (&'static Dict<Kb<N>, u8>, &'static Dict<Kb<N>, u8>) = unsafe { (std::mem::transmute(&d), std::mem::transmute(&e)) };
    t.iter("typed-iter", max, || it(sd.iter()))?;
    t.iter("typed-iter-reversed", max, || it(sd.iter().reversed().signed()))?;
    t.iter("typed-keys", max, || it(sd.keys()))?;
    t.iter("typed-values", max, || it(sd.values()))?;
    t.iter("typed-union", max, || it(sd.iter_union(se)))?;
    t.op("typed-split", || d.split())?;
    t.op("typed-merge", || d.merge_with_right_sibling(&e))?;
    for signed in [false, true] {
        t.op("typed-min", || d.get_min(signed).map(|x| x.is_some()))?;
        t.op("typed-max", || d.get_max(signed).map(|x| x.is_some()))?;
        for k in &ks {
            let k = &Kb::<N>(k.clone());
            t.op("typed-next", || d.get_next(k, signed))?;
            t.op("typed-prev", || d.get_prev(k, signed))?;
            t.op("typed-or-next", || d.get_or_next(k, signed))?;
            t.op("typed-or-prev", || d.get_or_prev(k, signed))?;
        }
        let mut x = d.clone();
        t.op("typed-remove-min", || x.remove_min_raw(signed))?;
        let mut x = d.clone();
        t.op("typed-remove-max", || x.remove_max_raw(signed))?;
    }
    Ok(())
}
fn aug<const N: u16>(a: &AugDict<Kb<N>, Xo, bool>, b: &AugDict<Kb<N>, Xo, bool>, max: usize, ks: &[B], t: &mut T) -> R {
    let sa: &'static AugDict<Kb<N>, Xo, bool> = unsafe { std::mem::transmute(a) };
    t.iter("aug-iter", max, || it(sa.iter()))?;
    t.iter("aug-values", max, || it(sa.values()))?;
    let mut x = a.clone();
    t.op("aug-update-root-extra", || x.update_root_extra())?;
    t.op("aug-split", || a.split())?;
    t.op("aug-merge", || a.merge_with_right_sibling(b))?;
    for f in 0..3 { t.op("aug-find", || a.find_by_extra(Flow(f)).map(|x| x.is_some()))?; }
    for k in ks {
        let k = &Kb::<N>(k.clone());
        t.op("aug-get", || a.get(k).map(|x| x.is_some()))?;
        let mut x = a.clone();
        t.op("aug-set", || x.set(k, Xo(true), true))?;
        let mut x = a.clone();
        t.op("aug-add", || x.add(k, Xo(true), true))?;
        let mut x = a.clone();
        t.op("aug-replace", || x.replace(k, Xo(true), true))?;
        let mut x = a.clone();
        t.op("aug-remove-typed", || x.remove(k))?;
        for pl in 0..=k.0.len().min(2) {
            let c = cell_of(&k.0[..pl]);
            t.op("aug-split-by-prefix", || a.split_by_prefix(&c.as_slice_allow_exotic()))?;
        }
    }
    Ok(())
}

pub fn raw2(b: &[u8], refs: &[Cell]) -> Cell { super::tlb::raw_cell(b, refs) }

/// Exotic and special cells.
pub fn exotics() -> Vec<(&'static str, Cell)> {
    use crate::model::cells::*;
    let leaf = ord(bits_of("00101"), vec![]);
    let pruned = prune(&leaf, 0).unwrap();
    let fork = ord(vec![0, 0], vec![pruned.clone(), leaf.clone()]);
    let pr = proof(&fork);
    let rv = Cell::virtualize(real(&fork));
    vec![
        ("pruned", real(&pruned)),
        ("pruned-virt", Cell::virtualize(real(&pruned))),
        ("library", real(&lib(&[7; 32]))),
        ("proof", real(&pr)),
        ("update", real(&update(&fork, &fork))),
        ("virt", rv),
    ]
}
fn bits_of(s: &str) -> B { s.bytes().map(|b| b - b'0').collect() }

fn pool(n: u16) -> Vec<(String, Cell)> {
    let leaf = cell_of(&bits_of("00101"));
    let mut v: Vec<(String, Cell)> = vec![];
    let mut add = |s: &str, c: Cell| v.push((s.to_string(), c));
    add("leaf", leaf.clone());
    add("empty", cell_of(&[]));
    add("bit1", cell_of(&[1]));
    // exact labels for a child of an empty-labelled root
    if n > 1 { let k = n as usize - 1; let mut b = vec![0]; b.extend(vec![1; k]); b.push(0); b.extend((0..k).map(|i| (i % 2) as u8)); b.extend([1, 1, 0]); if b.len() < 1000 { add("exact", cell_of(&b)) } }
    add("long", cell_of(&bits_of("011111111111111110111111111111111110000000000")));
    add("same-long", cell_of(&bits_of("1111111111111")));
    add("fork", raw2(&[0, 0], &[leaf.clone(), leaf.clone()]));
    add("fork-x", raw2(&bits_of("000"), &[leaf.clone(), cell_of(&[])]));
    add("half", raw2(&[0, 0], &[leaf.clone()]));
    for (s, c) in exotics() { if s != "pruned-virt" { add(s, c) } }
    v
}
/// All bit strings of up to `m` bits.
fn short(i: u64) -> B { let x = i + 1; let n = 63 - x.leading_zeros() as usize; uint((x - (1 << n)) as u128, n) }

fn run(r: &Run) {
    HANG_SECS.store(60, std::sync::atomic::Ordering::Relaxed);
    models(r);
    shard_trees(r);
    // every small root
    let widths: Vec<u16> = r.pick(vec![0, 1, 2, 3, 8], vec![0, 1, 2, 3, 4, 5, 7, 8, 9]);
    let pools: Vec<Vec<(String, Cell)>> = widths.iter().map(|n| pool(*n)).collect();
    let (m, tails) = (r.pick(7, 9), r.pick(2, 3));
    let roots = (1u64 << m) - 1;
    for (wi, &n) in widths.iter().enumerate() {
        let p = &pools[wi];
        let k = p.len() as u64;
        let refs = 1 + k + k * k + if r.quick() { k } else { k * k };
        let other = canon_fork(n);
        r.section(&format!("roots/{n}"), roots * tails * refs, |idx, l| {
            let mut ix = Ix(idx);
            let b0 = short(ix.take(roots));
            let tail = ix.take(tails);
            let q = ix.take(refs);
            let cs: Vec<usize> = if q == 0 { vec![] } else if q < 1 + k { vec![(q - 1) as usize] } else if q < 1 + k + k * k { let x = q - 1 - k; vec![(x / k) as usize, (x % k) as usize] }
                else { let x = q - 1 - k - k * k; vec![(x % k) as usize, (x / k) as usize, 0] };
            let mut b = b0;
            match tail { 0 => {} 1 => b.extend([0, 0, 0, 1, 0, 1, 1, 0]), _ => b.extend([1, 0, 1]) }
            let root = raw2(&b, &cs.iter().map(|i| p[*i].1.clone()).collect::<Vec<_>>());
            let ctx = || format!("width {n} root {} children [{}]", show(&b), cs.iter().map(|i| p[*i].0.clone()).collect::<Vec<_>>().join(" "));
            l.ev();
            l.st(1);
            let mut t = T { l, ctx: &ctx };
            dict_ops(&root, &other, n, Cell::empty_context(), &mut t)?;
            if r.quick() && cs.len() > 2 { return Ok(()) }
            with_width!(n, typed, &root, &other, &mut t)
        });
    }
    // exotic roots
    {
        let ex = exotics();
        r.section("exotic-roots", (ex.len() * widths.len()) as u64, |idx, l| {
            let (name, c) = &ex[idx as usize % ex.len()];
            let n = widths[idx as usize / ex.len()];
            let other = canon_fork(n);
            let ctx = || format!("width {n} root {name}");
            l.ev();
            l.st(1);
            let mut t = T { l, ctx: &ctx };
            dict_ops(c, &other, n, Cell::empty_context(), &mut t)?;
            dict_ops(&other, c, n, Cell::empty_context(), &mut t)?;
            with_width!(n, typed, c, &other, &mut t)?;
            with_width!(n, typed, &other, c, &mut t)
        });
    }
    // valid dictionaries under contexts which fail or resolve libraries
    {
        use super::dictlib::Uni;
        let unis = [Uni::full(2, 2, 0), Uni::full(3, 1, 0), Uni::wide(9, 1, 1, 1)];
        for u in &unis {
            let table = u.table();
            let ks = r.pick(8u64, 40);
            r.section(&format!("failing-context/{}", u.name), u.states() * ks, |idx, l| {
                let (st, k) = (idx / ks, idx % ks);
                let Some(Some(root)) = &table[st as usize] else { return Ok(()) };
                let other = canon_fork(u.n as u16);
                let ctx = || format!("context failing at call {k}, {}", u.show(st));
                l.ev();
                l.st(1);
                failing(root, &other, u.n as u16, k as usize, &mut T { l, ctx: &ctx })
            });
        }
        let ex = exotics();
        let libs: Vec<(String, Cell)> = pool(3).into_iter().chain(ex.iter().map(|x| (x.0.to_string(), x.1.clone()))).collect();
        let lib = ex[2].1.clone();
        r.section("libraries", libs.len() as u64 * 5 * 6, |idx, l| {
            let mut ix = Ix(idx);
            let (to, n, shape) = (ix.of(&libs), *ix.of(&[0u16, 1, 2, 3, 8]), ix.us(6));
            let leaf = cell_of(&bits_of("00101"));
            let root = match shape { 0 => lib.clone(), 1 => raw2(&[0, 0], &[lib.clone(), leaf]), 2 => raw2(&[0, 0], &[leaf, lib.clone()]), 3 => raw2(&[0, 0], &[lib.clone(), lib.clone()]), 4 => raw2(&[0, 0], &[raw2(&[0, 0], &[lib.clone(), leaf.clone()]), leaf]), _ => raw2(&[0, 1, 0, 1], &[lib.clone(), lib.clone()]) };
            let cx = Cx { at: std::cell::Cell::new(usize::MAX), lib: Some(to.1.clone()) };
            let ctx = || format!("width {n} shape {shape}, library is {}", to.0);
            l.ev();
            l.st(1);
            dict_ops(&root, &canon_fork(n), n, &cx, &mut T { l, ctx: &ctx })?;
            dict_ops(&canon_fork(n), &root, n, &cx, &mut T { l, ctx: &ctx })
        });
    }
    // long keys, deep chains
    {
        let shapes = 8u64;
        let widths = [64u16, 255, 256, 257, 511, 1000, 1021, 1022, 1023];
        r.section("deep", widths.len() as u64 * shapes * 2, |idx, l| {
            let mut ix = Ix(idx);
            let (n, shape, short_) = (*ix.of(&widths), ix.take(shapes), ix.bit());
            let depth = if short_ { n as usize - 1 } else { n as usize + 3 };
            let leaf = match shape % 4 { 0 => cell_of(&bits_of("00101")), 1 => exotics()[0].1.clone(), 2 => cell_of(&[]), _ => cell_of(&bits_of("011")) };
            let mut c = leaf.clone();
            for _ in 0..depth { c = raw2(&[0, 0], &if shape < 4 { [c, leaf.clone()] } else { [leaf.clone(), c] }) }
            let ctx = || format!("width {n} depth {depth} shape {shape}");
            l.ev();
            l.st(1);
            dict_ops(&c, &canon_fork(n), n, Cell::empty_context(), &mut T { l, ctx: &ctx })
        });
        // labels around the length of the key and the capacity of a cell
        r.section("labels", widths.len() as u64 * 5 * 3 * 3, |idx, l| {
            let mut ix = Ix(idx);
            let (n, d, form, kids) = (*ix.of(&widths), ix.us(5), ix.us(3), ix.us(3));
            let len = (n as usize + d).saturating_sub(3);
            let w = 16 - n.leading_zeros() as usize;
            let mut b: B = match form { 0 => { let mut b = vec![0]; b.extend(vec![1; len]); b.push(0); b } 1 => { let mut b = vec![1, 0]; b.extend(uint(len as u128, w)); b } _ => { let mut b = vec![1, 1, 1]; b.extend(uint(len as u128, w)); b } };
            if form != 2 { b.extend((0..len).map(|i| (i % 3 == 0) as u8)) }
            b.truncate(1023);
            let root = raw2(&b, &vec![cell_of(&bits_of("00101")); kids]);
            let ctx = || format!("width {n} label form {form} length {len} children {kids}");
            l.ev();
            l.st(1);
            dict_ops(&root, &canon_fork(n), n, Cell::empty_context(), &mut T { l, ctx: &ctx })
        });
    }
    // forks of malformed leaves
    let lm = r.pick(31u64, 63);
    let kids = lm * 3;
    for &n in r.pick(&[2u16, 3][..], &[1, 2, 3, 4, 8][..]) {
        let leaf = cell_of(&bits_of("00101"));
        let mk = |i: u64| { let b = short(i % lm); raw2(&b, &vec![leaf.clone(); (i / lm) as usize]) };
        let cells: Vec<Cell> = (0..kids).map(mk).collect();
        let other = canon_fork(n);
        let labels: Vec<B> = [vec![0, 0], vec![1, 1, 0, 0, 0], vec![0, 0, 1], vec![0, 1, 0, 1]].to_vec();
        let nl = labels.len() as u64;
        r.section(&format!("forks/{n}"), kids * kids * r.pick(2, nl), |idx, l| {
            let mut ix = Ix(idx);
            let (a, b, li) = (ix.take(kids) as usize, ix.take(kids) as usize, ix.take(nl) as usize);
            let root = raw2(&labels[li], &[cells[a].clone(), cells[b].clone()]);
            let ctx = || format!("width {n} label {} left {} +{} right {} +{}", show(&labels[li]), show(&cell_bits(cells[a].as_ref())), cells[a].reference_count(), show(&cell_bits(cells[b].as_ref())), cells[b].reference_count());
            l.ev();
            l.st(1);
            let mut t = T { l, ctx: &ctx };
            dict_ops(&root, &other, n, Cell::empty_context(), &mut t)?;
            with_width!(n, typed, &root, &other, &mut t)
        });
    }
}

// ---- chain structures
use super::poke;
use super::tlb::{self, Fam, G, Vis, W, explore, families, nodes, with_node};
use std::fmt::Debug;

/// One cell of every family: the largest value with patterned contents.
struct Collect(Vec<(String, Cell)>);
impl Vis for Collect {
    fn visit(&mut self, name: &'static str, f: &Fam) {
        let f = &*f.make;
        let best = explore(&f).into_iter().filter(|p| p[0] == 2).map(|p| { let mut w = W::new(); f(&mut G::new(&p), &mut w); w }).filter(|w| w.fits()).max_by_key(|w| (nodes(w).len(), w.r.len(), w.b.len()));
        if let Some(w) = best { self.0.push((name.into(), w.build())) }
    }
}
/// Load, print, store and read every accessor.
fn probe(c: &Cell, load: &tlb::Loader, name: &str, ctx: &dyn Fn() -> String, l: &mut L) {
    l.tr(1);
    l.ev();
    let r = np(&format!("models/{name}"), ctx, || {
        let x = match c.as_slice().and_then(|mut s| load(&mut s)) { Ok(x) => Ok(x), Err(_) => load(&mut c.as_slice_allow_exotic()) };
        let Ok(x) = x else { return Ok(false) };
        let _ = format!("{x:?}").len();
        let _ = tlb::stored(&*x).is_ok();
        poke::poke(x.any()).map(|_| true)
    });
    match r { Err(v) => l.fail(v), Ok(Err(poke::Endless(w))) => l.fail(V { key: format!("models/{name}/endless"), detail: format!("{w} {}", ctx()) }), Ok(Ok(ok)) => if !ok { l.nt() } }
}
fn faults(w: &W, small: &[(&'static str, Cell)], big: &[(String, Cell)], step: usize, f: &mut dyn FnMut(Cell, &dyn Fn() -> String)) {
    for (path, node) in nodes(w) {
        let base = node.refs();
        let put = |c: &Cell| with_node(w, &path, &|_| Some(c.clone()));
        for (s, c) in small { if let Some(c) = put(c) { f(c, &|| format!("node {path:?} is {s}")) } }
        for k in 0..node.b.len() {
            if k % step == 0 || k < 12 { if let Some(c) = put(&tlb::raw_cell(&node.b[..k], &base)) { f(c, &|| format!("node {path:?} cut at {k}")) } }
            let mut b = node.b.clone();
            b[k] ^= 1;
            if let Some(c) = put(&tlb::raw_cell(&b, &base)) { f(c, &|| format!("node {path:?} bit {k}")) }
        }
        for (len, st) in [(8usize, 4usize), (64, 8)] { for v in [0u8, 1] { for at in (0..node.b.len()).step_by(st) {
            let mut b = node.b.clone();
            let e = (at + len).min(b.len());
            b[at..e].fill(v);
            if b == node.b { continue }
            if let Some(c) = put(&tlb::raw_cell(&b, &base)) { f(c, &|| format!("node {path:?} bits {at}..{e} all {v}")) }
        } } }
        if node.b.len() < 1000 { let mut b = node.b.clone(); b.extend([1, 0, 1]); if let Some(c) = put(&tlb::raw_cell(&b, &base)) { f(c, &|| format!("node {path:?} extended")) } }
        for i in 0..base.len() {
            let mut v = base.clone();
            v.remove(i);
            if let Some(c) = put(&tlb::raw_cell(&node.b, &v)) { f(c, &|| format!("node {path:?} without ref {i}")) }
            for (s, x) in small.iter().map(|x| (x.0.to_string(), &x.1)).chain(big.iter().map(|x| (x.0.clone(), &x.1))) {
                let mut v = base.clone();
                v[i] = x.clone();
                if let Some(c) = put(&tlb::raw_cell(&node.b, &v)) { f(c, &|| format!("node {path:?} ref {i} is {s}")) }
            }
            for j in 0..base.len() {
                if i == j { continue }
                let mut v = base.clone();
                v[i] = base[j].clone();
                if let Some(c) = put(&tlb::raw_cell(&node.b, &v)) { f(c, &|| format!("node {path:?} ref {i} like {j}")) }
                if i < j { v[j] = base[i].clone(); if let Some(c) = put(&tlb::raw_cell(&node.b, &v)) { f(c, &|| format!("node {path:?} refs {i} and {j} exchanged")) } }
            }
        }
        if base.len() < 4 { let mut v = base.clone(); v.push(cell_of(&[1, 0])); if let Some(c) = put(&tlb::raw_cell(&node.b, &v)) { f(c, &|| format!("node {path:?} with one more ref")) } }
    }
}
struct V15<'a> { r: &'a Run, small: Vec<(&'static str, Cell)>, big: Vec<(String, Cell)> }
impl Vis for V15<'_> {
    fn visit(&mut self, name: &'static str, f: &Fam) {
        let (f, load) = (&*f.make, &f.load);
        let q = self.r.quick();
        let paths: Vec<_> = explore(&f).into_iter().filter(|p| if q { p[0] < 3 } else { true }).collect();
        let (small, big) = (&self.small, &self.big);
        self.r.section(&format!("models/{name}"), paths.len() as u64, |i, l| {
            let p = &paths[i as usize];
            let mut w = W::new();
            f(&mut G::new(p), &mut w);
            if !w.fits() { return Ok(()) }
            l.st(1);
            probe(&w.build(), load, name, &|| format!("{p:?}"), l);
            faults(&w, small, big, if q { 16 } else { 1 }, &mut |c, d| probe(&c, load, name, &|| format!("{p:?} {}", d()), l));
            Ok(())
        });
        // small cells as this structure
        let leaf = cell_of(&[0, 1]);
        let bits = self.r.pick(10, 14);
        let refs: Vec<Vec<Cell>> = vec![vec![], vec![leaf.clone()], vec![small[0].1.clone()], vec![leaf.clone(); 2], vec![leaf.clone(); 4]];
        self.r.section(&format!("small/{name}"), ((1u64 << bits) - 1) * refs.len() as u64, |i, l| {
            let mut ix = Ix(i);
            let rs = ix.of(&refs);
            let b = short(ix.0);
            l.st(1);
            probe(&tlb::raw_cell(&b, rs), load, name, &|| format!("small cell {} with {} refs", show(&b), rs.len()), l);
            Ok(())
        });
        // every known structure read as this one
        self.r.section(&format!("cross/{name}"), (big.len() + small.len()) as u64, |i, l| {
            let i = i as usize;
            let (s, c) = if i < big.len() { (big[i].0.as_str(), &big[i].1) } else { (small[i - big.len()].0, &small[i - big.len()].1) };
            l.st(1);
            probe(c, load, name, &|| format!("cell of {s}"), l);
            Ok(())
        });
    }
}
fn models(r: &Run) {
    let mut col = Collect(vec![]);
    families(&mut col);
    let mut small = exotics();
    small.push(("empty", cell_of(&[])));
    small.push(("wide", raw2(&[], &vec![cell_of(&[1]); 4])));
    let big = col.0;
    let cells: Vec<(String, Cell)> = big.clone();
    r.section("cells", cells.len() as u64, |i, l| {
        let (s, c) = &cells[i as usize];
        l.st(1);
        l.tr(1);
        match np("cells", || s.clone(), || poke::cell(c))? { Err(poke::Endless(w)) => bad!("cells/endless", "{w} {s}"), Ok(()) => Ok(()) }
    });
    let mut v = V15 { r, small, big };
    families(&mut v);
}

/// Shard trees: malformed forks, leaves of every prefix of a description, deep chains.
fn shard_trees(r: &Run) {
    let descr = { let mut c = Collect(vec![]); families(&mut c); c.0 };
    let mut leaves: Vec<(String, Cell)> = vec![];
    let ok = cell_of(&{ let mut b = vec![0]; b.extend(bits_of("1011")); b.extend(pattern(5, 700)); b });
    for (s, c) in exotics() { leaves.push((s.into(), c)) }
    leaves.push(("descr".into(), ok.clone()));
    leaves.push(("descr+ref".into(), raw2(&cell_bits(ok.as_ref()), &[cell_of(&[])])));
    for (s, c) in &descr { if s.starts_with("shard") || s == "currencies" { leaves.push((s.clone(), c.clone())) } }
    for s in ["", "0", "1", "01011", "10", "11", "00"] { leaves.push((format!("bits {s}"), cell_of(&bits_of(s)))) }
    let inner: Vec<(String, Cell)> = (0..leaves.len() * leaves.len()).map(|i| { let (a, b) = (&leaves[i % leaves.len()], &leaves[i / leaves.len()]); (format!("({}, {})", a.0, b.0), raw2(&[1], &[a.1.clone(), b.1.clone()])) }).collect();
    let all: Vec<&(String, Cell)> = leaves.iter().chain(inner.iter()).collect();
    let n = all.len() as u64;
    let probe = |root: &Cell, wc: i32, ctx: &dyn Fn() -> String, l: &mut L| -> R {
        l.ev();
        l.st(1);
        l.tr(1);
        let mut d: Dict<i32, Cell> = Dict::new();
        d.set(wc, root.clone()).unwrap();
        if wc == 0 { d.set(-1, root.clone()).unwrap(); d.set(5, cell_of(&[])).unwrap() } else { true };
        let x = np("shards/build", ctx, || CellBuilder::build_from(&d).and_then(|c| c.parse::<tycho_types::models::ShardHashes>()))?;
        let Ok(h) = x else { bad!("shards/not-loaded", "{}", ctx()) };
        match np("shards", ctx, || poke::poke(&h as &dyn std::any::Any))? { Err(poke::Endless(w)) => bad!("shards/endless", "{w} {}", ctx()), Ok(()) => Ok(()) }
    };
    let lv = leaves.len() as u64;
    r.section("shard-forks", n * lv * 5, |idx, l| {
        let mut ix = Ix(idx);
        let (k, a, b) = (ix.us(5), all[ix.us(n as usize)], &leaves[ix.us(lv as usize)]);
        let root = match k { 0 => raw2(&[1], &[a.1.clone(), b.1.clone()]), 1 => raw2(&[1], &[b.1.clone(), a.1.clone()]), 2 => raw2(&[1], &[a.1.clone()]), 3 => raw2(&[1], &[a.1.clone(), b.1.clone(), a.1.clone()]), _ => raw2(&[1, 0, 1], &[a.1.clone(), b.1.clone()]) };
        probe(&root, [0, -1][k % 2], &|| format!("form {k} of {} and {}", a.0, b.0), l)
    });
    let depths: Vec<usize> = (56..68).chain([100, 200]).collect();
    r.section("shard-chains", depths.len() as u64 * lv * 2, |idx, l| {
        let mut ix = Ix(idx);
        let (d, a, left) = (*ix.of(&depths), &leaves[ix.us(lv as usize)], ix.bit());
        let mut c = a.1.clone();
        for _ in 0..d { c = raw2(&[1], &if left { [c, ok.clone()] } else { [ok.clone(), c] }) }
        probe(&c, 0, &|| format!("chain of {d} ending with {}, left {left}", a.0), l)
    });
}

/// A valid (augmented) dictionary of the first and the last key.
fn canon_fork(n: u16) -> Cell {
    let mut d: Option<Cell> = None;
    let n = n as usize;
    for k in [vec![0; n], vec![1; n]] {
        aug_dict_insert(&mut d, &mut cell_of(&k).as_slice_allow_exotic(), n as u16, &Xo(false), &cell_of(&[1, 0, 1, 1, 0, 0, 1, 0]).as_slice_allow_exotic(), SetMode::Set, Xo::comp_add, Cell::empty_context()).unwrap();
    }
    d.unwrap()
}
