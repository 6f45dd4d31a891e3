//! C18: the diff of a Merkle update is what reference counting over the two trees gives.
use super::c17::closed;
use super::daglib::*;
use crate::fw::*;
use crate::model::cells::*;
use crate::*;
use std::collections::{BTreeMap, HashSet};
use tycho_types::cell::*;
use tycho_types::merkle::*;

pub const META: Meta = Meta {
    id: "C18",
    level: "model_checking",
    rule: "a state is (old graph, new graph built over it, parent-closed set of used old cells); the diff computed by the real code from the update is compared with the difference of the reference counts of a store holding both trees and a store holding only the new one; non-trivial: some old cell survives",
    assumptions: &["both roots have level 0", "counts: one per root and one per reference of each stored cell (the reference-counting store of the repository's own tests)"],
    run,
};

fn counts(roots: &[&MC]) -> BTreeMap<H, u32> {
    let mut m: BTreeMap<H, u32> = BTreeMap::new();
    fn add(c: &MC, m: &mut BTreeMap<H, u32>) {
        let e = m.entry(*c.repr()).or_default();
        *e += 1;
        if *e == 1 { for r in &c.refs { add(r, m) } }
    }
    for r in roots { add(r, &mut m) }
    m
}

/// What the current algorithm computes: a cell survives when it is written in the new side (as a cell or as a
/// pruned branch); survivors hidden under a pruned branch are not seen (known finding).
fn as_is(old: &MC, visible: &HashSet<H>) -> BTreeMap<H, u32> {
    let mut m: BTreeMap<H, u32> = BTreeMap::new();
    fn go(c: &MC, v: &HashSet<H>, m: &mut BTreeMap<H, u32>) {
        for r in &c.refs {
            let e = m.entry(*r.repr()).or_default();
            *e += 1;
            if *e == 1 && !v.contains(r.repr()) { go(r, v, m) }
        }
    }
    m.insert(*old.repr(), 1);
    if !visible.contains(old.repr()) { go(old, visible, &mut m) }
    m
}

fn one(d: &Dag, p: &Pair, f: u32, l: &mut L) -> R {
    let old = d.root();
    let used: HashSet<H> = d.nodes.iter().enumerate().filter(|(j, _)| f >> j & 1 != 0).map(|(_, m)| *m.repr()).collect();
    if !closed(old, &used) { return Ok(()) }
    let ctx = || format!("old {} | {} | used={f:b}", d.show(), p.names);
    let hs: HashSet<HashBytes> = used.iter().map(hb).collect();
    l.st(1); l.tr(1); l.ev();
    let Ok(u) = MerkleUpdate::create(d.rroot().as_ref(), p.rnew.as_ref(), hs).build() else { return Ok(()) };
    let got = np("panic", &ctx, || u.compute_removed_cells(d.rroot().as_ref()).map(|x| x.into_iter().map(|(k, v)| (k.0, v)).collect::<BTreeMap<H, u32>>()))?;
    let got = match got { Ok(g) => g, Err(e) => bad!("refused", "{e:?} {}", ctx()) };
    let want: BTreeMap<H, u32> = if old.repr() == p.new.repr() { BTreeMap::new() } else {
        let (both, only) = (counts(&[old, &p.new]), counts(&[&p.new]));
        both.iter().filter_map(|(h, n)| { let k = n - only.get(h).copied().unwrap_or(0); (k > 0).then_some((*h, k)) }).collect()
    };
    if want.keys().any(|h| topo(&p.new).iter().any(|x| x.repr() == h)) { l.nt() }
    if got != want {
        let name = |m: &BTreeMap<H, u32>| m.iter().map(|(h, n)| format!("{}x{n}", d.nodes.iter().position(|x| x.repr() == h).map(|i| i.to_string()).unwrap_or("?".into()))).collect::<Vec<_>>().join(",");
        // survivors below pruned branches of the new side
        let mut vis: HashSet<H> = HashSet::new();
        fn see(c: &MC, used: &HashSet<H>, vis: &mut HashSet<H>, root: bool) {
            vis.insert(*c.repr());
            for r in &c.refs { if used.contains(r.repr()) && !r.refs.is_empty() { vis.insert(*r.repr()); } else { see(r, used, vis, false) } }
            let _ = root;
        }
        see(&p.new, &used, &mut vis, true);
        let key = if got == as_is(old, &vis) { "survivor-below-pruned" } else { "diff" };
        l.fail(V { key: key.into(), detail: format!("got {} want {} {}", name(&got), name(&want), ctx()) });
        return Ok(());
    }
    // only for the tree the update starts from
    for (m, c) in d.nodes.iter().zip(&d.real).chain([(&p.new, &p.rnew)]) {
        if m.repr() == old.repr() { continue }
        ck!(np("panic", &ctx, || u.compute_removed_cells(c.as_ref()).is_err())?, "other-tree", "{}", ctx());
    }
    let n = match u.apply(d.rroot()) { Ok(n) => n, Err(e) => bad!("not-applied", "{e:?} {}", ctx()) };
    ckeq!(n.repr_hash().as_array(), p.new.repr(), "applied", "{}", ctx());
    Ok(())
}

fn graphs(r: &Run, name: &str, cfg: Cfg, m: usize, refs: usize) {
    let ds = dags(cfg);
    r.section(name, ds.len() as u64, |i, l| {
        let d = &ds[i as usize];
        for p in news(d, i as usize, m, refs, cfg.merkle) { for f in 0..1u32 << d.nodes.len() { one(d, &p, f, l)? } }
        Ok(())
    });
}

fn run(r: &Run) {
    let o = |n: usize, merkle: bool, odd: usize| Cfg { n, merkle, odd, masks: &[1], ..BASE };
    for n in 1..=3 { graphs(r, &format!("n{n}+0"), o(n, true, 2), 0, 2); graphs(r, &format!("n{n}+1"), o(n, true, 2), 1, 3) }
    graphs(r, "n3+2", o(3, true, 1), 2, 2);
    graphs(r, "n4+0", o(4, true, 1), 0, 2);
    graphs(r, "n4+1", o(4, true, 1), 1, 2);
    graphs(r, "n4+2", o(4, false, 0), 2, 2);
    graphs(r, "n5+0", o(5, false, 0), 0, 2);
    graphs(r, "n5+1", o(5, false, 0), 1, 2);
    graphs(r, "n6+0", o(6, false, 0), 0, 2);
    if !r.quick() { graphs(r, "n4+2m", o(4, true, 0), 2, 2); graphs(r, "n5+1m", o(5, true, 0), 1, 2); graphs(r, "n5+2", o(5, false, 0), 2, 2) }
}
