//! C31: statistics of distinct cells.
use super::daglib::*;
use crate::fw::*;
use crate::model::{bits::*, cells::*};
use crate::{ck, ckeq};
use std::collections::{BTreeMap, HashSet};
use tycho_types::cell::*;

pub const META: Meta = Meta {
    id: "C31",
    level: "model_checking",
    rule: "a state is a small graph of cells (every graph to a size, all kinds of cells, shared, unshared and usage-tracked instances) with the set of cells counted so far, a transition adds a cell or a window of a cell; every sequence of additions to a length is run under every limit and compared with a set of the reachable cells; non-trivial: sharing inside or between the added roots, or a limit that is reached",
    assumptions: &["after an addition that reports the limit the counters are not judged"],
    run,
};

#[derive(Clone, Copy)]
enum Op { Cell(usize), Slice(usize, u8, u8, u16, u16) }

fn model(n: &MC, seen: &mut BTreeMap<H, u64>) {
    if seen.insert(*n.repr(), n.bits.len() as u64).is_none() { for r in &n.refs { model(r, seen) } }
}
/// the same tree with every reference pointing to a cell of its own
fn unshared(m: &MC) -> Cell { try_real(m.exotic(), &m.bits, &m.refs.iter().map(unshared).collect::<Vec<_>>()).unwrap() }

fn seq(d: &Dag, real: &[Cell], ops: &[Op], what: &str, l: &mut L) -> R {
    // expected counters after every step
    let mut seen = BTreeMap::new();
    let (mut own, mut steps) = (0u64, vec![]);
    let mut paths = 0usize;
    for o in ops {
        match *o {
            Op::Cell(i) => { model(&d.nodes[i], &mut seen); paths += 1 }
            Op::Slice(i, r0, r1, b0, b1) => { own += (b1 - b0) as u64; for r in &d.nodes[i].refs[r0 as usize..r1 as usize] { model(r, &mut seen); paths += 1 } }
        }
        steps.push((seen.len() as u64, seen.values().sum::<u64>() + own));
    }
    let total = seen.len();
    for limit in (0..=total + 1).chain([usize::MAX]) {
        let ctx = || format!("{what} {} ops={:?} limit={limit}", d.show(), ops.iter().map(|o| match o { Op::Cell(i) => format!("cell {i}"), Op::Slice(i, a, b, c, e) => format!("slice {i} refs {a}..{b} bits {c}..{e}") }).collect::<Vec<_>>());
        let mut st = if limit == usize::MAX { StorageStat::unlimited() } else { StorageStat::with_limit(limit) };
        l.ev();
        if limit <= total || paths > 1 { l.nt() }
        for (o, (cells, bits)) in ops.iter().zip(&steps) {
            l.tr(1);
            let (ok, single) = match *o {
                Op::Cell(i) => (st.add_cell(real[i].as_ref()), real[i].compute_unique_stats(limit)),
                Op::Slice(i, r0, r1, b0, b1) => { let s = window(&real[i], r0, r1, b0, b1); (st.add_slice(&s), s.compute_unique_stats(limit)) }
            };
            ckeq!(ok, *cells <= limit as u64, "limit", "{}", ctx());
            if ops.len() == 1 { ckeq!(single.map(|s| (s.cell_count, s.bit_count)), (*cells <= limit as u64).then_some((*cells, *bits)), "single", "{}", ctx()) }
            if !ok { break }
            let s = st.stats();
            ckeq!((s.cell_count, s.bit_count), (*cells, *bits), "stats", "{}", ctx());
        }
    }
    Ok(())
}
fn window(c: &Cell, r0: u8, r1: u8, b0: u16, b1: u16) -> CellSlice<'_> {
    let mut s = c.as_slice_allow_exotic();
    let (n, k) = (s.size_bits(), s.size_refs());
    s.skip_first(b0, r0).unwrap();
    s.skip_last(n - b1, k - r1).unwrap();
    s
}
fn ops_of(d: &Dag, wide: bool) -> Vec<Op> {
    let mut v = vec![];
    for (i, n) in d.nodes.iter().enumerate() {
        v.push(Op::Cell(i));
        let (b, k) = (n.bits.len() as u16, n.refs.len() as u8);
        for r0 in 0..=k { for r1 in r0..=k {
            if !wide && !(r0 == 0 && r1 == k || r1 == r0 + 1) { continue }
            for (b0, b1) in if wide { vec![(0, b), (0, 0), (b / 3, b), (b, b), (1.min(b), b - b / 4)] } else if r0 == 0 { vec![(0, b)] } else { vec![(b / 2, b)] } { v.push(Op::Slice(i, r0, r1, b0, b1)) }
        }}
    }
    v
}

/// The used storage of an account is counted on the cell of its storage part.
fn accounts(r: &Run) {
    use super::tlb::*;
    use tycho_types::error::Error;
    use tycho_types::models::*;
    let f = |g: &mut G, w: &mut W| Account { address: IntAddr::default(), storage_stat: StorageInfo::default(), last_trans_lt: g.u64(w), balance: g.cc(w), state: account_state(g, w) };
    let paths = explore(&f);
    r.section("accounts", paths.len() as u64, |i, l| {
        let mut w = W::new();
        let a = f(&mut G::new(&paths[i as usize]), &mut w);
        if !w.fits() { return Ok(()) }
        l.st(1);
        let m = abstract_cell(w.build().as_ref()).unwrap();
        let mut seen = BTreeMap::new();
        model(&m, &mut seen);
        let bits = seen.values().sum::<u64>();
        for limit in (0..=seen.len() + 1).chain([usize::MAX]) {
            l.ev();
            if limit <= seen.len() { l.nt() }
            let got = np("account-panic", || format!("{:?} limit {limit}", paths[i as usize]), || StorageUsed::compute(&a, limit))?;
            let want = if limit < seen.len() { Err(Error::Cancelled) } else { Ok((seen.len() as u64, bits)) };
            ck!(match (&got, &want) { (Ok(x), Ok(y)) => (x.cells.into_inner(), x.bits.into_inner()) == *y, (Err(_), Err(_)) => true, _ => false }, "account", "{got:?} for {want:?} {:?} limit {limit}", paths[i as usize]);
        }
        Ok(())
    });
}

fn run(r: &Run) {
    accounts(r);
    let q = r.quick();
    let b = Cfg { closed: false, ..BASE };
    let mut sets: Vec<(&str, Vec<Dag>, usize, bool)> = vec![
        ("n1-2", [1, 2].iter().flat_map(|n| dags(Cfg { n: *n, refs: 4, odd: 1, ..b })).collect(), 3, true),
        ("n3", dags(Cfg { n: 3, refs: 3, ..b }), 2, true),
        ("n4", dags(Cfg { n: 4, refs: 2, ..b }), 2, false),
    ];
    sets.push(("n5", dags(Cfg { n: 5, refs: 2, merkle: false, odd: 0, ..b }), if q { 1 } else { 2 }, false));
    if !q { sets.push(("n6", dags(Cfg { n: 6, refs: 2, merkle: false, odd: 0, ..b }), 1, false)) }
    if !q { sets.push(("n3-long", dags(Cfg { n: 3, refs: 2, ..b }), 3, false)) }
    for (name, ds, len, wide) in &sets {
        r.section(name, ds.len() as u64, |i, l| {
            let d = &ds[i as usize];
            l.st(1);
            let ops = ops_of(d, *wide);
            let un: Vec<Cell> = d.nodes.iter().map(unshared).collect();
            let trees: Vec<UsageTree> = d.nodes.iter().map(|_| UsageTree::new(UsageTreeMode::OnLoad)).collect();
            let tracked: Vec<Cell> = d.real.iter().zip(&trees).map(|(c, t)| t.track(c)).collect();
            fn rec(d: &Dag, real: &[&[Cell]], ops: &[Op], cur: &mut Vec<Op>, len: usize, l: &mut L) -> R {
                if !cur.is_empty() { for (k, r) in real.iter().enumerate() { if k == 0 || cur.len() < 2 || (cur.len() == 2 && ops.len() < 60) { seq(d, r, cur, ["shared", "unshared", "tracked"][k], l)? } } }
                if cur.len() < len { for o in ops { cur.push(*o); rec(d, real, ops, cur, len, l)?; cur.pop(); } }
                Ok(())
            }
            rec(d, &[&d.real, &un, &tracked], &ops, &mut vec![], *len, l)
        });
    }
    // long chains and exponentially many paths
    r.section("deep", 8, |i, l| {
        let (n, fan, limit) = ([1000usize, 20000, 500, 60000][(i % 4) as usize], 1 + 3 * (i / 4) as usize, 0);
        let _ = limit;
        let mut c = cell_of(&uint(i as _, 20));
        let (mut cells, mut bits) = (1u64, 20u64);
        for k in 0..n { let mut b = builder_of(&uint(k as u128 * 8 + i as u128, 32)); for _ in 0..fan { b.store_reference(c.clone()).unwrap() } c = b.build().unwrap(); cells += 1; bits += 32; }
        l.ev();
        l.nt();
        for lim in [1usize, cells as usize / 2, cells as usize - 1, cells as usize, usize::MAX] {
            l.tr(1);
            ckeq!(c.compute_unique_stats(lim).map(|s| (s.cell_count, s.bit_count)), (cells <= lim as u64).then_some((cells, bits)), "deep", "n={n} fan={fan} limit={lim}");
            let s = c.as_slice().unwrap();
            ckeq!(s.compute_unique_stats(lim).map(|s| (s.cell_count, s.bit_count)), (cells - 1 <= lim as u64).then_some((cells - 1, bits)), "deep-slice", "n={n} fan={fan} limit={lim}");
        }
        Ok(())
    });
    // every pair of data lengths
    r.section("lengths", 1024, |i, l| {
        let leaf = cell_of(&pattern(i, i as usize));
        for n in [0u16, 1, 7, 8, 511, 1022, 1023] {
            l.ev();
            let mut b = builder_of(&pattern(i + 7, n as usize));
            b.store_reference(leaf.clone()).unwrap();
            let c = b.build().unwrap();
            let mut hs = HashSet::new();
            hs.insert(*c.repr_hash());
            hs.insert(*leaf.repr_hash());
            ck!(hs.len() == 2, "setup", "");
            ckeq!(c.compute_unique_stats(9).map(|s| (s.cell_count, s.bit_count)), Some((2, i + n as u64)), "lengths", "{i} {n}");
        }
        Ok(())
    });
}
