//! C26: the shard configuration tree against partitions of the address space.
use crate::fw::*;
use crate::model::bits::*;
use crate::model::cells;
use crate::model::dict::{build_cell, canon, Val};
use crate::*;
use tycho_types::cell::*;
use tycho_types::dict::*;
use tycho_types::error::*;
use tycho_types::models::*;
use tycho_types::num::Tokens;

pub const META: Meta = Meta {
    id: "C26",
    level: "model_checking",
    rule: "a state is a set (or multiset) of shards: every binary partition up to a depth, every subset of all shards up to a depth, every multiset of a smaller universe, comb partitions of every depth up to 60 with one shard dropped, doubled, split or merged, and their combinations over workchains; a transition is building the tree from one ordering of the set, or listing it by one of the iterators, compared with the partition; malformed trees are all trees up to a depth over node kinds {leaf, truncated leaf, empty, fork, fork with too few children, pruned, library}; non-trivial: the set is refused or the tree is malformed",
    assumptions: &["surplus bits and references of a well-formed node are not judged", "after the first error of an iterator over all workchains only termination is judged"],
    run,
};

fn word(p: &[u8]) -> u64 { let mut v = 0u64; for (i, b) in p.iter().enumerate() { v |= (*b as u64) << (63 - i) } v | 1u64 << (63 - p.len()) }
fn shard(wc: i32, p: &[u8]) -> ShardIdent { ShardIdent::new(wc, word(p)).expect("valid shard") }

fn descr(seed: u64) -> ShardDescription {
    let f = |k: u64| pattern(seed * 31 + k, 64);
    let h = |k: u64| HashBytes(pack(&pattern(seed * 17 + k, 256)).try_into().unwrap());
    let bit = |k: u64| seed >> k & 1 == 1;
    ShardDescription {
        seqno: to_u128(&f(1)[..32]) as u32, reg_mc_seqno: to_u128(&f(2)[..32]) as u32, start_lt: to_u128(&f(3)) as u64, end_lt: to_u128(&f(4)) as u64,
        root_hash: h(5), file_hash: h(6), before_split: bit(0), before_merge: bit(1), want_split: bit(2), want_merge: bit(3), nx_cc_updated: bit(4),
        next_catchain_seqno: to_u128(&f(7)[..32]) as u32, next_validator_shard: to_u128(&f(8)) as u64, min_ref_mc_seqno: to_u128(&f(9)[..32]) as u32, gen_utime: to_u128(&f(10)[..32]) as u32,
        split_merge_at: match seed % 3 { 0 => None, 1 => Some(FutureSplitMerge::Split { split_utime: seed as u32, interval: 7 }), _ => Some(FutureSplitMerge::Merge { merge_utime: 9, interval: seed as u32 }) },
        fees_collected: CurrencyCollection::new(seed as u128 * 1000), funds_created: CurrencyCollection { tokens: Tokens::new(seed as u128), other: ExtraCurrencyCollection::new() },
    }
}
fn leaf_bits(d: &ShardDescription) -> B {
    let mut b = vec![0];
    b.extend(uint(0xa, 4));
    for v in [d.seqno, d.reg_mc_seqno] { b.extend(uint(v as u128, 32)) }
    for v in [d.start_lt, d.end_lt] { b.extend(uint(v as u128, 64)) }
    for h in [&d.root_hash, &d.file_hash] { b.extend(from_bytes(&h.0, 256)) }
    b.extend([d.before_split, d.before_merge, d.want_split, d.want_merge, d.nx_cc_updated].map(|x| x as u8));
    b.extend([0; 3]);
    b.extend(uint(d.next_catchain_seqno as u128, 32));
    b.extend(uint(d.next_validator_shard as u128, 64));
    b.extend(uint(d.min_ref_mc_seqno as u128, 32));
    b.extend(uint(d.gen_utime as u128, 32));
    match d.split_merge_at {
        None => b.push(0),
        Some(FutureSplitMerge::Split { split_utime, interval }) => { b.extend([1, 0]); b.extend(uint(split_utime as u128, 32)); b.extend(uint(interval as u128, 32)) }
        Some(FutureSplitMerge::Merge { merge_utime, interval }) => { b.extend([1, 1]); b.extend(uint(merge_utime as u128, 32)); b.extend(uint(interval as u128, 32)) }
    }
    b
}
fn fees_bits(d: &ShardDescription) -> B {
    let mut b = vec![];
    for t in [&d.fees_collected, &d.funds_created] {
        let v = t.tokens.into_inner();
        let n = (128 - v.leading_zeros()).div_ceil(8) as usize;
        b.extend(uint(n as u128, 4));
        b.extend(uint(v, n * 8));
        b.push(0);
    }
    b
}
fn leaf_cell(d: &ShardDescription) -> Cell { build_cell(&leaf_bits(d), &[&cell_of(&fees_bits(d))]).unwrap() }

type Item = (B, u64);
/// the canonical tree of a partition, or none if the sorted shards are not one
fn tree(items: &[Item]) -> Option<Cell> {
    fn go(items: &mut &[Item], at: &mut B) -> Option<Cell> {
        let (p, s) = items.first()?;
        if p == at { *items = &items[1..]; return Some(leaf_cell(&descr(*s))) }
        if !p.starts_with(at) { return None }
        at.push(0);
        let a = go(items, at)?;
        *at.last_mut().unwrap() = 1;
        let b = go(items, at)?;
        at.pop();
        build_cell(&[1], &[&a, &b])
    }
    let mut it = items;
    let r = go(&mut it, &mut vec![])?;
    it.is_empty().then_some(r)
}

/// build from shards of some workchains, given in some order, and list the result in every way
fn judge(sets: &[(i32, Vec<Item>)], orders: usize, l: &mut L) -> R {
    let mut groups: Vec<(i32, Vec<Item>)> = sets.iter().filter(|s| !s.1.is_empty()).cloned().collect();
    for g in &mut groups { g.1.sort_by(|a, b| word(&a.0).cmp(&word(&b.0))) }
    let trees: Vec<Option<Cell>> = groups.iter().map(|g| tree(&g.1)).collect();
    let ok = trees.iter().all(|t| t.is_some());
    let flat: Vec<(ShardIdent, ShardDescription)> = groups.iter().flat_map(|(w, g)| g.iter().map(|(p, s)| (shard(*w, p), descr(*s)))).collect();
    let ctx = || flat.iter().map(|f| f.0.to_string()).collect::<Vec<_>>().join(" ");
    l.st(1);
    let n = flat.len();
    let mut built = None;
    for o in 0..orders {
        let ord: Vec<usize> = match o { 0 => (0..n).collect(), 1 => (0..n).rev().collect(), _ => { let k = n / 2; (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).skip(k).chain((0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).take(k)).collect() } };
        l.ev();
        l.tr(1);
        let got = np("panic", ctx, || ShardHashes::from_shards(ord.iter().map(|i| (&flat[*i].0, &flat[*i].1))))?;
        match got {
            Ok(h) => { if !ok { bad!("not-a-partition", "accepted order={o} {}", ctx()) } built = Some(h) }
            Err(e) => { l.nt(); if ok { bad!("partition-refused", "{e:?} order={o} {}", ctx()) } ckeq!(e, Error::Unbalanced, "refuse-error", "{}", ctx()); }
        }
        if let Some(h) = &built {
            let mut es: Vec<(B, Val)> = groups.iter().zip(&trees).map(|(g, t)| (uint(g.0 as u32 as u128, 32), Val { bits: vec![], refs: vec![t.clone().unwrap()] })).collect();
            es.sort_by(|a, b| a.0.cmp(&b.0));
            let want = canon(&es, 32).unwrap();
            ckeq!(h.as_dict().root().as_ref().map(|c| *c.repr_hash()), want.map(|c| *c.repr_hash()), "cells", "order={o} {}", ctx());
        }
    }
    let Some(h) = built else { return Ok(()) };
    // listing: workchains in the order of their bits
    let mut want: Vec<&(i32, Vec<Item>)> = groups.iter().collect();
    want.sort_by_key(|g| g.0 as u32);
    let list: Vec<(ShardIdent, ShardDescription)> = want.iter().flat_map(|(w, g)| g.iter().map(|(p, s)| (shard(*w, p), descr(*s)))).collect();
    let ids: Vec<BlockId> = list.iter().map(|(s, d)| BlockId { shard: *s, seqno: d.seqno, root_hash: d.root_hash, file_hash: d.file_hash }).collect();
    l.evn(12);
    l.tr(5);
    ckeq!(h.iter().collect::<Result<Vec<_>, _>>().ok(), Some(list.clone()), "iter", "{}", ctx());
    ckeq!(h.latest_blocks().collect::<Result<Vec<_>, _>>().ok(), Some(ids.clone()), "latest_blocks", "{}", ctx());
    ckeq!(list.iter().map(|(s, d)| d.as_block_id(*s)).collect::<Vec<_>>(), ids, "as_block_id", "{}", ctx());
    let raw = |it: &mut dyn Iterator<Item = Result<(ShardIdent, CellSlice<'_>), Error>>| it.map(|x| x.ok().map(|(s, v)| (s, slice_bits(&v), v.size_refs()))).collect::<Vec<_>>();
    let wraw = |f: &dyn Fn(&ShardIdent) -> bool| list.iter().filter(|x| f(&x.0)).map(|(s, d)| Some((*s, leaf_bits(d)[1..].to_vec(), 1u8))).collect::<Vec<_>>();
    ckeq!(raw(&mut h.raw_iter()), wraw(&|_| true), "raw_iter", "{}", ctx());
    ckeq!(ShardHashes::from_dict(h.clone().into_dict()), h.clone(), "dict", "{}", ctx());
    ckeq!(CellBuilder::build_from(&h).unwrap().parse::<ShardHashes>().ok(), Some(h.clone()), "load", "{}", ctx());
    for wc in [0, 1, -1, 7, i32::MIN, i32::MAX] {
        let at = groups.iter().find(|g| g.0 == wc);
        ckeq!(h.contains_workchain::<()>(wc).ok(), Some(at.is_some()), "contains_workchain", "{wc} {}", ctx());
        let g = np("panic", ctx, || h.get_workchain_shards(wc))?;
        let (Ok(Some(w)), Some((_, items))) = (&g, at) else { ck!(matches!(g, Ok(None)) && at.is_none(), "get_workchain_shards", "{wc} {}", ctx()); continue };
        let wl: Vec<_> = items.iter().map(|(p, s)| (shard(wc, p), descr(*s))).collect();
        ckeq!(w.workchain(), wc, "workchain", "{}", ctx());
        ckeq!(Some(*w.root().repr_hash()), tree(items).map(|c| *c.repr_hash()), "root", "{}", ctx());
        ckeq!(w.iter().collect::<Result<Vec<_>, _>>().ok(), Some(wl.clone()), "wc-iter", "{}", ctx());
        ckeq!(w.keys().collect::<Result<Vec<_>, _>>().ok(), Some(wl.iter().map(|x| x.0).collect()), "wc-keys", "{}", ctx());
        ckeq!(w.latest_blocks().collect::<Result<Vec<_>, _>>().ok(), Some(wl.iter().map(|(s, d)| d.as_block_id(*s)).collect()), "wc-latest_blocks", "{}", ctx());
        ckeq!(raw(&mut w.raw_iter()), wraw(&|s| s.workchain() == wc), "wc-raw_iter", "{}", ctx());
        ckeq!(w.raw_values().map(|v| v.ok().map(|v| slice_bits(&v))).collect::<Vec<_>>(), wl.iter().map(|(_, d)| Some(leaf_bits(d)[1..].to_vec())).collect::<Vec<_>>(), "wc-raw_values", "{}", ctx());
        let own = *w.clone().into_root().repr_hash(); ckeq!(own, *w.root().repr_hash(), "into_root", "{}", ctx());
        // every cell of the partition covers exactly the accounts below it: exactly one shard per probe
        for (p, _) in items { for tail in 0..2u8 { let mut a = p.clone(); a.resize(256, tail); let acc = HashBytes(pack(&a).try_into().unwrap()); ckeq!(w.keys().filter(|k| k.as_ref().unwrap().contains_account(&acc)).count(), 1, "one-shard-per-account", "{}", ctx()); } }
    }
    Ok(())
}

/// all partitions of the subtree at depth `d` below a prefix
fn partitions(d: usize) -> Vec<Vec<B>> {
    let mut out = vec![vec![vec![]]];
    if d > 0 {
        let sub = partitions(d - 1);
        for a in &sub { for b in &sub {
            let mut v: Vec<B> = vec![];
            for (bit, s) in [(0u8, a), (1, b)] { for p in s { let mut q = vec![bit]; q.extend(p); v.push(q) } }
            out.push(v);
        } }
    }
    out
}
fn items(ps: &[B], seed: u64) -> Vec<Item> { ps.iter().enumerate().map(|(i, p)| (p.clone(), seed + i as u64)).collect() }

// ---- malformed trees
#[derive(Clone)]
struct Node { cell: Cell, list: Vec<(B, Option<u64>)>, broken: bool }
/// the listing a tree must give: leaves in order until the first defect (a leaf of none is a truncated description)
fn fork(a: &Node, b: Option<&Node>) -> Option<Node> {
    let cell = build_cell(&[1], &[Some(&a.cell), b.map(|b| &b.cell)].into_iter().flatten().collect::<Vec<_>>())?;
    let mut list = vec![];
    for (p, s) in &a.list { let mut q = vec![0]; q.extend(p); list.push((q, *s)) }
    let mut broken = a.broken;
    if !broken { match b { None => broken = true, Some(b) => { for (p, s) in &b.list { let mut q = vec![1]; q.extend(p); list.push((q, *s)) } broken = b.broken } } }
    Some(Node { cell, list, broken })
}
fn atoms() -> Vec<Node> {
    let d = descr(1);
    let fees = cell_of(&fees_bits(&d));
    let lb = leaf_bits(&d);
    let mk = |cell: Option<Cell>, list: Vec<(B, Option<u64>)>, broken| Node { cell: cell.unwrap(), list, broken };
    let h = [7u8; 32];
    vec![
        mk(Some(leaf_cell(&d)), vec![(vec![], Some(1))], false),
        mk(build_cell(&lb[..100], &[&fees]), vec![(vec![], None)], false),
        mk(build_cell(&lb, &[]), vec![(vec![], None)], false),
        mk(build_cell(&[], &[]), vec![], true),
        mk(build_cell(&[], &[&fees, &fees]), vec![], true),
        mk(build_cell(&[1], &[]), vec![], true),
        mk(Some(cells::real(&cells::lib(&h))), vec![], true),
        mk(Some(cells::real(&cells::pruned_raw(1, &[(h, 3)]))), vec![], true),
    ]
}
fn malformed(n: &Node, wc: i32, l: &mut L) -> R {
    let ctx = || format!("wc={wc} {}", Boc_show(&n.cell));
    let d = Dict::<i32, Cell>::new();
    let mut d = d;
    d.set(wc, &n.cell).unwrap();
    let second = leaf_cell(&descr(9));
    d.set(100, &second).unwrap();
    let h = ShardHashes::from_dict(d);
    let w = h.get_workchain_shards(wc).unwrap().unwrap();
    l.st(1);
    l.tr(5);
    l.evn(6);
    if n.broken || n.list.iter().any(|x| x.1.is_none()) { l.nt() }
    let limit = n.list.len() + 4;
    let want_raw: Vec<Option<ShardIdent>> = n.list.iter().map(|(p, _)| Some(shard(wc, p))).chain(n.broken.then_some(None)).collect();
    let mut cut = want_raw.clone();
    if let Some(k) = n.list.iter().position(|x| x.1.is_none()) { cut.truncate(k); cut.push(None) }
    let run = |it: &mut dyn Iterator<Item = Option<ShardIdent>>| it.take(limit + 8).collect::<Vec<_>>();
    ckeq!(np("panic", ctx, || run(&mut w.keys().map(|x| x.ok())))?, want_raw.clone(), "malformed-keys", "{}", ctx());
    ckeq!(np("panic", ctx, || run(&mut w.raw_iter().map(|x| x.ok().map(|x| x.0))))?, want_raw.clone(), "malformed-raw_iter", "{}", ctx());
    ckeq!(np("panic", ctx, || w.raw_values().take(limit).map(|x| x.is_ok()).collect::<Vec<_>>())?, want_raw.iter().map(|x| x.is_some()).collect::<Vec<_>>(), "malformed-raw_values", "{}", ctx());
    ckeq!(np("panic", ctx, || run(&mut w.iter().map(|x| x.ok().map(|x| x.0))))?, cut.clone(), "malformed-iter", "{}", ctx());
    // identifiers need only the leading fields: the truncated leaf of 100 bits does not have them, the one without a reference does
    let lb = np("panic", ctx, || w.latest_blocks().take(limit).map(|x| x.ok().map(|b| b.shard)).collect::<Vec<_>>())?;
    ck!(lb.len() <= want_raw.len() && lb.iter().zip(&want_raw).all(|(a, b)| a.is_none() || a == b), "malformed-latest_blocks", "{}", ctx());
    ck!(!n.broken || lb.contains(&None), "malformed-latest_blocks", "{}", ctx());
    // over all workchains: the same up to the first error
    let all = np("panic", ctx, || h.iter().take(limit + 8).map(|x| x.ok().map(|x| x.0)).collect::<Vec<_>>())?;
    let mut wall = cut.clone();
    // workchains are listed in the order of the bits of their keys
    if wc < 0 { wall.insert(0, Some(shard(100, &[]))); ckeq!(all[..wall.len().min(all.len())], wall[..], "malformed-all", "{}", ctx()); ck!(all.len() < limit + 8, "malformed-all", "{}", ctx()); return Ok(()) }
    if wall.contains(&None) { ck!(all.len() >= wall.len() && all[..wall.len()] == wall[..] && all.len() < limit + 8, "malformed-all", "{all:?} want {wall:?} {}", ctx()) } else { wall.push(Some(shard(100, &[]))); ckeq!(all, wall, "malformed-all", "{}", ctx()) }
    Ok(())
}
#[allow(non_snake_case)]
fn Boc_show(c: &Cell) -> String { format!("{}b[{}]", c.bit_len(), (0..c.reference_count()).filter_map(|i| c.reference_cloned(i)).map(|c| Boc_show(&c)).collect::<Vec<_>>().join(",")) }

fn run(r: &Run) {
    let q = r.quick();
    let d4 = partitions(if q { 4 } else { 4 });
    r.section("partitions", d4.len() as u64, |i, l| judge(&[(0, items(&d4[i as usize], i))], 3, l));
    let d3 = partitions(3);
    r.section("two-workchains", (d3.len() * d3.len()) as u64, |i, l| {
        let (a, b) = (&d3[i as usize / d3.len()], &d3[i as usize % d3.len()]);
        judge(&[([0, 7, i32::MAX][i as usize % 3], items(a, i)), ([1, i32::MIN, -2][i as usize % 3], items(b, i + 40))], 3, l)
    });
    r.section("masterchain", d3.len() as u64, |i, l| judge(&[(-1, items(&[vec![]], 3)), (0, items(&d3[i as usize], i))], 3, l));
    // all subsets of the shards up to a depth
    let nodes: Vec<B> = { let mut v: Vec<B> = vec![vec![]]; let mut i = 0; while v[i].len() < 3 { for b in 0..2 { let mut x = v[i].clone(); x.push(b); v.push(x) } i += 1 } v };
    r.section("subsets", 1 << nodes.len(), |m, l| judge(&[(0, items(&nodes.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|x| x.1.clone()).collect::<Vec<_>>(), m))], 2, l));
    // multisets of a smaller universe, next to a good workchain
    r.section("multisets", 3u64.pow(7), |m, l| {
        let v: Vec<B> = nodes[..7].iter().enumerate().flat_map(|(i, p)| vec![p.clone(); (m / 3u64.pow(i as u32) % 3) as usize]).collect();
        judge(&[(0, items(&v, m))], 2, l)?;
        judge(&[(0, items(&v, m)), (1, items(&[vec![0], vec![1]], 5))], 2, l)
    });
    // combs of every depth
    let paths: Vec<B> = vec![vec![0; 60], vec![1; 60], (0..60).map(|i| (i & 1) as u8).collect(), pattern(3, 60), pattern(8, 60)];
    r.section("combs", paths.len() as u64 * 60, |i, l| {
        let (p, n) = (&paths[i as usize / 60], i as usize % 60 + 1);
        let mut v: Vec<B> = (0..n).map(|k| { let mut x = p[..=k].to_vec(); x[k] ^= 1; x }).collect();
        v.push(p[..n].to_vec());
        judge(&[(0, items(&v, i))], 3, l)?;
        for k in (0..v.len()).step_by(if q { 1 + n / 8 } else { 1 }) {
            let mut w = v.clone(); w.remove(k); judge(&[(0, items(&w, i))], 1, l)?;
            let mut w = v.clone(); w.push(v[k].clone()); judge(&[(0, items(&w, i))], 1, l)?;
            if v[k].len() < 60 {
                let mut w = v.clone(); let mut x = v[k].clone(); x.push(0); w.push(x.clone()); judge(&[(0, items(&w, i))], 1, l)?;
                w[k] = { let mut y = v[k].clone(); y.push(1); y }; judge(&[(0, items(&w, i))], 2, l)?;
            }
            if v[k].len() > 1 { let mut w = v.clone(); w[k].pop(); judge(&[(0, items(&w, i))], 1, l)?; }
        }
        Ok(())
    });
    // malformed trees
    let a = atoms();
    let grow = |v: &[Node]| { let mut o = v.to_vec(); for x in v { o.extend(fork(x, None)); for y in v { o.extend(fork(x, Some(y))) } } o };
    let l1 = grow(&a);
    r.section("malformed", l1.len() as u64, |i, l| {
        let x = &l1[i as usize];
        for wc in [0, -5] { malformed(x, wc, l)? }
        let some: Vec<&Node> = if q { l1.iter().step_by(3).collect() } else { l1.iter().collect() };
        for y in some { if let Some(n) = fork(x, Some(y)) { malformed(&n, 0, l)? } }
        if let Some(n) = fork(x, None) { malformed(&n, 0, l)? }
        Ok(())
    });
    // depth: shards of depth 60 are listed, deeper ones refused
    r.section("depth", 2 * 5, |i, l| {
        let p = &paths[i as usize / 2];
        let n = 60 + i as usize % 2;
        let mut c = leaf_cell(&descr(1));
        let other = leaf_cell(&descr(2));
        for k in (0..n).rev() { let b = p[k % 60]; c = build_cell(&[1], &if b == 0 { [&c, &other] } else { [&other, &c] }).unwrap(); }
        let mut d = Dict::<i32, Cell>::new();
        d.set(0, &c).unwrap();
        let h = ShardHashes::from_dict(d);
        let got = np("panic", || format!("{n}"), || h.iter().take(100).map(|x| x.map(|x| x.0.prefix_len())).collect::<Result<Vec<_>, _>>())?;
        l.evn(1);
        if n == 60 { let g = got.ok(); ck!(g.as_ref().is_some_and(|g| g.len() == 61 && g.iter().filter(|x| **x == 60).count() == 2), "depth", "{g:?}") } else { ck!(got.is_err(), "depth", "{n}") }
        Ok(())
    });
}
