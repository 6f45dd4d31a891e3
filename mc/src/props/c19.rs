//! C19: the parallel variants give what the sequential ones give, on every input, split and schedule.
use super::daglib::*;
use crate::fw::*;
use crate::model::{bits::*, cells::*, merkle::*};
use crate::sched::*;
use crate::*;
use std::collections::{BTreeSet, HashMap};
use std::sync::atomic::{AtomicU64, Ordering};
use tycho_types::boc::ser::BocHeader;
use tycho_types::boc::*;
use tycho_types::cell::*;
use tycho_types::error::Error;
use tycho_types::merkle::*;

pub const META: Meta = Meta {
    id: "C19",
    level: "model_checking",
    rule: "a state is (cell graph, filter, set of cells to split at, builder options[, schedule]); every state is run through the parallel builder on pools of several sizes and compared with the sequential builder (which C16 and C17 compare with independent definitions); the schedule sections enumerate the interleavings of the builder's tasks on a real thread pool at the points where a task starts or ends, asks the filter or creates a cell; the bag-of-cells writer is run for every cell count around its chunk boundaries; non-trivial: some task was spawned",
    assumptions: &["in the schedule sections tasks are switched at those points only; each library step between two points is atomic"],
    run,
};

/// a filter with a scheduling point
struct F<'a>(&'a HashMap<H, Act>);
impl MerkleFilter for F<'_> {
    fn check(&self, c: &HashBytes) -> FilterAction {
        point("filter");
        match self.0.get(&c.0) { None | Some(Act::Skip) => FilterAction::Skip, Some(Act::Include) => FilterAction::Include, Some(Act::Subtree) => FilterAction::IncludeSubtree }
    }
}

struct Ctx;
impl CellContext for Ctx {
    fn finalize_cell(&self, c: CellParts<'_>) -> Result<Cell, Error> {
        point("finalize");
        let r = Cell::empty_context().finalize_cell(c);
        r
    }
    fn load_cell(&self, c: Cell, _: LoadMode) -> Result<Cell, Error> { Ok(c) }
    fn load_dyn_cell<'s: 'a, 'a>(&'s self, c: &'a DynCell, _: LoadMode) -> Result<&'a DynCell, Error> { Ok(c) }
}

/// a filter and a context that count their calls
struct Work<'a> { set: &'a ahash::HashSet<HashBytes>, filter: AtomicU64, cells: AtomicU64 }
impl<'a> Work<'a> { fn new(set: &'a ahash::HashSet<HashBytes>) -> Self { Work { set, filter: AtomicU64::new(0), cells: AtomicU64::new(0) } } }
impl MerkleFilter for &Work<'_> {
    fn check(&self, c: &HashBytes) -> FilterAction {
        self.filter.fetch_add(1, Ordering::Relaxed);
        if self.set.contains(c) { FilterAction::Include } else { FilterAction::Skip }
    }
}
impl CellContext for Work<'_> {
    fn finalize_cell(&self, c: CellParts<'_>) -> Result<Cell, Error> {
        self.cells.fetch_add(1, Ordering::Relaxed);
        Cell::empty_context().finalize_cell(c)
    }
    fn load_cell(&self, c: Cell, _: LoadMode) -> Result<Cell, Error> { Ok(c) }
    fn load_dyn_cell<'s: 'a, 'a>(&'s self, c: &'a DynCell, _: LoadMode) -> Result<&'a DynCell, Error> { Ok(c) }
}

type Split = ahash::HashSet<HashBytes>;
type Out = Result<(HashBytes, BTreeSet<H>), Error>;

fn seq(d: &Dag, acts: &HashMap<H, Act>, allow: bool, big: bool) -> Out {
    let (c, p) = MerkleProof::create(d.rroot().as_ref(), F(acts)).track_pruned_branches().allow_different_root(allow).prune_big_cells(big).build_raw_ext(Cell::empty_context())?;
    Ok((*c.repr_hash(), p.iter().map(|h| h.0).collect()))
}
fn par(d: &Dag, acts: &HashMap<H, Act>, allow: bool, big: bool, split: &Split, ctx: &(dyn CellContext + Send + Sync)) -> Result<(Cell, BTreeSet<H>), Error> {
    let (c, p) = MerkleProof::create(d.rroot().as_ref(), F(acts)).track_pruned_branches().allow_different_root(allow).prune_big_cells(big).par_build_raw_ext(ctx, split.clone())?;
    let mut s = BTreeSet::new();
    p.scan(|h| { s.insert(h.0); });
    Ok((c, s))
}
fn same(a: &Out, b: &Result<(Cell, BTreeSet<H>), Error>) -> Result<(), String> {
    match (a, b) {
        (Ok((h, p)), Ok((c, q))) => {
            if c.repr_hash() != h { return Err(format!("cell {} instead of {h}", c.repr_hash())) }
            if p != q { return Err(format!("{} pruned cells instead of {}", q.len(), p.len())) }
            Ok(())
        }
        (Err(_), Err(_)) => Ok(()),
        (a, b) => Err(format!("parallel {:?}, sequential {:?}", b.as_ref().map(|x| *x.0.repr_hash()), a.as_ref().map(|x| x.0))),
    }
}

fn acts_of(d: &Dag, f: u64, n: u64) -> HashMap<H, Act> {
    let mut ix = Ix(f);
    d.nodes.iter().map(|m| (*m.repr(), [Act::Include, Act::Skip, Act::Subtree][ix.us(n as usize)])).collect()
}
fn split_of(d: &Dag, s: u32) -> Split { d.nodes.iter().enumerate().filter(|(j, _)| s >> j & 1 != 0).map(|(_, m)| hb(m.repr())).collect() }
fn show(d: &Dag, acts: &HashMap<H, Act>, s: &Split) -> String {
    format!("{} acts={:?} split={:?}", d.show(), d.nodes.iter().map(|m| acts.get(m.repr()).copied().unwrap_or(Act::Skip)).collect::<Vec<_>>(), d.nodes.iter().map(|m| s.contains(&hb(m.repr()))).collect::<Vec<_>>())
}

thread_local! { static POOLS: Vec<rayon::ThreadPool> = [1, 2, 4].iter().map(|n| rayon::ThreadPoolBuilder::new().num_threads(*n).build().unwrap()).collect(); }
thread_local! { static SPOOL: std::cell::RefCell<Option<Pool>> = const { std::cell::RefCell::new(None) } }

fn proofs(r: &Run, name: &str, cfg: Cfg, nact: u64, opts: u64, pools: usize) {
    let ds = dags(cfg);
    r.add_extra("graphs", ds.len() as u64);
    r.section(name, ds.len() as u64, |i, l| {
        let d = &ds[i as usize];
        for f in 0..nact.pow(cfg.n as u32) {
            let acts = acts_of(d, f, nact);
            for o in 0..opts {
                let (allow, big) = (o & 1 == 0, o & 2 != 0);
                let want = seq(d, &acts, allow, big);
                for s in 0..1u32 << (cfg.n - 1) {
                    let split = split_of(d, s);
                    for p in 0..pools {
                        l.ev();
                        l.st(1);
                        l.tr(1);
                        if s != 0 { l.nt() }
                        let got = POOLS.with(|ps| ps[(p + (s as usize)) % 3].install(|| np("panic", || show(d, &acts, &split), || par(d, &acts, allow, big, &split, Cell::empty_context()))))?;
                        if let Err(e) = same(&want, &got) { bad!("proof", "{e}: {} allow={allow} big={big}", show(d, &acts, &split)) }
                    }
                }
            }
        }
        Ok(())
    });
}

fn seq_update(d: &Dag, p: &Pair, acts: &HashMap<H, Act>) -> Result<MerkleUpdate, Error> { MerkleUpdate::create(d.rroot().as_ref(), p.rnew.as_ref(), F(acts)).build() }
fn par_update(d: &Dag, p: &Pair, acts: &HashMap<H, Act>, so: &Split, sn: &Split, ctx: &(dyn CellContext + Send + Sync)) -> Result<MerkleUpdate, Error> {
    MerkleUpdate::create(d.rroot().as_ref(), p.rnew.as_ref(), F(acts)).rayon_build_ext(so.clone(), sn.clone(), ctx)
}
fn same_update(a: &Result<MerkleUpdate, Error>, b: &Result<MerkleUpdate, Error>) -> Result<(), String> {
    match (a, b) {
        (Ok(a), Ok(b)) => {
            if a != b { return Err("updates differ".into()) }
            if a.old.repr_hash() != b.old.repr_hash() { return Err("old sides differ".into()) }
            if a.new.repr_hash() != b.new.repr_hash() { return Err("new sides differ".into()) }
            Ok(())
        }
        (Err(_), Err(_)) => Ok(()),
        (a, b) => Err(format!("parallel {:?}, sequential {:?}", b.is_ok(), a.is_ok())),
    }
}

fn updates(r: &Run, name: &str, cfg: Cfg, m: usize, refs: usize, nact: u64) {
    let ds = dags(cfg);
    r.section(name, ds.len() as u64, |i, l| {
        let d = &ds[i as usize];
        for p in news(d, i as usize, m, refs, cfg.merkle) {
            let nt = topo(&p.new);
            for f in 0..nact.pow(cfg.n as u32) {
                let acts = acts_of(d, f, nact);
                let want = seq_update(d, &p, &acts);
                // splitting the old tree anywhere and the new tree at the same cells and its own, and each alone
                for s in 0..1u32 << cfg.n {
                    let old = split_of(d, s);
                    let new: Split = old.iter().copied().chain(nt.iter().map(|m| hb(m.repr())).filter(|h| !d.nodes.iter().any(|x| hb(x.repr()) == *h))).collect();
                    let none = Split::default();
                    let both: &[(&Split, &Split)] = if s == 0 { &[(&old, &new), (&old, &none)] } else { &[(&old, &new), (&old, &none), (&none, &old)] };
                    for (so, sn) in both {
                        l.ev();
                        l.st(1);
                        l.tr(1);
                        if s != 0 { l.nt() }
                        let what = || format!("{} | {} old split {:?}", show(d, &acts, so), p.names, sn.len());
                        let got = POOLS.with(|ps| ps[s as usize % 3].install(|| np("panic", what, || par_update(d, &p, &acts, so, sn, Cell::empty_context()))))?;
                        if let Err(e) = same_update(&want, &got) { bad!("update", "{e}: {}", what()) }
                    }
                }
            }
        }
        Ok(())
    });
}

fn note(st: Stats, l: &mut L) {
    l.evn(st.schedules);
    l.ntn(st.schedules);
    l.st(1);
    l.tr(st.steps);
    l.traces(st.schedules);
    l.extra("schedules", st.schedules);
    l.extra("steps", st.steps);
    l.extra("diverged_replays", st.diverged);
    l.extra("truncated_explorations", st.truncated as u64);
}

fn scheduled<R: Send>(b: Bound, body: impl Fn() -> R + Sync, check: impl FnMut(R, &dyn Fn() -> String) -> R2, l: &mut L) -> R2 {
    let st = SPOOL.with(|p| {
        let mut p = p.borrow_mut();
        p.get_or_insert_with(|| Pool::new(4)).explore(b, body, check)
    })?;
    note(st, l);
    Ok(())
}
type R2 = Result<(), V>;

/// a chain of `n` cells in which both references of each cell are the next one
fn ladder(n: usize, tag: u8) -> Cell {
    let mut c = try_real(false, &uint(tag as u128, 8), &[]).unwrap();
    for i in 0..n { c = try_real(false, &uint(i as u128 + 1, 16), &[c.clone(), c]).unwrap() }
    c
}

/// a graph of `n` distinct cells
fn big_graph(n: usize, shape: u64) -> Vec<Cell> {
    let mut cells: Vec<Cell> = vec![];
    for i in 0..n {
        let k = match shape { 0 => 1, 1 => 4, _ => i % 5 };
        let refs: Vec<Cell> = match shape {
            // a bush: cell i holds cells near i*3/4
            _ if i == 0 => vec![],
            // the depth is limited to 16 bits: two strands joined by the last cell
            0 | 1 if n > 65_000 => match i { 1 => vec![], _ if i + 1 == n => vec![cells[i - 1].clone(), cells[i - 2].clone()], _ if shape == 0 => vec![cells[i - 2].clone()], _ => [2, 4, 7, 10].iter().filter_map(|j| cells.get(i.checked_sub(*j)?).cloned()).collect() },
            0 => vec![cells[i - 1].clone()],
            1 => (0..k).filter_map(|j| cells.get(i.checked_sub(1 + j * 3)?).cloned()).collect(),
            _ => (0..k.min(4)).filter_map(|j| cells.get(i.checked_sub(1 + j * j)?).cloned()).collect(),
        };
        let mut b = CellBuilder::new();
        b.store_uint(i as u64, 24).unwrap();
        for _ in 0..(i % 7) * 3 { b.store_small_uint((i % 13) as u8, 5).unwrap() }
        for r in refs { b.store_reference(r).unwrap() }
        cells.push(b.build().unwrap());
    }
    cells
}

fn run(r: &Run) {
    proofs(r, "proof/n2", Cfg { n: 2, refs: 4, odd: 2, masks: &[1, 3, 7], ..BASE }, 3, 4, 3);
    proofs(r, "proof/n3", Cfg { n: 3, refs: 3, odd: 1, masks: &[1, 3], ..BASE }, 3, 4, r.pick(1, 3));
    proofs(r, "proof/n4", Cfg { n: 4, refs: 2, odd: r.pick(0, 1), masks: &[1], ..BASE }, r.pick(2, 3), r.pick(1, 4), 1);
    proofs(r, "proof/n4-big", Cfg { n: 4, refs: 2, odd: 0, big: 288, merkle: false, ..BASE }, 2, 4, 1);
    proofs(r, "proof/n4-subtrees", Cfg { n: 4, refs: 2, odd: 0, merkle: false, ..BASE }, 3, 2, 1);
    if !r.quick() { proofs(r, "proof/n5", Cfg { n: 5, refs: 2, odd: 0, merkle: false, ..BASE }, 3, 2, 1) }

    let o = |n: usize, merkle: bool, odd: usize| Cfg { n, merkle, odd, masks: &[1], ..BASE };
    updates(r, "update/n2+1", o(2, true, 1), 1, 3, 3);
    updates(r, "update/n3+1", o(3, true, r.pick(0, 1)), 1, 2, 3);
    updates(r, "update/n3+0", o(3, true, 1), 0, 2, 3);
    updates(r, "update/n4+1", o(4, false, 0), 1, r.pick(1, 2), 3);
    if !r.quick() { updates(r, "update/n5+1", o(5, false, 0), 1, 1, 3) }

    // schedules of the proof builder
    let b = Bound { preemptions: u32::MAX, schedules: r.pick(150, 20_000) };
    let ds: Vec<Dag> = dags(Cfg { n: 4, refs: 2, odd: 0, merkle: false, ..BASE }).into_iter().chain(dags(Cfg { n: 3, refs: 3, odd: 0, merkle: true, ..BASE }).into_iter().step_by(5)).collect();
    let keep: Vec<&Dag> = ds.iter().step_by(r.pick(3, 1)).collect();
    r.section("schedules/proof", keep.len() as u64 * 16, |i, l| {
        let mut ix = Ix(i);
        let d = *ix.of(&keep);
        let s = ix.take(16) as u32;
        if s.count_ones() == 0 || s >= 1 << (d.nodes.len() - 1) { return Ok(()) }
        let split = split_of(d, s);
        // all visited; all but the first node
        for f in [0u64, 1] {
            let acts = acts_of(d, f, 2);
            let want = seq(d, &acts, true, false);
            scheduled(b, || par(d, &acts, true, false, &split, &Ctx), |got, sch| {
                same(&want, &got).map_err(|e| V { key: "proof".into(), detail: format!("{e}: {} | schedule {}", show(d, &acts, &split), sch()) })
            }, l)?;
        }
        Ok(())
    });
    // schedules of the update builder
    let us: Vec<(usize, Pair)> = ds.iter().enumerate().filter(|(_, d)| d.nodes.len() == 4).step_by(r.pick(11, 2)).flat_map(|(i, d)| news(d, i, 1, 1, false).into_iter().map(move |p| (i, p))).collect();
    r.section("schedules/update", us.len() as u64 * 8, |i, l| {
        let mut ix = Ix(i);
        let (di, p) = ix.of(&us);
        let d = &ds[*di];
        let s = ix.take(8) as u32;
        if s == 0 { return Ok(()) }
        let split = split_of(d, s);
        let acts = acts_of(d, 0, 2);
        let want = seq_update(d, p, &acts);
        scheduled(Bound { schedules: r.pick(200, 5000), ..b }, || par_update(d, p, &acts, &split, &split, &Ctx), |got, sch| {
            same_update(&want, &got).map_err(|e| V { key: "update".into(), detail: format!("{e}: {} | {} | schedule {}", show(d, &acts, &split), p.names, sch()) })
        }, l)
    });

    // sharing does not multiply the work: on a ladder of n cells every builder asks the filter and
    // creates cells a number of times that is linear in n
    let multiplied = std::sync::atomic::AtomicBool::new(false);
    let ladders = |n: usize, at: &[usize], l: &mut L| -> R {
        let old = ladder(n, 1);
        let new = try_real(false, &[1], &[old.clone()]).unwrap();
        let changed = ladder(n, 2);
        let ladder_of = |c: &Cell| {
            let mut all: Vec<HashBytes> = vec![*c.repr_hash()];
            let mut c = c.clone();
            while let Some(x) = c.reference_cloned(0) { all.push(*x.repr_hash()); c = x }
            all
        };
        let (all, other) = (ladder_of(&old), ladder_of(&changed));
        let set: ahash::HashSet<HashBytes> = all.iter().copied().collect();
        let split: Split = at.iter().map(|i| all[*i]).collect();
        let new_split: Split = at.iter().flat_map(|i| [all[*i], other[*i]]).collect();
        let limit = 16 * (n as u64 + 2) * (at.len() as u64 + 1);
        let work = |what: &str, w: &Work| -> R {
            let (f, c) = (w.filter.load(Ordering::Relaxed), w.cells.load(Ordering::Relaxed));
            if f > limit || c > limit { multiplied.store(true, Ordering::Relaxed) }
            ck!(f <= limit && c <= limit, "repeated-work", "{what} of a ladder of {n} cells split at {at:?}: {f} filter calls, {c} cells created; the limit is {limit}");
            Ok(())
        };
        l.st(1); l.nt();
        let w = Work::new(&set);
        let want = MerkleProof::create(old.as_ref(), &w).build_ext(&w);
        work("proof", &w)?;
        let w = Work::new(&set);
        let got = POOLS.with(|p| p[2].install(|| MerkleProof::create(old.as_ref(), &w).par_build_ext(&w, split.clone())));
        work("parallel proof", &w)?;
        l.tr(2); l.ev();
        ck!(matches!((&want, &got), (Ok(a), Ok(b)) if a == b), "ladder-proof", "{n} split at {at:?}");
        for new in [&new, &changed] {
            let w = Work::new(&set);
            let want = MerkleUpdate::create(old.as_ref(), new.as_ref(), &w).build_ext(&w);
            work("update", &w)?;
            let w = Work::new(&set);
            let got = POOLS.with(|p| p[2].install(|| MerkleUpdate::create(old.as_ref(), new.as_ref(), &w).rayon_build_ext(split.clone(), new_split.clone(), &w)));
            work("parallel update", &w)?;
            l.tr(2); l.ev();
            ck!(matches!((&want, &got), (Ok(a), Ok(b)) if a == b), "ladder-update", "{n} split at {at:?}");
        }
        Ok(())
    };
    r.section("ladders", 16 * 16 * 16, |i, l| {
        let (n, a, b) = ((i % 16) as usize + 1, (i / 16 % 16) as usize, (i / 256) as usize);
        if a > n || b > a { return Ok(()) }
        ladders(n, &[a, b], l)
    });
    if !multiplied.load(Ordering::Relaxed) {
        r.section("ladders/long", 40, |i, l| {
            let n = i as usize * 4 + 20;
            for at in [&[n][..], &[n / 2], &[1], &[n, n / 2]] { ladders(n, at, l)? }
            Ok(())
        });
    }

    // the writer of bags of cells
    let mut sizes = vec![1, 2, 4999, 5000, 5001];
    for k in 2..=r.pick(4, 6) { for x in [-1i64, 0, 1] { sizes.push((5000 * k + x) as usize) } }
    sizes.extend([12_345, 65_535, 65_536, 65_537]);
    if !r.quick() { sizes.extend(10_002..10_040); sizes.extend([255, 256, 257, 99_999, 100_000, 100_001]) }
    r.section("boc", sizes.len() as u64 * 3, |i, l| {
        let mut ix = Ix(i);
        let shape = ix.take(3);
        let n = *ix.of(&sizes);
        let cells = big_graph(n, shape);
        // one root and several (the last cells, the first one, and repeated)
        for roots in [vec![n - 1], vec![n - 1, 0], vec![0, n - 1, n / 2, n - 1]] {
            for crc in [false, true] {
                let mut h = BocHeader::<ahash::RandomState>::with_root(cells[roots[0]].as_ref()).with_crc(crc);
                for k in &roots[1..] { h.add_root(cells[*k].as_ref()) }
                let mut want = vec![7u8; 3];
                h.encode(&mut want);
                POOLS.with(|ps| -> R {
                    for p in ps {
                        let mut got = vec![7u8; 3];
                        p.install(|| h.encode_rayon(&mut got));
                        l.st(1); l.ev(); l.tr(1);
                        if n >= 10_000 { l.nt() }
                        ck!(got == want, "boc", "{n} cells, shape {shape}, roots {roots:?}, crc {crc}, {} threads", p.current_num_threads());
                    }
                    Ok(())
                })?;
            }
        }
        let c = &cells[n - 1];
        let want = Boc::encode(c);
        ck!(Boc::encode_rayon(c) == want, "boc-encode", "{n} cells");
        ck!(Boc::encode_hex_rayon(c) == hex::encode(&want), "boc-encode-hex", "{n} cells");
        ck!(Boc::encode_base64_rayon(c) == Boc::encode_base64(c), "boc-encode-base64", "{n} cells");
        let want_repr = BocRepr::encode(c.clone()).map_err(|e| V { key: "repr".into(), detail: e.to_string() })?;
        ck!(BocRepr::encode_rayon(c.clone()).ok().as_ref() == Some(&want_repr), "repr-encode", "{n} cells");
        ck!(BocRepr::encode_hex_rayon(c.clone()).ok() == Some(hex::encode(&want_repr)), "repr-encode-hex", "{n} cells");
        ck!(BocRepr::encode_base64_rayon(c.clone()).ok() == BocRepr::encode_base64(c.clone()).ok(), "repr-encode-base64", "{n} cells");
        ck!(Boc::decode(&want).ok().as_ref() == Some(c), "boc-decode", "{n} cells");
        Ok(())
    });
}
