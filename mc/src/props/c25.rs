//! C25: chain structures are stored and loaded losslessly, as the published scheme says.
use super::tlb::*;
use crate::fw::*;
use crate::model::bits::*;
use crate::{bad, ck, ckeq};
use std::fmt::Debug;
use tycho_types::cell::*;
use tycho_types::error::Error;
use tycho_types::models::*;
use tycho_types::num::{Tokens, Uint12, VarUint248};
use tycho_types::prelude::*;

pub const META: Meta = Meta {
    id: "C25",
    level: "model_checking",
    rule: "inputs: a state is one value of one structure; the generators enumerate every combination of variants, optional parts and flags (contents rotate over zeros, ones, a pattern and alternations) and yield with each value the bits and references of the published scheme. For each state the stored cell, the loaded value, the unread rest, exactly full builders, every truncation of every own cell and every single-bit change are checked. Messages are all combinations of descriptions, initial states, body sizes at the capacity boundaries and layouts, for all four message types; non-trivial: an optional part is present, a child cell is involved, or the value does not fit a cell",
    assumptions: &["referenced structures which are loaded lazily are opaque cells", "numbers with a length may have several spellings: only their value is compared after a change of their bits"],
    run,
};

fn bs(c: &DynCell) -> B { cell_bits(c) }
/// the re-encoded cell spells a prefix of what was read (shorter where a number was not in its shortest form)
fn spelled(re: &DynCell, src_bits: &[u8], src_refs: &[Cell], vars: bool) -> bool {
    let b = bs(re);
    if !src_bits.starts_with(&b) { return vars && b.len() + 8 <= src_bits.len() }
    if re.reference_count() as usize > src_refs.len() { return false }
    (0..re.reference_count()).all(|i| {
        let (x, y) = (re.reference(i).unwrap(), &src_refs[i as usize]);
        x.repr_hash() == y.repr_hash() || (!y.cell_type().is_exotic() && spelled(x, &bs(y.as_ref()), &(0..y.reference_count()).map(|j| y.reference_cloned(j).unwrap()).collect::<Vec<_>>(), vars))
    })
}
fn has_vars(w: &W) -> bool { nodes(w).iter().any(|x| !x.1.soft.is_empty()) }

fn ld(f: &Loader, c: &Cell) -> Result<(Box<dyn Obj>, usize, usize), Error> {
    let mut s = c.as_slice()?;
    let t = f(&mut s)?;
    Ok((t, s.size_bits() as usize, s.size_refs() as usize))
}

fn one(name: &str, v: &dyn Obj, f: &Loader, w: &W, vars: bool, deep: bool, ctx: &dyn Fn() -> String, l: &mut L) -> R {
    let key = |k: &str| format!("{name}/{k}");
    let built = np(&key("panic-store"), ctx, || stored(v))?;
    l.ev();
    if !w.fits() { l.nt(); if built.is_ok() { bad!(key("stored-over-capacity"), "{}", ctx()) } return Ok(()) }
    let want = w.build();
    let built = match built { Ok(c) => c, Err(e) => bad!(key("not-stored"), "{e:?} {} bits {} refs {}", w.b.len(), w.r.len(), ctx()) };
    if built.repr_hash() != want.repr_hash() { bad!(key("layout"), "stored {} {} refs, scheme {} {} refs, {}", show(&bs(built.as_ref())), built.reference_count(), show(&w.b), w.r.len(), ctx()) }
    if w.r.len() > 0 { l.nt() }
    // loading consumes exactly what was stored
    let text = format!("{v:?}");
    let free = 1023 - w.b.len();
    let frefs = 4 - w.r.len();
    for (sb, sr) in [(0, 0), (free.min(3), 0), (free, frefs), (0, frefs.min(1))] {
        // a dictionary written in place of its root ends with the cell
        if name == "lib-descr" && (sb, sr) != (0, 0) { continue }
        let mut b = w.b.clone();
        b.extend((0..sb).map(|i| (i % 3 == 0) as u8));
        let mut refs = w.refs();
        refs.extend((0..sr).map(|i| cell_of(&uint(i as u128, 9))));
        let c = raw_cell(&b, &refs);
        match np(&key("panic-load"), ctx, || ld(f, &c))? {
            Err(e) => bad!(key("not-loaded"), "{e:?} {}", ctx()),
            Ok((x, rb, rr)) => {
                ckeq!((rb, rr), (sb, sr), key("rest"), "{}", ctx());
                if format!("{x:?}") != text { bad!(key("value"), "{x:?} for {text} {}", ctx()) }
                if (sb, sr) == (0, 0) { let c2 = stored(&*x); ck!(c2.is_ok_and(|c| c.repr_hash() == want.repr_hash()), key("rewritten"), "{}", ctx()) }
            }
        }
    }
    // a builder with exactly enough space, and with one bit or reference less
    for (pb, pr, ok) in [(free, 0, true), (free + 1, 0, false), (0, frefs, true), (0, frefs + 1, false)] {
        if pb > 1023 || pr > 4 || (w.b.is_empty() && pb > 0) || (w.r.is_empty() && !ok && pr > 0) { continue }
        let mut b = CellBuilder::new();
        b.store_zeros(pb as u16).unwrap();
        for _ in 0..pr { b.store_reference(Cell::default()).unwrap() }
        let r = np(&key("panic-store"), ctx, || v.store_into(&mut b, Cell::empty_context()))?;
        ckeq!(r.is_ok(), ok, key("capacity"), "{} bits of {} taken, {} refs: {r:?} {}", pb, 1023, pr, ctx());
        if ok { let c = b.build().unwrap(); ck!(bs(c.as_ref())[pb..] == w.b[..], key("layout-offset"), "{}", ctx()) }
    }
    // truncations
    let ns = nodes(w);
    for (path, n) in &ns {
        let step = if deep || n.b.len() < 64 { 1 } else { 0 };
        let cuts: Vec<usize> = if step == 1 { (0..n.b.len()).collect() } else { (0..n.b.len()).filter(|i| *i < 40 || *i + 8 > n.b.len()).collect() };
        for k in cuts {
            let c = with_node(w, path, &|x| Some(raw_cell(&x.b[..k], &x.refs()))).unwrap();
            l.st(1);
            if np(&key("panic-short"), ctx, || ld(f, &c).is_ok())? { bad!(key("short"), "cell {path:?} cut to {k} of {} bits {}", n.b.len(), ctx()) }
        }
        for k in 0..n.r.len() {
            let c = with_node(w, path, &|x| Some(raw_cell(&x.b, &x.refs()[..k]))).unwrap();
            l.st(1);
            if np(&key("panic-short"), ctx, || ld(f, &c).is_ok())? { bad!(key("short-refs"), "cell {path:?} cut to {k} of {} refs {}", n.r.len(), ctx()) }
        }
    }
    // single-bit changes
    if deep {
        for (path, n) in &ns {
            for k in 0..n.b.len() {
                if n.ignored.contains(&k) { continue }
                let c = with_node(w, path, &|x| { let mut b = x.b.clone(); b[k] ^= 1; Some(raw_cell(&b, &x.refs())) }).unwrap();
                l.st(1);
                let r = np(&key("panic-changed"), ctx, || ld(f, &c))?;
                let Ok((x, rb, rr)) = r else { continue };
                l.tr(1);
                let c2 = match np(&key("panic-restore"), ctx, || stored(&*x))? { Ok(c) => c, Err(e) => bad!(key("changed-not-stored"), "bit {k} of {path:?}: {e:?} {}", ctx()) };
                // a structure without its newest part is written in the older form
                if matches!(name, "value-flow" | "validator") && path.is_empty() && k >= 32 && bs(c2.as_ref())[..8] != w.b[..8] { continue }
                let all = bs(c.as_ref());
                let used = &all[..all.len() - rb];
                let refs = (0..c.reference_count() - rr as u8).map(|i| c.reference_cloned(i).unwrap()).collect::<Vec<_>>();
                let exact = c2.bit_len() as usize == used.len() && c2.reference_count() as usize == refs.len();
                if !exact && !(vars && c2.bit_len() as usize + 8 <= used.len()) { bad!(key("changed"), "bit {k} of {path:?}: read {} bits {} refs, written {} bits {} refs {}", used.len(), refs.len(), c2.bit_len(), c2.reference_count(), ctx()) }
                if !spelled(c2.as_ref(), used, &refs, vars) { bad!(key("changed"), "bit {k} of {path:?}: read {}, written {} {x:?} {}", show(used), show(&bs(c2.as_ref())), ctx()) }
                let again = ld(f, &c2).map(|y| format!("{:?}", y.0));
                ck!(again.as_ref().is_ok_and(|y| *y == format!("{x:?}")), key("changed-again"), "bit {k} of {path:?}: {x:?} then {again:?} {}", ctx());
            }
        }
    }
    Ok(())
}

struct V25<'a> { r: &'a Run, count: usize }
impl Vis for V25<'_> {
    fn visit(&mut self, name: &'static str, f: &Fam) {
        let paths = explore(&f.make);
        self.count += paths.len();
        let q = self.r.quick();
        // families with very many members: changes of single bits for a part of the contents only
        let many = paths.len() > 600;
        self.r.section(name, paths.len() as u64, |i, l| {
            let p = &paths[i as usize];
            let mut w = W::new();
            let mut g = G::new(p);
            let v = (f.make)(&mut g, &mut w);
            let deep = !q || !many || g.mode == 2;
            l.sample(|| format!("{name} {p:?} {} bits {} refs", w.b.len(), w.r.len()));
            one(name, &*v, &f.load, &w, has_vars(&w) || VARS.contains(&name), deep, &|| format!("{name} choices {p:?}"), l)
        });
    }
}
/// structures which may hold numbers with a length even if this value holds only empty ones
const VARS: &[&str] = &["mint-once", "block-rewards", "validator-stake", "storage-used", "storage-used-short", "storage-info", "account", "optional-account", "storage-phase", "credit-phase", "compute-phase", "compute-phase-flags", "action-phase", "bounce-phase", "tx-info", "transaction", "currencies", "value-flow", "mc-block-extra", "mc-state-extra", "shard-fee-created", "shard-state", "shard-state-any", "depth-balance", "import-fees", "envelope", "in-msg", "out-action", "msg-info", "relaxed-msg-info", "account-block"];

// messages: either-inline-or-reference choices
type Path = Vec<u32>;
fn paths_of<T>(f: fn(&mut G, &mut W) -> T, modes: &[u64]) -> Vec<Path> { explore(&f).into_iter().filter(|p| modes.contains(&(p[0] as u64))).collect() }
fn at<T>(f: fn(&mut G, &mut W) -> T, p: &[u32]) -> (T, W) { let mut w = W::new(); let v = f(&mut G::new(p), &mut w); (v, w) }
/// a message under one layout; None if it does not fit
fn msg_w(info: &W, init: Option<&W>, body: &W, l: MessageLayout) -> Option<W> {
    let mut w = info.clone();
    w.bit(init.is_some());
    if let Some(i) = init { w.bit(l.init_to_cell); if l.init_to_cell { w.sub(i.clone()); } else { w.inline(i); } }
    w.bit(l.body_to_cell);
    if l.body_to_cell { w.sub(body.clone()); } else { w.inline(body); }
    w.fits().then_some(w)
}
const LAYOUTS: [MessageLayout; 4] = [MessageLayout { init_to_cell: false, body_to_cell: false }, MessageLayout { init_to_cell: false, body_to_cell: true }, MessageLayout { init_to_cell: true, body_to_cell: false }, MessageLayout { init_to_cell: true, body_to_cell: true }];
fn body_of(bits: usize, refs: usize, salt: u64) -> W { let mut w = W::new(); w.raw(&pattern(salt + bits as u64, bits)); for i in 0..refs { w.cell(&cell_of(&uint((salt + i as u64) as u128 & 0xffff, 16 + i))); } w }
/// the body inside of a larger cell
fn window(b: &W) -> Option<(Cell, CellSliceRange)> {
    let mut o = W::new();
    let (pre, suf) = (if b.b.len() + 3 <= 1023 { 3 } else { 0 }, if b.b.len() + 8 <= 1023 { 5 } else { 0 });
    let (rp, rs) = (if b.r.len() < 4 { 1 } else { 0 }, if b.r.len() < 3 { 1 } else { 0 });
    o.u(pre, 5);
    for _ in 0..rp { o.cell(&cell_of(&[1, 1])); }
    o.inline(b);
    o.u(suf, 9);
    for _ in 0..rs { o.cell(&cell_of(&[0])); }
    if pre + suf + rp + rs == 0 { return None }
    let c = o.build();
    let mut s = c.as_slice().unwrap();
    s.skip_first(pre as u16, rp as u8).unwrap();
    s.skip_last(suf as u16, rs as u8).unwrap();
    let r = s.range();
    Some((c, r))
}
fn msgs<I>(r: &Run, name: &'static str, f: fn(&mut G, &mut W) -> I) where I: Store + ExactSize + Clone + Debug + for<'a> Load<'a> + 'static {
    let q = r.quick();
    let infos = paths_of(f, if q { &[1, 2] } else { &[0, 1, 2, 3, 4] });
    let mut inits: Vec<Option<Path>> = paths_of(state_init, if q { &[1, 2] } else { &[0, 1, 2, 3] }).into_iter().enumerate().filter(|(i, _)| !q || i % 7 == 0).map(|(_, p)| Some(p)).collect();
    inits.insert(0, None);
    let (infos, inits) = (&infos, &inits);
    r.section(name, (infos.len() * inits.len()) as u64, |ix, l| {
        let mut ix = Ix(ix);
        let ip = &infos[ix.us(infos.len())];
        let np_ = &inits[ix.us(inits.len())];
        let (info, iw) = at(f, ip);
        let init = np_.as_ref().map(|p| at(state_init, p));
        let (iv, nw) = (init.as_ref().map(|x| &x.0), init.as_ref().map(|x| &x.1));
        let plain = 1023i64 - iw.b.len() as i64 - 2 - nw.map_or(0, |x| 1 + x.b.len() as i64);
        let outer = 1023i64 - iw.b.len() as i64 - 2 - nw.map_or(0, |_| 1);
        let mut sizes: Vec<i64> = vec![0, 1, 9, 1022, 1023];
        for k in -2..3 { sizes.extend([plain + k, outer + k]) }
        sizes.retain(|x| (0..=1023).contains(x));
        sizes.sort();
        sizes.dedup();
        for bits in sizes { for refs in 0..5 {
            let b = body_of(bits as usize, refs, 31);
            let bc = b.build();
            let win = window(&b);
            for lay in [None, Some(LAYOUTS[0]), Some(LAYOUTS[1]), Some(LAYOUTS[2]), Some(LAYOUTS[3])] {
                l.ev();
                let ctx = || format!("{name} info {ip:?} init {np_:?} body {bits} bits {refs} refs layout {lay:?}");
                let eff = |x: MessageLayout| MessageLayout { init_to_cell: x.init_to_cell && nw.is_some(), ..x };
                let want = match lay {
                    Some(x) => msg_w(&iw, nw, &b, x).map(|w| (w, eff(x))),
                    None => LAYOUTS.iter().find_map(|x| msg_w(&iw, nw, &b, *x).map(|w| (w, eff(*x)))),
                };
                let bs_ = bc.as_slice().unwrap();
                if lay.is_none() {
                    let got = eff(BaseMessage::<I, CellSlice<'_>>::compute_layout(&info, iv, &bs_));
                    if let Some((w, x)) = &want {
                        ckeq!(got, *x, format!("{name}/layout-choice"), "{}", ctx());
                        let (_, size) = MessageLayout::compute(info.exact_size(), iv, bs_.exact_size());
                        ckeq!((size.bits as usize, size.refs as usize), (w.b.len(), w.r.len()), format!("{name}/layout-size"), "{}", ctx());
                    }
                } else if let (Some((w, _)), Some(x)) = (&want, lay) {
                    let size = x.compute_full_size(info.exact_size(), iv, bs_.exact_size());
                    ckeq!((size.bits as usize, size.refs as usize), (w.b.len(), w.r.len()), format!("{name}/full-size"), "{}", ctx());
                }
                let mut built = vec![("slice", np(&format!("{name}/panic"), &ctx, || CellBuilder::build_from(BaseMessage { info: info.clone(), init: iv.cloned(), body: bs_, layout: lay }))?),
                    ("parts", np(&format!("{name}/panic"), &ctx, || CellBuilder::build_from(BaseMessage::<I, CellSliceParts> { info: info.clone(), init: iv.cloned(), body: bc.clone().into(), layout: lay }))?)];
                if let Some((c, range)) = &win {
                    built.push(("slice-window", np(&format!("{name}/panic"), &ctx, || CellBuilder::build_from(BaseMessage { info: info.clone(), init: iv.cloned(), body: range.apply(c).unwrap(), layout: lay }))?));
                    built.push(("parts-window", np(&format!("{name}/panic"), &ctx, || CellBuilder::build_from(BaseMessage::<I, CellSliceParts> { info: info.clone(), init: iv.cloned(), body: (*range, c.clone()), layout: lay }))?));
                }
                let Some((w, x)) = want else {
                    l.nt();
                    for (k, c) in &built { ck!(c.is_err(), format!("{name}/stored-too-much"), "{k} {}", ctx()) }
                    continue;
                };
                let cell = w.build();
                for (k, c) in &built { match c { Ok(c) => ckeq!(c.repr_hash(), cell.repr_hash(), format!("{name}/stored"), "{k} stored {} {} refs, scheme {} {} refs {}", show(&bs(c.as_ref())), c.reference_count(), show(&w.b), w.r.len(), ctx()), Err(e) => bad!(format!("{name}/not-stored"), "{k} {e:?} {}", ctx()) } }
                let (idbg, ndbg) = (format!("{info:?}"), format!("{iv:?}"));
                let body_ok = |s: CellSlice<'_>| slice_bits(&s) == b.b && s.size_refs() as usize == b.r.len() && b.refs().iter().enumerate().all(|(i, y)| s.get_reference(i as u8).is_ok_and(|z| z.repr_hash() == y.repr_hash()));
                let m = np(&format!("{name}/panic"), &ctx, || cell.parse::<BaseMessage<I, CellSlice<'_>>>())?;
                match &m { Ok(m) => {
                    ck!(format!("{:?}", m.info) == idbg && format!("{:?}", m.init) == ndbg && m.layout == Some(x) && body_ok(m.body), format!("{name}/loaded"), "{m:?} {}", ctx());
                    ck!(CellBuilder::build_from(m).is_ok_and(|c| c.repr_hash() == cell.repr_hash()), format!("{name}/restored"), "{}", ctx());
                } Err(e) => bad!(format!("{name}/not-loaded"), "{e:?} {}", ctx()) }
                let o = np(&format!("{name}/panic"), &ctx, || cell.parse::<BaseMessage<I, CellSliceParts>>())?;
                match &o { Ok(m) => {
                    ck!(format!("{:?}", m.info) == idbg && format!("{:?}", m.init) == ndbg && m.layout == Some(x) && m.body.0.apply(&m.body.1).is_ok_and(body_ok), format!("{name}/loaded-parts"), "{m:?} {}", ctx());
                    ck!(CellBuilder::build_from(m).is_ok_and(|c| c.repr_hash() == cell.repr_hash()), format!("{name}/restored-parts"), "{}", ctx());
                } Err(e) => bad!(format!("{name}/not-loaded"), "{e:?} {}", ctx()) }
                // the relaxed form reads the same bits, and the strict one unless an address is missing
                let relaxed = cell.parse::<OwnedRelaxedMessage>();
                let strict = cell.parse::<OwnedMessage>();
                let (ext_in, no_src) = (w.b[..2] == [1, 0], (w.b[0] == 0 && w.b[4..6] == [0, 0]) || (w.b[..2] == [1, 1] && w.b[2..4] == [0, 0]));
                ckeq!(relaxed.is_ok(), !ext_in, format!("{name}/relaxed"), "{relaxed:?} {}", ctx());
                ckeq!(strict.is_ok(), !no_src, format!("{name}/strict"), "{strict:?} {}", ctx());
                if let Ok(m) = &relaxed { l.nt(); ck!(CellBuilder::build_from(m).is_ok_and(|c| c.repr_hash() == cell.repr_hash()), format!("{name}/restored-relaxed"), "{}", ctx()) }
                if let Ok(m) = &strict {
                    ck!(CellBuilder::build_from(m).is_ok_and(|c| c.repr_hash() == cell.repr_hash()), format!("{name}/restored-strict"), "{}", ctx());
                    if bits == 9 || bits == 1023 {
                        let e = BocRepr::encode(m).ok().and_then(|x| BocRepr::decode::<OwnedMessage, _>(x).ok());
                        ck!(e.is_some_and(|y| format!("{y:?}") == format!("{m:?}")), format!("{name}/boc"), "{}", ctx());
                        let text = format!("{m:?}");
                        for (k, y) in [("json", serde_json::to_string(m).ok().and_then(|x| serde_json::from_str::<OwnedMessage>(&x).ok())), ("bincode", bincode::serialize(m).ok().and_then(|x| bincode::deserialize::<OwnedMessage>(&x).ok()))] {
                            if k == "json" && (text.contains("anycast: Some") || text.contains("Var(")) { continue } // no readable text
                            ck!(y.as_ref().is_some_and(|y| format!("{y:?}") == text), format!("{name}/{k}"), "{y:?} for {m:?} {}", ctx());
                        }
                    }
                }
            }
        } }
        Ok(())
    });
}
/// messages on their way: what the descriptions of imported and exported messages give is what they were made of
fn routed(r: &Run) {
    let max = (1u128 << 120) - 1;
    let (a, b) = (StdAddr::new(-1, HashBytes([3; 32])), StdAddr::new(0, HashBytes([4; 32])));
    let mut infos: Vec<MsgInfo> = vec![];
    for v in [0, 7, max - 12, max] { for extra in [false, true] { for ihr in [0u128, 3] { for fwd in [0u128, 11, 1 << 119] {
        let mut value = CurrencyCollection::from(Tokens::new(v));
        if extra { value.other.as_dict_mut().set(5u32, VarUint248::new(9)).unwrap(); }
        infos.push(MsgInfo::Int(IntMsgInfo { ihr_disabled: ihr == 0, bounce: extra, bounced: v == 0, src: a.clone().into(), dst: b.clone().into(), value, ihr_fee: Tokens::new(ihr), fwd_fee: Tokens::new(fwd), created_lt: v as u64 ^ 77, created_at: 5 }));
    } } } }
    infos.push(MsgInfo::ExtIn(ExtInMsgInfo { src: None, dst: b.clone().into(), import_fee: Tokens::new(4) }));
    infos.push(MsgInfo::ExtOut(ExtOutMsgInfo { src: a.clone().into(), dst: None, created_lt: 91, created_at: 6 }));
    let bodies = [cell_of(&[]), { let mut w = W::new(); w.u(40, 0xab12cd34ef); w.sub({ let mut x = W::new(); x.u(9, 300); x }); w.build() }];
    let (fees, addr) = ([0u128, 11, 12], [IntermediateAddr::Simple(IntermediateAddrSimple { workchain: -1, address_prefix: 8 }), IntermediateAddr::Regular(IntermediateAddrRegular::with_dest_bits(96).unwrap()), IntermediateAddr::Ext(IntermediateAddrExt { workchain: 1 << 20, address_prefix: u64::MAX })]);
    let txs: Vec<(Transaction, Lazy<Transaction>)> = paths_of(transaction, &[1, 2]).iter().take(2).map(|p| { let t = Transaction { info: Lazy::new(&at(tx_info, &paths_of(tx_info, &[p[0] as u64])[0]).0).unwrap(), ..at(transaction, p).0 }; let c = Lazy::new(&t).unwrap(); (t, c) }).collect();
    let (infos, bodies, txs, addr) = (&infos, &bodies, &txs, &addr);
    fn dbg<T: Debug>(x: &T) -> String { format!("{x:?}") }
    let n = infos.len() as u64 * 2 * 3;
    r.section("routed", n, |ix, l| {
        let mut ix = Ix(ix);
        let info = &infos[ix.us(infos.len())];
        let body = &bodies[ix.us(2)];
        let rem = fees[ix.us(3)];
        let owned = OwnedMessage { info: info.clone(), init: None, body: body.clone().into(), layout: None };
        let msg = Lazy::new(&owned).unwrap();
        let owned = msg.load().unwrap(); // with the layout it was stored in
        let cell = msg.inner().clone();
        let env = MsgEnvelope { cur_addr: addr[0].clone(), next_addr: addr[1 + (rem % 2) as usize].clone(), fwd_fee_remaining: Tokens::new(rem), message: msg.clone() };
        let le = Lazy::new(&env).unwrap();
        let int = if let MsgInfo::Int(x) = info { Some(x) } else { None };
        let ctx0 = format!("{info:?} remaining {rem}");
        let is = |m: Result<Message<'_>, Error>| m.is_ok_and(|m| dbg(&m.info) == dbg(info) && m.init.is_none() && CellBuilder::build_from(&m).is_ok_and(|c| c == cell));
        let iso = |m: Result<OwnedMessage, Error>| m.is_ok_and(|m| dbg(&m) == dbg(&owned));
        // the value with the fees which travel with it
        let full = int.and_then(|x| {
            let t = x.value.tokens.into_inner() + x.ihr_fee.into_inner() + rem;
            (t <= max).then(|| CurrencyCollection { tokens: Tokens::new(t), other: x.value.other.clone() })
        });
        l.ev();
        l.st(1);
        if full.is_none() { l.nt() }
        np("routed/panic", || ctx0.clone(), || {
            let x = le.load().unwrap();
            ck!(dbg(&x) == dbg(&env) && x.message_hash() == cell.repr_hash() && is(x.load_message()) && iso(x.load_message_owned()), "routed/envelope", "{ctx0}");
            ckeq!(x.load_message_info().ok().map(|x| dbg(&x)), int.map(dbg), "routed/envelope-info", "{ctx0}");
            for f in [0u128, 1, 10, 11, 12, 13, max] {
                let mut y = x.clone();
                let ok = y.collect_fee(Tokens::new(f));
                ck!(ok == (f <= rem) && y.fwd_fee_remaining == Tokens::new(if ok { rem - f } else { rem }) && dbg(&y.message) == dbg(&x.message), "routed/collect-fee", "{f} {ctx0}");
            }
            for lt in [0u64, 5, u64::MAX] {
                let e = CellBuilder::build_from(EnqueuedMsg { enqueued_lt: lt, out_msg_envelope: le.clone() }).unwrap().parse::<EnqueuedMsg>().unwrap();
                let created = match info { MsgInfo::Int(x) => Some(x.created_lt), MsgInfo::ExtOut(x) => Some(x.created_lt), _ => None };
                ck!(e.enqueued_lt == lt && e.load_created_lt().ok() == created && e.load_out_msg_info().is_ok_and(|x| dbg(&x) == dbg(info)) && is(e.load_out_msg()) && iso(e.load_out_msg_owned()), "routed/enqueued", "{ctx0}");
            }
            Ok(())
        })??;
        let other = Lazy::new(&MsgEnvelope { cur_addr: addr[1].clone(), next_addr: addr[0].clone(), fwd_fee_remaining: Tokens::new(1), message: Lazy::new(&OwnedMessage { info: infos[1].clone(), init: None, body: bodies[0].clone().into(), layout: None }).unwrap() }).unwrap();
        for fee in fees { for (tx, lt) in txs { for kind in 0..9 {
            l.ev();
            l.tr(1);
            let ctx = || format!("kind {kind} fee {fee} {ctx0}");
            let fwd_fee = Tokens::new(fee);
            np("routed/panic", ctx, || {
                let has_tx = |t: Result<Option<Transaction>, Error>, c: Option<Cell>, want: bool| t.is_ok_and(|t| t.map(|t| dbg(&t)) == want.then(|| dbg(tx))) && c == want.then(|| lt.inner().clone());
                let has_env = |e: Result<Option<MsgEnvelope>, Error>, c: Option<Cell>, want: Option<&Lazy<MsgEnvelope>>| e.is_ok_and(|e| e.map(|e| dbg(&e)) == want.map(|w| dbg(&w.load().unwrap()))) && c == want.map(|w| w.inner().clone());
                if kind < 4 {
                    let m = match kind {
                        0 => InMsg::External(InMsgExternal { in_msg: msg.clone(), transaction: lt.clone() }),
                        1 => InMsg::Immediate(InMsgFinal { in_msg_envelope: le.clone(), transaction: lt.clone(), fwd_fee }),
                        2 => InMsg::Final(InMsgFinal { in_msg_envelope: le.clone(), transaction: lt.clone(), fwd_fee }),
                        _ => InMsg::Transit(InMsgTransit { in_msg_envelope: le.clone(), out_msg_envelope: other.clone(), transit_fee: fwd_fee }),
                    };
                    let back = CellBuilder::build_from(&m).unwrap().parse::<InMsg>().unwrap();
                    for m in [&m, &back] {
                        ck!(has_tx(m.load_transaction(), m.transaction_cell(), kind < 3), "routed/in/transaction", "{}", ctx());
                        ck!(is(m.load_msg()) && iso(m.load_msg_owned()) && m.load_msg_cell().is_ok_and(|c| c == cell), "routed/in/message", "{}", ctx());
                        ck!(has_env(m.load_in_msg_envelope(), m.in_msg_envelope_cell(), (kind > 0).then_some(&le)), "routed/in/envelope", "{}", ctx());
                        ck!(has_env(m.load_out_msg_envelope(), m.out_msg_envelope_cell(), (kind == 3).then_some(&other)), "routed/in/out-envelope", "{}", ctx());
                        match m {
                            InMsg::External(x) => {
                                let want = if let MsgInfo::ExtIn(x) = info { Some(dbg(x)) } else { None };
                                ck!(x.load_in_msg_info().ok().map(|x| dbg(&x)) == want && x.load_transaction().is_ok(), "routed/in/info", "{}", ctx());
                            }
                            InMsg::Immediate(x) | InMsg::Final(x) => ck!(x.load_in_msg_info().ok().map(|x| dbg(&x)) == int.map(dbg) && x.in_msg_envelope_hash() == le.repr_hash(), "routed/in/info", "{}", ctx()),
                            InMsg::Transit(x) => ck!(is(x.load_out_msg()) == (dbg(info) == dbg(&infos[1]) && body.bit_len() == 0) && x.load_out_msg_cell().is_ok_and(|c| &c == other.load().unwrap().message.inner())
                                && x.load_out_msg_owned().is_ok_and(|x| dbg(&x.info) == dbg(&infos[1])) && x.in_msg_envelope_hash() == le.repr_hash() && x.out_msg_envelope_hash() == other.repr_hash(), "routed/in/info", "{}", ctx()),
                        }
                        let got = m.compute_fees().ok().map(|f| (f.fees_collected.into_inner(), f.value_imported));
                        let want = match kind {
                            0 => Some((0, CurrencyCollection::ZERO)),
                            // what was paid for the forwarding; one amount in a valid block
                            1 if int.is_some_and(|x| x.fwd_fee != fwd_fee || rem != fee) => continue,
                            1 => int.map(|_| (fee, CurrencyCollection::ZERO)),
                            2 => full.clone().filter(|_| fee == rem).map(|v| (fee, v)),
                            _ => full.clone().filter(|_| fee <= rem).map(|v| (fee, v)),
                        };
                        ckeq!(got, want, "routed/in/fees", "{}", ctx());
                    }
                } else {
                    let reimport = Lazy::new(&InMsg::Final(InMsgFinal { in_msg_envelope: le.clone(), transaction: lt.clone(), fwd_fee })).unwrap();
                    let m = match kind {
                        4 => OutMsg::External(OutMsgExternal { out_msg: msg.clone(), transaction: lt.clone() }),
                        5 => OutMsg::New(OutMsgNew { out_msg_envelope: le.clone(), transaction: lt.clone() }),
                        6 => OutMsg::Immediate(OutMsgImmediate { out_msg_envelope: le.clone(), transaction: lt.clone(), reimport: reimport.clone() }),
                        7 => OutMsg::DequeueShort(OutMsgDequeueShort { msg_env_hash: *le.repr_hash(), next_workchain: -1, next_addr_pfx: fee as u64, import_block_lt: 3 }),
                        _ => OutMsg::DequeueImmediate(OutMsgDequeueImmediate { out_msg_envelope: le.clone(), reimport: reimport.clone() }),
                    };
                    let back = CellBuilder::build_from(&m).unwrap().parse::<OutMsg>().unwrap();
                    for m in [&m, &back] {
                        ck!(has_tx(m.load_transaction(), m.transaction_cell(), kind < 7), "routed/out/transaction", "{}", ctx());
                        let (x, y) = (m.load_message(), m.load_message_owned());
                        if kind == 7 { ck!(matches!((&x, &y), (Ok(None), Ok(None))), "routed/out/message", "{}", ctx()) }
                        else { ck!(x.and_then(|x| x.ok_or(Error::InvalidData)).is_ok_and(|x| is(Ok(x))) && y.is_ok_and(|y| y.is_some_and(|y| dbg(&y) == dbg(&owned))), "routed/out/message", "{}", ctx()) }
                        ck!(has_env(m.load_out_msg_envelope(), m.out_msg_envelope_cell(), (kind != 4 && kind != 7).then_some(&le)), "routed/out/envelope", "{}", ctx());
                        ck!(m.load_reimport_msg().is_ok_and(|x| x.map(|x| dbg(&x)) == (kind == 6 || kind == 8).then(|| dbg(&reimport.load().unwrap()))) && m.reimport_msg_cell() == (kind == 6 || kind == 8).then(|| reimport.inner().clone()), "routed/out/reimport", "{}", ctx());
                        let got = match m {
                            OutMsg::External(x) => { let want = if let MsgInfo::ExtOut(x) = info { Some(dbg(x)) } else { None }; ck!(x.load_out_msg_info().ok().map(|x| dbg(&x)) == want, "routed/out/info", "{}", ctx()); None }
                            OutMsg::New(x) => Some(x.load_out_msg_info()),
                            OutMsg::Immediate(x) => Some(x.load_out_msg_info()),
                            OutMsg::DequeueImmediate(x) => Some(x.load_out_msg_info()),
                            OutMsg::DequeueShort(_) => None,
                        };
                        if let Some(got) = got { ck!(got.ok().map(|x| dbg(&x)) == int.map(dbg), "routed/out/info", "{}", ctx()) }
                        let got = m.compute_exported_value().ok();
                        let want = if kind == 5 { full.clone() } else { Some(CurrencyCollection::ZERO) };
                        ckeq!(got, want, "routed/out/exported", "{}", ctx());
                    }
                }
                Ok(())
            })??;
        } } }
        Ok(())
    });
    // the messages of a transaction, in the order they were sent; nothing after one which cannot be read
    let lists: Vec<Vec<(u16, usize)>> = (0..256usize).map(|s| [0u16, 1, 2, 3, 255, 256, 16384, 32767].iter().enumerate().filter(|(i, _)| s >> i & 1 == 1).map(|(i, k)| (*k, i * 7 % infos.len())).collect()).collect();
    let lists = &lists;
    r.section("routed-tx", 256 * 9, |ix, l| {
        let mut ix = Ix(ix);
        let list = &lists[ix.us(256)];
        let bad = ix.us(9);
        if bad > 0 && bad > list.len() { return Ok(()) }
        l.ev();
        l.st(1);
        if bad > 0 { l.nt() }
        let cells: Vec<Cell> = list.iter().enumerate().map(|(i, (_, m))| if i + 1 == bad { cell_of(&[0; 5]) } else { CellBuilder::build_from(OwnedMessage { info: infos[*m].clone(), init: None, body: bodies[i % 2].clone().into(), layout: None }).unwrap() }).collect();
        let mut d = Dict::<tycho_types::num::Uint15, Cell>::new();
        for ((k, _), c) in list.iter().zip(&cells).rev() { d.set(tycho_types::num::Uint15::new(*k), c.clone()).unwrap(); }
        let t = Transaction { out_msgs: d, in_msg: cells.first().cloned(), out_msg_count: tycho_types::num::Uint15::new(list.len() as u16), ..txs[0].0.clone() };
        let ctx = || format!("keys {:?} unreadable {bad}", list.iter().map(|x| x.0).collect::<Vec<_>>());
        np("routed-tx/panic", ctx, || {
            let t = CellBuilder::build_from(&t).unwrap().parse::<Transaction>().unwrap();
            let got: Vec<Result<Cell, Error>> = t.iter_out_msgs().map(|m| m.and_then(|m| CellBuilder::build_from(&m))).collect();
            let end = if bad > 0 { bad } else { cells.len() };
            ck!(got.len() == end, "routed-tx/count", "{} messages, expected {end}; {}", got.len(), ctx());
            for (i, g) in got.iter().enumerate() { if i + 1 == bad { ck!(g.is_err(), "routed-tx/read", "{}", ctx()) } else { ck!(g.as_ref() == Ok(&cells[i]), "routed-tx/order", "{i} {}", ctx()) } }
            let im = t.load_in_msg();
            match (cells.first(), bad) { (None, _) => ck!(matches!(im, Ok(None)), "routed-tx/in", "{}", ctx()), (_, 1) => ck!(im.is_err(), "routed-tx/in", "{}", ctx()), (Some(c), _) => ck!(im.ok().flatten().and_then(|m| CellBuilder::build_from(&m).ok()).as_ref() == Some(c), "routed-tx/in", "{}", ctx()) }
            ck!(t.load_info().is_ok_and(|x| dbg(&x) == dbg(&txs[0].0.info.load().unwrap())), "routed-tx/info", "{}", ctx());
            // the readable form
            if bad == 0 && list.len() < 4 {
                let j = serde_json::to_string(&t).ok().and_then(|s| serde_json::from_str::<serde_json::Value>(&s).ok());
                let Some(j) = j else { return Ok(()) };
                let o = j.get("out_msgs").and_then(|x| x.as_object());
                ck!(o.is_some_and(|o| o.len() == list.len() && list.iter().all(|(k, _)| o.contains_key(&k.to_string()))), "routed-tx/readable", "{j} {}", ctx());
            }
            Ok(())
        })?
    });
    // addresses by source and by destination bits
    r.section("routed-addresses", 256, |i, l| {
        let n = i as u8;
        l.ev();
        l.st(1);
        if n > 96 { l.nt() }
        for (src, x) in [(false, IntermediateAddrRegular::with_dest_bits(n)), (true, IntermediateAddrRegular::with_src_bits(n))] {
            ck!(x.is_some() == (n <= 96), "routed-addresses/range", "{n} {src}");
            let Some(x) = x else { continue };
            let d = if src { 96 - n } else { n };
            ck!(x.is_valid() && x.use_dest_bits() == d && x.use_src_bits() == 96 - d, "routed-addresses/bits", "{n} {src} {x:?}");
            ck!(CellBuilder::build_from(x).is_ok_and(|c| bs(c.as_ref()) == uint(d as u128, 7)), "routed-addresses/stored", "{n} {src}");
        }
        let s = cell_of(&[vec![0u8], uint(n as u128 & 127, 7)].concat());
        if n < 128 { ck!(s.parse::<IntermediateAddr>().is_ok() == (n <= 96), "routed-addresses/loaded", "{n}") }
        Ok(())
    });
    r.section("empty-descriptions", 1, |_, l| {
        l.ev();
        let e = BlockExtra::empty_in_msg_descr();
        ck!(e.load().is_ok_and(|d| d.is_empty() && *d.root_extra() == ImportFees::default()) && e.inner() == &cell_of(&[0; 1 + 4 + 4 + 1]), "empty/in", "{e:?}");
        let e = BlockExtra::empty_out_msg_descr();
        ck!(e.load().is_ok_and(|d| d.is_empty() && *d.root_extra() == CurrencyCollection::ZERO) && e.inner() == &cell_of(&[0; 1 + 4 + 1]), "empty/out", "{e:?}");
        let e = BlockExtra::empty_account_blocks();
        ck!(e.load().is_ok_and(|d| d.is_empty() && *d.root_extra() == CurrencyCollection::ZERO) && e.inner() == &cell_of(&[0; 1 + 4 + 1]), "empty/accounts", "{e:?}");
        Ok(())
    });
}
/// announced sizes
fn sized<T>(r: &Run, name: &'static str, f: fn(&mut G, &mut W) -> T) where T: Store + ExactSize + 'static {
    let ps = explore(&f);
    r.section(name, ps.len() as u64, |i, l| {
        let (v, w) = at(f, &ps[i as usize]);
        l.ev();
        let s = v.exact_size();
        if let Ok(c) = CellBuilder::build_from(&v) { l.nt(); ckeq!((s.bits, s.refs), (c.bit_len(), c.reference_count()), format!("{name}/actual"), "{:?}", ps[i as usize]) }
        ckeq!((s.bits as usize, s.refs as usize), (w.b.len(), w.r.len()), format!("{name}/scheme"), "{:?}", ps[i as usize]);
        Ok(())
    });
}
/// text and binary forms of values
fn serde_<T>(r: &Run, name: &'static str, f: fn(&mut G, &mut W) -> T) where T: serde::Serialize + serde::de::DeserializeOwned + Debug + Store + 'static {
    let ps = explore(&f);
    r.section(name, ps.len() as u64, |i, l| {
        let ctx = || format!("{:?}", ps[i as usize]);
        let (v, w) = at(f, &ps[i as usize]);
        if !w.fits() { return Ok(()) }
        let text = format!("{v:?}");
        if let Some(c) = text.split("GlobalCapabilities(").nth(1) { let c: u64 = c[..c.find(')').unwrap()].parse().unwrap(); if super::c27::CAPS.iter().fold(c, |a, b| a & !(1 << b.2)) != 0 { return Ok(()) } }
        // addresses of these kinds have no readable text
        if text.contains("anycast: Some") || text.contains("Var(") { return Ok(()) }
        l.ev();
        let j = match np(&format!("{name}/panic"), &ctx, || serde_json::to_string(&v))? { Ok(j) => j, Err(e) => bad!(format!("{name}/json-write"), "{e:?} {}", ctx()) };
        match np(&format!("{name}/panic"), &ctx, || serde_json::from_str::<T>(&j))? {
            Err(e) => bad!(format!("{name}/json-read"), "{e:?} {j} {}", ctx()),
            Ok(x) => {
                ckeq!(format!("{x:?}"), text, format!("{name}/json"), "{}", ctx());
                ck!(CellBuilder::build_from(&x).is_ok_and(|c| c.repr_hash() == w.build().repr_hash()), format!("{name}/json-cell"), "{}", ctx());
            }
        }
        Ok(())
    });
}

pub fn run(r: &Run) {
    let mut v = V25 { r, count: 0 };
    families(&mut v);
    msgs(r, "message", msg_info);
    msgs(r, "relaxed-message", relaxed_info);
    routed(r);
    sized(r, "size-info", msg_info);
    sized(r, "size-relaxed-info", relaxed_info);
    sized(r, "size-init", state_init);
    sized(r, "size-currencies", |g, w| g.cc(w));
    sized(r, "size-other", |g, w| g.ecc(w));
    sized(r, "size-tokens", |g, w| g.toks(w));
    sized(r, "size-u56", |g, w| g.vu56(w));
    sized(r, "size-u24", |g, w| g.vu24(w));
    sized(r, "size-split", |g, w| { let d = [1u8, 30, 5][g.us(3)]; w.u(5, d as u128); tycho_types::num::SplitDepth::new(d).unwrap() });
    sized(r, "size-lazy", |g, w| g.lazy::<BlockRef>(w));
    sized(r, "size-dict", |g, w| { let n = g.us(3) as u8; let es = (0..n).map(|i| (uint(i as u128, 8), vec![1])).collect::<Vec<_>>(); let mut d = Dict::<u8, bool>::new(); for i in 0..n { d.set(i, true).unwrap(); } let c = dict_cell(&es, 8); w.bit(c.is_some()); if let Some(c) = c { w.cell(&c); } d });
    sized(r, "size-option", |g, w| g.opt(w, |g, w| (g.toks(w), g.lazy::<BlockRef>(w), g.cc(w))));
    sized(r, "size-aug", |g, w| { let n = g.us(3) as u8; let mut d = AugDict::<u8, CurrencyCollection, bool>::new(); for i in 0..n { d.set(i, CurrencyCollection::from(Tokens::new(700)), true).unwrap(); } w.bit(n > 0); if let Some(c) = d.dict().root() { w.cell(c); } let x = 700 * n as u128; let k = if n == 0 { 0 } else { 2 }; w.u(4, k).u(8 * k as usize, x).bit(false); d });
    serde_(r, "serde-storage-info", storage_info);
    serde_(r, "serde-storage-used", storage_used);
    serde_(r, "serde-account", account);
    serde_(r, "serde-init", state_init);
    serde_(r, "serde-shard-account", |g, w| { let mut x = W::new(); let a = g.opt(&mut x, account); let t = format!("{a:?}"); let c = if x.fits() && !t.contains("anycast: Some") && !t.contains("Var(") { x.build() } else { cell_of(&[0]) }; w.cell(&c); ShardAccount { account: Lazy::from_raw(c).unwrap(), last_trans_hash: g.hash(w), last_trans_lt: g.u64(w) } });
    serde_(r, "serde-tx-info", tx_info);
    serde_(r, "serde-block-info", block_info);
    serde_(r, "serde-value-flow", value_flow);
    serde_(r, "serde-block-ref", block_ref);
    serde_(r, "serde-block-id", block_id);
    serde_(r, "serde-version", version);
    serde_(r, "serde-hash-update", hash_update);
    serde_(r, "serde-info", msg_info);
    serde_(r, "serde-relaxed-info", relaxed_info);
    serde_(r, "serde-import-fees", |g, w| ImportFees { fees_collected: g.toks(w), value_imported: g.cc(w) });
    serde_(r, "serde-burning", burning);
    serde_(r, "serde-workchain", workchain);
    serde_(r, "serde-proposal", proposal);
    serde_(r, "serde-gas", gas_prices);
    serde_(r, "serde-consensus", consensus);
    serde_(r, "serde-catchain", catchain);
    serde_(r, "serde-validators", validator_set);
    serde_(r, "serde-sizes", size_limits);
    refused(r);
    r.add_extra("values", v.count as u64);
}

/// Values outside of the scheme are refused by the writer and, where they have bits, by the reader.
fn refused(r: &Run) {
    fn one<T: Store + for<'a> Load<'a> + Debug + 'static>(key: &str, v: &T, valid: bool, l: &mut L) -> R {
        l.ev(); l.st(1);
        if !valid { l.nt() }
        let c = np(&format!("{key}/panic"), || format!("{v:?}"), || CellBuilder::build_from(v))?;
        ckeq!(c.is_ok(), valid, format!("{key}/store"), "{v:?}");
        if let Ok(c) = c {
            let x = ld(&loader::<T>(), &c);
            ck!(x.as_ref().is_ok_and(|x| x.1 == 0 && x.2 == 0 && format!("{:?}", x.0) == format!("{v:?}")), format!("{key}/trip"), "{v:?} -> {x:?}");
        }
        Ok(())
    }
    fn bits<T: Store + for<'a> Load<'a> + Debug + 'static>(key: &str, b: &B, valid: bool, l: &mut L) -> R {
        l.ev(); l.st(1);
        if !valid { l.nt() }
        let x = np(&format!("{key}/panic"), || show(b), || ld(&loader::<T>(), &cell_of(b)))?;
        ckeq!(x.is_ok(), valid, format!("{key}/load"), "{} -> {x:?}", show(b));
        Ok(())
    }
    r.section("refused-depth-balance", 256, |i, l| one("refused/depth-balance", &DepthBalanceInfo { split_depth: i as u8, balance: CurrencyCollection::from(Tokens::new(i as u128)) }, i <= 30, l));
    r.section("refused-consensus", 6, |i, l| {
        let n = [1u32, 255, 256, 257, 65536, u32::MAX][i as usize];
        one("refused/consensus", &ConsensusConfig { new_catchain_ids: true, round_candidates: std::num::NonZeroU32::new(n).unwrap(), next_candidate_delay_ms: 1, consensus_timeout_ms: 2, fast_attempts: 3, attempt_duration: 4, catchain_max_deps: 5, max_block_bytes: 6, max_collated_bytes: 7 }, n <= 255, l)
    });
    let lens = [0u16, 63, 64, 65, 1022, 1023, 1024, 4095];
    r.section("refused-format", 512, |i, l| {
        let mut ix = Ix(i);
        let (a, b, c) = (lens[ix.us(8)], lens[ix.us(8)], lens[ix.us(8)]);
        let valid = a >= 64 && a <= b && b <= 1023 && c <= 1023;
        let v = WorkchainFormatExtended { min_addr_len: Uint12::new(a), max_addr_len: Uint12::new(b), addr_len_step: Uint12::new(c), workchain_type_id: std::num::NonZeroU32::new(7).unwrap() };
        ckeq!(v.is_valid(), valid, "refused/format/valid", "{v:?}");
        // the reader judges; a workchain with such a format cannot be written
        let cat = |n: u32| [uint(a as u128, 12), uint(b as u128, 12), uint(c as u128, 12), uint(n as u128, 32)].concat();
        bits::<WorkchainFormatExtended>("refused/format", &cat(7), valid, l)?;
        bits::<WorkchainFormatExtended>("refused/format-id", &cat(0), false, l)?;
        one("refused/format-in-workchain", &WorkchainDescription { enabled_since: 1, actual_min_split: 2, min_split: 3, max_split: 4, active: true, accept_msgs: false, zerostate_root_hash: HashBytes::ZERO, zerostate_file_hash: HashBytes([1; 32]), version: 9, format: WorkchainFormat::Extended(v) }, valid, l)
    });
    let ds = [0u8, 1, 2, 30, 31, 59, 60, 61, 62, 128, 255];
    r.section("refused-workchain", 121, |i, l| {
        let mut ix = Ix(i);
        let (a, b) = (ds[ix.us(11)], ds[ix.us(11)]);
        for (k, f) in [WorkchainFormat::Basic(WorkchainFormatBasic { vm_version: -1, vm_mode: 5 }), WorkchainFormat::Extended(WorkchainFormatExtended { min_addr_len: Uint12::new(64), max_addr_len: Uint12::new(1023), addr_len_step: Uint12::new(0), workchain_type_id: std::num::NonZeroU32::new(1).unwrap() })].into_iter().enumerate() {
            for x in [0u8, 255] {
                one("refused/workchain", &WorkchainDescription { enabled_since: 1, actual_min_split: x, min_split: a, max_split: b, active: k == 0, accept_msgs: true, zerostate_root_hash: HashBytes::ZERO, zerostate_file_hash: HashBytes([1; 32]), version: 9, format: f.clone() }, a <= b && b <= 60, l)?;
            }
        }
        Ok(())
    });
    let amounts = [0u128, 1, (1 << 120) - 1, 1 << 120, (1 << 120) + 1, u128::MAX];
    r.section("refused-amounts", 6, |i, l| {
        let (t, ok) = (Tokens::new(amounts[i as usize]), amounts[i as usize] >> 120 == 0);
        let cc = CurrencyCollection::from(t);
        let a = StdAddr::new(-1, HashBytes([3; 32]));
        one("refused/currencies", &cc, ok, l)?;
        one("refused/ext-in", &ExtInMsgInfo { src: None, dst: a.clone().into(), import_fee: t }, ok, l)?;
        one("refused/msg-ext-in", &MsgInfo::ExtIn(ExtInMsgInfo { src: None, dst: a.clone().into(), import_fee: t }), ok, l)?;
        for k in 0..3 {
            let x = |n: usize| if n == k { t } else { Tokens::new(5) };
            let v = if k == 0 { cc.clone() } else { CurrencyCollection::ZERO };
            one("refused/msg-int", &MsgInfo::Int(IntMsgInfo { ihr_disabled: true, bounce: true, bounced: false, src: a.clone().into(), dst: a.clone().into(), value: v.clone(), ihr_fee: x(1), fwd_fee: x(2), created_lt: 1, created_at: 2 }), ok, l)?;
            one("refused/relaxed-int", &RelaxedMsgInfo::Int(RelaxedIntMsgInfo { ihr_disabled: true, bounce: true, bounced: false, src: None, dst: a.clone().into(), value: v.clone(), ihr_fee: x(1), fwd_fee: x(2), created_lt: 1, created_at: 2 }), ok, l)?;
            one("refused/rewards", &BlockCreationRewards { masterchain_block_fee: x(0), basechain_block_fee: x(1) }, ok || k == 2, l)?;
            one("refused/stake", &ValidatorStakeParams { min_stake: x(0), max_stake: x(1), min_total_stake: x(2), max_stake_factor: 1 }, ok, l)?;
        }
        one("refused/import-fees", &ImportFees { fees_collected: t, value_imported: CurrencyCollection::ZERO }, ok, l)?;
        one("refused/import-fees", &ImportFees { fees_collected: Tokens::ZERO, value_imported: cc.clone() }, ok, l)
    });
    let words = [0u64, 1, (1 << 56) - 1, 1 << 56, u64::MAX];
    r.section("refused-used", 25, |i, l| {
        let mut ix = Ix(i);
        let (a, b) = (words[ix.us(5)], words[ix.us(5)]);
        let (x, y) = (tycho_types::num::VarUint56::new(a), tycho_types::num::VarUint56::new(b));
        one("refused/used", &StorageUsed { cells: x, bits: y }, a >> 56 == 0 && b >> 56 == 0, l)?;
        one("refused/used-short", &StorageUsedShort { cells: x, bits: y }, a >> 56 == 0 && b >> 56 == 0, l)
    });
    r.section("refused-empty", 3, |i, l| match i {
        0 => one("refused/account-block", &AccountBlock { account: HashBytes::ZERO, transactions: AugDict::new(), state_update: Lazy::new(&HashUpdate { old: HashBytes::ZERO, new: HashBytes::ZERO }).unwrap() }, false, l),
        1 => one("refused/lib-descr", &LibDescr { lib: cell_of(&[1]), publishers: Dict::new() }, false, l),
        _ => {
            // more validators than the count field can hold
            let d = ValidatorDescription { public_key: HashBytes::ZERO, weight: 1, adnl_addr: None, mc_seqno_since: 0, prev_total_weight: 0 };
            one("refused/validators", &ValidatorSet { utime_since: 0, utime_until: 1, main: std::num::NonZeroU16::MIN, total_weight: 65536, list: vec![d; 65536] }, false, l)
        }
    });
}
