//! C34: helper operations of the block models derive exactly what the fields say.
use crate::fw::*;
use crate::model::bits::*;
use crate::{bad, ck, ckeq};
use ed25519_dalek::{Signer, SigningKey};
use num_bigint::BigUint;
use sha2::{Digest, Sha256};
use std::collections::BTreeMap;
use std::fmt::Debug;
use tycho_types::cell::*;
use tycho_types::dict::*;
use tycho_types::error::Error;
use tycho_types::models::*;
use tycho_types::num::{Tokens, VarUint248};

pub const META: Meta = Meta {
    id: "C34",
    level: "model_checking",
    rule: "a state is one value (a value flow, a signature list with its validators, an augmented dictionary, a block header, an action list, a capability set, a message header) and a transition one helper operation on it, compared with its definition over plain numbers and lists",
    assumptions: &["ed25519 itself is trusted (ed25519-dalek signs, the library's own dependency verifies)"],
    run,
};

const MAX: u128 = (1 << 120) - 1;
type Cur = BTreeMap<Option<u32>, BigUint>;
fn cc(t: u128, ex: &[(u32, u128)]) -> CurrencyCollection {
    let mut other = ExtraCurrencyCollection::new();
    for (k, v) in ex { other.as_dict_mut().set(*k, VarUint248::new(*v)).unwrap(); }
    CurrencyCollection { tokens: Tokens::new(t), other }
}
fn big_cc(t: u128, k: u32) -> CurrencyCollection { // the largest extra amount
    let mut other = ExtraCurrencyCollection::new();
    other.as_dict_mut().set(k, VarUint248::MAX).unwrap();
    CurrencyCollection { tokens: Tokens::new(t), other }
}
fn amounts(c: &CurrencyCollection) -> Cur {
    let mut m = Cur::new();
    if !c.tokens.is_zero() { m.insert(None, BigUint::from(c.tokens.into_inner())); }
    for e in c.other.as_dict().iter() { let (k, v) = e.unwrap(); let (hi, lo) = v.into_words(); m.insert(Some(k), (BigUint::from(hi) << 128) + lo); }
    m
}
/// None when some amount is too large
fn total(xs: &[&CurrencyCollection]) -> Option<Cur> {
    let mut m = Cur::new();
    for x in xs { for (k, v) in amounts(x) { *m.entry(k).or_default() += v; } }
    m.iter().all(|(k, v)| v.bits() <= if k.is_none() { 120 } else { 248 }).then_some(m)
}
fn field(f: &mut ValueFlow, i: usize) -> &mut CurrencyCollection {
    match i { 0 => &mut f.from_prev_block, 1 => &mut f.imported, 2 => &mut f.fees_imported, 3 => &mut f.created, 4 => &mut f.minted, 5 => &mut f.recovered,
        6 => &mut f.to_next_block, 7 => &mut f.exported, 8 => &mut f.fees_collected, _ => &mut f.burned }
}
fn flow_ok(f: &ValueFlow, l: &mut L) -> R {
    l.ev(); l.st(1); l.tr(1);
    let want = (total(&[&f.from_prev_block, &f.imported, &f.fees_imported, &f.created, &f.minted, &f.recovered]), total(&[&f.to_next_block, &f.exported, &f.fees_collected, &f.burned]));
    let got = np("flow/panic", || format!("{f:?}"), || f.validate())?;
    match (&want, &got) {
        ((Some(a), Some(b)), Ok(x)) => { ckeq!(*x, a == b, "flow/balance", "{f:?}"); if a == b { l.nt() } }
        ((Some(_), Some(_)), Err(e)) => bad!("flow/refused", "{e:?} {f:?}"),
        (_, x) => ck!(x.is_err(), "flow/overflow", "{x:?} {f:?}"),
    }
    Ok(())
}
fn flows(r: &Run) {
    let vals = [0u128, 1, MAX];
    r.section("flow-tokens", 3u64.pow(10), |i, l| {
        let mut ix = Ix(i);
        let mut f = ValueFlow::default();
        for k in 0..10 { *field(&mut f, k) = cc(*ix.of(&vals), &[]) }
        flow_ok(&f, l)
    });
    let many: Vec<CurrencyCollection> = vec![cc(0, &[]), cc(1, &[]), cc(0, &[(1, 1)]), cc(0, &[(1, 2)]), cc(0, &[(1, 1), (9, 1)]), cc(5, &[(u32::MAX, 7)]), cc(5, &[(0, 7)]), big_cc(0, 1), big_cc(1, 9), cc(1, &[(1, u128::MAX)])];
    let n = many.len() as u64;
    // any three fields
    r.section("flow-currencies", 1000 * n.pow(3), |i, l| {
        let mut ix = Ix(i);
        let at = [ix.us(10), ix.us(10), ix.us(10)];
        let v = [ix.us(many.len()), ix.us(many.len()), ix.us(many.len())];
        let mut f = ValueFlow::default();
        for k in 0..3 { *field(&mut f, at[k]) = many[v[k]].clone() }
        flow_ok(&f, l)
    });
    // both sides split in every way over the fields
    r.section("flow-splits", (1 << 6) * (1 << 4) * 3, |i, l| {
        let mut ix = Ix(i);
        let (a, b, d) = (ix.us(64), ix.us(16), ix.us(3));
        let (na, nb) = (a.count_ones() as u128, b.count_ones() as u128);
        let mut f = ValueFlow::default();
        for k in 0..6 { if a >> k & 1 == 1 { *field(&mut f, k) = cc(nb, &[(3, nb)]) } }
        for k in 0..4 { if b >> k & 1 == 1 { *field(&mut f, 6 + k) = cc(na, &[(3, na)]) } }
        if na * nb == 0 { return Ok(()) }
        if d > 0 { let k = ix.us(1); let x = field(&mut f, 6 + b.trailing_zeros() as usize + k); if d == 1 { x.tokens = Tokens::new(na + 1) } else { *x = cc(na, &[(3, na), (4, 1)]) } }
        flow_ok(&f, l)
    });
}

fn short_id(k: &[u8; 32]) -> [u8; 32] { let mut h = Sha256::new(); h.update([0xc6, 0xb4, 0x13, 0x48]); h.update(k); h.finalize().into() }
fn signatures(r: &Run) {
    let keys: Vec<SigningKey> = (1..=4u8).map(|k| SigningKey::from_bytes(&[k; 32])).collect();
    let data = b"signed data".to_vec();
    let pubs: Vec<[u8; 32]> = keys.iter().map(|k| k.verifying_key().to_bytes()).collect();
    let good: Vec<[u8; 64]> = keys.iter().map(|k| k.sign(&data).to_bytes()).collect();
    let other: Vec<[u8; 64]> = keys.iter().map(|k| k.sign(b"something else").to_bytes()).collect();
    let sig = |v: usize, how: usize| match how { 0 => good[v], 1 => other[v], 2 => good[(v + 1) % 4], 3 => { let mut x = good[v]; x[63] ^= 0x10; x } _ => { let mut x = good[v]; x[0] ^= 1; x } };
    let slots = r.pick(3usize, 4);
    let per = 1 + 4 * 5; // absent, or one of four signers (the last may be unlisted) x five signatures
    let ws: &[[u64; 4]] = &[[1, 2, 4, 8], [u64::MAX, 0, 1, 5], [1 << 63, 1 << 63, 1, 1]];
    r.section("signatures", (per as u64).pow(slots as u32) * 5 * ws.len() as u64, |i, l| {
        let mut ix = Ix(i);
        let n = ix.us(5);
        let w = *ix.of(ws);
        let list: Vec<ValidatorDescription> = (0..n).map(|v| ValidatorDescription { public_key: HashBytes(pubs[v]), weight: w[v], adnl_addr: None, mc_seqno_since: 0, prev_total_weight: 0 }).collect();
        let mut d = Dict::<u16, BlockSignature>::new();
        let (mut bad_one, mut seen, mut desc) = (false, [false; 4], vec![]);
        for k in 0..slots {
            let c = ix.us(per);
            if c == 0 { continue }
            let (v, how) = ((c - 1) / 5, (c - 1) % 5);
            desc.push((k, v, how));
            d.set((k * 21845) as u16, BlockSignature { node_id_short: HashBytes(short_id(&pubs[v])), signature: Signature(sig(v, how)) }).unwrap();
            if v < n { bad_one |= how != 0; seen[v] = true }
        }
        let ctx = || format!("validators {n} weights {w:?} signatures {desc:?}");
        l.ev(); l.st(1); l.tr(1);
        let got = np("signatures/panic", ctx, || d.check_signatures(&list, &data))?;
        let sum: u128 = (0..n).filter(|v| seen[*v]).map(|v| w[v] as u128).sum();
        if bad_one { ck!(got.is_err(), "signatures/invalid-accepted", "{got:?} {}", ctx()); return Ok(()) }
        match u64::try_from(sum) {
            Ok(s) => { l.nt(); ckeq!(got.as_ref().ok(), Some(&s), "signatures/weight", "{got:?} {}", ctx()) }
            Err(_) => ck!(got.is_err(), "signatures/overflow", "{got:?} {}", ctx()),
        }
        Ok(())
    });
    // a public key which is no point; one signature; every single-bit change of the signature and of the data
    r.section("signature-bits", 512 + 88 + 256, |i, l| {
        let (mut k, mut s, mut m) = (pubs[0], good[0], data.clone());
        let i = i as usize;
        if i < 512 { s[i / 8] ^= 1 << (i % 8) } else if i < 600 { m[(i - 512) / 8] ^= 1 << (i % 8) } else { k[(i - 600) / 8] ^= 1 << (i % 8) }
        let v = ValidatorDescription { public_key: HashBytes(k), weight: 3, adnl_addr: None, mc_seqno_since: 0, prev_total_weight: 0 };
        l.ev(); l.st(1); l.tr(2);
        ck!(!np("signatures/panic", || format!("change {i}"), || v.verify_signature(&m, &Signature(s)))?, "signatures/changed", "change {i}");
        let v = ValidatorDescription { public_key: HashBytes(pubs[0]), ..v };
        ck!(v.verify_signature(&data, &Signature(good[0])), "signatures/good", "");
        let id = BlockId { shard: ShardIdent::MASTERCHAIN, seqno: 5, root_hash: HashBytes([i as u8; 32]), file_hash: HashBytes(k) };
        let f = Block::build_data_for_sign(&id);
        let mut w = vec![0x70, 0x6e, 0x0b, 0xc5];
        w.extend([i as u8; 32]);
        w.extend(k);
        ckeq!(f.to_vec(), w, "signed-data", "");
        Ok(())
    });
}

/// the root extra of a built-in augmented dictionary is the sum or maximum over its entries
fn augs<A>(r: &Run, name: &'static str, vals: Vec<A>, sum: fn(&[&A]) -> Option<A>)
where A: 'static + AugDictExtra + Clone + PartialEq + Debug + Default + Store + for<'a> Load<'a> + Sync + Send {
    let keys = [0u8, 1, 0x7f, 0xff];
    let n = vals.len() as u64 + 1;
    r.section(&format!("aug-{name}"), n.pow(4), |i, l| {
        let mut ix = Ix(i);
        let mut d = AugDict::<u8, A, u8>::new();
        let mut put: Vec<(u8, &A)> = vec![];
        for k in keys {
            let c = ix.us(n as usize);
            if c == 0 { continue }
            let before = d.clone();
            let mut all: Vec<&A> = put.iter().map(|x| x.1).collect();
            all.push(&vals[c - 1]);
            l.ev(); l.st(1); l.tr(1);
            let ctx = || format!("{name}: {put:?} and {k} {:?}", vals[c - 1]);
            let got = np("aug/panic", ctx, || d.set(k, &vals[c - 1], k))?;
            match sum(&all) {
                None => { ck!(got.is_err(), "aug/overflow", "{got:?} {}", ctx()); ck!(d == before, "aug/changed", "{}", ctx()); continue }
                Some(w) => { ck!(got.is_ok(), "aug/refused", "{got:?} {}", ctx()); ckeq!(d.root_extra(), &w, "aug/sum", "{}", ctx()); l.nt() }
            }
            put.push((k, &vals[c - 1]));
        }
        let built = AugDict::<u8, A, u8>::try_from_sorted_slice(&put.iter().map(|(k, a)| (*k, (*a).clone(), *k)).collect::<Vec<_>>());
        ck!(built.as_ref().is_ok_and(|b| *b == d), "aug/built", "{built:?} {put:?}");
        while let Some((k, _)) = if ix.take(2) == 0 { put.pop() } else { (!put.is_empty()).then(|| put.remove(0)) } {
            l.tr(1);
            let got = np("aug/panic", || format!("{name} remove {k}"), || d.remove(k))?;
            ck!(matches!(got, Ok(Some(_))), "aug/remove", "{got:?}");
            let w = sum(&put.iter().map(|x| x.1).collect::<Vec<_>>()).unwrap();
            ckeq!(d.root_extra(), &w, "aug/sum-removed", "{name} {put:?} without {k}");
        }
        Ok(())
    });
}
fn csum(xs: &[&CurrencyCollection]) -> Option<CurrencyCollection> {
    let m = total(xs)?;
    let mut c = CurrencyCollection::default();
    let mut ks: Vec<u32> = vec![];
    for x in xs { for e in x.other.as_dict().iter() { ks.push(e.unwrap().0) } }
    for (k, v) in m { match k {
        None => c.tokens = Tokens::new(v.try_into().unwrap()),
        Some(k) => { let lo: u128 = (&v & BigUint::from(u128::MAX)).try_into().unwrap(); let hi: u128 = (v >> 128u32).try_into().unwrap(); c.other.as_dict_mut().set(k, VarUint248::from_words(hi, lo)).unwrap(); }
    } }
    Some(c)
}

fn bref(k: u8) -> BlockRef { BlockRef { end_lt: u64::MAX - k as u64, seqno: k as u32 * 0x1010101, root_hash: HashBytes([k; 32]), file_hash: HashBytes([k ^ 0xff; 32]) } }
fn headers(r: &Run) {
    r.section("headers", 3 * 3 * 2 * 3 * 3, |i, l| {
        let mut ix = Ix(i);
        let (a, b) = (bref(ix.take(3) as u8 * 127), bref(ix.take(3) as u8 * 100));
        let merge = ix.us(2) == 1;
        let soft = [None, Some(GlobalVersion::default()), Some(GlobalVersion { version: 7, capabilities: GlobalCapabilities::new(u64::MAX) })][ix.us(3)];
        let first = [None, Some(GlobalVersion { version: 1, capabilities: GlobalCapabilities::new(3) }), Some(GlobalVersion::default())][ix.us(3)];
        let p = if merge { PrevBlockRef::AfterMerge { left: a.clone(), right: b.clone() } } else { PrevBlockRef::Single(a.clone()) };
        let mut h = BlockInfo { after_merge: merge, seqno: 1, ..Default::default() };
        h.set_gen_software(first);
        h.set_prev_ref(&p);
        h.set_gen_software(soft);
        l.ev(); l.st(1); l.tr(4); l.nt();
        ckeq!(h.load_prev_ref().ok(), Some(p.clone()), "prev-ref", "{h:?}");
        let mut h2 = BlockInfo { after_merge: merge, ..Default::default() };
        if merge { h2.set_prev_ref_after_merge(&a, &b) } else { h2.set_prev_ref_single(&a) }
        ck!(h2.prev_ref == h.prev_ref && CellBuilder::build_from(&p).is_ok_and(|c| c == h.prev_ref), "prev-ref-cell", "{h:?}");
        let c = CellBuilder::build_from(&h).unwrap();
        let back = c.parse::<BlockInfo>().unwrap();
        ckeq!(back, h, "header", "");
        ckeq!((back.gen_software, back.flags & 1), (soft.unwrap_or_default(), soft.is_some() as u8), "gen-software", "{h:?}");
        ckeq!(back.load_prev_ref().ok(), Some(p.clone()), "prev-ref", "{h:?}");
        ckeq!(h.load_master_ref().ok(), Some(None), "master-ref", "");
        let h3 = BlockInfo { master_ref: Some(Lazy::new(&b).unwrap()), shard: ShardIdent::BASECHAIN, ..h.clone() };
        ckeq!(h3.load_master_ref().ok(), Some(Some(b.clone())), "master-ref", "");
        for s in [ShardIdent::MASTERCHAIN, ShardIdent::new(0, 0x4000_0000_0000_0000).unwrap()] {
            let id = a.as_block_id(s);
            ckeq!((id.shard, id.seqno, id.root_hash, id.file_hash), (s, a.seqno, a.root_hash, a.file_hash), "block-id", "");
        }
        Ok(())
    });
    let gi: Vec<GenesisInfo> = [0u32, 1, 5, u32::MAX].iter().flat_map(|a| [0u64, 1, 5, u64::MAX].map(|b| GenesisInfo { start_round: *a, genesis_millis: b })).collect();
    r.section("genesis", 256, |i, l| {
        let mut ix = Ix(i);
        let (a, b) = (ix.of(&gi), ix.of(&gi));
        l.ev(); l.st(1); l.tr(1);
        ckeq!(a.overrides(b), a.start_round >= b.start_round && a.genesis_millis > b.genesis_millis, "genesis", "{a:?} {b:?}");
        let c = ConsensusInfo { vset_switch_round: 0, prev_vset_switch_round: 0, genesis_info: *a, prev_shuffle_mc_validators: false };
        ckeq!(c.is_zerostate(), a.start_round == 0 && a.genesis_millis == 0, "zerostate", "{c:?}");
        ck!(!ConsensusInfo { prev_shuffle_mc_validators: true, ..c }.is_zerostate() && !ConsensusInfo { vset_switch_round: 1, ..c }.is_zerostate() && !ConsensusInfo { prev_vset_switch_round: 9, ..c }.is_zerostate(), "zerostate", "{c:?}");
        Ok(())
    });
}

fn actions(r: &Run) {
    let cell = |k: u8| { let mut b = CellBuilder::new(); b.store_u8(k).unwrap(); b.build().unwrap() };
    let msg = Lazy::new(&OwnedRelaxedMessage { info: RelaxedMsgInfo::Int(RelaxedIntMsgInfo { value: cc(7, &[(1, 2)]), ..Default::default() }), init: None, body: cell(3).into(), layout: None }).unwrap();
    let kinds: Vec<OutAction> = vec![
        OutAction::SendMsg { mode: SendMsgFlags::from_bits_retain(0xff), out_msg: msg },
        OutAction::SetCode { new_code: cell(1) },
        OutAction::ReserveCurrency { mode: ReserveCurrencyFlags::from_bits_retain(3), value: cc(5, &[(9, 1)]) },
        OutAction::ChangeLibrary { mode: ChangeLibraryMode::from_bits_retain(1), lib: LibRef::Hash(HashBytes([5; 32])) },
        OutAction::ChangeLibrary { mode: ChangeLibraryMode::from_bits_retain(2), lib: LibRef::Cell(cell(2)) },
    ];
    // a list of up to four actions, with a defect in one of its links
    let len = r.pick(4u32, 5);
    for n in 0..=len {
        r.section(&format!("actions-{n}"), 5u64.pow(n) * (n as u64 + 1) * 6, |i, l| {
            let mut ix = Ix(i);
            let list: Vec<OutAction> = (0..n).map(|_| ix.of(&kinds).clone()).collect();
            let (at, how) = (ix.us(n as usize + 1), ix.us(6));
            // cells[0] is the empty end; the defect is in cells[at]
            let mut head = CellBuilder::new();
            if at == 0 { match how { 1 => head.store_u8(1).unwrap(), 2 => { head.set_exotic(true); head.store_u8(2).unwrap(); head.store_u256(&HashBytes([1; 32])).unwrap() } 3 => head.store_reference(cell(9)).unwrap(), 4 => head.store_bit_zero().unwrap(), _ => {} } }
            let mut head = head.build().unwrap();
            let damaged_end = at == 0 && (1..5).contains(&how);
            for (k, a) in list.iter().enumerate() {
                let mut b = CellBuilder::new();
                if at == k + 1 && how == 1 { a.store_into(&mut b, Cell::empty_context()).unwrap(); head = b.build().unwrap(); continue } // no link
                b.store_reference(head).unwrap();
                if at == k + 1 && how == 2 { b.store_u32(0xdeadbeef).unwrap() } else if at == k + 1 && how == 3 { b.store_u16(0x0ec3).unwrap() } else { a.store_into(&mut b, Cell::empty_context()).unwrap() }
                head = b.build().unwrap();
            }
            let broken = damaged_end || (at > 0 && (1..=3).contains(&how));
            let ctx = || format!("{list:?} defect {how} at {at}");
            l.ev(); l.st(1);
            // items as read, bounded by what the chain can hold
            let got: Vec<Result<Cell, Error>> = np("actions/panic", ctx, || OutActionsRevIter::new(head.as_slice_allow_exotic()).take(n as usize + 8).map(|x| x.map(|a| CellBuilder::build_from(&a).unwrap())).collect())?;
            let want: Vec<Cell> = list.iter().rev().map(|a| CellBuilder::build_from(a).unwrap()).collect();
            l.tr(got.len() as u64 + 1);
            if !broken {
                l.nt();
                ckeq!(got.into_iter().collect::<Result<Vec<_>, _>>().ok(), Some(want), "actions/list", "{}", ctx());
                return Ok(());
            }
            let errs = got.iter().filter(|x| x.is_err()).count();
            let good = n as usize - at.min(n as usize);
            // whatever the damaged link reads as, nothing after it may be wrong silently: the intact head is read and an error follows, once, at the end
            if at > 0 && how == 1 && matches!(list[at - 1], OutAction::SendMsg { .. } | OutAction::SetCode { .. } | OutAction::ReserveCurrency { .. } | OutAction::ChangeLibrary { .. }) && errs == 0 { bad!("actions/silent", "{got:?} {}", ctx()) }
            ck!(errs == 1 && got.last().is_some_and(|x| x.is_err()), "actions/error", "{got:?} {}", ctx());
            for k in 0..good.min(got.len() - 1) { ck!(got[k].as_ref().is_ok_and(|c| *c == want[k]), "actions/before-error", "{got:?} {}", ctx()) }
            if at > 0 && (2..=3).contains(&how) { ckeq!(got.len(), good + 1, "actions/error-place", "{}", ctx()) }
            Ok(())
        });
    }
}

fn caps(r: &Run) {
    let all = super::c27::CAPS;
    let n = all.len();
    r.section("capabilities", (n * n) as u64 * 4, |i, l| {
        let mut ix = Ix(i);
        let ((_, a, ab), (_, b, bb)) = (*ix.of(all), *ix.of(all));
        let base = [0u64, 1, 1 << 32, 0x1_ffff_7fff][ix.us(4)];
        let (am, bm) = (1u64 << ab, 1u64 << bb);
        l.ev(); l.st(1); l.tr(12); l.nt();
        let s = GlobalCapabilities::new(base);
        let mut u = base; u |= a;
        let mut v = s; v |= a; v |= bm;
        let w: Vec<u64> = vec![(a | b).into_inner(), (base | a).into_inner(), (a | base).into_inner(), (s | a).into_inner(), (a | s).into_inner(), u, v.into_inner(), GlobalCapabilities::from([a, b]).into_inner(), [b, a, b].into_iter().collect::<GlobalCapabilities>().into_inner(), u64::from(GlobalCapabilities::from(base)), (s | a | b).into_inner()];
        let x: Vec<u64> = vec![am | bm, base | am, base | am, base | am, base | am, base | am, base | am | bm, am | bm, am | bm, base, base | am | bm];
        ckeq!(w, x, "capabilities/set", "{a:?} {b:?} {base:x}");
        let t = s | a;
        ck!(t.contains(a) && t.contains(b) == ((base | am) & bm != 0) && t == (base | am) && t.len() == (base | am).count_ones() as usize && t.is_empty() == ((base | am) == 0), "capabilities/query", "{a:?} {b:?} {base:x}");
        let it: Vec<u64> = t.into_iter().map(|c| c as u64).collect();
        let want: Vec<u64> = (0..64).map(|k| 1u64 << k).filter(|k| (base | am) & k != 0).collect();
        ckeq!((it.clone(), t.iter().map(|c| c as u64).collect::<Vec<_>>()), (want.clone(), want), "capabilities/iter", "{it:?}");
        Ok(())
    });
}

fn infos(r: &Run) {
    let (a, b) = (IntAddr::Std(StdAddr::new(-1, HashBytes([3; 32]))), IntAddr::Std(StdAddr::new(0, HashBytes([4; 32]))));
    let e = ExtAddr::new(9, vec![0xff, 0x80]);
    r.section("message-info", 3 * 8 * 2, |i, l| {
        let mut ix = Ix(i);
        let (kind, f, x) = (ix.us(3), ix.us(8), ix.us(2) as u64);
        l.ev(); l.st(1); l.tr(8); l.nt();
        let int = IntMsgInfo { ihr_disabled: f & 1 != 0, bounce: f & 2 != 0, bounced: f & 4 != 0, src: a.clone(), dst: b.clone(), value: cc(11, &[(1, 5)]), ihr_fee: Tokens::new(21), fwd_fee: Tokens::new(31), created_lt: 41 + x, created_at: 51 };
        let ei = ExtInMsgInfo { src: e.clone(), dst: a.clone(), import_fee: Tokens::new(3) };
        let eo = ExtOutMsgInfo { src: a.clone(), dst: (x == 1).then(|| e.clone()).flatten(), created_lt: 5, created_at: f as u32 };
        let (m, ty, bits): (MsgInfo, _, &[u8]) = match kind { 0 => (int.clone().into(), MsgType::Int, &[0]), 1 => (ei.into(), MsgType::ExtIn, &[1, 0]), _ => (eo.clone().into(), MsgType::ExtOut, &[1, 1]) };
        ckeq!((m.ty(), m.is_internal(), m.is_external_in(), m.is_external_out()), (ty, kind == 0, kind == 1, kind == 2), "info/type", "{m:?}");
        ckeq!((ty.is_internal(), ty.is_external_in(), ty.is_external_out()), (kind == 0, kind == 1, kind == 2), "info/type", "{ty:?}");
        let c = CellBuilder::build_from(ty).unwrap();
        ckeq!(cell_bits(c.as_ref()).iter().map(|x| *x as u8).collect::<Vec<_>>(), bits.to_vec(), "info/type-bits", "{ty:?}");
        ckeq!(c.parse::<MsgType>().ok(), Some(ty), "info/type-bits", "{ty:?}");
        let full = CellBuilder::build_from(&m).unwrap();
        ckeq!(full.as_slice().unwrap().load_small_uint(bits.len() as u16).ok(), c.as_slice().unwrap().load_small_uint(bits.len() as u16).ok(), "info/type-bits", "{m:?}");
        ckeq!(MsgType::load_from(&mut full.as_slice().unwrap()).ok(), Some(ty), "info/type-bits", "{m:?}");
        // a strict header as a relaxed one: the same fields, the same bits
        let relaxed: Option<RelaxedMsgInfo> = match kind { 0 => Some(int.clone().into()), 1 => None, _ => Some(eo.into()) };
        if let Some(q) = relaxed { ck!(CellBuilder::build_from(&q).is_ok_and(|c| c == full), "info/relaxed", "{q:?} from {m:?}") }
        let d = IntMsgInfo::default();
        ck!(d.ihr_disabled && !d.bounce && !d.bounced && d.value.is_zero(), "info/default", "{d:?}");
        let body = CellBuilder::new().build().unwrap();
        let om = OwnedMessage { info: m.clone(), init: None, body: body.into(), layout: None };
        ckeq!(om.ty(), ty, "info/message-type", "{m:?}");
        Ok(())
    });
    r.section("accounts", 4 * 3 * 2, |i, l| {
        let mut ix = Ix(i);
        let (k, lt, ex) = (ix.us(4), [0u64, 9, u64::MAX][ix.us(3)], ix.us(2));
        let st = [AccountState::Uninit, AccountState::Active(StateInit::default()), AccountState::Frozen(HashBytes([7; 32]))];
        let bal = cc(8, if ex == 1 { &[(1, 4)] } else { &[] });
        let o = if k == 3 { OptionalAccount::EMPTY } else { OptionalAccount::from(Account { address: a.clone(), storage_stat: StorageInfo::default(), last_trans_lt: lt, balance: bal.clone(), state: st[k].clone() }) };
        let status = [AccountStatus::Uninit, AccountStatus::Active, AccountStatus::Frozen, AccountStatus::NotExists][k];
        l.ev(); l.st(1); l.tr(6); l.nt();
        ckeq!((o.status(), o.last_trans_lt(), o.balance().clone(), o.state().cloned()), (status, if k == 3 { 0 } else { lt }, if k == 3 { cc(0, &[]) } else { bal }, (k < 3).then(|| st[k].clone())), "account", "{o:?}");
        if k < 3 { ckeq!(st[k].status(), status, "account/state", "") }
        let s = ShardAccount { account: Lazy::new(&o).unwrap(), last_trans_hash: HashBytes([1; 32]), last_trans_lt: lt };
        ckeq!(s.load_account().ok(), Some(o.0.clone()), "account/load", "{o:?}");
        ckeq!(s.account.load().ok(), Some(o.clone()), "account/load", "{o:?}");
        ckeq!(o.as_ref(), &o.0, "account", "");
        Ok(())
    });
}

pub fn run(r: &Run) {
    flows(r);
    signatures(r);
    let v = || vec![cc(1, &[]), cc(MAX - 2, &[]), cc(0, &[(1, 3)]), cc(2, &[(1, 1), (7, 9)]), big_cc(0, 7)];
    augs::<CurrencyCollection>(r, "currency", v(), csum);
    augs::<KeyMaxLt>(r, "key-max-lt", vec![KeyMaxLt { has_key_block: false, max_end_lt: 0 }, KeyMaxLt { has_key_block: true, max_end_lt: 0 }, KeyMaxLt { has_key_block: false, max_end_lt: 9 }, KeyMaxLt { has_key_block: true, max_end_lt: 8 }, KeyMaxLt { has_key_block: false, max_end_lt: u64::MAX }],
        |xs| Some(KeyMaxLt { has_key_block: xs.iter().any(|x| x.has_key_block), max_end_lt: xs.iter().map(|x| x.max_end_lt).max().unwrap_or(0) }));
    augs::<DepthBalanceInfo>(r, "depth-balance", v().into_iter().enumerate().map(|(i, balance)| DepthBalanceInfo { split_depth: [3u8, 0, 30, 4, 5][i], balance }).collect(),
        |xs| csum(&xs.iter().map(|x| &x.balance).collect::<Vec<_>>()).map(|balance| DepthBalanceInfo { split_depth: xs.iter().map(|x| x.split_depth).max().unwrap_or(0), balance }));
    augs::<ImportFees>(r, "import-fees", v().into_iter().enumerate().map(|(i, value_imported)| ImportFees { fees_collected: Tokens::new([0, 1, MAX, 5, 1 << 64][i]), value_imported }).collect(),
        |xs| { let f: BigUint = xs.iter().map(|x| BigUint::from(x.fees_collected.into_inner())).sum(); if f.bits() > 120 { return None } csum(&xs.iter().map(|x| &x.value_imported).collect::<Vec<_>>()).map(|value_imported| ImportFees { fees_collected: Tokens::new(f.try_into().unwrap()), value_imported }) });
    augs::<ShardFeeCreated>(r, "shard-fees", v().into_iter().zip(v().into_iter().rev()).map(|(fees, create)| ShardFeeCreated { fees, create }).collect(),
        |xs| Some(ShardFeeCreated { fees: csum(&xs.iter().map(|x| &x.fees).collect::<Vec<_>>())?, create: csum(&xs.iter().map(|x| &x.create).collect::<Vec<_>>())? }));
    headers(r);
    actions(r);
    caps(r);
    infos(r);
}
