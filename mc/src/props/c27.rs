//! C27: configuration accessors, fees, validator selection.
use crate::fw::*;
use crate::model::{bits::*, boc::crc32c_ref, dict::*};
use crate::{bad, ck, ckeq};
use num_bigint::BigUint;
use sha2::{Digest, Sha512};
use std::collections::BTreeMap;
use std::num::{NonZeroU16, NonZeroU32};
use tycho_types::cell::{CellTreeStats, HashBytes, Lazy};
use tycho_types::dict::Dict;
use tycho_types::models::*;
use tycho_types::num::{Tokens, Uint12, VarUint248};
use tycho_types::prelude::*;
use tycho_types::error::Error;

pub const META: Meta = Meta {
    id: "C27",
    level: "model_checking",
    rule: "histories: a state is a configuration (a set of parameters), a transition is a named or typed setter, a raw set or a remove; every sequence to a depth from the empty, the full and the undecodable configuration is run, and after each step all accessors, their fallbacks and the whole dictionary are compared with a map; every stored parameter is compared with the bits of the published scheme, with all truncations and tag changes. Fee formulas are compared with exact integers on the product of boundary values. Validator sets are all weight vectors over an alphabet to a length, times main counts, flags, requested sizes, shards and sessions, compared with selection by removal from an explicit list; the pseudo-random stream is compared for boundary seeds; non-trivial: more than one validator, a fallback, an error or a rounding is involved",
    assumptions: &["validators have positive weights and cumulative weights match the list, as after loading", "where the exact product exceeds 128 bits only the absence of wrapping is judged", "SHA-512 is that of the sha2 crate"],
    run,
};

type C = BlockchainConfigParams;
fn h(k: u64) -> HashBytes { HashBytes(pack(&pattern(k, 256)).try_into().unwrap()) }
fn hb(k: u64) -> B { pattern(k, 256) }
fn u(n: usize, v: u128) -> B { uint(v, n) }
fn vt(v: u128) -> B { let k = (128 - v.leading_zeros() as usize).div_ceil(8); let mut b = uint(k as u128, 4); b.extend(uint(v, k * 8)); b }
fn cat(p: &[B]) -> B { p.concat() }

/// one value of a parameter: what is stored for it and how it prints
struct PV { id: u32, cell: Cell, dbg: String, sets: Vec<Box<dyn Fn(&mut C) -> Result<bool, Error> + Sync + Send>>, strict: bool }
struct Get { name: &'static str, ids: &'static [u32], required: bool, get: fn(&C) -> Result<Option<String>, Error>, part: fn(&str) -> String }

pub const CAPS: &[(&str, GlobalCapability, u32)] = &[("CapIhrEnabled", GlobalCapability::CapIhrEnabled, 0), ("CapCreateStatsEnabled", GlobalCapability::CapCreateStatsEnabled, 1), ("CapBounceMsgBody", GlobalCapability::CapBounceMsgBody, 2), ("CapReportVersion", GlobalCapability::CapReportVersion, 3), ("CapSplitMergeTransactions", GlobalCapability::CapSplitMergeTransactions, 4), ("CapShortDequeue", GlobalCapability::CapShortDequeue, 5), ("CapMbppEnabled", GlobalCapability::CapMbppEnabled, 6), ("CapFastStorageStat", GlobalCapability::CapFastStorageStat, 7), ("CapInitCodeHash", GlobalCapability::CapInitCodeHash, 8), ("CapOffHypercube", GlobalCapability::CapOffHypercube, 9), ("CapMyCode", GlobalCapability::CapMyCode, 10), ("CapSetLibCode", GlobalCapability::CapSetLibCode, 11), ("CapFixTupleIndexBug", GlobalCapability::CapFixTupleIndexBug, 12), ("CapRemp", GlobalCapability::CapRemp, 13), ("CapDelections", GlobalCapability::CapDelections, 14), ("CapFullBodyInBounced", GlobalCapability::CapFullBodyInBounced, 16), ("CapStorageFeeToTvm", GlobalCapability::CapStorageFeeToTvm, 17), ("CapCopyleft", GlobalCapability::CapCopyleft, 18), ("CapIndexAccounts", GlobalCapability::CapIndexAccounts, 19), ("CapDiff", GlobalCapability::CapDiff, 20), ("CapsTvmBugfixes2022", GlobalCapability::CapsTvmBugfixes2022, 21), ("CapWorkchains", GlobalCapability::CapWorkchains, 22), ("CapStcontNewFormat", GlobalCapability::CapStcontNewFormat, 23), ("CapFastStorageStatBugfix", GlobalCapability::CapFastStorageStatBugfix, 24), ("CapResolveMerkleCell", GlobalCapability::CapResolveMerkleCell, 25), ("CapSignatureWithId", GlobalCapability::CapSignatureWithId, 26), ("CapBounceAfterFailedAction", GlobalCapability::CapBounceAfterFailedAction, 27), ("CapGroth16", GlobalCapability::CapGroth16, 28), ("CapFeeInGasUnits", GlobalCapability::CapFeeInGasUnits, 29), ("CapBigCells", GlobalCapability::CapBigCells, 30), ("CapSuspendedList", GlobalCapability::CapSuspendedList, 31), ("CapFastFinality", GlobalCapability::CapFastFinality, 32)];
fn tie<T>(_: &T, f: fn(&mut C, &T) -> Result<bool, Error>) -> fn(&mut C, &T) -> Result<bool, Error> { f }
macro_rules! pv {
    ($v:ident, $P:ident, $val:expr, $cell:expr, $strict:expr, [$($set:expr),*]) => {{
        let x = $val;
        let x2 = x.clone();
        let mut sets: Vec<Box<dyn Fn(&mut C) -> Result<bool, Error> + Sync + Send>> = vec![Box::new(move |c: &mut C| c.set::<$P>(&x2))];
        $({ let y = x.clone(); sets.push(Box::new(move |c: &mut C| { tie(&y, $set)(c, &y) })); })*
        $v.push(PV { id: $P::ID, cell: $cell, dbg: format!("{:?}", x), sets, strict: $strict });
    }};
}

fn cn(es: &[(B, Val)], n: usize) -> Option<Option<Cell>> { let mut e = es.to_vec(); e.sort_by(|a, b| a.0.cmp(&b.0)); canon(&e, n) }
fn maybe_dict(d: Option<Cell>, mut pre: B, suf: B) -> Cell { pre.push(d.is_some() as u8); pre.extend(suf); build_cell(&pre, &d.iter().collect::<Vec<_>>()).unwrap() }
fn limits(t: [u32; 3]) -> (BlockParamLimits, B) { (BlockParamLimits { underload: t[0], soft_limit: t[1], hard_limit: t[2] }, cat(&[u(8, 0xc3), u(32, t[0] as _), u(32, t[1] as _), u(32, t[2] as _)])) }

pub fn vdescr(i: u64, weight: u64, adnl: bool, mc_seqno: u32, prev: u64) -> (ValidatorDescription, B) {
    let d = ValidatorDescription { public_key: h(i * 7 + 1), weight, adnl_addr: adnl.then(|| h(i * 7 + 2)), mc_seqno_since: mc_seqno, prev_total_weight: prev };
    let tag = if mc_seqno != 0 { 0x93 } else if adnl { 0x73 } else { 0x53 };
    let mut b = cat(&[u(8, tag), u(32, 0x8e81278a), hb(i * 7 + 1), u(64, weight as _)]);
    if adnl { b.extend(hb(i * 7 + 2)) } else if mc_seqno != 0 { b.extend(u(256, 0)) }
    if mc_seqno != 0 { b.extend(u(32, mc_seqno as _)) }
    (d, b)
}
/// validators with the given weights and kinds (adnl, mc_seqno)
pub fn vset(weights: &[u64], main: u16, kinds: &dyn Fn(usize) -> (bool, u32), salt: u64) -> (ValidatorSet, Cell, Cell) {
    let mut total = 0u64;
    let mut list = vec![];
    let mut es = vec![];
    for (i, w) in weights.iter().enumerate() {
        let (a, m) = kinds(i);
        let (d, b) = vdescr(salt * 1000 + i as u64, *w, a, m, total);
        total += w;
        list.push(d);
        es.push((uint(i as u128, 16), Val::new(b)));
    }
    let d = cn(&es, 16).unwrap();
    let pre = |tag| cat(&[u(8, tag), u(32, 77 + salt as u128), u(32, 0xffffffff), u(16, weights.len() as _), u(16, main as _)]);
    let cell = maybe_dict(d.clone(), cat(&[pre(0x12), u(64, total as _)]), vec![]);
    let root = d.unwrap();
    let mut b = pre(0x11);
    b.extend(cell_bits(root.as_ref()));
    let v1 = build_cell(&b, &(0..root.reference_count()).map(|i| root.reference_cloned(i).unwrap()).collect::<Vec<_>>().iter().collect::<Vec<_>>()).unwrap();
    (ValidatorSet { utime_since: 77 + salt as u32, utime_until: u32::MAX, main: NonZeroU16::new(main).unwrap(), total_weight: total, list }, cell, v1)
}

fn values() -> Vec<PV> {
    let mut v = vec![];
    for k in 0..2u64 {
        let kk = k as u128;
        let k32 = [0u32, u32::MAX][k as usize];
        let p32 = |i: u64| (to_u128(&pattern(k * 50 + i, 32))) as u32;
        let p64 = |i: u64| [0, 1, u64::MAX][(i as usize + k as usize) % 3] ^ (to_u128(&pattern(k * 90 + i, 64)) as u64 * (k ^ 1));
        let c = |b: B| cell_of(&b);
        pv!(v, ConfigParam0, h(k), c(hb(k)), true, []);
        pv!(v, ConfigParam1, h(k + 10), c(hb(k + 10)), true, [|c, v| c.set_elector_address(v)]);
        pv!(v, ConfigParam2, h(k + 20), c(hb(k + 20)), true, [|c, v| c.set_minter_address(v)]);
        pv!(v, ConfigParam3, h(k + 30), c(hb(k + 30)), true, [|c, v| c.set_fee_collector_address(v)]);
        pv!(v, ConfigParam4, h(k + 40), c(hb(k + 40)), true, []);
        let burn = BurningConfig { blackhole_addr: (k == 1).then(|| h(k + 50)), fee_burn_num: k32, fee_burn_denom: NonZeroU32::new(k32.max(5)).unwrap() };
        pv!(v, ConfigParam5, burn, c(cat(&[u(8, 1), if k == 1 { cat(&[vec![1], hb(51)]) } else { vec![0] }, u(32, k32 as _), u(32, k32.max(5) as _)])), true, [|c, v| c.set_burning_config(v)]);
        let named = CAPS.iter().fold(0u64, |a, b| a | 1 << b.2);
        let caps = p64(1) & named;
        let ver = GlobalVersion { version: p32(1), capabilities: GlobalCapabilities::new(caps) };
        pv!(v, ConfigParam8, ver, c(cat(&[u(8, 0xc4), u(32, p32(1) as _), u(64, caps as _)])), true, [|c, v| c.set_global_version(v)]);
        // currencies
        let mut ecc = ExtraCurrencyCollection::new();
        let mut es = vec![];
        for i in 0..2 * k { ecc.as_dict_mut().set(i as u32, VarUint248::new(i as u128 * 1000 + 1)).unwrap(); let n = i as u128 * 1000 + 1; let l = (128 - n.leading_zeros() as usize).div_ceil(8); es.push((uint(i as _, 32), Val::new(cat(&[u(5, l as _), u(l * 8, n)])))) }
        let ed = cn(&es, 32).unwrap();
        pv!(v, ConfigParam7, ecc.clone(), maybe_dict(ed.clone(), vec![], vec![]), true, []);
        pv!(v, ConfigParam50, MintOnceConfig { mint_at: p32(3), delta: CurrencyCollection { tokens: Tokens::new(kk * 12345), other: ecc.clone() } }, maybe_dict(ed, cat(&[u(8, 1), u(32, p32(3) as _), vt(kk * 12345)]), vec![]), true, []);
        // parameter lists
        let ids: Vec<u32> = if k == 0 { vec![7] } else { vec![0, 9, 0x80000000, u32::MAX] };
        let mut d = Dict::<u32, ()>::new();
        for i in &ids { d.set(*i, ()).unwrap(); }
        let root = cn(&ids.iter().map(|i| (uint(*i as _, 32), Val::new(vec![]))).collect::<Vec<_>>(), 32).unwrap().unwrap();
        pv!(v, ConfigParam9, d.clone(), root.clone(), false, [|c, v| c.set_mandatory_params(&v.keys().map(|x| x.unwrap()).collect::<Vec<_>>())]);
        pv!(v, ConfigParam10, d.clone(), root.clone(), false, [|c, v| c.set_critical_params(&v.keys().reversed().map(|x| x.unwrap()).collect::<Vec<_>>())]);
        // voting
        let prop = |j: u64| { let x = |i: u64| p32(j * 10 + i); (ConfigProposalSetup { min_total_rounds: x(0) as u8, max_total_rounds: x(1) as u8, min_wins: x(2) as u8, max_losses: x(3) as u8, min_store_sec: x(4), max_store_sec: x(5), bit_price: x(6), cell_price: x(7) }, cat(&[u(8, 0x36), u(8, x(0) as u8 as _), u(8, x(1) as u8 as _), u(8, x(2) as u8 as _), u(8, x(3) as u8 as _), u(32, x(4) as _), u(32, x(5) as _), u(32, x(6) as _), u(32, x(7) as _)])) };
        let (a, b) = (prop(1), prop(2));
        pv!(v, ConfigParam11, ConfigVotingSetup { normal_params: Lazy::new(&a.0).unwrap(), critical_params: Lazy::new(&b.0).unwrap() }, build_cell(&u(8, 0x91), &[&cell_of(&a.1), &cell_of(&b.1)]).unwrap(), true, []);
        // workchains
        let mut d = Dict::<i32, WorkchainDescription>::new();
        let mut es = vec![];
        for i in 0..3 * k as i32 {
            let basic = i % 2 == 0;
            let w = WorkchainDescription { enabled_since: p32(5), actual_min_split: i as u8, min_split: i as u8, max_split: 60 - i as u8, active: i & 1 == 0, accept_msgs: i & 2 == 0, zerostate_root_hash: h(70), zerostate_file_hash: h(71), version: p32(6), format: if basic { WorkchainFormat::Basic(WorkchainFormatBasic { vm_version: -1 - i, vm_mode: u64::MAX - i as u64 }) } else { WorkchainFormat::Extended(WorkchainFormatExtended { min_addr_len: Uint12::new(64), max_addr_len: Uint12::new(1023), addr_len_step: Uint12::new(8), workchain_type_id: NonZeroU32::new(9).unwrap() }) } };
            d.set(i - 1, &w).unwrap();
            let f = if basic { cat(&[u(4, 1), u(32, (-1 - i) as u32 as _), u(64, (u64::MAX - i as u64) as _)]) } else { cat(&[u(4, 0), u(12, 64), u(12, 1023), u(12, 8), u(32, 9)]) };
            es.push((uint((i - 1) as u32 as _, 32), Val::new(cat(&[u(8, 0xa6), u(32, p32(5) as _), u(8, i as _), u(8, i as _), u(8, 60 - i as u128), vec![basic as u8, (i & 1 == 0) as u8, (i & 2 == 0) as u8], u(13, 0), hb(70), hb(71), u(32, p32(6) as _), f]))));
        }
        pv!(v, ConfigParam12, d, maybe_dict(cn(&es, 32).unwrap(), vec![], vec![]), true, [|c, v| c.set_workchains(v)]);
        pv!(v, ConfigParam14, BlockCreationRewards { masterchain_block_fee: Tokens::new(1 + kk), basechain_block_fee: Tokens::new(kk << 119) }, c(cat(&[u(8, 0x6b), vt(1 + kk), vt(kk << 119)])), true, [|c, v| c.set_block_creation_rewards(v)]);
        pv!(v, ConfigParam15, ElectionTimings { validators_elected_for: p32(1), elections_start_before: p32(2), elections_end_before: p32(3), stake_held_for: p32(4) }, c(cat(&[u(32, p32(1) as _), u(32, p32(2) as _), u(32, p32(3) as _), u(32, p32(4) as _)])), true, [|c, v| c.set_election_timings(v)]);
        let x16 = |i: u64| p32(i) as u16;
        pv!(v, ConfigParam16, ValidatorCountParams { max_validators: x16(1), max_main_validators: x16(2), min_validators: x16(3) }, c(cat(&[u(16, x16(1) as _), u(16, x16(2) as _), u(16, x16(3) as _)])), true, [|c, v| c.set_validator_count_params(v)]);
        pv!(v, ConfigParam17, ValidatorStakeParams { min_stake: Tokens::new(255 + kk), max_stake: Tokens::new(kk * 0x10000), min_total_stake: Tokens::new(1 << 64), max_stake_factor: p32(9) }, c(cat(&[vt(255 + kk), vt(kk * 0x10000), vt(1 << 64), u(32, p32(9) as _)])), true, [|c, v| c.set_validator_stake_params(v)]);
        // storage prices
        let mut d = Dict::<u32, StoragePrices>::new();
        let mut es = vec![];
        for i in 0..1 + 2 * k {
            let s = StoragePrices { utime_since: p32(i), bit_price_ps: p64(i), cell_price_ps: p64(i + 1), mc_bit_price_ps: p64(i + 2), mc_cell_price_ps: p64(i + 3) };
            d.set(i as u32, s).unwrap();
            es.push((uint(i as _, 32), Val::new(cat(&[u(8, 0xcc), u(32, p32(i) as _), u(64, p64(i) as _), u(64, p64(i + 1) as _), u(64, p64(i + 2) as _), u(64, p64(i + 3) as _)]))));
        }
        pv!(v, ConfigParam18, d, cn(&es, 32).unwrap().unwrap(), false, [|c, v| c.set_storage_prices(&v.values().map(|x| x.unwrap()).collect::<Vec<_>>())]);
        pv!(v, ConfigParam19, [i32::MIN, 42][k as usize], c(u(32, [i32::MIN as u32, 42][k as usize] as _)), true, [|c, v| c.set_global_id(*v)]);
        let gas = |j: u64| { let g = |i: u64| p64(i * 3 + j); (GasLimitsPrices { gas_price: g(0), gas_limit: g(1), special_gas_limit: g(2), gas_credit: g(3), block_gas_limit: g(4), freeze_due_limit: g(5), delete_due_limit: g(6), flat_gas_limit: g(7), flat_gas_price: g(8) }, cat(&[u(8, 0xd1), u(64, g(7) as _), u(64, g(8) as _), u(8, 0xde), u(64, g(0) as _), u(64, g(1) as _), u(64, g(2) as _), u(64, g(3) as _), u(64, g(4) as _), u(64, g(5) as _), u(64, g(6) as _)])) };
        pv!(v, ConfigParam20, gas(1).0, c(gas(1).1), true, [|c, v| c.set_gas_prices(true, v)]);
        pv!(v, ConfigParam21, gas(2).0, c(gas(2).1), true, [|c, v| c.set_gas_prices(false, v)]);
        let bl = |j: u32| { let l = |i: u32| limits([j * i, j * i + k as u32, u32::MAX - 3 + j]); (BlockLimits { bytes: l(1).0, gas: l(2).0, lt_delta: l(3).0 }, cat(&[u(8, 0x5d), l(1).1, l(2).1, l(3).1])) };
        pv!(v, ConfigParam22, bl(1).0, c(bl(1).1), true, [|c, v| c.set_block_limits(true, v)]);
        pv!(v, ConfigParam23, bl(2).0, c(bl(2).1), true, [|c, v| c.set_block_limits(false, v)]);
        let fw = |j: u64| { let g = |i: u64| p64(i * 3 + j); (MsgForwardPrices { lump_price: g(0), bit_price: g(1), cell_price: g(2), ihr_price_factor: p32(j), first_frac: p32(j + 1) as u16, next_frac: p32(j + 2) as u16 }, cat(&[u(8, 0xea), u(64, g(0) as _), u(64, g(1) as _), u(64, g(2) as _), u(32, p32(j) as _), u(16, p32(j + 1) as u16 as _), u(16, p32(j + 2) as u16 as _)])) };
        pv!(v, ConfigParam24, fw(1).0, c(fw(1).1), true, [|c, v| c.set_msg_forward_prices(true, v)]);
        pv!(v, ConfigParam25, fw(2).0, c(fw(2).1), true, [|c, v| c.set_msg_forward_prices(false, v)]);
        for f in 0..4u128 { let cc = CatchainConfig { isolate_mc_validators: f & 2 != 0, shuffle_mc_validators: f & 1 != 0, mc_catchain_lifetime: p32(1), shard_catchain_lifetime: p32(2), shard_validators_lifetime: p32(3), shard_validators_num: p32(4) };
        pv!(v, ConfigParam28, cc, c(cat(&[u(8, 0xc2), u(6, 0), u(2, f), u(32, p32(1) as _), u(32, p32(2) as _), u(32, p32(3) as _), u(32, p32(4) as _)])), true, [|c, v| c.set_catchain_config(v)]); }
        let cs = ConsensusConfig { new_catchain_ids: k == 1, round_candidates: NonZeroU32::new([1, 255][k as usize]).unwrap(), next_candidate_delay_ms: p32(1), consensus_timeout_ms: p32(2), fast_attempts: p32(3), attempt_duration: p32(4), catchain_max_deps: p32(5), max_block_bytes: p32(6), max_collated_bytes: p32(7) };
        pv!(v, ConfigParam29, cs, c(cat(&[u(8, 0xd7), u(7, 0), u(1, kk), u(8, [1, 255][k as usize]), u(32, p32(1) as _), u(32, p32(2) as _), u(32, p32(3) as _), u(32, p32(4) as _), u(32, p32(5) as _), u(32, p32(6) as _), u(32, p32(7) as _)])), true, [|c, v| c.set_consensus_config(v)]);
        let mut d = Dict::<HashBytes, ()>::new();
        for i in 0..3 * k { d.set(h(i + 5), ()).unwrap(); }
        pv!(v, ConfigParam31, d, maybe_dict(cn(&{ let mut e: Vec<_> = (0..3 * k).map(|i| (hb(i + 5), Val::new(vec![]))).collect(); e.sort_by(|a, b| a.0.cmp(&b.0)); e }, 256).unwrap(), vec![], vec![]), true, [|c, v| c.set_fundamental_addresses(&v.keys().map(|x| x.unwrap()).collect::<Vec<_>>())]);
        let vs = |s: u64| vset(if k == 0 { &[5] } else { &[1, u64::MAX / 2, 3, 1] }, if k == 0 { 1 } else { 2 }, &|i| (i != 1, if i > 1 { i as u32 } else { 0 }), s * 2 + k);
        pv!(v, ConfigParam32, vs(2).0, vs(2).1, true, []);
        pv!(v, ConfigParam33, vs(3).0, vs(3).1, true, []);
        pv!(v, ConfigParam34, vs(4).0, vs(4).1, true, []);
        pv!(v, ConfigParam35, vs(5).0, vs(5).1, true, []);
        pv!(v, ConfigParam36, vs(6).0, vs(6).1, true, []);
        pv!(v, ConfigParam37, vs(7).0, vs(7).1, true, []);
        let z = |i: u64| p32(i + 20);
        pv!(v, ConfigParam43, SizeLimitsConfig { max_msg_bits: z(1), max_msg_cells: z(2), max_library_cells: z(3), max_vm_data_depth: z(4) as u16, max_ext_msg_size: z(5), max_ext_msg_depth: z(6) as u16, max_acc_state_cells: z(7), max_acc_state_bits: z(8), max_acc_public_libraries: z(9), defer_out_queue_size_limit: z(10) }, c(cat(&[u(8, 2), u(32, z(1) as _), u(32, z(2) as _), u(32, z(3) as _), u(16, z(4) as u16 as _), u(32, z(5) as _), u(16, z(6) as u16 as _), u(32, z(7) as _), u(32, z(8) as _), u(32, z(9) as _), u(32, z(10) as _)])), true, [|c, v| c.set_size_limits(v)]);
    }
    v
}

/// a cell printing without its identity: lazily loaded values print the same from either side
fn pr<T: std::fmt::Debug>(x: T) -> String { format!("{x:?}") }
macro_rules! g { ($name:literal, $ids:expr, $req:expr, $e:expr) => { Get { name: $name, ids: $ids, required: $req, get: { let f: fn(&C) -> Result<Option<String>, Error> = $e; f }, part: |s| s.to_string() } } }
macro_rules! gp { ($name:literal, $ids:expr, $req:expr, $e:expr, $p:expr) => { Get { name: $name, ids: $ids, required: $req, get: { let f: fn(&C) -> Result<Option<String>, Error> = $e; f }, part: $p } } }
fn getters() -> Vec<Get> {
    let mut v = vec![
        g!("elector", &[1], true, |c| c.get_elector_address().map(|x| Some(pr(x)))),
        g!("minter", &[2, 0], true, |c| c.get_minter_address().map(|x| Some(pr(x)))),
        g!("fee_collector", &[3, 1], true, |c| c.get_fee_collector_address().map(|x| Some(pr(x)))),
        g!("burning", &[5], true, |c| c.get_burning_config().map(|x| Some(pr(x)))),
        g!("version", &[8], true, |c| c.get_global_version().map(|x| Some(pr(x)))),
        g!("mandatory", &[9], true, |c| c.get_mandatory_params().map(|x| Some(pr(x)))),
        g!("critical", &[10], true, |c| c.get_critical_params().map(|x| Some(pr(x)))),
        g!("workchains", &[12], true, |c| c.get_workchains().map(|x| Some(pr(x)))),
        g!("rewards", &[14], true, |c| c.get_block_creation_rewards().map(|x| Some(pr(x)))),
        gp!("reward-mc", &[14], true, |c| c.get_block_creation_reward(true).map(|x| Some(pr(x))), |s| field(s, "masterchain_block_fee: ")),
        gp!("reward-base", &[14], true, |c| c.get_block_creation_reward(false).map(|x| Some(pr(x))), |s| field(s, "basechain_block_fee: ")),
        g!("timings", &[15], true, |c| c.get_election_timings().map(|x| Some(pr(x)))),
        g!("count", &[16], true, |c| c.get_validator_count_params().map(|x| Some(pr(x)))),
        g!("stake", &[17], true, |c| c.get_validator_stake_params().map(|x| Some(pr(x)))),
        g!("storage", &[18], true, |c| c.get_storage_prices().map(|x| Some(pr(x)))),
        g!("global_id", &[19], true, |c| c.get_global_id().map(|x| Some(pr(x)))),
        g!("gas-mc", &[20], true, |c| c.get_gas_prices(true).map(|x| Some(pr(x)))),
        g!("gas-base", &[21], true, |c| c.get_gas_prices(false).map(|x| Some(pr(x)))),
        g!("limits-mc", &[22], true, |c| c.get_block_limits(true).map(|x| Some(pr(x)))),
        g!("limits-base", &[23], true, |c| c.get_block_limits(false).map(|x| Some(pr(x)))),
        g!("fwd-mc", &[24], true, |c| c.get_msg_forward_prices(true).map(|x| Some(pr(x)))),
        g!("fwd-base", &[25], true, |c| c.get_msg_forward_prices(false).map(|x| Some(pr(x)))),
        g!("catchain", &[28], true, |c| c.get_catchain_config().map(|x| Some(pr(x)))),
        g!("consensus", &[29], true, |c| c.get_consensus_config().map(|x| Some(pr(x)))),
        g!("fundamental", &[31], true, |c| c.get_fundamental_addresses().map(|x| Some(pr(x)))),
        g!("prev", &[33, 32], false, |c| c.get_previous_validator_set().map(|x| x.map(pr))),
        g!("current", &[35, 34], true, |c| c.get_current_validator_set().map(|x| Some(pr(x)))),
        g!("next", &[37, 36], false, |c| c.get_next_validator_set().map(|x| x.map(pr))),
        g!("sizes", &[43], true, |c| c.get_size_limits().map(|x| Some(pr(x)))),
    ];
    macro_rules! raw { ($($id:literal $P:ident),*) => { $(v.push(g!("typed", &[$id], false, |c| c.get::<$P>().map(|x| x.map(pr))));)* } }
    raw!(0 ConfigParam0, 1 ConfigParam1, 2 ConfigParam2, 3 ConfigParam3, 4 ConfigParam4, 5 ConfigParam5, 7 ConfigParam7, 8 ConfigParam8, 9 ConfigParam9, 10 ConfigParam10, 11 ConfigParam11, 12 ConfigParam12, 14 ConfigParam14, 15 ConfigParam15, 16 ConfigParam16, 17 ConfigParam17, 18 ConfigParam18, 19 ConfigParam19, 20 ConfigParam20, 21 ConfigParam21, 22 ConfigParam22, 23 ConfigParam23, 24 ConfigParam24, 25 ConfigParam25, 28 ConfigParam28, 29 ConfigParam29, 31 ConfigParam31, 32 ConfigParam32, 33 ConfigParam33, 34 ConfigParam34, 35 ConfigParam35, 36 ConfigParam36, 37 ConfigParam37, 43 ConfigParam43, 50 ConfigParam50);
    v
}
fn field(s: &str, f: &str) -> String { let t = &s[s.find(f).unwrap() + f.len()..]; let e = t.find(|c| c == ',' || c == ' ').unwrap_or(t.len()); t[..e].to_string() }

#[derive(Clone)]
struct M { real: C, map: BTreeMap<u32, (Cell, Option<String>)> }
fn compare(m: &M, gs: &[Get], ctx: &dyn Fn() -> String, l: &mut L) -> R {
    l.st(1);
    let got: Vec<_> = read_opt(m.real.as_dict().root(), 32).unwrap_or_default().into_iter().map(|(k, v)| (to_u128(&k) as u32, v)).collect();
    ck!(got.len() == m.map.len() && got.iter().zip(&m.map).all(|((k, v), (i, c))| k == i && v.bits.is_empty() && v.refs.len() == 1 && v.refs[0] == c.0), "content", "{:?} want {:?} {}", got.iter().map(|x| x.0).collect::<Vec<_>>(), m.map.keys().collect::<Vec<_>>(), ctx());
    for x in gs {
        l.ev();
        let want = x.ids.iter().find_map(|i| m.map.get(i));
        let got = np("panic", || format!("{} {}", x.name, ctx()), || (x.get)(&m.real))?;
        match want {
            Some((_, Some(d))) => { let w = (x.part)(d); ck!(got.as_ref().ok() == Some(&Some(w.clone())), format!("get/{}/{}", x.name, x.ids[0]), "{got:?} want {w} {}", ctx()) }
            Some((_, None)) => { l.nt(); ck!(got.is_err(), format!("get/{}/{}", x.name, x.ids[0]), "garbage read as {got:?} {}", ctx()) }
            None if x.required => { l.nt(); ck!(got.is_err(), format!("get/{}/{}", x.name, x.ids[0]), "absent read as {got:?} {}", ctx()) }
            None => ck!(matches!(got, Ok(None)), format!("get/{}/{}", x.name, x.ids[0]), "absent read as {got:?} {}", ctx()),
        }
    }
    let has = |i: u32| m.map.contains_key(&i);
    for id in (0..52).chain([u32::MAX]) {
        l.ev();
        ckeq!(m.real.contains_raw(id).ok(), Some(has(id)), "contains_raw", "{id} {}", ctx());
        ckeq!(m.real.get_raw_cell(id).ok(), Some(m.map.get(&id).map(|x| x.0.clone())), "get_raw_cell", "{id} {}", ctx());
        ckeq!(m.real.get_raw_cell_ref(id).ok().map(|x| x.map(|c| *c.repr_hash())), Some(m.map.get(&id).map(|x| *x.0.repr_hash())), "get_raw_cell_ref", "{id} {}", ctx());
        ckeq!(m.real.get_raw(id).ok().map(|x| x.map(|c| slice_bits(&c))), Some(m.map.get(&id).map(|x| cell_bits(x.0.as_ref()))), "get_raw", "{id} {}", ctx());
    }
    ckeq!(m.real.contains_prev_validator_set().ok(), Some(has(32) || has(33)), "contains_prev", "{}", ctx());
    ckeq!(m.real.contains_next_validator_set().ok(), Some(has(36) || has(37)), "contains_next", "{}", ctx());
    // the configuration itself is a reference to the dictionary
    let st = CellBuilder::build_from(&m.real).ok();
    if m.map.is_empty() { ck!(st.is_none(), "store-empty", "{}", ctx()) } else {
        let st = st.ok_or(V { key: "store".into(), detail: ctx() })?;
        ckeq!(st.clone().parse::<C>().ok(), Some(m.real.clone()), "store", "{}", ctx());
    }
    Ok(())
}

#[derive(Clone, Copy, Debug)]
enum Op { Set(usize, usize), Raw(u32), Remove(u32) }
fn apply(m: &mut M, op: Op, vs: &[PV], l: &mut L) -> R {
    l.tr(1);
    match op {
        Op::Set(i, s) => {
            let p = &vs[i];
            let r = np("panic", || format!("set {}", p.id), || (p.sets[s])(&mut m.real))?;
            ck!(r.is_ok(), format!("set/{}", p.id), "{r:?} {}", p.dbg);
            m.map.insert(p.id, (p.cell.clone(), Some(p.dbg.clone())));
        }
        Op::Raw(id) => { let c = cell_of(&uint(0x5a, 7)); ck!(m.real.set_raw(id, c.clone()).is_ok(), "set_raw", "{id}"); m.map.insert(id, (c, None)); }
        Op::Remove(id) => {
            let r = m.real.remove(id);
            if id == 0 { ckeq!(r, Ok(None), "remove-0", ""); } else { ckeq!(r, Ok(m.map.remove(&id).map(|x| x.0)), "remove", "{id}"); }
        }
    }
    Ok(())
}

fn empty() -> M { M { real: BlockchainConfig::new_empty(HashBytes::ZERO).params, map: BTreeMap::new() } }

fn ceil16(x: &BigUint) -> BigUint { (x + 0xffffu32) >> 16 }
fn sat(t: Tokens, exact: BigUint, mid: BigUint, what: &str, ctx: String) -> R {
    let got = BigUint::from(t.into_inner());
    if mid.bits() <= 128 { if got != exact { bad!(format!("fee/{what}"), "{got} want {exact} {ctx}") } } else if got > exact || got.bits() < 112 { bad!(format!("fee/{what}/wrap"), "{got} want {exact} {ctx}") }
    Ok(())
}

struct Prng { seed: [u8; 32], tail: Vec<u8>, buf: Vec<u64> }
impl Prng {
    fn new(s: ShardIdent, cc: u32, seed: [u8; 32]) -> Self { let mut tail = s.prefix().to_be_bytes().to_vec(); tail.extend(s.workchain().to_be_bytes()); tail.extend(cc.to_be_bytes()); Prng { seed, tail, buf: vec![] } }
    fn next(&mut self) -> u64 {
        if self.buf.is_empty() {
            let mut d = self.seed.to_vec();
            d.extend(&self.tail);
            let hh = Sha512::digest(&d);
            self.buf = hh.chunks(8).map(|c| u64::from_be_bytes(c.try_into().unwrap())).rev().collect();
            let n = BigUint::from_bytes_be(&self.seed) + 1u8;
            let b = n.to_bytes_be();
            self.seed = [0; 32];
            for (i, x) in b.iter().rev().take(32).enumerate() { self.seed[31 - i] = *x }
        }
        self.buf.pop().unwrap()
    }
    fn ranged(&mut self, r: u64) -> u64 { (BigUint::from(r) * BigUint::from(self.next()) >> 64u32).iter_u64_digits().next().unwrap_or(0) }
}
fn short(list: &[ValidatorDescription], cc: u32) -> u32 {
    let mut d = 0x901660EDu32.to_le_bytes().to_vec();
    d.extend(cc.to_le_bytes());
    d.extend((list.len() as u32).to_le_bytes());
    for v in list { d.extend(v.public_key.0); d.extend(v.weight.to_le_bytes()); d.extend(v.adnl_addr.map(|x| x.0).unwrap_or([0; 32])) }
    crc32c_ref(&d)
}
/// selection by removal from the list of the remaining ones
fn select(v: &ValidatorSet, s: ShardIdent, cfg: &CatchainConfig, cc: u32) -> Option<Vec<(usize, u64)>> {
    let mut g = Prng::new(s, cc, [0; 32]);
    let main = v.main.get() as usize;
    if s.workchain() == -1 {
        let n = main.min(v.list.len());
        let mut order: Vec<usize> = (0..n).collect();
        if cfg.shuffle_mc_validators { for i in 0..n { let j = g.ranged(i as u64 + 1) as usize; order.swap(i, j) } }
        return Some(order.into_iter().map(|i| (i, v.list[i].weight)).collect());
    }
    let from = if cfg.isolate_mc_validators { main } else { 0 };
    if from > 0 && from >= v.list.len() { return None }
    let mut rest: Vec<usize> = (from..v.list.len()).collect();
    let mut out = vec![];
    for _ in 0..rest.len().min(cfg.shard_validators_num as usize) {
        let mut p = g.ranged(rest.iter().map(|i| v.list[*i].weight).sum());
        let k = rest.iter().position(|i| { if p < v.list[*i].weight { true } else { p -= v.list[*i].weight; false } }).unwrap();
        out.push((rest.remove(k), 1));
    }
    Some(out)
}
fn judge_set(weights: &[u64], l: &mut L) -> R {
    let shards = [ShardIdent::MASTERCHAIN, ShardIdent::BASECHAIN, ShardIdent::new(0, 0x4000000000000000).unwrap(), ShardIdent::new(0, 0xc000000000000000).unwrap(), ShardIdent::new(7, 0x8000000000000000).unwrap(), ShardIdent::new(i32::MIN, 0x0000000000000008).unwrap()];
    for main in 1..=weights.len() as u16 {
        let (v, cell, v1) = vset(weights, main, &|i| (i % 3 != 1, 0), weights.len() as u64);
        l.st(1);
        ckeq!(cell.parse::<ValidatorSet>().ok(), Some(v.clone()), "set-load", "{weights:?} main={main}");
        ckeq!(v1.parse::<ValidatorSet>().ok(), Some(v.clone()), "set-load-v1", "{weights:?} main={main}");
        for s in shards { for cc in [0u32, 1, 2, 77, u32::MAX] { for f in 0..4 { for n in [0u32, 1, 2, 3, weights.len() as u32, weights.len() as u32 + 1, u32::MAX] {
            let cfg = CatchainConfig { isolate_mc_validators: f & 1 == 1, shuffle_mc_validators: f & 2 == 2, mc_catchain_lifetime: 1, shard_catchain_lifetime: 2, shard_validators_lifetime: 3, shard_validators_num: n };
            let ctx = || format!("{weights:?} main={main} shard={s} cc={cc} {cfg:?}");
            l.ev();
            l.tr(1);
            if weights.len() > 1 { l.nt() }
            let got = np("panic", ctx, || v.compute_subset(s, &cfg, cc))?;
            match (select(&v, s, &cfg, cc), got) {
                (None, None) => {}
                (Some(w), Some((g, hs))) => {
                    ckeq!(g.iter().map(|d| (d.public_key, d.adnl_addr, d.weight)).collect::<Vec<_>>(), w.iter().map(|(i, wt)| (v.list[*i].public_key, v.list[*i].adnl_addr, *wt)).collect::<Vec<_>>(), "subset", "{}", ctx());
                    ckeq!(hs, short(&g, cc), "hash_short", "{}", ctx());
                    ckeq!(ValidatorSet::compute_subset_hash_short(&g, cc), hs, "hash_short-fn", "{}", ctx());
                    if s.is_masterchain() { ckeq!(v.compute_mc_subset(cc, cfg.shuffle_mc_validators), Some((g, hs)), "mc_subset", "{}", ctx()) }
                }
                (w, g) => bad!("subset-none", "model={} impl={} {}", w.is_some(), g.is_some(), ctx()),
            }
        }}}}
    }
    Ok(())
}

fn run(r: &Run) {
    let q = r.quick();
    let vs = values();
    let gs = getters();
    let mut ops: Vec<Op> = vec![];
    for (i, p) in vs.iter().enumerate() { for s in 0..p.sets.len() { ops.push(Op::Set(i, s)) } }
    let mut ids: Vec<u32> = vs.iter().map(|p| p.id).collect();
    ids.sort();
    ids.dedup();
    for i in &ids { ops.push(Op::Raw(*i)); ops.push(Op::Remove(*i)) }
    ops.push(Op::Raw(u32::MAX));
    ops.push(Op::Remove(6));
    let full = |k: usize| { let mut m = empty(); for id in &ids { let c: Vec<&PV> = vs.iter().filter(|p| p.id == *id).collect(); let p = c[k % c.len()]; m.map.insert(*id, (p.cell.clone(), Some(p.dbg.clone()))); m.real.set_raw(*id, p.cell.clone()).unwrap(); } m };
    let bases: Vec<M> = { let mut b = empty(); b.real = C::from_raw({ let mut d = Dict::<u32, Cell>::new(); d.set(0, cell_of(&[])).unwrap(); d.into_root().unwrap() }); b.map.insert(0, (cell_of(&[]), None)); let mut g = empty(); for id in &ids { g.real.set_raw(*id, cell_of(&[])).unwrap(); g.map.insert(*id, (cell_of(&[]), None)); } let e = M { real: { let mut c = C::from_raw(b.real.as_dict().root().clone().unwrap()); c.set_raw(9, cell_of(&[1])).unwrap(); c }, map: { let mut m = b.map.clone(); m.insert(9, (cell_of(&[1]), None)); m } }; vec![b, full(0), full(1), g, e] };
    // new_empty
    r.section("new_empty", 3, |i, l| {
        let a = h(i + 3);
        let c = BlockchainConfig::new_empty(a);
        l.ev();
        ckeq!(c.address, a, "new_empty", "");
        let root = read_opt(c.params.as_dict().root(), 32).unwrap_or_default();
        ck!(root.len() == 1 && to_u128(&root[0].0) == 0 && cell_bits(root[0].1.refs[0].as_ref()) == hb(i + 3), "new_empty", "{root:?}");
        let cell = CellBuilder::build_from(&c).unwrap();
        ckeq!((cell_bits(cell.as_ref()), cell.reference_count()), (hb(i + 3), 1), "config-layout", "");
        ckeq!(cell.parse::<BlockchainConfig>().ok(), Some(c), "config-load", "");
        Ok(())
    });
    // every history of length 2 (3) from every base
    let n = ops.len() as u64;
    let pick3: Vec<Op> = ops.iter().copied().filter(|o| match o { Op::Set(i, s) => [0, 1, 2, 3, 20, 21, 28, 32, 33, 34, 35, 36, 37].contains(&vs[*i].id) && *s < 2, Op::Raw(i) | Op::Remove(i) => [0, 1, 2, 3, 32, 33, 34, 35, 36, 37].contains(i) }).collect();
    r.section("histories", bases.len() as u64 * n * n, |i, l| {
        let mut m = bases[(i % bases.len() as u64) as usize].clone();
        let j = i / bases.len() as u64;
        let seq = [ops[(j / n) as usize], ops[(j % n) as usize]];
        for (k, o) in seq.iter().enumerate() { apply(&mut m, *o, &vs, l)?; if k == 1 || j % n == 0 { compare(&m, &gs, &|| format!("base={} {seq:?} step={k}", i % bases.len() as u64), l)? } }
        Ok(())
    });
    let p = pick3.len() as u64;
    if !q { r.section("histories3", p * p * p, |i, l| {
        let mut m = bases[(i % 2) as usize].clone();
        let seq = [pick3[(i / p / p) as usize], pick3[(i / p % p) as usize], pick3[(i % p) as usize]];
        for o in &seq { apply(&mut m, *o, &vs, l)? }
        compare(&m, &gs, &|| format!("base={} {seq:?}", i % 2), l)
    }); }
    // truncations and tags
    r.section("malformed", vs.len() as u64, |i, l| {
        let p = &vs[i as usize];
        let g = gs.iter().find(|g| g.name == "typed" && g.ids[0] == p.id).unwrap();
        let mut c = empty().real;
        let bits = cell_bits(p.cell.as_ref());
        let refs: Vec<Cell> = (0..p.cell.reference_count()).map(|i| p.cell.reference_cloned(i).unwrap()).collect();
        let rr: Vec<&Cell> = refs.iter().collect();
        if p.strict {
            for k in 0..bits.len() {
                l.evn(1);
                l.nt();
                c.set_raw(p.id, build_cell(&bits[..k], &rr).unwrap()).unwrap();
                let got = np("panic", || format!("{} cut {k}", p.id), || (g.get)(&c))?;
                ck!(got.is_err(), format!("truncated/{}", p.id), "cut at {k} of {} read as {got:?}", bits.len());
            }
            if !rr.is_empty() { c.set_raw(p.id, build_cell(&bits, &rr[..rr.len() - 1]).unwrap()).unwrap(); ck!((g.get)(&c).is_err(), format!("truncated/{}", p.id), "missing reference"); }
        }
        let tags: &[(u32, &[u8])] = &[(5, &[1]), (8, &[0xc4]), (11, &[0x91]), (14, &[0x6b]), (20, &[0xd1, 0xdd, 0xde]), (21, &[0xd1, 0xdd, 0xde]), (22, &[0x5d]), (23, &[0x5d]), (24, &[0xea]), (25, &[0xea]), (28, &[0xc1, 0xc2]), (29, &[0xd6, 0xd7]), (32, &[0x11, 0x12]), (33, &[0x11, 0x12]), (34, &[0x11, 0x12]), (35, &[0x11, 0x12]), (36, &[0x11, 0x12]), (37, &[0x11, 0x12]), (43, &[2]), (50, &[1])];
        if let Some((_, good)) = tags.iter().find(|t| t.0 == p.id) {
            for t in 0..=255u8 {
                if good.contains(&t) { continue }
                l.ev();
                l.nt();
                let mut b = bits.clone();
                b[..8].copy_from_slice(&uint(t as _, 8));
                c.set_raw(p.id, build_cell(&b, &rr).unwrap()).unwrap();
                let got = np("panic", || format!("{} tag {t:x}", p.id), || (g.get)(&c))?;
                ck!(got.is_err(), format!("tag/{}", p.id), "tag {t:x} read as {got:?}");
            }
        }
        Ok(())
    });
    // values that cannot be written, and older layouts
    r.section("edges", 1, |_, l| {
        l.evn(20);
        let mut c = bases[1].real.clone();
        let before = c.clone();
        ck!(c.set_mandatory_params(&[]).is_err() && c.set_critical_params(&[]).is_err() && c.set_storage_prices(&[]).is_err(), "empty-list", "");
        ckeq!(c, before, "empty-list", "changed");
        let g = GasLimitsPrices { gas_price: 1, gas_limit: 2, special_gas_limit: 0, gas_credit: 4, block_gas_limit: 5, freeze_due_limit: 6, delete_due_limit: 7, flat_gas_limit: 0, flat_gas_price: 0 };
        let base = cat(&[u(8, 0xdd), u(64, 1), u(64, 2), u(64, 4), u(64, 5), u(64, 6), u(64, 7)]);
        ckeq!(cell_of(&base).parse::<GasLimitsPrices>().ok(), Some(g.clone()), "gas-base", "");
        ckeq!(cell_of(&cat(&[u(8, 0xd1), u(64, 8), u(64, 9), base.clone()])).parse::<GasLimitsPrices>().ok(), Some(GasLimitsPrices { flat_gas_limit: 8, flat_gas_price: 9, ..g.clone() }), "gas-flat-base", "");
        ckeq!(cell_of(&cat(&[u(8, 0xde), u(64, 1), u(64, 2), u(64, 3), u(64, 4), u(64, 5), u(64, 6), u(64, 7)])).parse::<GasLimitsPrices>().ok(), Some(GasLimitsPrices { special_gas_limit: 3, ..g }), "gas-ext", "");
        let tail = cat(&(1..5).map(|i| u(32, i)).collect::<Vec<_>>());
        ckeq!(cell_of(&cat(&[u(8, 0xc1), tail.clone()])).parse::<CatchainConfig>().ok(), Some(CatchainConfig { isolate_mc_validators: false, shuffle_mc_validators: false, mc_catchain_lifetime: 1, shard_catchain_lifetime: 2, shard_validators_lifetime: 3, shard_validators_num: 4 }), "catchain-v1", "");
        for f in 4..256 { ck!(cell_of(&cat(&[u(8, 0xc2), u(8, f), tail.clone()])).parse::<CatchainConfig>().is_err(), "catchain-flags", "{f}"); }
        let tail = cat(&(1..8).map(|i| u(32, i)).collect::<Vec<_>>());
        for rc in [0u32, 1, 255, 256, 257, 65536, u32::MAX] {
            let got = cell_of(&cat(&[u(8, 0xd6), u(32, rc as _), tail.clone()])).parse::<ConsensusConfig>();
            let want = NonZeroU32::new(rc).map(|rc| ConsensusConfig { new_catchain_ids: false, round_candidates: rc, next_candidate_delay_ms: 1, consensus_timeout_ms: 2, fast_attempts: 3, attempt_duration: 4, catchain_max_deps: 5, max_block_bytes: 6, max_collated_bytes: 7 });
            ckeq!(got.as_ref().ok(), want.as_ref(), "consensus-v1", "{rc}");
            // either written so that it is read back, or refused
            if let Ok(v) = got { match CellBuilder::build_from(&v) { Ok(c) => ckeq!(c.parse::<ConsensusConfig>().ok(), Some(v), "consensus-rewrite", "{rc}"), Err(_) => ck!(rc > 255, "consensus-rewrite", "{rc}") } }
        }
        for f in 2..256 { ck!(cell_of(&cat(&[u(8, 0xd7), u(8, f), u(8, 1), tail.clone()])).parse::<ConsensusConfig>().is_err(), "consensus-flags", "{f}"); }
        ck!(cell_of(&cat(&[u(8, 0xd7), u(8, 0), u(8, 0), tail.clone()])).parse::<ConsensusConfig>().is_err(), "consensus-zero", "");
        for (a, b, d, ok) in [(0u32, 0, 0, true), (1, 0, 5, false), (0, 5, 4, false), (4, 4, 4, true)] {
            ckeq!(cell_of(&limits([a, b, d]).1).parse::<BlockParamLimits>().is_ok(), ok, "limits-order", "{a} {b} {d}");
            ckeq!(CellBuilder::build_from(limits([a, b, d]).0).is_ok(), ok, "limits-order-store", "{a} {b} {d}");
        }
        for (n, d, ok) in [(5u32, 5u32, true), (6, 5, false), (0, 1, true), (0, 0, false)] {
            ckeq!(cell_of(&cat(&[u(8, 1), vec![0], u(32, n as _), u(32, d as _)])).parse::<BurningConfig>().is_ok(), ok, "burning-valid", "{n}/{d}");
        }
        Ok(())
    });
    // every combination of the parts of a validator description
    r.section("validators", 2 * 3 * 3 * 2, |i, l| {
        let (a, m, w, s) = (i % 2 == 1, [0, 1, u32::MAX][(i / 2 % 3) as usize], [1, 255, u64::MAX][(i / 6 % 3) as usize], i / 18);
        let (d, b) = vdescr(s + 900, w, a, m, 0);
        l.ev();
        l.nt();
        let c = CellBuilder::build_from(&d).unwrap();
        ckeq!(cell_bits(c.as_ref()), b, "validator-layout", "adnl={a} mc_seqno={m}");
        let want = ValidatorDescription { adnl_addr: if m != 0 { Some(d.adnl_addr.unwrap_or_default()) } else { d.adnl_addr }, ..d.clone() };
        ckeq!(c.parse::<ValidatorDescription>().ok(), Some(want), "validator-load", "adnl={a} mc_seqno={m}");
        for k in 0..b.len() { ck!(cell_of(&b[..k]).parse::<ValidatorDescription>().is_err(), "validator-cut", "{k} of {}", b.len()); }
        for k in 8..40 { let mut x = b.clone(); x[k] ^= 1; ck!(cell_of(&x).parse::<ValidatorDescription>().is_err(), "validator-key-tag", "{k}"); }
        for t in 0..=255u8 { if ![0x53, 0x73, 0x93].contains(&t) { let mut x = b.clone(); x[..8].copy_from_slice(&uint(t as _, 8)); ck!(cell_of(&x).parse::<ValidatorDescription>().is_err(), "validator-tag", "{t}"); } }
        Ok(())
    });
    r.section("workchains", 9 * 9 * 4 * 2, |i, l| {
        let v = [0u8, 1, 2, 30, 59, 60, 61, 62, 255];
        let (lo, hi) = (v[(i % 9) as usize], v[(i / 9 % 9) as usize]);
        let k = i / 81 % 4;
        let format = if i / 324 == 0 { WorkchainFormat::Basic(WorkchainFormatBasic { vm_version: i as i32, vm_mode: i }) } else { WorkchainFormat::Extended(WorkchainFormatExtended { min_addr_len: Uint12::new(64 + k as u16), max_addr_len: Uint12::new(65), addr_len_step: Uint12::new([0, 1, 1023, 1024][k as usize]), workchain_type_id: NonZeroU32::MIN }) };
        let fine = i / 324 == 0 || k < 2;
        let w = WorkchainDescription { enabled_since: 1, actual_min_split: 0, min_split: lo, max_split: hi, active: k & 1 == 1, accept_msgs: k & 2 == 2, zerostate_root_hash: h(1), zerostate_file_hash: h(2), version: 3, format };
        l.ev();
        let got = CellBuilder::build_from(&w);
        let ok = lo <= hi && hi <= 60 && fine;
        ckeq!(w.is_valid(), ok, "workchain-valid", "{w:?}");
        ckeq!(got.is_ok(), ok, "workchain-store", "{w:?}");
        if let Ok(c) = got { ckeq!(c.parse::<WorkchainDescription>().ok(), Some(w), "workchain-load", ""); }
        Ok(())
    });
    r.section("addr-len", 5 * 5 * 5, |i, l| {
        let (a, b, s) = ([64u16, 65, 100, 256, 1023][(i % 5) as usize], [64u16, 100, 256, 512, 1023][(i / 5 % 5) as usize], [0u16, 1, 7, 8, 1023][(i / 25) as usize]);
        if a > b { return Ok(()) }
        let f = WorkchainFormatExtended { min_addr_len: Uint12::new(a), max_addr_len: Uint12::new(b), addr_len_step: Uint12::new(s), workchain_type_id: NonZeroU32::MIN };
        for n in 0..1024u16 { l.ev(); let want = n == a || n == b || (s > 0 && n > a && n < b && (n - a) % s == 0); ckeq!(np("panic", || format!("{f:?} {n}"), || f.check_addr_len(n))?, want, "addr-len", "{f:?} {n}"); }
        Ok(())
    });
    // JSON
    r.section("json", vs.len() as u64 + 2, |i, l| {
        let mut m = if (i as usize) < vs.len() { empty() } else { full(i as usize - vs.len()) };
        if let Some(p) = vs.get(i as usize) { m.real.set_raw(p.id, p.cell.clone()).unwrap(); }
        m.real.set_raw(6, cell_of(&[1, 0, 1])).unwrap();
        m.real.set_raw(1000, cell_of(&[1, 1])).unwrap();
        l.ev();
        let s = serde_json::to_string(&m.real).map_err(|e| V { key: "json-write".into(), detail: e.to_string() })?;
        let back: C = serde_json::from_str(&s).map_err(|e| V { key: "json-read".into(), detail: format!("{e} {s}") })?;
        ckeq!(back.as_dict().root().as_ref().map(|c| *c.repr_hash()), m.real.as_dict().root().as_ref().map(|c| *c.repr_hash()), "json", "{}", &s[..s.len().min(600)]);
        Ok(())
    });
    // capability sets: all of at most two flags
    r.section("capabilities", 64 * 64, |i, l| {
        let bits = 1u64 << (i / 64) | 1u64 << (i % 64);
        l.ev();
        let c = GlobalCapabilities::new(bits);
        let named = |b: u64| CAPS.iter().any(|x| x.2 as u64 == b);
        let list: Vec<u64> = c.iter().map(|x| x as u64).collect();
        let want: Vec<u64> = (0..64).filter(|b| bits >> b & 1 == 1 && named(*b)).map(|b| 1 << b).collect();
        ckeq!(list, want, "capability-iter", "{bits:x}");
        ckeq!((c.is_empty(), c.len(), c.into_inner()), (false, bits.count_ones() as usize, bits), "capability-set", "{bits:x}");
        for (n, x, b) in CAPS { ckeq!(c.contains(*x), bits >> b & 1 == 1, "capability-contains", "{bits:x} {b}"); ckeq!((x.to_string(), n.parse::<GlobalCapability>().ok()), (n.to_string(), Some(*x)), "capability-name", "{n}"); }
        ckeq!(c.iter().collect::<GlobalCapabilities>().into_inner(), want.iter().fold(0, |a, b| a | b), "capability-collect", "{bits:x}");
        let s = serde_json::to_string(&c).unwrap();
        let back = serde_json::from_str::<GlobalCapabilities>(&s).map_err(|e| V { key: "capability-json".into(), detail: format!("{e} {s}") })?;
        if back != c {
            let lost = want.iter().fold(0, |a, b| a | b) == back.into_inner();
            l.nt();
            l.fail(V { key: if lost { "json/unnamed-capability".into() } else { "capability-json".into() }, detail: format!("{bits:x} -> {s}") });
        }
        Ok(())
    });
    // fees
    let pr = [0u64, 1, 2, 0xffff, 0x10000, 0x10001, 1 << 32, 1 << 63, u64::MAX];
    let am = [0u64, 1, 2, 3, 0xffff, 0x10000, 123456789, (1 << 32) - 1, 1 << 40, u64::MAX];
    let (np_, na) = (pr.len() as u64, am.len() as u64);
    r.section("fee-gas", np_ * np_ * na * na, |i, l| {
        let (p, flat, used, lim) = (pr[(i % np_) as usize], pr[(i / np_ % np_) as usize], am[(i / np_ / np_ % na) as usize], am[(i / np_ / np_ / na) as usize]);
        l.ev();
        let mut ex = BigUint::from(flat);
        if used > lim { l.nt(); ex += ceil16(&(BigUint::from(used - lim) * p)) }
        let g = GasLimitsPrices { gas_price: p, flat_gas_price: flat, flat_gas_limit: lim, gas_limit: 7, block_gas_limit: 9, ..Default::default() };
        let ctx = format!("price={p} flat={flat} limit={lim} used={used}");
        let got = np("panic", || ctx.clone(), || g.compute_gas_fee(used))?;
        sat(got, ex, BigUint::from(0u8), "gas", ctx)
    });
    r.section("fee-storage", np_ * np_ * na * na, |i, l| {
        let (pc, pb, cc, bc) = (pr[(i % np_) as usize], pr[(i / np_ % np_) as usize], am[(i / np_ / np_ % na) as usize], am[(i / np_ / np_ / na) as usize]);
        for mc in [false, true] { for d in am {
            l.ev();
            l.nt();
            let s = if mc { StoragePrices { utime_since: 5, bit_price_ps: 3, cell_price_ps: 77, mc_bit_price_ps: pb, mc_cell_price_ps: pc } } else { StoragePrices { utime_since: 5, bit_price_ps: pb, cell_price_ps: pc, mc_bit_price_ps: 3, mc_cell_price_ps: 77 } };
            let sum = BigUint::from(pc) * cc + BigUint::from(pb) * bc;
            let mid = &sum * d;
            let ctx = format!("mc={mc} cell={pc} bit={pb} cells={cc} bits={bc} delta={d}");
            let got = np("panic", || ctx.clone(), || s.compute_storage_fee(mc, d, CellTreeStats { bit_count: bc, cell_count: cc }))?;
            // with a zero delta nothing is due whatever the sum is
            sat(got, ceil16(&mid), mid, "storage", ctx)?;
        }}
        Ok(())
    });
    r.section("fee-forward", np_ * np_ * na * na, |i, l| {
        let (pc, pb, cc, bc) = (pr[(i % np_) as usize], pr[(i / np_ % np_) as usize], am[(i / np_ / np_ % na) as usize], am[(i / np_ / np_ / na) as usize]);
        for lump in pr {
            l.ev();
            l.nt();
            let s = MsgForwardPrices { lump_price: lump, bit_price: pb, cell_price: pc, ihr_price_factor: 99, first_frac: 3, next_frac: 4 };
            let mid = BigUint::from(pc) * cc + BigUint::from(pb) * bc;
            let ctx = format!("lump={lump} cell={pc} bit={pb} cells={cc} bits={bc}");
            let got = np("panic", || ctx.clone(), || s.compute_fwd_fee(CellTreeStats { bit_count: bc, cell_count: cc }))?;
            sat(got, ceil16(&mid) + lump, mid, "forward", ctx)?;
        }
        Ok(())
    });
    let toks: Vec<u128> = { let mut v = vec![0u128, 1, 2, 3, 12345678901]; for b in [8, 16, 17, 31, 32, 63, 64, 65, 88, 96, 104, 111, 112, 113, 119, 120] { v.extend([(1u128 << b) - 1, 1 << b, (1 << b) + 1]) } v.retain(|x| *x < 1 << 120); v };
    r.section("fee-parts", toks.len() as u64, |i, l| {
        let t = toks[i as usize];
        for f in (0..=u16::MAX).step_by(if q { 257 } else { 1 }).chain([1, 2, 32767, 32768, 65534]) {
            l.evn(2);
            let s = MsgForwardPrices { lump_price: 1, bit_price: 1, cell_price: 1, ihr_price_factor: 1, first_frac: f, next_frac: !f };
            let ctx = format!("total={t} frac={f}");
            let part = |f: u16| { let m = BigUint::from(t) * f; ((&m >> 16u32), m) };
            let (e, m) = part(f);
            sat(np("panic", || ctx.clone(), || s.get_first_part(Tokens::new(t)))?, e, m, "first", ctx.clone())?;
            let (e, m) = part(!f);
            sat(np("panic", || ctx.clone(), || s.get_next_part(Tokens::new(t)))?, e, m, "next", ctx)?;
        }
        let n32 = [0u32, 1, 2, 3, 7, 255, 256, 65535, 65536, 1 << 31, u32::MAX - 1, u32::MAX];
        for n in n32 { for d in n32 {
            let Some(dn) = NonZeroU32::new(d) else { continue };
            l.ev();
            l.nt();
            let b = BurningConfig { blackhole_addr: None, fee_burn_num: n, fee_burn_denom: dn };
            let got = np("panic", || format!("burn {t} {n}/{d}"), || b.compute_burned_fees(Tokens::new(t)))?.ok().map(|x| BigUint::from(x.into_inner()));
            ckeq!(got, (n <= d).then(|| BigUint::from(t) * n / d), "fee/burned", "{t} {n}/{d}");
        }}
        Ok(())
    });
    // pseudo-random stream
    r.section("prng", 8 * 6 * 4, |i, l| {
        let mut seed = [0u8; 32];
        match i % 8 { 0 => {} 1 => seed = [0xff; 32], 2 => seed[31] = 0xfe, 3 => seed[31] = 0xff, 4 => { seed[30] = 0xff; seed[31] = 0xff } 5 => { seed[1..].fill(0xff) } 6 => { seed[0] = 1; seed[31] = 0xfd } _ => seed = h(9).0 }
        let s = [ShardIdent::MASTERCHAIN, ShardIdent::BASECHAIN, ShardIdent::new(0, 0x4000000000000000).unwrap(), ShardIdent::new(0, 0xc000000000000000).unwrap(), ShardIdent::new(7, 1 << 63).unwrap(), ShardIdent::new(i32::MIN, 8).unwrap()][(i / 8 % 6) as usize];
        let cc = [0u32, 1, 0x01020304, u32::MAX][(i / 48) as usize];
        let (mut a, mut b) = (ValidatorSetPRNG::with_seed(s, cc, &seed), Prng::new(s, cc, seed));
        for k in 0..80 { l.ev(); l.tr(1); ckeq!(a.next_u64(), b.next(), "prng", "{s} {cc} {seed:?} step {k}"); }
        for k in [1u64, 2, 3, 10, 1 << 32, u64::MAX, 0] { l.ev(); ckeq!(a.next_ranged(k), b.ranged(k), "prng-ranged", "{s} {cc} {k}"); }
        let (mut a, mut b) = (ValidatorSetPRNG::new(s, cc), Prng::new(s, cc, [0; 32]));
        ckeq!(a.next_u64(), b.next(), "prng-new", "{s} {cc}");
        Ok(())
    });
    // validator sets
    let alpha: &[u64] = &[1, 2, 100, 1 << 60];
    let max = if q { 4 } else { 6 };
    let mut sizes = vec![];
    for n in 1..=max { sizes.push((n as usize, (alpha.len() as u64).pow(n as u32))) }
    r.section("subsets", sizes.iter().map(|x| x.1).sum(), |mut i, l| {
        let mut n = 0;
        for (k, c) in &sizes { if i < *c { n = *k; break } i -= c }
        let w: Vec<u64> = (0..n).map(|k| alpha[(i / (alpha.len() as u64).pow(k as u32) % alpha.len() as u64) as usize]).collect();
        judge_set(&w, l)
    });
    r.section("large-sets", if q { 6 } else { 40 }, |i, l| {
        let n = 8 + i as usize * 5 % 60;
        let w: Vec<u64> = (0..n).map(|k| match i % 3 { 0 => 1 + k as u64, 1 => u64::MAX / n as u64, _ => 1 + (to_u128(&pattern(i * 100 + k as u64, 50)) as u64) }).collect();
        judge_set(&w, l)
    });
}
