//! Layouts of chain structures (block.tlb), written independently of the implementation: generators produce a value
//! together with the bits and references which the published scheme prescribes for it.
use crate::model::cells as mcells;
use crate::model::{bits::*, dict::*};
use std::fmt::Debug;
use tycho_types::cell::*;
use tycho_types::dict::*;
use tycho_types::error::Error;
use tycho_types::merkle::MerkleUpdate;
use tycho_types::models::*;
use tycho_types::num::*;

#[derive(Clone, Debug)]
pub enum N { C(Cell), W(W) }
/// one cell: bits, references (opaque or structural); `soft` bits have more than one valid spelling (lengths of numbers)
#[derive(Clone, Default, Debug)]
pub struct W { pub b: B, pub soft: Vec<(usize, usize)>, pub r: Vec<N>, pub ignored: Vec<usize> }
impl W {
    pub fn new() -> W { W::default() }
    pub fn u(&mut self, n: usize, v: u128) -> &mut W { self.b.extend(uint(v, n)); self }
    pub fn bit(&mut self, b: bool) -> &mut W { self.b.push(b as u8); self }
    pub fn raw(&mut self, b: &[u8]) -> &mut W { self.b.extend_from_slice(b); self }
    pub fn cell(&mut self, c: &Cell) -> &mut W { self.r.push(N::C(c.clone())); self }
    pub fn sub(&mut self, w: W) -> &mut W { self.r.push(N::W(w)); self }
    pub fn inline(&mut self, w: &W) -> &mut W { let k = self.b.len(); self.b.extend_from_slice(&w.b); self.soft.extend(w.soft.iter().map(|x| (x.0 + k, x.1 + k))); self.ignored.extend(w.ignored.iter().map(|x| x + k)); self.r.extend(w.r.iter().cloned()); self }
    pub fn fits(&self) -> bool { self.b.len() <= 1023 && self.r.len() <= 4 && self.r.iter().all(|n| match n { N::C(_) => true, N::W(w) => w.fits() }) }
    pub fn refs(&self) -> Vec<Cell> { self.r.iter().map(|n| match n { N::C(c) => c.clone(), N::W(w) => w.build() }).collect() }
    pub fn build(&self) -> Cell { raw_cell(&self.b, &self.refs()) }
    fn soft(&mut self, from: usize) { let e = self.b.len(); if e > from { self.soft.push((from, e)) } }
}
pub fn raw_cell(b: &[u8], refs: &[Cell]) -> Cell {
    let mut x = builder_of(b);
    for r in refs { x.store_reference(r.clone()).unwrap() }
    x.build().unwrap()
}
/// every cell of the structure with the path of reference indices leading to it
pub fn nodes(w: &W) -> Vec<(Vec<usize>, &W)> {
    let mut v = vec![(vec![], w)];
    for (i, n) in w.r.iter().enumerate() {
        if let N::W(x) = n { for (mut p, y) in nodes(x) { p.insert(0, i); v.push((p, y)) } }
    }
    v
}
/// the structure with the node at `path` replaced
pub fn with_node(w: &W, path: &[usize], f: &dyn Fn(&W) -> Option<Cell>) -> Option<Cell> {
    if path.is_empty() { return f(w) }
    let mut refs = w.refs();
    let N::W(x) = &w.r[path[0]] else { unreachable!() };
    refs[path[0]] = with_node(x, &path[1..], f)?;
    Some(raw_cell(&w.b, &refs))
}

/// choices of a generator, replayable
pub struct G<'a> { pre: &'a [u32], pub path: Vec<(u32, u32)>, pub mode: u64, n: u64 }
pub const MODES: usize = 5;
impl<'a> G<'a> {
    pub fn new(pre: &'a [u32]) -> G<'a> { let mut g = G { pre, path: vec![], mode: 0, n: 0 }; g.mode = g.us(MODES) as u64; g }
    /// one of `n` alternatives, all explored
    pub fn us(&mut self, n: usize) -> usize { let c = self.pre.get(self.path.len()).copied().unwrap_or(0); self.path.push((c, n as u32)); c as usize }
    pub fn yes(&mut self) -> bool { self.us(2) == 1 }
    fn next(&mut self) -> u64 { self.n += 1; self.n }
    /// field contents: zeros, ones, a pattern, alternating
    pub fn val(&mut self, n: usize) -> u128 {
        let k = self.next();
        let ones = if n == 128 { u128::MAX } else { (1 << n) - 1 };
        match self.mode { 0 => 0, 1 => ones, 2 => to_u128(&pattern(k * 31 + 7, n)), m => if (k + m) % 2 == 0 { ones } else { 0 } }
    }
    /// one of n alternatives, rotating with the contents
    pub fn rot(&mut self, n: usize) -> usize { let k = self.next(); match self.mode { 0 => 0, 1 => n - 1, m => (k * (m - 1) + m) as usize % n } }
    pub fn u(&mut self, w: &mut W, n: usize) -> u128 { let v = self.val(n); w.u(n, v); v }
    pub fn u8(&mut self, w: &mut W) -> u8 { self.u(w, 8) as u8 }
    pub fn u16(&mut self, w: &mut W) -> u16 { self.u(w, 16) as u16 }
    pub fn u32(&mut self, w: &mut W) -> u32 { self.u(w, 32) as u32 }
    pub fn i32(&mut self, w: &mut W) -> i32 { self.u(w, 32) as u32 as i32 }
    pub fn u64(&mut self, w: &mut W) -> u64 { self.u(w, 64) as u64 }
    pub fn bit(&mut self, w: &mut W) -> bool { let b = self.yes(); w.bit(b); b }
    /// a flag which rotates with the contents instead of being enumerated
    pub fn rbit(&mut self, w: &mut W) -> bool { let b = self.rot(2) == 1; w.bit(b); b }
    pub fn fill(&mut self, n: usize) -> B { let k = self.next(); match self.mode { 0 => vec![0; n], 1 => vec![1; n], 2 => pattern(k * 31 + 7, n), m => vec![((k + m) % 2 == 0) as u8; n] } }
    pub fn hash(&mut self, w: &mut W) -> HashBytes { let b = self.fill(256); w.raw(&b); HashBytes(pack(&b).try_into().unwrap()) }
    pub fn opt<T>(&mut self, w: &mut W, f: impl FnOnce(&mut Self, &mut W) -> T) -> Option<T> { if self.bit(w) { Some(f(self, w)) } else { None } }
    pub fn ropt<T>(&mut self, w: &mut W, f: impl FnOnce(&mut Self, &mut W) -> T) -> Option<T> { if self.rbit(w) { Some(f(self, w)) } else { None } }
    /// an opaque cell, different each time
    pub fn any(&mut self) -> Cell { let k = self.next(); cell_of(&pattern(k * 7 + 3, 17 + (k as usize * 5) % 60)) }
    pub fn cell(&mut self, w: &mut W) -> Cell { let c = self.any(); w.cell(&c); c }
    pub fn lazy<T>(&mut self, w: &mut W) -> Lazy<T> { Lazy::from_raw(self.cell(w)).unwrap() }
    /// numbers with a length in bytes
    pub fn var(&mut self, w: &mut W, len_bits: usize, max: usize) -> u128 {
        let k = self.next();
        let n = match self.mode { 0 => 0, 1 => max, 2 => (k as usize * 3 + 1) % (max + 1), m => if (k + m) % 2 == 0 { max } else { (k % 2) as usize } };
        let v = if n == 0 { 0 } else { let top = 8 * n; let ones = if top >= 128 { u128::MAX } else { (1 << top) - 1 }; match self.mode { 2 => to_u128(&pattern(k * 13 + 5, top)) | 1 << (top - 1), 1 => ones, m => if m == 3 { 1 << (top - 8) } else { ones } } };
        w.u(len_bits, n as u128);
        let s = w.b.len();
        w.u(8 * n, v);
        w.soft(s);
        v
    }
    pub fn toks(&mut self, w: &mut W) -> Tokens { Tokens::new(self.var(w, 4, 15)) }
    pub fn vu56(&mut self, w: &mut W) -> VarUint56 { VarUint56::new(self.var(w, 3, 7) as u64) }
    pub fn vu24(&mut self, w: &mut W) -> VarUint24 { VarUint24::new(self.var(w, 2, 3) as u32) }
    pub fn cc(&mut self, w: &mut W) -> CurrencyCollection {
        let tokens = self.toks(w);
        let other = self.ecc(w);
        CurrencyCollection { tokens, other }
    }
    pub fn ecc(&mut self, w: &mut W) -> ExtraCurrencyCollection {
        let n = self.rot(3);
        let s = self.next() as u128;
        let es = (0..n as u128).map(|i| { let v = s * 1000 + i + 1; let l = (128 - v.leading_zeros() as usize).div_ceil(8); let mut b = uint(l as u128, 5); b.extend(uint(v, 8 * l)); (i * 77 + s, v, b) }).collect::<Vec<_>>();
        let d = dict_cell(&es.iter().map(|x| (uint(x.0, 32), x.2.clone())).collect::<Vec<_>>(), 32);
        w.bit(d.is_some());
        if let Some(d) = &d { w.cell(d); }
        let mut r = ExtraCurrencyCollection::new();
        for (k, v, _) in es { r.as_dict_mut().set(k as u32, VarUint248::new(v)).unwrap(); }
        r
    }
    pub fn std_addr(&mut self, w: &mut W, anycast: bool) -> StdAddr {
        w.u(2, 0b10).bit(anycast);
        let anycast = anycast.then(|| self.anycast(w));
        let workchain = self.u8(w) as i8;
        let address = self.hash(w);
        StdAddr { anycast: anycast.map(Box::new), workchain, address }
    }
    pub fn anycast(&mut self, w: &mut W) -> Anycast {
        let d = [1usize, 30, 7, 8, 9][self.rot(5)];
        let p = self.fill(d);
        w.u(5, d as u128).raw(&p);
        Anycast { depth: SplitDepth::new(d as u8).unwrap(), rewrite_prefix: pack(&p) }
    }
    pub fn var_addr(&mut self, w: &mut W, len: usize, anycast: bool) -> VarAddr {
        w.u(2, 0b11).bit(anycast);
        let anycast = anycast.then(|| self.anycast(w));
        w.u(9, len as u128);
        let workchain = self.i32(w);
        let b = self.fill(len);
        w.raw(&b);
        VarAddr { anycast: anycast.map(Box::new), address_len: Uint9::new(len as u16), workchain, address: pack(&b) }
    }
    pub fn int_addr(&mut self, w: &mut W) -> IntAddr {
        match self.us(4) {
            0 => IntAddr::Std(self.std_addr(w, false)),
            1 => IntAddr::Std(self.std_addr(w, true)),
            k => { let len = [0usize, 511, 13, 64, 256][self.rot(5)]; IntAddr::Var(self.var_addr(w, len, k == 3)) }
        }
    }
    /// an address which rotates with the contents
    pub fn raddr(&mut self, w: &mut W) -> IntAddr {
        match self.rot(3) { 0 => IntAddr::Std(self.std_addr(w, false)), 1 => IntAddr::Var(self.var_addr(w, 37, false)), _ => IntAddr::Std(self.std_addr(w, true)) }
    }
    pub fn ext_addr(&mut self, w: &mut W, len: usize) -> ExtAddr {
        let b = self.fill(len);
        w.u(2, 1).u(9, len as u128).raw(&b);
        ExtAddr { data_bit_len: Uint9::new(len as u16), data: pack(&b) }
    }
    pub fn opt_ext(&mut self, w: &mut W, lens: &[usize]) -> Option<ExtAddr> {
        match self.us(lens.len() + 1) { 0 => { w.u(2, 0); None } k => Some(self.ext_addr(w, lens[k - 1])) }
    }
}
pub fn dict_cell(es: &[(B, B)], n: usize) -> Option<Cell> {
    let mut v = es.iter().map(|(k, b)| (k.clone(), Val::new(b.clone()))).collect::<Vec<_>>();
    v.sort_by(|a, b| a.0.cmp(&b.0));
    canon(&v, n).unwrap()
}
pub fn dict_w(w: &mut W, es: &[(B, Val)], n: usize) {
    let mut v = es.to_vec();
    v.sort_by(|a, b| a.0.cmp(&b.0));
    let d = canon(&v, n).unwrap();
    w.bit(d.is_some());
    if let Some(d) = d { w.cell(&d); }
}
/// all choice sequences of a generator
pub fn explore<T>(f: &dyn Fn(&mut G, &mut W) -> T) -> Vec<Vec<u32>> { explore_(&|g, w| { f(g, w); }) }
pub fn explore_(f: &dyn Fn(&mut G, &mut W)) -> Vec<Vec<u32>> {
    let mut out = vec![];
    let mut pre: Vec<u32> = vec![];
    loop {
        let mut g = G::new(&pre);
        f(&mut g, &mut W::new());
        let mut p = g.path;
        out.push(p.iter().map(|x| x.0).collect());
        while let Some(&(c, n)) = p.last() { if c + 1 < n { break } p.pop(); }
        if p.is_empty() { return out }
        pre = p.iter().map(|x| x.0).collect();
        *pre.last_mut().unwrap() += 1;
    }
}

/// what to do with a family of values
pub trait Vis { fn visit(&mut self, name: &'static str, f: &Fam); }
/// a value of any structure
pub trait Obj: Store + Debug { fn any(&self) -> &dyn std::any::Any; }
impl<T: Store + Debug + 'static> Obj for T { fn any(&self) -> &dyn std::any::Any { self } }
pub fn stored(v: &dyn Obj) -> Result<Cell, Error> { let mut b = CellBuilder::new(); v.store_into(&mut b, Cell::empty_context())?; b.build() }
pub type Loader = Box<dyn Fn(&mut CellSlice<'_>) -> Result<Box<dyn Obj>, Error> + Sync>;
pub struct Fam { pub make: Box<dyn Fn(&mut G, &mut W) -> Box<dyn Obj> + Sync>, pub load: Loader }
pub fn loader<T: for<'a> Load<'a> + Store + Debug + 'static>() -> Loader { Box::new(|s| T::load_from(s).map(|x| Box::new(x) as Box<dyn Obj>)) }
impl dyn Vis + '_ {
    pub fn fam<T>(&mut self, name: &'static str, f: fn(&mut G, &mut W) -> T) where T: Store + for<'a> Load<'a> + Debug + 'static {
        self.visit(name, &Fam { make: Box::new(move |g, w| Box::new(f(g, w))), load: loader::<T>() })
    }
}

pub fn storage_used(g: &mut G, w: &mut W) -> StorageUsed { StorageUsed { cells: g.vu56(w), bits: g.vu56(w) } }
pub fn storage_used_short(g: &mut G, w: &mut W) -> StorageUsedShort { StorageUsedShort { cells: g.vu56(w), bits: g.vu56(w) } }
pub fn storage_extra(g: &mut G, w: &mut W) -> StorageExtra { if g.yes() { w.u(3, 1); StorageExtra::DictHash(g.hash(w)) } else { w.u(3, 0); StorageExtra::None } }
pub fn storage_info(g: &mut G, w: &mut W) -> StorageInfo { StorageInfo { used: storage_used(g, w), storage_extra: storage_extra(g, w), last_paid: g.u32(w), due_payment: g.opt(w, G::toks) } }
pub fn status(g: &mut G, w: &mut W) -> AccountStatus { let k = g.us(4); w.u(2, k as u128); [AccountStatus::Uninit, AccountStatus::Frozen, AccountStatus::Active, AccountStatus::NotExists][k] }
pub fn state_init(g: &mut G, w: &mut W) -> StateInit {
    let split_depth = g.opt(w, |g, w| { let d = [1u8, 30, 5][g.rot(3)]; w.u(5, d as u128); SplitDepth::new(d).unwrap() });
    let special = g.opt(w, |g, w| SpecialFlags { tick: g.rbit(w), tock: g.rbit(w) });
    let code = g.opt(w, G::cell);
    let data = g.opt(w, G::cell);
    let n = g.us(3);
    let mut libraries = Dict::new();
    let mut es = vec![];
    for i in 0..n {
        let (k, root, public) = (g.fill(256).iter().enumerate().map(|(j, b)| if j > 250 { (i & 1) as u8 } else { *b }).collect::<B>(), g.any(), i == 1);
        libraries.set(HashBytes(pack(&k).try_into().unwrap()), SimpleLib { public, root: root.clone() }).unwrap();
        es.retain(|x: &(B, Val)| x.0 != k);
        es.push((k, Val { bits: vec![public as u8], refs: vec![root] }));
    }
    dict_w(w, &es, 256);
    StateInit { split_depth, special, code, data, libraries }
}
pub fn account_state(g: &mut G, w: &mut W) -> AccountState {
    match g.us(3) { 0 => { w.u(2, 0); AccountState::Uninit } 1 => { w.u(2, 1); AccountState::Frozen(g.hash(w)) } _ => { w.u(1, 1); AccountState::Active(state_init(g, w)) } }
}
pub fn account(g: &mut G, w: &mut W) -> Account {
    let address = g.raddr(w);
    let storage_stat = storage_info(g, w);
    Account { address, storage_stat, last_trans_lt: g.u64(w), balance: g.cc(w), state: account_state(g, w) }
}
pub fn change(g: &mut G, w: &mut W) -> AccountStatusChange { match g.us(3) { 0 => { w.u(1, 0); AccountStatusChange::Unchanged } 1 => { w.u(2, 2); AccountStatusChange::Frozen } _ => { w.u(2, 3); AccountStatusChange::Deleted } } }
pub fn rchange(g: &mut G, w: &mut W) -> AccountStatusChange { match g.rot(3) { 0 => { w.u(1, 0); AccountStatusChange::Unchanged } 1 => { w.u(2, 2); AccountStatusChange::Frozen } _ => { w.u(2, 3); AccountStatusChange::Deleted } } }
pub fn storage_phase(g: &mut G, w: &mut W) -> StoragePhase { StoragePhase { storage_fees_collected: g.toks(w), storage_fees_due: g.ropt(w, G::toks), status_change: rchange(g, w) } }
pub fn credit_phase(g: &mut G, w: &mut W) -> CreditPhase { CreditPhase { due_fees_collected: g.ropt(w, G::toks), credit: g.cc(w) } }
pub fn compute_phase(g: &mut G, w: &mut W) -> ComputePhase {
    use ComputePhaseSkipReason as S;
    let skip = |reason| ComputePhase::Skipped(SkippedComputePhase { reason });
    match g.us(5) {
        0 => { w.u(3, 0b000); skip(S::NoState) }
        1 => { w.u(3, 0b001); skip(S::BadState) }
        2 => { w.u(3, 0b010); skip(S::NoGas) }
        3 => { w.u(4, 0b0110); skip(S::Suspended) }
        _ => {
            w.u(1, 1);
            let (success, msg_state_used, account_activated) = (g.rbit(w), g.rbit(w), g.rbit(w));
            let gas_fees = g.toks(w);
            let mut c = W::new();
            let x = &mut c;
            let p = ExecutedComputePhase { success, msg_state_used, account_activated, gas_fees, gas_used: g.vu56(x), gas_limit: g.vu56(x), gas_credit: g.ropt(x, G::vu24), mode: g.u8(x) as i8, exit_code: g.i32(x), exit_arg: g.ropt(x, G::i32), vm_steps: g.u32(x), vm_init_state_hash: g.hash(x), vm_final_state_hash: g.hash(x) };
            w.sub(c);
            ComputePhase::Executed(p)
        }
    }
}
pub fn compute_flags(g: &mut G, w: &mut W) -> ComputePhase {
    w.u(1, 1);
    let (success, msg_state_used, account_activated) = (g.bit(w), g.bit(w), g.bit(w));
    let gas_fees = g.toks(w);
    let mut c = W::new();
    let x = &mut c;
    let p = ExecutedComputePhase { success, msg_state_used, account_activated, gas_fees, gas_used: g.vu56(x), gas_limit: g.vu56(x), gas_credit: g.opt(x, G::vu24), mode: g.u8(x) as i8, exit_code: g.i32(x), exit_arg: g.opt(x, G::i32), vm_steps: g.u32(x), vm_init_state_hash: g.hash(x), vm_final_state_hash: g.hash(x) };
    w.sub(c);
    ComputePhase::Executed(p)
}
pub fn action_phase(g: &mut G, w: &mut W, all: bool) -> ActionPhase {
    let f = |g: &mut G, w: &mut W| if all { g.bit(w) } else { g.rbit(w) };
    let (success, valid, no_funds) = (f(g, w), f(g, w), f(g, w));
    let status_change = if all { change(g, w) } else { rchange(g, w) };
    let total_fwd_fees = if f(g, w) { Some(g.toks(w)) } else { None };
    let total_action_fees = if f(g, w) { Some(g.toks(w)) } else { None };
    let result_code = g.i32(w);
    let result_arg = if f(g, w) { Some(g.i32(w)) } else { None };
    ActionPhase { success, valid, no_funds, status_change, total_fwd_fees, total_action_fees, result_code, result_arg, total_actions: g.u16(w), special_actions: g.u16(w), skipped_actions: g.u16(w), messages_created: g.u16(w), action_list_hash: g.hash(w), total_message_size: storage_used_short(g, w) }
}
pub fn bounce_phase(g: &mut G, w: &mut W) -> BouncePhase {
    match g.us(3) {
        0 => { w.u(2, 0); BouncePhase::NegativeFunds }
        1 => { w.u(2, 1); BouncePhase::NoFunds(NoFundsBouncePhase { msg_size: storage_used_short(g, w), req_fwd_fees: g.toks(w) }) }
        _ => { w.u(1, 1); BouncePhase::Executed(ExecutedBouncePhase { msg_size: storage_used_short(g, w), msg_fees: g.toks(w), fwd_fees: g.toks(w) }) }
    }
}
fn action_ref(g: &mut G, w: &mut W) -> Option<ActionPhase> { g.opt(w, |g, w| { let mut c = W::new(); let p = action_phase(g, &mut c, false); w.sub(c); p }) }
pub fn ordinary(g: &mut G, w: &mut W) -> OrdinaryTxInfo {
    OrdinaryTxInfo { credit_first: g.bit(w), storage_phase: g.opt(w, storage_phase), credit_phase: g.opt(w, credit_phase), compute_phase: compute_phase(g, w), action_phase: action_ref(g, w), aborted: g.bit(w), bounce_phase: g.opt(w, bounce_phase), destroyed: g.bit(w) }
}
pub fn tick_tock(g: &mut G, w: &mut W) -> TickTockTxInfo {
    TickTockTxInfo { kind: if g.bit(w) { TickTock::Tock } else { TickTock::Tick }, storage_phase: storage_phase(g, w), compute_phase: compute_phase(g, w), action_phase: action_ref(g, w), aborted: g.bit(w), destroyed: g.bit(w) }
}
pub fn tx_info(g: &mut G, w: &mut W) -> TxInfo { if g.yes() { w.u(3, 1); TxInfo::TickTock(tick_tock(g, w)) } else { w.u(4, 0); TxInfo::Ordinary(ordinary(g, w)) } }
pub fn hash_update(g: &mut G, w: &mut W) -> HashUpdate { w.u(8, 0x72); HashUpdate { old: g.hash(w), new: g.hash(w) } }
pub fn transaction(g: &mut G, w: &mut W) -> Transaction {
    w.u(4, 7);
    let (account, lt, prev_trans_hash, prev_trans_lt, now) = (g.hash(w), g.u64(w), g.hash(w), g.u64(w), g.u32(w));
    let out_msg_count = Uint15::new(g.u(w, 15) as u16);
    let (orig_status, end_status) = (status(g, w), status(g, w));
    let mut c = W::new();
    let in_msg = g.opt(&mut c, G::cell);
    let n = g.us(3);
    let mut out_msgs = Dict::new();
    let mut es = vec![];
    for i in 0..n { let m = g.any(); out_msgs.set(Uint15::new(i as u16 * 9), m.clone()).unwrap(); es.push((uint(i as u128 * 9, 15), Val { bits: vec![], refs: vec![m] })) }
    dict_w(&mut c, &es, 15);
    w.sub(c);
    let total_fees = g.cc(w);
    // the update and the description are opaque references here
    Transaction { account, lt, prev_trans_hash, prev_trans_lt, now, out_msg_count, orig_status, end_status, in_msg, out_msgs, total_fees, state_update: g.lazy(w), info: g.lazy(w) }
}
pub fn block_ref(g: &mut G, w: &mut W) -> BlockRef { BlockRef { end_lt: g.u64(w), seqno: g.u32(w), root_hash: g.hash(w), file_hash: g.hash(w) } }
pub fn shard(g: &mut G, w: &mut W) -> ShardIdent {
    let len = [0usize, 60, 1, 4, 59][g.rot(5)];
    let mut wc = g.val(32) as u32;
    if wc == u32::MAX && len > 0 { wc -= 1 } // the masterchain is not split
    let p = g.fill(len);
    w.u(2, 0).u(6, len as u128).u(32, wc as u128).raw(&p).u(64 - len, 0);
    ShardIdent::new(wc as i32, (to_u128(&p) << (64 - len)) as u64 | 1 << (63 - len)).unwrap()
}
pub fn block_id(g: &mut G, w: &mut W) -> BlockId { BlockId { shard: shard(g, w), seqno: g.u32(w), root_hash: g.hash(w), file_hash: g.hash(w) } }
pub fn version(g: &mut G, w: &mut W) -> GlobalVersion { w.u(8, 0xc4); GlobalVersion { version: g.u32(w), capabilities: GlobalCapabilities::new(g.u64(w)) } }
fn prev_ref(g: &mut G, w: &mut W, merge: bool) -> Cell {
    let mut c = W::new();
    if merge { for _ in 0..2 { let mut x = W::new(); block_ref(g, &mut x); c.cell(&x.build()); } } else { block_ref(g, &mut c); }
    let c = c.build();
    w.cell(&c);
    c
}
pub fn block_info(g: &mut G, w: &mut W) -> BlockInfo {
    w.u(32, 0x9bc7a987);
    let version_ = g.u32(w);
    let not_master = g.bit(w);
    let (after_merge, before_split, after_split, want_split, want_merge, key_block) = (g.bit(w), g.rbit(w), g.rbit(w), g.rbit(w), g.rbit(w), g.rbit(w));
    let vert = g.bit(w);
    let flags = [0u8, 1][g.us(2)];
    w.u(8, flags as u128);
    let seqno = (g.val(32) as u32).max(1);
    let vert_seqno = (g.val(32) as u32).max(vert as u32);
    w.u(32, seqno as u128).u(32, vert_seqno as u128);
    let shard = shard(g, w);
    let (gen_utime, start_lt, end_lt, gen_validator_list_hash_short, gen_catchain_seqno, min_ref_mc_seqno, prev_key_block_seqno) = (g.u32(w), g.u64(w), g.u64(w), g.u32(w), g.u32(w), g.u32(w), g.u32(w));
    let gen_software = if flags & 1 == 1 { version(g, w) } else { GlobalVersion::default() };
    let lazy = |g: &mut G, w: &mut W| { let mut x = W::new(); block_ref(g, &mut x); let c = x.build(); w.cell(&c); Lazy::<BlockRef>::from_raw(c).unwrap() };
    let master_ref = not_master.then(|| lazy(g, w));
    let prev_ref = prev_ref(g, w, after_merge);
    let prev_vert_ref = vert.then(|| lazy(g, w));
    BlockInfo { version: version_, after_merge, before_split, after_split, want_split, want_merge, key_block, flags, seqno, vert_seqno, shard, gen_utime, start_lt, end_lt, gen_validator_list_hash_short, gen_catchain_seqno, min_ref_mc_seqno, prev_key_block_seqno, gen_software, master_ref, prev_ref, prev_vert_ref }
}
/// a currency collection, sometimes with other currencies
fn ccx(g: &mut G, w: &mut W, other: bool) -> CurrencyCollection { if other { g.cc(w) } else { let tokens = g.toks(w); w.bit(false); CurrencyCollection { tokens, other: ExtraCurrencyCollection::new() } } }
pub fn value_flow(g: &mut G, w: &mut W) -> ValueFlow {
    let which = g.us(11); // which of the sums may hold other currencies (a cell has four references)
    let burned_too = g.yes();
    w.u(32, if burned_too { 0x3ebf98b7 } else { 0xb8e48dfb });
    let (mut a, mut b) = (W::new(), W::new());
    let all = which == 10;
    let mut i = 0;
    let mut f = |g: &mut G, w: &mut W| { i += 1; ccx(g, w, all || which == i - 1) };
    let (from_prev_block, to_next_block, imported, exported) = (f(g, &mut a), f(g, &mut a), f(g, &mut a), f(g, &mut a));
    let (fees_imported, recovered, created, minted) = (f(g, &mut b), f(g, &mut b), f(g, &mut b), f(g, &mut b));
    w.sub(a);
    let fees_collected = f(g, w);
    let burned = if burned_too {
        let mut x = W::new();
        let mut v = f(g, &mut x);
        if v.is_zero() { x = W::new(); x.u(4, 1).u(8, 5).bit(false); v = CurrencyCollection { tokens: Tokens::new(5), other: ExtraCurrencyCollection::new() } }
        w.inline(&x);
        v
    } else { CurrencyCollection::ZERO };
    w.sub(b);
    ValueFlow { from_prev_block, to_next_block, imported, exported, fees_collected, burned, fees_imported, recovered, created, minted }
}
fn merkle_update(g: &mut G) -> Cell { let k = g.next(); let a = mcells::ord(pattern(k * 3, 20), vec![]); let b = mcells::ord(pattern(k * 5 + 1, 30), vec![a.clone()]); mcells::real(&mcells::update(&a, &b)) }
pub fn block(g: &mut G, w: &mut W) -> Block {
    let v2 = g.yes();
    w.u(32, if v2 { 0x11ef55bb } else { 0x11ef55aa });
    let global_id = g.i32(w);
    let (info, value_flow) = (g.lazy(w), g.lazy(w));
    let upd = merkle_update(g);
    let state_update = LazyExotic::<MerkleUpdate>::from_raw(upd.clone()).unwrap();
    let out_msg_queue_updates = if v2 {
        let mut c = W::new();
        c.cell(&upd);
        let n = g.us(3);
        let mut d = Dict::new();
        let mut es = vec![];
        for i in 0..n as u32 { let u = merkle_update(g); d.set(i * 5, LazyExotic::<MerkleUpdate>::from_raw(u.clone()).unwrap()).unwrap(); es.push((uint(i as u128 * 5, 32), Val { bits: vec![], refs: vec![u] })) }
        dict_w(&mut c, &es, 32);
        w.sub(c);
        Some(d)
    } else { w.cell(&upd); None };
    Block { global_id, info, value_flow, state_update, out_msg_queue_updates, extra: g.lazy(w) }
}
pub fn block_extra(g: &mut G, w: &mut W) -> BlockExtra {
    w.u(32, 0x4a33f6fd);
    BlockExtra { in_msg_description: g.lazy(w), out_msg_description: g.lazy(w), account_blocks: g.lazy(w), rand_seed: g.hash(w), created_by: g.hash(w), custom: g.opt(w, |g, w| g.lazy(w)) }
}
pub fn account_block(g: &mut G, w: &mut W) -> AccountBlock {
    w.u(4, 5);
    let account = g.hash(w);
    let n = 1 + g.us(3);
    let mut d = AugDict::<u64, CurrencyCollection, Lazy<Transaction>>::new();
    for i in 0..n as u64 { let x = g.cc(&mut W::new()); let x = if g.mode == 1 { CurrencyCollection::new(x.tokens.into_inner() >> 8) } else { CurrencyCollection { tokens: Tokens::new(x.tokens.into_inner() >> 8), ..x } }; d.set(i * 1000 + 1, x, Lazy::from_raw(g.any()).unwrap()).unwrap(); }
    let root = d.dict().root().as_ref().unwrap();
    w.raw(&cell_bits(root.as_ref()));
    for i in 0..root.reference_count() { w.cell(&root.reference_cloned(i).unwrap()); }
    AccountBlock { account, transactions: d, state_update: g.lazy(w) }
}
pub fn signature(g: &mut G, w: &mut W) -> Signature { w.u(4, 5); let b = g.fill(512); w.raw(&b); Signature(pack(&b).try_into().unwrap()) }
pub fn block_signature(g: &mut G, w: &mut W) -> BlockSignature { BlockSignature { node_id_short: g.hash(w), signature: signature(g, w) } }
fn signatures(g: &mut G, w: &mut W) -> Dict<u16, BlockSignature> {
    let mut d = Dict::new();
    let mut es = vec![];
    for i in 0..g.us(3) as u16 { let mut x = W::new(); let s = block_signature(g, &mut x); d.set(i * 3, s).unwrap(); es.push((uint(i as u128 * 3, 16), Val::new(x.b))) }
    dict_w(w, &es, 16);
    d
}
pub fn block_signatures(g: &mut G, w: &mut W) -> BlockSignatures {
    w.u(8, 0x11);
    BlockSignatures { validator_info: ValidatorBaseInfo { validator_list_hash_short: g.u32(w), catchain_seqno: g.u32(w) }, signature_count: g.u32(w), total_weight: g.u64(w), signatures: signatures(g, w) }
}
pub fn block_proof(g: &mut G, w: &mut W) -> BlockProof {
    w.u(8, 0xc3);
    let proof_for = block_id(g, w);
    let root = g.cell(w);
    let signatures = g.opt(w, |g, w| { let mut c = W::new(); let s = block_signatures(g, &mut c); w.sub(c); s });
    BlockProof { proof_for, root, signatures }
}
fn shards(g: &mut G, w: &mut W) -> ShardHashes {
    if !g.bit(w) { return ShardHashes::default() }
    let c = g.cell(w);
    ShardHashes::from_dict(Dict::from_raw(Some(c)))
}
pub fn mc_block_extra(g: &mut G, w: &mut W) -> McBlockExtra {
    w.u(16, 0xcca5);
    let key = g.bit(w);
    let shards = shards(g, w);
    let mut fees = ShardFees::new();
    // an augmented dictionary of one entry or none, with its root extra
    if g.yes() {
        let mut x = W::new();
        let v = ShardFeeCreated { fees: ccx(g, &mut x, true), create: ccx(g, &mut x, true) };
        fees.set(ShardIdentFull { workchain: 0, prefix: 1 << 63 }, v.clone(), v).unwrap();
        w.bit(true).cell(fees.dict().root().as_ref().unwrap());
        w.inline(&x);
    } else { w.bit(false).u(4, 0).bit(false).u(4, 0).bit(false); }
    let mut c = W::new();
    let prev_block_signatures = signatures(g, &mut c);
    let recover_create_msg = g.opt(&mut c, |g, w| g.lazy(w));
    let mint_msg = g.opt(&mut c, |g, w| g.lazy(w));
    w.sub(c);
    let config = key.then(|| config(g, w));
    McBlockExtra { shards, fees, prev_block_signatures, recover_create_msg, mint_msg, config }
}
fn config(g: &mut G, w: &mut W) -> BlockchainConfig { let address = g.hash(w); let c = g.cell(w); BlockchainConfig { address, params: BlockchainConfigParams::from_raw(c) } }
pub fn creator_stats(g: &mut G, w: &mut W) -> CreatorStats {
    w.u(4, 4);
    let mut c = |g: &mut G| BlockCounters { updated_at: g.u32(w), total: g.u64(w), cnt2048: g.u64(w), cnt65536: g.u64(w) };
    CreatorStats { mc_blocks: c(g), shard_blocks: c(g) }
}
pub fn mc_state_extra(g: &mut G, w: &mut W) -> McStateExtra {
    w.u(16, 0xcc26);
    let shards = shards(g, w);
    let config = config(g, w);
    let mut c = W::new();
    let stats = g.yes();
    c.u(16, stats as u128);
    c.ignored.push(14); // reserved for a feature which is not supported
    let validator_info = ValidatorInfo { validator_list_hash_short: g.u32(&mut c), catchain_seqno: g.u32(&mut c), nx_cc_updated: g.rbit(&mut c) };
    let mut prev_blocks = AugDict::<u32, KeyMaxLt, KeyBlockRef>::new();
    let n = g.us(3);
    let (mut any_key, mut max) = (false, 0u64);
    for i in 0..n as u32 {
        let (key, lt) = (g.rot(2) == 1, g.val(64) as u64);
        any_key |= key;
        max = max.max(lt);
        prev_blocks.set(i * 3, KeyMaxLt { has_key_block: key, max_end_lt: lt }, KeyBlockRef { is_key_block: key, block_ref: block_ref(g, &mut W::new()) }).unwrap();
    }
    c.bit(n > 0);
    if let Some(r) = prev_blocks.dict().root() { c.cell(r); }
    c.bit(any_key).u(64, max as u128);
    let after_key_block = g.bit(&mut c);
    let last_key_block = g.opt(&mut c, block_ref);
    let block_create_stats = stats.then(|| {
        c.u(8, 0x17);
        let mut d = Dict::new();
        let mut es = vec![];
        for i in 0..g.us(2) { let mut k = W::new(); let key = g.hash(&mut k); let mut x = W::new(); let s = creator_stats(g, &mut x); d.set(key, s).unwrap(); es.push((k.b, Val::new(x.b))); let _ = i; }
        dict_w(&mut c, &es, 256);
        d
    });
    w.sub(c);
    let global_balance = g.cc(w);
    McStateExtra { shards, config, validator_info, prev_blocks, after_key_block, last_key_block, block_create_stats, global_balance }
}
pub fn lib_descr(g: &mut G, w: &mut W) -> LibDescr {
    w.u(2, 0);
    let lib = g.cell(w);
    let mut publishers = Dict::new();
    let mut es = vec![];
    for i in 0..1 + g.us(3) { let mut k = W::new(); g.hash(&mut k); for j in 0..4 { k.b[j] = ((i >> j) & 1) as u8 } publishers.set(HashBytes(pack(&k.b).try_into().unwrap()), ()).unwrap(); es.push((k.b, vec![])) }
    let root = dict_cell(&es, 256).unwrap();
    w.raw(&cell_bits(root.as_ref()));
    for i in 0..root.reference_count() { w.cell(&root.reference_cloned(i).unwrap()); }
    LibDescr { lib, publishers }
}
pub fn shard_state(g: &mut G, w: &mut W) -> ShardStateUnsplit {
    w.u(32, 0x9023afe2);
    let global_id = g.i32(w);
    let shard_ident = shard(g, w);
    let (seqno, vert_seqno, gen_utime, gen_lt, min_ref_mc_seqno) = (g.u32(w), g.u32(w), g.u32(w), g.u64(w), g.u32(w));
    let out_msg_queue_info = g.cell(w);
    let before_split = g.bit(w);
    let accounts = g.lazy(w);
    let mut c = W::new();
    let x = &mut c;
    let (overload_history, underload_history, total_balance, total_validator_fees) = (g.u64(x), g.u64(x), g.cc(x), g.cc(x));
    let mut libraries = Dict::new();
    let mut es = vec![];
    for _ in 0..g.us(2) { let mut k = W::new(); let key = g.hash(&mut k); let mut y = W::new(); let d = lib_descr(g, &mut y); libraries.set(key, d).unwrap(); es.push((k.b, Val { refs: y.refs(), bits: y.b })) }
    dict_w(x, &es, 256);
    let master_ref = g.opt(x, block_ref);
    w.sub(c);
    let custom = g.opt(w, |g, w| g.lazy(w));
    ShardStateUnsplit { global_id, shard_ident, seqno, vert_seqno, gen_utime, gen_lt, min_ref_mc_seqno, out_msg_queue_info, before_split, accounts, overload_history, underload_history, total_balance, total_validator_fees, libraries, master_ref, custom }
}
pub fn shard_state_split(g: &mut G, w: &mut W) -> ShardStateSplit { w.u(32, 0x5f327da5); ShardStateSplit { left: g.lazy(w), right: g.lazy(w) } }
pub fn interm(g: &mut G, w: &mut W) -> IntermediateAddr {
    match g.us(5) {
        0 => { w.u(2, 0b10); IntermediateAddr::Simple(IntermediateAddrSimple { workchain: g.u8(w) as i8, address_prefix: g.u64(w) }) }
        1 => { w.u(2, 0b11); IntermediateAddr::Ext(IntermediateAddrExt { workchain: g.i32(w), address_prefix: g.u64(w) }) }
        k => { let n = [0u8, 96, 33][k - 2]; w.u(1, 0).u(7, n as u128); IntermediateAddr::Regular(IntermediateAddrRegular::with_dest_bits(n).unwrap()) }
    }
}
pub fn envelope(g: &mut G, w: &mut W) -> MsgEnvelope { w.u(4, 4); MsgEnvelope { cur_addr: interm(g, w), next_addr: interm(g, w), fwd_fee_remaining: g.toks(w), message: g.lazy(w) } }
pub fn in_msg(g: &mut G, w: &mut W) -> InMsg {
    match g.us(4) {
        0 => { w.u(3, 0); InMsg::External(InMsgExternal { in_msg: g.lazy(w), transaction: g.lazy(w) }) }
        1 => { w.u(3, 3); InMsg::Immediate(InMsgFinal { in_msg_envelope: g.lazy(w), transaction: g.lazy(w), fwd_fee: g.toks(w) }) }
        2 => { w.u(3, 4); InMsg::Final(InMsgFinal { in_msg_envelope: g.lazy(w), transaction: g.lazy(w), fwd_fee: g.toks(w) }) }
        _ => { w.u(3, 5); InMsg::Transit(InMsgTransit { in_msg_envelope: g.lazy(w), out_msg_envelope: g.lazy(w), transit_fee: g.toks(w) }) }
    }
}
pub fn out_msg(g: &mut G, w: &mut W) -> OutMsg {
    match g.us(5) {
        0 => { w.u(3, 0); OutMsg::External(OutMsgExternal { out_msg: g.lazy(w), transaction: g.lazy(w) }) }
        1 => { w.u(3, 2); OutMsg::Immediate(OutMsgImmediate { out_msg_envelope: g.lazy(w), transaction: g.lazy(w), reimport: g.lazy(w) }) }
        2 => { w.u(3, 1); OutMsg::New(OutMsgNew { out_msg_envelope: g.lazy(w), transaction: g.lazy(w) }) }
        3 => { w.u(3, 4); OutMsg::DequeueImmediate(OutMsgDequeueImmediate { out_msg_envelope: g.lazy(w), reimport: g.lazy(w) }) }
        _ => { w.u(4, 0b1101); OutMsg::DequeueShort(OutMsgDequeueShort { msg_env_hash: g.hash(w), next_workchain: g.i32(w), next_addr_pfx: g.u64(w), import_block_lt: g.u64(w) }) }
    }
}
pub fn out_action(g: &mut G, w: &mut W) -> OutAction {
    match g.us(5) {
        0 => { w.u(32, 0x0ec3c86d); OutAction::SendMsg { mode: SendMsgFlags::from_bits_retain(g.u8(w)), out_msg: g.lazy(w) } }
        1 => { w.u(32, 0xad4de08e); OutAction::SetCode { new_code: g.cell(w) } }
        2 => { w.u(32, 0x36e6b809); OutAction::ReserveCurrency { mode: ReserveCurrencyFlags::from_bits_retain(g.u8(w)), value: g.cc(w) } }
        k => {
            w.u(32, 0x26fa1dd4);
            let mode = ChangeLibraryMode::from_bits_retain(g.u(w, 7) as u8);
            w.bit(k == 4);
            OutAction::ChangeLibrary { mode, lib: if k == 4 { LibRef::Cell(g.cell(w)) } else { LibRef::Hash(g.hash(w)) } }
        }
    }
}
fn flags3(g: &mut G, w: &mut W, all: bool) -> (bool, bool, bool) { if all { (g.bit(w), g.bit(w), g.bit(w)) } else { (g.rbit(w), g.rbit(w), g.rbit(w)) } }
pub fn int_info(g: &mut G, w: &mut W) -> MsgInfo {
    w.u(1, 0);
    let (ihr_disabled, bounce, bounced) = flags3(g, w, true);
    MsgInfo::Int(IntMsgInfo { ihr_disabled, bounce, bounced, src: g.raddr(w), dst: g.int_addr(w), value: g.cc(w), ihr_fee: g.toks(w), fwd_fee: g.toks(w), created_lt: g.u64(w), created_at: g.u32(w) })
}
pub fn msg_info(g: &mut G, w: &mut W) -> MsgInfo {
    match g.us(3) {
        0 => int_info(g, w),
        1 => { w.u(2, 2); MsgInfo::ExtIn(ExtInMsgInfo { src: g.opt_ext(w, &[0, 1, 24, 511]), dst: g.raddr(w), import_fee: g.toks(w) }) }
        _ => { w.u(2, 3); MsgInfo::ExtOut(ExtOutMsgInfo { src: g.raddr(w), dst: g.opt_ext(w, &[0, 1, 24, 511]), created_lt: g.u64(w), created_at: g.u32(w) }) }
    }
}
pub fn relaxed_info(g: &mut G, w: &mut W) -> RelaxedMsgInfo {
    let src = |g: &mut G, w: &mut W| if g.yes() { Some(g.raddr(w)) } else { w.u(2, 0); None };
    if g.yes() {
        w.u(2, 3);
        RelaxedMsgInfo::ExtOut(RelaxedExtOutMsgInfo { src: src(g, w), dst: g.opt_ext(w, &[0, 1, 24, 511]), created_lt: g.u64(w), created_at: g.u32(w) })
    } else {
        w.u(1, 0);
        let (ihr_disabled, bounce, bounced) = flags3(g, w, true);
        RelaxedMsgInfo::Int(RelaxedIntMsgInfo { ihr_disabled, bounce, bounced, src: src(g, w), dst: g.int_addr(w), value: g.cc(w), ihr_fee: g.toks(w), fwd_fee: g.toks(w), created_lt: g.u64(w), created_at: g.u32(w) })
    }
}

// configuration parameters
fn nz32(g: &mut G, w: &mut W) -> std::num::NonZeroU32 { let v = (g.val(32) as u32).max(1); w.u(32, v as u128); std::num::NonZeroU32::new(v).unwrap() }
pub fn burning(g: &mut G, w: &mut W) -> BurningConfig {
    w.u(8, 1);
    let blackhole_addr = g.opt(w, G::hash);
    let fee_burn_num = g.u32(w);
    let d = (g.val(32) as u32).max(fee_burn_num).max(1);
    w.u(32, d as u128);
    BurningConfig { blackhole_addr, fee_burn_num, fee_burn_denom: std::num::NonZeroU32::new(d).unwrap() }
}
pub fn proposal(g: &mut G, w: &mut W) -> ConfigProposalSetup { w.u(8, 0x36); ConfigProposalSetup { min_total_rounds: g.u8(w), max_total_rounds: g.u8(w), min_wins: g.u8(w), max_losses: g.u8(w), min_store_sec: g.u32(w), max_store_sec: g.u32(w), bit_price: g.u32(w), cell_price: g.u32(w) } }
pub fn wc_extended(g: &mut G, w: &mut W) -> WorkchainFormatExtended {
    let (lo, hi, step) = [(64u16, 64u16, 0u16), (64, 1023, 1023), (65, 300, 8), (1023, 1023, 1)][g.us(4)];
    w.u(12, lo as u128).u(12, hi as u128).u(12, step as u128);
    WorkchainFormatExtended { min_addr_len: Uint12::new(lo), max_addr_len: Uint12::new(hi), addr_len_step: Uint12::new(step), workchain_type_id: nz32(g, w) }
}
pub fn workchain(g: &mut G, w: &mut W) -> WorkchainDescription {
    w.u(8, 0xa6);
    let (enabled_since, actual_min_split) = (g.u32(w), g.u8(w));
    let (min_split, max_split) = [(0u8, 0u8), (0, 60), (60, 60), (3, 17)][g.rot(4)];
    w.ignored.extend(w.b.len()..w.b.len() + 16); // the split range is not checked when it is read
    w.u(8, min_split as u128).u(8, max_split as u128);
    let basic = g.bit(w);
    let (active, accept_msgs) = (g.bit(w), g.bit(w));
    w.u(13, 0);
    let (zerostate_root_hash, zerostate_file_hash, version) = (g.hash(w), g.hash(w), g.u32(w));
    let format = if basic { w.u(4, 1); WorkchainFormat::Basic(WorkchainFormatBasic { vm_version: g.i32(w), vm_mode: g.u64(w) }) } else { w.u(4, 0); WorkchainFormat::Extended(wc_extended(g, w)) };
    WorkchainDescription { enabled_since, actual_min_split, min_split, max_split, active, accept_msgs, zerostate_root_hash, zerostate_file_hash, version, format }
}
pub fn gas_prices(g: &mut G, w: &mut W) -> GasLimitsPrices {
    w.u(8, 0xd1);
    let (flat_gas_limit, flat_gas_price) = (g.u64(w), g.u64(w));
    w.u(8, 0xde);
    GasLimitsPrices { gas_price: g.u64(w), gas_limit: g.u64(w), special_gas_limit: g.u64(w), gas_credit: g.u64(w), block_gas_limit: g.u64(w), freeze_due_limit: g.u64(w), delete_due_limit: g.u64(w), flat_gas_limit, flat_gas_price }
}
pub fn param_limits(g: &mut G, w: &mut W) -> BlockParamLimits {
    let mut v = [g.val(32) as u32, g.val(32) as u32, g.val(32) as u32];
    v.sort();
    w.u(8, 0xc3).u(32, v[0] as u128).u(32, v[1] as u128).u(32, v[2] as u128);
    BlockParamLimits { underload: v[0], soft_limit: v[1], hard_limit: v[2] }
}
pub fn consensus(g: &mut G, w: &mut W) -> ConsensusConfig {
    w.u(8, 0xd7).u(7, 0);
    let new_catchain_ids = g.bit(w);
    let n = [1u32, 255, 77][g.us(3)];
    w.u(8, n as u128);
    ConsensusConfig { new_catchain_ids, round_candidates: std::num::NonZeroU32::new(n).unwrap(), next_candidate_delay_ms: g.u32(w), consensus_timeout_ms: g.u32(w), fast_attempts: g.u32(w), attempt_duration: g.u32(w), catchain_max_deps: g.u32(w), max_block_bytes: g.u32(w), max_collated_bytes: g.u32(w) }
}
pub fn catchain(g: &mut G, w: &mut W) -> CatchainConfig { w.u(8, 0xc2).u(6, 0); CatchainConfig { isolate_mc_validators: g.bit(w), shuffle_mc_validators: g.bit(w), mc_catchain_lifetime: g.u32(w), shard_catchain_lifetime: g.u32(w), shard_validators_lifetime: g.u32(w), shard_validators_num: g.u32(w) } }
pub fn validator(g: &mut G, w: &mut W) -> ValidatorDescription {
    let k = g.us(3);
    w.u(8, [0x53, 0x73, 0x93][k]).u(32, 0x8e81278a);
    let (public_key, weight) = (g.hash(w), g.u64(w));
    let adnl_addr = if k > 0 { let mut x = W::new(); let h = g.hash(&mut x); if h == HashBytes::ZERO { x.b[9] = 1 } w.inline(&x); Some(HashBytes(pack(&x.b).try_into().unwrap())) } else { None };
    let mc_seqno_since = if k == 2 { nz32(g, w).get() } else { 0 };
    ValidatorDescription { public_key, weight, adnl_addr, mc_seqno_since, prev_total_weight: 0 }
}
pub fn validator_set(g: &mut G, w: &mut W) -> ValidatorSet {
    w.u(8, 0x12);
    let (utime_since, utime_until) = (g.u32(w), g.u32(w));
    let n = 1 + g.us(4);
    let main = 1 + g.rot(n) as u16;
    w.ignored.extend(w.b.len()..w.b.len() + 16); // the number of validators is not compared
    w.u(16, n as u128).u(16, main as u128);
    let (mut list, mut es, mut total_weight) = (vec![], vec![], 0u64);
    for i in 0..n {
        let mut x = W::new();
        let mut v = validator(g, &mut x);
        v.weight >>= 3;
        let q = uint(v.weight as u128, 64);
        x.b[296..360].copy_from_slice(&q);
        v.prev_total_weight = total_weight;
        total_weight += v.weight;
        list.push(v);
        es.push((uint(i as u128, 16), x.b));
    }
    w.u(64, total_weight as u128).bit(true).cell(&dict_cell(&es, 16).unwrap());
    ValidatorSet { utime_since, utime_until, main: std::num::NonZeroU16::new(main).unwrap(), total_weight, list }
}
pub fn size_limits(g: &mut G, w: &mut W) -> SizeLimitsConfig { w.u(8, 2); SizeLimitsConfig { max_msg_bits: g.u32(w), max_msg_cells: g.u32(w), max_library_cells: g.u32(w), max_vm_data_depth: g.u16(w), max_ext_msg_size: g.u32(w), max_ext_msg_depth: g.u16(w), max_acc_state_cells: g.u32(w), max_acc_state_bits: g.u32(w), max_acc_public_libraries: g.u32(w), defer_out_queue_size_limit: g.u32(w) } }
fn config_families(v: &mut dyn Vis) {
    v.fam("burning-config", burning);
    v.fam("mint-once", |g, w| { w.u(8, 1); MintOnceConfig { mint_at: g.u32(w), delta: g.cc(w) } });
    v.fam("voting-setup", |g, w| { w.u(8, 0x91); let mut l = |g: &mut G| { let mut x = W::new(); let v = proposal(g, &mut x); w.cell(&x.build()); Lazy::new(&v).unwrap() }; ConfigVotingSetup { normal_params: l(g), critical_params: l(g) } });
    v.fam("proposal-setup", proposal);
    v.fam("workchain-format", |g, w| if g.bit(&mut W::new()) { w.u(4, 1); WorkchainFormat::Basic(WorkchainFormatBasic { vm_version: g.i32(w), vm_mode: g.u64(w) }) } else { w.u(4, 0); WorkchainFormat::Extended(wc_extended(g, w)) });
    v.fam("workchain", workchain);
    v.fam("block-rewards", |g, w| { w.u(8, 0x6b); BlockCreationRewards { masterchain_block_fee: g.toks(w), basechain_block_fee: g.toks(w) } });
    v.fam("election-timings", |g, w| ElectionTimings { validators_elected_for: g.u32(w), elections_start_before: g.u32(w), elections_end_before: g.u32(w), stake_held_for: g.u32(w) });
    v.fam("validator-count", |g, w| ValidatorCountParams { max_validators: g.u16(w), max_main_validators: g.u16(w), min_validators: g.u16(w) });
    v.fam("validator-stake", |g, w| ValidatorStakeParams { min_stake: g.toks(w), max_stake: g.toks(w), min_total_stake: g.toks(w), max_stake_factor: g.u32(w) });
    v.fam("storage-prices", |g, w| { w.u(8, 0xcc); StoragePrices { utime_since: g.u32(w), bit_price_ps: g.u64(w), cell_price_ps: g.u64(w), mc_bit_price_ps: g.u64(w), mc_cell_price_ps: g.u64(w) } });
    v.fam("gas-prices", gas_prices);
    v.fam("param-limits", param_limits);
    v.fam("block-limits", |g, w| { w.u(8, 0x5d); BlockLimits { bytes: param_limits(g, w), gas: param_limits(g, w), lt_delta: param_limits(g, w) } });
    v.fam("forward-prices", |g, w| { w.u(8, 0xea); MsgForwardPrices { lump_price: g.u64(w), bit_price: g.u64(w), cell_price: g.u64(w), ihr_price_factor: g.u32(w), first_frac: g.u16(w), next_frac: g.u16(w) } });
    v.fam("catchain-config", catchain);
    v.fam("consensus-config", consensus);
    v.fam("validator", validator);
    v.fam("validator-set", validator_set);
    v.fam("size-limits", size_limits);
}
pub fn families(v: &mut dyn Vis) {
    v.fam("storage-used", storage_used);
    v.fam("storage-used-short", storage_used_short);
    v.fam("storage-extra", storage_extra);
    v.fam("storage-info", storage_info);
    v.fam("account-status", status);
    v.fam("state-init", state_init);
    v.fam("special-flags", |g, w| SpecialFlags { tick: g.bit(w), tock: g.bit(w) });
    v.fam("simple-lib", |g, w| SimpleLib { public: g.bit(w), root: g.cell(w) });
    v.fam("account-state", account_state);
    v.fam("account", account);
    v.fam("optional-account", |g, w| { let a = g.opt(w, account); OptionalAccount(a) });
    v.fam("shard-account", |g, w| ShardAccount { account: g.lazy(w), last_trans_hash: g.hash(w), last_trans_lt: g.u64(w) });
    v.fam("storage-phase", |g, w| StoragePhase { storage_fees_collected: g.toks(w), storage_fees_due: g.opt(w, G::toks), status_change: change(g, w) });
    v.fam("credit-phase", |g, w| CreditPhase { due_fees_collected: g.opt(w, G::toks), credit: g.cc(w) });
    v.fam("compute-phase", compute_phase);
    v.fam("compute-phase-flags", compute_flags);
    v.fam("action-phase", |g, w| action_phase(g, w, true));
    v.fam("bounce-phase", bounce_phase);
    v.fam("tx-info", tx_info);
    v.fam("hash-update", hash_update);
    v.fam("transaction", transaction);
    v.fam("currencies", |g, w| g.cc(w));
    v.fam("int-addr", |g, w| g.int_addr(w));
    v.fam("std-addr", |g, w| { let a = g.yes(); g.std_addr(w, a) });
    v.fam("anycast", |g, w| g.anycast(w));
    v.fam("shard-ident", shard);
    v.fam("block-id", block_id);
    v.fam("block-ref", block_ref);
    v.fam("global-version", version);
    v.fam("block-info", block_info);
    v.fam("value-flow", value_flow);
    v.fam("block", block);
    v.fam("block-extra", block_extra);
    v.fam("account-block", account_block);
    v.fam("block-signature", block_signature);
    v.fam("block-signatures", block_signatures);
    v.fam("block-proof", block_proof);
    v.fam("mc-block-extra", mc_block_extra);
    v.fam("shard-fee-created", |g, w| ShardFeeCreated { fees: g.cc(w), create: g.cc(w) });
    v.fam("shard-ident-full", |g, w| ShardIdentFull { workchain: g.i32(w), prefix: g.u64(w) });
    v.fam("creator-stats", creator_stats);
    v.fam("mc-state-extra", mc_state_extra);
    v.fam("validator-info", |g, w| ValidatorInfo { validator_list_hash_short: g.u32(w), catchain_seqno: g.u32(w), nx_cc_updated: g.bit(w) });
    v.fam("key-block-ref", |g, w| KeyBlockRef { is_key_block: g.bit(w), block_ref: block_ref(g, w) });
    v.fam("key-max-lt", |g, w| KeyMaxLt { has_key_block: g.bit(w), max_end_lt: g.u64(w) });
    v.fam("lib-descr", lib_descr);
    v.fam("shard-state", shard_state);
    v.fam("shard-state-any", |g, w| if g.yes() { ShardState::Split(shard_state_split(g, w)) } else { ShardState::Unsplit(shard_state(g, w)) });
    v.fam("depth-balance", |g, w| { let d = [0u8, 30, 1, 17][g.us(4)]; w.u(5, d as u128); DepthBalanceInfo { split_depth: d, balance: g.cc(w) } });
    v.fam("import-fees", |g, w| ImportFees { fees_collected: g.toks(w), value_imported: g.cc(w) });
    v.fam("intermediate-addr", interm);
    v.fam("envelope", envelope);
    v.fam("in-msg", in_msg);
    v.fam("out-msg", out_msg);
    v.fam("enqueued-msg", |g, w| EnqueuedMsg { enqueued_lt: g.u64(w), out_msg_envelope: g.lazy(w) });
    v.fam("out-action", out_action);
    v.fam("msg-info", msg_info);
    v.fam("relaxed-msg-info", relaxed_info);
    config_families(v);
}
