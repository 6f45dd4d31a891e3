//! Reads every accessor of a chain structure offers.
use std::any::Any;
use std::hint::black_box;
use tycho_types::cell::*;
use tycho_types::dict::*;
use tycho_types::models::*;
use tycho_types::num::*;
use tycho_types::prelude::*;

/// Bound on the items taken of an iterator; more than this is reported as endless by the caller.
pub const CAP: usize = 300;
pub struct Endless(pub &'static str);
type E = Result<(), Endless>;

fn drain<X, Er>(what: &'static str, it: impl Iterator<Item = Result<X, Er>>) -> E {
    let mut n = 0;
    for x in it { let _ = black_box(x.is_ok()); n += 1; if n > CAP { return Err(Endless(what)) } }
    Ok(())
}
fn each<X, Er>(what: &'static str, it: impl Iterator<Item = Result<X, Er>>, mut f: impl FnMut(X) -> E) -> E {
    let mut n = 0;
    for x in it { if let Ok(x) = x { f(x)? } n += 1; if n > CAP { return Err(Endless(what)) } }
    Ok(())
}
fn dict<K: LoadDictKey + StoreDictKey + 'static, V: for<'a> Load<'a> + Store + 'static>(d: &Dict<K, V>) -> E {
    drain("dict-iter", d.iter())?;
    drain("dict-keys", d.keys())?;
    drain("dict-values", d.values())?;
    let _ = d.get_min(false).map(|x| x.is_some());
    let _ = d.get_max(true).map(|x| x.is_some());
    let mut c: Dict<K, V> = Dict::from(d.root().clone());
    let _ = c.remove_min_raw(false).map(|x| x.is_some());
    Ok(())
}
fn aug<K, A, V>(d: &AugDict<K, A, V>) -> E where K: LoadDictKey + StoreDictKey + 'static, A: for<'a> Load<'a> + Store + AugDictExtra + Clone + 'static, V: for<'a> Load<'a> + Store + 'static {
    drain("aug-iter", d.iter())?;
    drain("aug-values", d.values())?;
    drain("aug-keys", d.keys())?;
    let mut c = d.clone();
    let _ = c.update_root_extra();
    if let Some(Ok(k)) = d.keys().next() { let _ = c.remove(&k).map(|x| x.is_some()); }
    Ok(())
}
fn cc(c: &CurrencyCollection) -> E {
    let o = CurrencyCollection { tokens: Tokens::MAX, other: c.other.clone() };
    let _ = (c.is_zero(), c.checked_add(c).is_ok(), c.checked_sub(c).is_ok(), c.checked_add(&o).is_ok(), c.checked_sub(&o).is_ok(), c.checked_clamp(&o).is_ok());
    let _ = (c.other.normalized().is_ok(), c.other.checked_add(&o.other).is_ok(), c.other.checked_clamp(&c.other).is_ok());
    dict(c.other.as_dict())
}
fn msg(m: &Message<'_>) -> E {
    info(&m.info)?;
    let _ = format!("{m:?}").len();
    let _ = CellBuilder::build_from(m).is_ok();
    if let Some(i) = &m.init { init(i)? }
    let _ = m.body.display_data().to_string();
    Ok(())
}
fn info(m: &MsgInfo) -> E { if let MsgInfo::Int(i) = m { cc(&i.value)? } let _ = (m.exact_size(), m.is_internal(), m.is_external_in()); Ok(()) }
fn init(s: &StateInit) -> E { let _ = s.exact_size(); dict(&s.libraries) }
fn shards(h: &ShardHashes) -> E {
    drain("shards", h.iter())?;
    drain("shards-raw", h.raw_iter())?;
    drain("shards-latest", h.latest_blocks())?;
    each("shards-dict", h.as_dict().keys(), |wc| {
        let _ = h.contains_workchain::<i32>(wc).is_ok();
        if let Ok(Some(w)) = h.get_workchain_shards(wc) {
            drain("wc-keys", w.keys())?;
            drain("wc-iter", w.iter())?;
            drain("wc-raw", w.raw_iter())?;
            drain("wc-values", w.raw_values())?;
            drain("wc-latest", w.latest_blocks())?;
        }
        Ok(())
    })
}
pub fn params(c: &BlockchainConfigParams) -> E {
    macro_rules! g { ($($f:ident($($a:expr),*)),* $(,)?) => { $( let _ = black_box(c.$f($($a),*).is_ok()); )* } }
    g!(get_elector_address(), get_minter_address(), get_burning_config(), get_fee_collector_address(), get_global_version(), get_mandatory_params(), get_critical_params(), get_workchains(), get_block_creation_reward(false), get_block_creation_reward(true), get_block_creation_rewards(), get_election_timings(), get_validator_count_params(), get_validator_stake_params(), get_storage_prices(), get_global_id(), get_gas_prices(false), get_gas_prices(true), get_block_limits(false), get_block_limits(true), get_msg_forward_prices(false), get_msg_forward_prices(true), get_catchain_config(), get_consensus_config(), get_fundamental_addresses(), contains_prev_validator_set(), contains_next_validator_set(), get_previous_validator_set(), get_current_validator_set(), get_next_validator_set(), get_size_limits(), contains_raw(0), get_raw(0), get_raw_cell(0), get_raw_cell_ref(0));
    if let Ok(d) = c.get_mandatory_params() { dict(&d)? }
    if let Ok(d) = c.get_workchains() { dict(&d)? }
    if let Ok(d) = c.get_storage_prices() { dict(&d)? }
    if let Ok(v) = c.get_current_validator_set() { vset(&v)? }
    let mut m = c.clone();
    let _ = (m.set_global_id(7).is_ok(), m.set_elector_address(&HashBytes::ZERO).is_ok(), m.remove(0).is_ok(), m.set_mandatory_params(&[0, 1]).is_ok());
    drain("config-raw", c.as_dict().iter())
}
fn vset(v: &ValidatorSet) -> E {
    for (isolate, num) in [(false, 1), (false, 7), (true, 7), (false, u32::MAX)] {
        let cfg = CatchainConfig { isolate_mc_validators: isolate, shuffle_mc_validators: isolate, mc_catchain_lifetime: 1, shard_catchain_lifetime: 1, shard_validators_lifetime: 1, shard_validators_num: num };
        for s in [ShardIdent::MASTERCHAIN, ShardIdent::BASECHAIN] { for n in [0, 5] { let _ = black_box(v.compute_subset(s, &cfg, n).map(|x| x.0.len())); } }
    }
    let _ = v.compute_mc_subset(3, true).map(|x| x.1);
    Ok(())
}
fn env(e: &MsgEnvelope) -> E {
    let _ = (e.load_message_info().is_ok(), e.load_message_owned().is_ok(), e.message_hash());
    if let Ok(m) = e.load_message() { msg(&m)? }
    let mut c = e.clone();
    let _ = (c.collect_fee(Tokens::new(1)), c.collect_fee(Tokens::MAX));
    Ok(())
}
fn inmsg(m: &InMsg) -> E {
    let _ = (m.load_msg_owned().is_ok(), m.load_msg_cell().is_ok(), m.compute_fees().is_ok(), m.transaction_cell().is_some(), m.in_msg_envelope_cell().is_some(), m.out_msg_envelope_cell().is_some());
    if let Ok(x) = m.load_msg() { msg(&x)? }
    if let Ok(Some(x)) = m.load_transaction() { tx(&x)? }
    if let Ok(Some(x)) = m.load_in_msg_envelope() { env(&x)? }
    if let Ok(Some(x)) = m.load_out_msg_envelope() { env(&x)? }
    Ok(())
}
fn outmsg(m: &OutMsg) -> E {
    let _ = (m.compute_exported_value().is_ok(), m.load_message_owned().is_ok(), m.transaction_cell().is_some(), m.out_msg_envelope_cell().is_some(), m.reimport_msg_cell().is_some());
    if let Ok(Some(x)) = m.load_message() { msg(&x)? }
    if let Ok(Some(x)) = m.load_transaction() { tx(&x)? }
    if let Ok(Some(x)) = m.load_out_msg_envelope() { env(&x)? }
    if let Ok(Some(x)) = m.load_reimport_msg() { inmsg(&x)? }
    Ok(())
}
fn tx(t: &Transaction) -> E {
    cc(&t.total_fees)?;
    if let Ok(Some(m)) = t.load_in_msg() { msg(&m)? }
    let _ = (t.load_info().is_ok(), t.state_update.load().is_ok());
    each("tx-out-msgs", t.iter_out_msgs(), |m| msg(&m))?;
    dict(&t.out_msgs)
}
fn account(a: &Account) -> E {
    cc(&a.balance)?;
    if let AccountState::Active(s) = &a.state { init(s)? }
    let _ = StorageUsed::compute(a, 20).is_ok();
    Ok(())
}
fn binfo(b: &BlockInfo) -> E {
    let _ = (b.load_master_ref().is_ok(), b.load_prev_ref().is_ok(), b.prev_vert_ref.as_ref().map(|x| x.load().is_ok()));
    Ok(())
}
fn bextra(b: &BlockExtra) -> E {
    if let Ok(Some(c)) = b.load_custom() { mcextra(&c)? }
    if let Ok(d) = b.load_in_msg_description() { aug(&d)?; each("in-msgs", d.values(), |x| inmsg(&x.1))? }
    if let Ok(d) = b.load_out_msg_description() { aug(&d)?; each("out-msgs", d.values(), |x| outmsg(&x.1))? }
    if let Ok(d) = b.account_blocks.load() { aug(&d)?; each("account-blocks", d.values(), |x| ablock(&x.1))? }
    Ok(())
}
fn ablock(b: &AccountBlock) -> E {
    let _ = b.state_update.load().is_ok();
    aug(&b.transactions)?;
    each("block-transactions", b.transactions.values(), |x| match x.1.load() { Ok(t) => tx(&t), Err(_) => Ok(()) })
}
fn mcextra(b: &McBlockExtra) -> E {
    shards(&b.shards)?;
    aug(&b.fees)?;
    dict(&b.prev_block_signatures)?;
    if let Ok(Some(m)) = b.load_recover_create_msg() { inmsg(&m)? }
    if let Ok(Some(m)) = b.load_mint_msg() { inmsg(&m)? }
    if let Some(c) = &b.config { params(&c.params)? }
    Ok(())
}
fn mcstate(s: &McStateExtra) -> E {
    shards(&s.shards)?;
    params(&s.config.params)?;
    aug(&s.prev_blocks)?;
    if let Some(d) = &s.block_create_stats { dict(d)? }
    cc(&s.global_balance)
}
fn shstate(s: &ShardStateUnsplit) -> E {
    if let Ok(a) = s.load_accounts() { aug(&a)?; each("accounts", a.values(), |x| shacc(&x.1))? }
    if let Ok(Some(c)) = s.load_custom() { mcstate(&c)? }
    dict(&s.libraries)?;
    cc(&s.total_balance)?;
    let mut x = s.clone();
    let _ = x.set_custom(None).is_ok();
    Ok(())
}
fn shacc(s: &ShardAccount) -> E { if let Ok(Some(a)) = s.load_account() { account(&a)? } Ok(()) }
fn flow(f: &ValueFlow) -> E { let _ = f.validate().is_ok(); for c in [&f.from_prev_block, &f.to_next_block, &f.minted, &f.burned] { cc(c)? } Ok(()) }

pub fn poke(x: &dyn Any) -> E {
    macro_rules! on { ($($t:ty => $f:expr),* $(,)?) => { $( if let Some(v) = x.downcast_ref::<$t>() { let f: fn(&$t) -> E = $f; f(v)? } )* } }
    on!(
        CurrencyCollection => cc, StateInit => init, Account => account, Transaction => tx, MsgInfo => info, InMsg => inmsg, OutMsg => outmsg, MsgEnvelope => env,
        BlockInfo => binfo, BlockExtra => bextra, AccountBlock => ablock, McBlockExtra => mcextra, McStateExtra => mcstate, ShardStateUnsplit => shstate, ShardAccount => shacc, ValueFlow => flow,
        ValidatorSet => vset, ShardHashes => shards,
        OptionalAccount => |a| { let _ = (a.status(), a.last_trans_lt(), a.balance().tokens, a.state().is_some()); match &a.0 { Some(a) => account(a), None => Ok(()) } },
        Block => |b| {
            if let Ok(i) = b.load_info() { binfo(&i)? }
            if let Ok(f) = b.load_value_flow() { flow(&f)? }
            let _ = b.load_state_update().is_ok();
            if let Ok(e) = b.load_extra() { bextra(&e)? }
            Ok(())
        },
        ShardState => |s| match s { ShardState::Unsplit(s) => shstate(s), ShardState::Split(s) => { for l in [&s.left, &s.right] { if let Ok(s) = l.load() { shstate(&s)? } } Ok(()) } },
        LibDescr => |d| dict(&d.publishers),
        BlockProof => |p| { if let Some(s) = &p.signatures { dict(&s.signatures)? } Ok(()) },
        BlockSignatures => |s| dict(&s.signatures),
        BlockchainConfig => |c| params(&c.params),
        GasLimitsPrices => |p| { for g in [0, 1, u64::MAX] { let _ = p.compute_gas_fee(g); } Ok(()) },
        StoragePrices => |p| { for c in [0, 1, u64::MAX] { for b in [false, true] { let _ = p.compute_storage_fee(b, c, CellTreeStats { bit_count: c, cell_count: c }); } } Ok(()) },
        MsgForwardPrices => |p| { for c in [0, 1, u64::MAX] { let _ = p.compute_fwd_fee(CellTreeStats { bit_count: c, cell_count: c }); } for t in [Tokens::ZERO, Tokens::MAX] { let _ = (p.get_first_part(t), p.get_next_part(t)); } Ok(()) },
        BurningConfig => |b| { for t in [Tokens::ZERO, Tokens::MAX] { let _ = (b.is_valid(), b.compute_burned_fees(t).is_ok()); } Ok(()) },
        ShardIdent => |s| { let _ = (s.split().is_some(), s.merge().is_some(), s.opposite().is_some(), s.prefix_len(), s.to_string()); Ok(()) },
        BlockId => |b| { let _ = (b.to_string(), b.as_short_id(), b.is_masterchain()); Ok(()) },
        IntAddr => |a| { let _ = (a.to_string(), a.prefix(), a.is_masterchain()); Ok(()) },
        StdAddr => |a| { let _ = (a.to_string(), a.prefix(), a.display_base64_url(true).to_string()); Ok(()) },
        WorkchainDescription => |w| { let _ = w.is_valid(); Ok(()) },
        GlobalVersion => |v| { let _ = v.capabilities.iter().count(); Ok(()) },
        OutAction => |a| { if let OutAction::SendMsg { out_msg, .. } = a { if let Ok(m) = out_msg.load() { let _ = format!("{m:?}").len(); } } Ok(()) },
        IntermediateAddr => |a| { if let IntermediateAddr::Regular(r) = a { let _ = (r.use_dest_bits(), r.use_src_bits()); } Ok(()) },
    );
    Ok(())
}
/// accessors which need the cell itself
pub fn cell(c: &Cell) -> E {
    if let Ok(m) = c.parse::<Message<'_>>() { msg(&m)? }
    if let Ok(m) = c.parse::<OwnedMessage>() { let _ = (CellBuilder::build_from(&m).is_ok(), format!("{m:?}").len()); }
    if let Ok(m) = c.parse::<RelaxedMessage<'_>>() { let _ = (CellBuilder::build_from(&m).is_ok(), format!("{m:?}").len()); }
    if let Ok(m) = c.parse::<OwnedRelaxedMessage>() { let _ = (CellBuilder::build_from(&m).is_ok(), format!("{m:?}").len()); }
    if let Ok(s) = c.as_slice() { drain("out-actions", OutActionsRevIter::new(s))?; }
    drain("out-actions", OutActionsRevIter::new(c.as_slice_allow_exotic()))?;
    let _ = WorkchainShardHashesIter::new(0, c.as_ref()).count();
    Ok(())
}
