//! C23: shard identifiers against bit prefixes; block identifiers through text and cells.
use crate::fw::*;
use crate::model::bits::*;
use crate::*;
use std::collections::BTreeSet;
use std::str::FromStr;
use tycho_types::cell::*;
use tycho_types::dict::*;
use tycho_types::models::*;
use tycho_types::num::Uint9;

pub const META: Meta = Meta {
    id: "C23",
    level: "model_checking",
    rule: "a state is a shard (workchain, bit prefix) or a pair of them: every prefix up to a depth and, beyond it, every depth up to 60 along a family of paths, all pairs checked for every relation; a transition is one relation, split, merge, text or cell operation compared with the bit strings; 64 bit prefix values, texts (all single-character edits and part recombinations) and cell prefixes (all 256 lengths, all truncations) are enumerated for acceptance; non-trivial: the relation holds or the input is refused",
    assumptions: &["splitting the masterchain shard is not judged (the crate can split it, but refuses its parts)", "numbers inside identifier texts are read as the standard library reads them (an explicit plus sign and either letter case are accepted)"],
    run,
};

/// shard prefix word of a bit prefix
fn word(p: &[u8]) -> u64 { let mut v = 0u64; for (i, b) in p.iter().enumerate() { v |= (*b as u64) << (63 - i) } v | 1u64 << (63 - p.len()) }
fn shard(wc: i32, p: &[u8]) -> ShardIdent { ShardIdent::new(wc, word(p)).expect("valid shard") }
fn unword(v: u64) -> Option<B> {
    if v == 0 { return None }
    let n = 63 - v.trailing_zeros() as usize;
    (n <= 60).then(|| (0..n).map(|i| (v >> (63 - i) & 1) as u8).collect())
}
fn valid(wc: i32, v: u64) -> Option<B> { unword(v).filter(|p| wc != -1 || p.is_empty()) }

fn pair(wa: i32, a: &B, wb: i32, b: &B, l: &mut L) -> R {
    let (x, y) = (shard(wa, a), shard(wb, b));
    let same = wa == wb;
    let anc = same && b.starts_with(a);
    let int = same && (b.starts_with(a) || a.starts_with(b));
    let par = same && b.len() == a.len() + 1 && b.starts_with(a);
    let ctx = || format!("{x} {y}");
    l.evn(6);
    l.tr(5);
    if int { l.nt() }
    ckeq!(x.is_ancestor_of(&y), anc, "is_ancestor_of", "{}", ctx());
    ckeq!(x.intersects(&y), int, "intersects", "{}", ctx());
    ckeq!(x.is_parent_of(&y), par, "is_parent_of", "{}", ctx());
    ckeq!(y.is_child_of(&x), par, "is_child_of", "{}", ctx());
    ckeq!(x == y, same && a == b, "eq", "{}", ctx());
    ckeq!(x.cmp(&y), (wa, word(a)).cmp(&(wb, word(b))), "cmp", "{}", ctx());
    Ok(())
}

fn one(wc: i32, p: &B, l: &mut L) -> R {
    let x = shard(wc, p);
    let n = p.len();
    let ctx = || format!("{x} prefix={}", show(p));
    let ext = |b: u8| { let mut q = p.clone(); q.push(b); q };
    l.evn(24);
    l.tr(8);
    l.st(1);
    ckeq!((x.workchain(), x.prefix(), x.prefix_len() as usize), (wc, word(p), n), "parts", "{}", ctx());
    ckeq!(x.is_full(), n == 0, "is_full", "{}", ctx());
    ckeq!(x.is_masterchain(), wc == -1, "is_masterchain", "{}", ctx());
    ckeq!(x.merge(), (n > 0).then(|| shard(wc, &p[..n - 1])), "merge", "{}", ctx());
    ckeq!(x.opposite(), (n > 0).then(|| { let mut q = p.clone(); q[n - 1] ^= 1; shard(wc, &q) }), "opposite", "{}", ctx());
    if n > 0 { ckeq!((x.is_left_child(), x.is_right_child()), (p[n - 1] == 0, p[n - 1] == 1), "child-side", "{}", ctx()); }
    if wc != -1 {
        ckeq!(x.can_split(), n < 60, "can_split", "{}", ctx());
        ckeq!(x.split(), (n < 60).then(|| (shard(wc, &ext(0)), shard(wc, &ext(1)))), "split", "{}", ctx());
        if let Some((a, b)) = x.split() {
            ckeq!((a.merge(), b.merge()), (Some(x), Some(x)), "split-merge", "{}", ctx());
            ckeq!((a.opposite(), b.opposite()), (Some(b), Some(a)), "split-opposite", "{}", ctx());
        }
    } else { l.nt() }
    // accounts: equal to the prefix in exactly k leading bits
    for k in 0..=(n + 2).min(64) {
        for tail in 0..2u8 {
            let mut acc: B = p.clone();
            acc.resize(256, tail);
            if k < n { acc[k] ^= 1 } else if k < 64 { acc[k] = acc[k] ^ tail ^ 1 }
            let want = k >= n;
            let h = HashBytes(pack(&acc).try_into().unwrap());
            l.evn(4);
            if want { l.nt() }
            ckeq!(x.contains_account(&h), want, "contains_account", "{} k={k} tail={tail}", ctx());
            if let Ok(w8) = i8::try_from(wc) {
                let s = StdAddr::new(w8, h);
                ckeq!(x.contains_address(&s), want, "contains_address", "{} k={k} tail={tail}", ctx());
                ckeq!(x.contains_address(&IntAddr::Std(s.clone())), want, "contains_address", "{} k={k} tail={tail}", ctx());
                let o = StdAddr::new(w8.wrapping_add(1), h);
                ck!(!x.contains_address(&o), "contains_address-workchain", "{} k={k}", ctx());
            }
            let v = VarAddr { anycast: None, address_len: Uint9::new(256), workchain: wc, address: h.0.to_vec() };
            ckeq!(x.contains_address(&v), want, "contains_address-var", "{} k={k} tail={tail}", ctx());
        }
    }
    // text
    let t = format!("{wc}:{:016x}", word(p));
    ckeq!((x.to_string(), format!("{x:?}")), (t.clone(), t.clone()), "text", "{}", ctx());
    ckeq!(ShardIdent::from_str(&t).ok(), Some(x), "from_str", "{}", ctx());
    ckeq!(serde_json::to_string(&x).unwrap(), format!("\"{t}\""), "serde", "{}", ctx());
    ckeq!(serde_json::from_str::<ShardIdent>(&format!("\"{t}\"")).ok(), Some(x), "serde", "{}", ctx());
    // cells
    let mut bits = uint(n as u128, 8);
    bits.extend(uint(wc as u32 as u128, 32));
    bits.extend(uint((word(p) & !(1 << (63 - n))) as u128, 64));
    let c = CellBuilder::build_from(x).unwrap();
    ckeq!(cell_bits(c.as_ref()), bits.clone(), "store", "{}", ctx());
    ckeq!(bits.len(), ShardIdent::BITS as usize, "bits", "");
    ckeq!(c.parse::<ShardIdent>().ok(), Some(x), "load", "{}", ctx());
    for m in 0..bits.len() { ck!(np("panic", || format!("{} cut {m}", ctx()), || cell_of(&bits[..m]).parse::<ShardIdent>())?.is_err(), "load-truncated", "{} {m}", ctx()) }
    // the full (dictionary key) form
    let f = ShardIdentFull::from(x);
    ckeq!((f.workchain, f.prefix), (wc, word(p)), "full", "{}", ctx());
    ckeq!(ShardIdent::try_from(f.clone()).ok(), Some(x), "full", "{}", ctx());
    let mut kb = CellDataBuilder::new();
    ck!(f.store_into_data(&mut kb).is_ok(), "full-key", "{}", ctx());
    let mut fb = uint(wc as u32 as u128, 32);
    fb.extend(uint(word(p) as u128, 64));
    ckeq!(from_bytes(kb.raw_data(), kb.size_bits() as usize), fb, "full-key", "{}", ctx());
    ckeq!(ShardIdentFull::load_from_data(&kb).map(|f| (f.workchain, f.prefix)), Some((wc, word(p))), "full-key", "{}", ctx());
    Ok(())
}

fn parse_hex64(s: &str) -> Option<u64> {
    let s = s.strip_prefix('+').unwrap_or(s);
    if s.is_empty() || !s.bytes().all(|c| c.is_ascii_hexdigit()) { return None }
    let mut v = 0u128;
    for c in s.chars() { v = v << 4 | c.to_digit(16).unwrap() as u128; if v > u64::MAX as u128 { return None } }
    Some(v as u64)
}
fn parse_dec(s: &str, min: i64, max: i64) -> Option<i64> {
    let (neg, d) = match s.as_bytes().first()? { b'-' if min < 0 => (true, &s[1..]), b'+' => (false, &s[1..]), _ => (false, s) };
    if d.is_empty() || !d.bytes().all(|c| c.is_ascii_digit()) { return None }
    let mut v = 0i64;
    for c in d.bytes() { v = v * 10 + (c - b'0') as i64; if v > 1 << 40 { return None } }
    let v = if neg { -v } else { v };
    (min..=max).contains(&v).then_some(v)
}
fn parse_shard(parts: &[&str]) -> Option<(i32, u64)> {
    let wc = parse_dec(parts.first()?, i32::MIN as i64, i32::MAX as i64)? as i32;
    let v = parse_hex64(parts.get(1)?)?;
    valid(wc, v).map(|_| (wc, v))
}
fn parse_hash(s: &str) -> Option<[u8; 32]> {
    if s.len() != 64 || !s.bytes().all(|c| c.is_ascii_hexdigit()) { return None }
    let b: Vec<u8> = s.bytes().map(|c| (c as char).to_digit(16).unwrap() as u8).collect();
    Some(std::array::from_fn(|i| b[2 * i] << 4 | b[2 * i + 1]))
}

fn text(s: &str, l: &mut L) -> R {
    let parts: Vec<&str> = s.split(':').collect();
    let sh = if parts.len() == 2 { parse_shard(&parts) } else { None };
    l.evn(3);
    l.tr(2);
    let ctx = || format!("{s:?}");
    let got = np("panic", ctx, || ShardIdent::from_str(s))?;
    if got.is_err() { l.nt() }
    ckeq!(got.ok().map(|x| (x.workchain(), x.prefix())), sh, "shard-from_str", "{}", ctx());
    let js = serde_json::to_string(s).unwrap();
    ckeq!(np("panic", ctx, || serde_json::from_str::<ShardIdent>(&js))?.ok().map(|x| (x.workchain(), x.prefix())), sh, "shard-serde", "{}", ctx());
    let id = (|| {
        if parts.len() != 5 { return None }
        let (wc, v) = parse_shard(&parts)?;
        let seqno = parse_dec(parts[2], 0, u32::MAX as i64)? as u32;
        Some((wc, v, seqno, parse_hash(parts[3])?, parse_hash(parts[4])?))
    })();
    ckeq!(np("panic", ctx, || BlockId::from_str(s))?.ok().map(|x| (x.shard.workchain(), x.shard.prefix(), x.seqno, x.root_hash.0, x.file_hash.0)), id, "block-from_str", "{}", ctx());
    Ok(())
}

fn edits(s: &str, chars: &[&str]) -> BTreeSet<String> {
    let cs: Vec<char> = s.chars().collect();
    let mut out = BTreeSet::new();
    out.insert(s.to_string());
    let j = |a: &[char], m: &str, b: &[char]| a.iter().collect::<String>() + m + &b.iter().collect::<String>();
    for i in 0..=cs.len() {
        for c in chars { out.insert(j(&cs[..i], c, &cs[i..])); if i < cs.len() { out.insert(j(&cs[..i], c, &cs[i + 1..])); } }
        if i < cs.len() { out.insert(j(&cs[..i], "", &cs[i + 1..])); out.insert(cs[..i].iter().collect()); out.insert(cs[i..].iter().collect()); }
    }
    out
}

fn run(r: &Run) {
    let q = r.quick();
    let depth = if q { 6 } else { 9 };
    let wcs: &[i32] = &[0, 1, -2, i32::MAX, i32::MIN, 127, -128];
    let mut all: Vec<B> = vec![vec![]];
    let mut i = 0;
    while i < all.len() { if all[i].len() < depth { for b in 0..2 { let mut x = all[i].clone(); x.push(b); all.push(x) } } i += 1 }
    r.section("pairs-shallow", all.len() as u64, |i, l| {
        for b in &all { pair(0, &all[i as usize], 0, b, l)?; l.st(1) }
        Ok(())
    });
    // paths of every depth
    let mut paths: BTreeSet<B> = BTreeSet::new();
    let seeds: Vec<B> = vec![vec![0; 60], vec![1; 60], (0..60).map(|i| (i & 1) as u8).collect(), (0..60).map(|i| (i == 0) as u8).collect(), pattern(3, 60), pattern(9, 60)];
    for s in &seeds { for n in 0..=60 { paths.insert(s[..n].to_vec()); if n > 0 { let mut x = s[..n].to_vec(); x[n - 1] ^= 1; paths.insert(x); } } }
    if !q { for k in 0..60 { let mut x = seeds[4].clone(); x[k] ^= 1; for n in [k + 1, k + 2, 59, 60] { if n <= 60 && n > k { paths.insert(x[..n].to_vec()); } } } }
    let paths: Vec<B> = paths.into_iter().collect();
    r.section("pairs-deep", paths.len() as u64, |i, l| {
        for b in &paths { pair(1, &paths[i as usize], 1, b, l)?; l.st(1) }
        Ok(())
    });
    r.section("pairs-workchains", (wcs.len() * wcs.len()) as u64, |i, l| {
        let (a, b) = (wcs[i as usize / wcs.len()], wcs[i as usize % wcs.len()]);
        for x in all.iter().filter(|x| x.len() < 4) { for y in all.iter().filter(|x| x.len() < 4) { pair(a, x, b, y, l)?; l.st(1) } }
        for x in all.iter().filter(|x| x.len() < 4) { pair(-1, &vec![], a, x, l)?; pair(a, x, -1, &vec![], l)? }
        pair(-1, &vec![], -1, &vec![], l)
    });
    let singles: Vec<(i32, B)> = wcs.iter().flat_map(|w| all.iter().filter(|p| p.len() <= 5).chain(paths.iter()).map(move |p| (*w, p.clone()))).chain([(-1, vec![])]).collect();
    r.section("single", singles.len() as u64, |i, l| one(singles[i as usize].0, &singles[i as usize].1, l));
    // which prefix words are shards
    r.section("words", 65 * 65, |i, l| {
        let (a, b) = (i / 65, i % 65);
        let bit = |k: u64| if k == 64 { 0 } else { 1u64 << k };
        for v in [bit(a) | bit(b), bit(a).wrapping_sub(bit(b)), !(bit(a) | bit(b)), bit(a).wrapping_add(bit(b)), (!0u64).checked_shl(a as u32).unwrap_or(0) ^ bit(b)] {
            for wc in [0, -1, 1, i32::MIN] {
                let want = valid(wc, v);
                l.evn(2);
                l.tr(1);
                if want.is_none() { l.nt() }
                ckeq!(ShardIdent::new(wc, v).map(|x| (x.workchain(), x.prefix())), want.as_ref().map(|_| (wc, v)), "new", "{wc} {v:x}");
                ckeq!(ShardIdent::try_from(ShardIdentFull { workchain: wc, prefix: v }).is_ok(), want.is_some(), "full-try_from", "{wc} {v:x}");
                text(&format!("{wc}:{v:016x}"), l)?;
            }
        }
        Ok(())
    });
    // cell forms: every length byte, with bits at, after and before the end of the prefix
    r.section("cells", 256, |n, l| {
        for wc in [0, -1, 5, i32::MIN] {
            for v in [0u64, !0, 1, 1 << 63, 0x5555_5555_5555_5555, if n < 64 { 1 << (63 - n) } else { 1 }, if n < 64 { !0 << (63 - n) << 1 } else { !0 }, if n < 64 && n > 0 { 1 << (64 - n) } else { 0 }] {
                let mut b = uint(n as u128, 8);
                b.extend(uint(wc as u32 as u128, 32));
                b.extend(uint(v as u128, 64));
                let want = (n <= 60 && v & (!0 >> n) == 0 && (wc != -1 || n == 0)).then(|| (wc, v | 1 << (63 - n)));
                l.ev();
                l.tr(1);
                if want.is_none() { l.nt() }
                let got = np("panic", || format!("n={n} wc={wc} v={v:x}"), || cell_of(&b).parse::<ShardIdent>())?;
                ckeq!(got.ok().map(|x| (x.workchain(), x.prefix())), want, "load", "n={n} wc={wc} v={v:x}");
            }
        }
        Ok(())
    });
    // texts
    let h1 = "0123456789abcdef".repeat(4);
    let h2 = "fedcba9876543210".repeat(4);
    let chars: &[&str] = &["0", "7", "8", "f", "F", "g", ":", "-", "+", " ", "_", "x", "\u{0}", "\u{430}", "\u{ff10}", "::"];
    let bases: Vec<String> = vec![
        "0:8000000000000000".into(), "-1:8000000000000000".into(), "2147483647:0000000000000008".into(), "-2147483648:fffffffffffffff8".into(), "12:ABCDEF0000000000".into(),
        format!("0:8000000000000000:123:{h1}:{h2}"), format!("-1:8000000000000000:4294967295:{h2}:{h1}"), format!("5:4000000000000000:0:{h1}:{}", h1.to_uppercase()),
    ];
    r.section("texts", bases.len() as u64, |i, l| { for t in edits(&bases[i as usize], chars) { text(&t, l)? } Ok(()) });
    let toks: Vec<String> = ["", "0", "-1", "+1", "8000000000000000", "8", "4294967295", "4294967296", "2147483648", "x", "0x8000000000000000", "18000000000000000"].iter().map(|s| s.to_string()).chain([h1.clone(), h1[..63].into(), format!("{h1}0"), h1[..62].to_string() + "zz"]).collect();
    let nt = toks.len() as u64;
    r.section("parts", nt * nt, |i, l| {
        let (a, b) = (&toks[(i / nt) as usize], &toks[(i % nt) as usize]);
        text(a, l)?;
        text(&format!("{a}:{b}"), l)?;
        for c in &toks {
            text(&format!("{a}:{b}:{c}"), l)?;
            text(&format!("{c}:8000000000000000:{a}:{h1}:{b}"), l)?;
            text(&format!("0:{c}:7:{a}:{b}"), l)?;
            text(&format!("0:8000000000000000:{a}:{b}:{c}"), l)?;
            text(&format!("0:8000000000000000:1:{h1}:{h2}:{c}"), l)?;
            text(&format!("0:8000000000000000:{a}:{h1}:{h2}"), l)?;
        }
        Ok(())
    });
    // block ids
    let seqs = [0u32, 1, 255, 0x7fff_ffff, 0x8000_0000, u32::MAX];
    r.section("block-ids", (paths.len() * seqs.len()) as u64, |i, l| {
        let (p, s) = (&paths[i as usize / seqs.len()], seqs[i as usize % seqs.len()]);
        for wc in [0, -7, i32::MAX] {
            let (rh, fh) = (HashBytes(pack(&pattern(i + 1, 256)).try_into().unwrap()), HashBytes(pack(&pattern(i + 77, 256)).try_into().unwrap()));
            let id = BlockId { shard: shard(wc, p), seqno: s, root_hash: rh, file_hash: fh };
            let hx = |h: &HashBytes| h.0.iter().map(|b| format!("{b:02x}")).collect::<String>();
            let t = format!("{wc}:{:016x}:{s}:{}:{}", word(p), hx(&rh), hx(&fh));
            l.evn(8);
            l.tr(4);
            ckeq!(id.to_string(), t.clone(), "block-text", "{t}");
            ckeq!(BlockId::from_str(&t).ok(), Some(id), "block-from_str", "{t}");
            ckeq!(serde_json::from_str::<BlockId>(&serde_json::to_string(&id).unwrap()).ok(), Some(id), "block-serde", "{t}");
            let mut bits = uint(p.len() as u128, 8);
            bits.extend(uint(wc as u32 as u128, 32));
            bits.extend(uint((word(p) & !(1 << (63 - p.len()))) as u128, 64));
            bits.extend(uint(s as u128, 32));
            bits.extend(from_bytes(&rh.0, 256));
            bits.extend(from_bytes(&fh.0, 256));
            let c = CellBuilder::build_from(id).unwrap();
            ckeq!(cell_bits(c.as_ref()), bits.clone(), "block-store", "{t}");
            ckeq!(bits.len(), BlockId::BITS as usize, "block-bits", "");
            ckeq!(c.parse::<BlockId>().ok(), Some(id), "block-load", "{t}");
            for m in [0, 39, 104, 135, 136, 391, 392, 647] { ck!(cell_of(&bits[..m]).parse::<BlockId>().is_err(), "block-load-truncated", "{t} {m}") }
            let sid = id.as_short_id();
            ckeq!((sid.shard, sid.seqno, sid.to_string()), (id.shard, s, format!("{wc}:{:016x}:{s}", word(p))), "short", "{t}");
            ckeq!(serde_json::from_str::<BlockIdShort>(&serde_json::to_string(&sid).unwrap()).ok(), Some(sid), "short-serde", "{t}");
            ckeq!(BlockIdShort::from(<(ShardIdent, u32)>::from(sid)), sid, "short-parts", "{t}");
            for d in seqs {
                ckeq!((sid.saturating_add(d).seqno, sid.saturating_sub(d).seqno), ((s as u64 + d as u64).min(u32::MAX as u64) as u32, (s as i64 - d as i64).max(0) as u32), "short-arith", "{t} {d}");
                ckeq!((sid.saturating_add(d).shard, sid.saturating_sub(d).shard), (id.shard, id.shard), "short-arith", "{t} {d}");
            }
            ckeq!((sid.saturating_next().seqno, sid.saturating_prev().seqno), (s.saturating_add(1), s.saturating_sub(1)), "short-next", "{t}");
            ckeq!(id.is_masterchain(), wc == -1, "is_masterchain", "{t}");
        }
        Ok(())
    });
}
