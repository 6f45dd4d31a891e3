//! C24: addresses through cells, texts, base64 and dictionary keys.
use crate::fw::*;
use crate::model::bits::*;
use crate::model::dict::{canon, read_opt, Val};
use crate::*;
use std::collections::{BTreeMap, BTreeSet};
use std::str::FromStr;
use tycho_types::cell::*;
use tycho_types::dict::*;
use tycho_types::models::*;
use tycho_types::num::*;

pub const META: Meta = Meta {
    id: "C24",
    level: "model_checking",
    rule: "a state is an address: all 256 workchains x boundary hashes for standard ones, every length 0..=511 for variable and external ones, every anycast depth; a transition is one store, load, print, parse or dictionary operation compared with bit strings and an independent base64/CRC model; loads are tried on all tags, all length and depth fields and every truncation, texts on all single-character edits, all 256 flag bytes, all 65536 checksums, every bit flip and all eight format settings; non-trivial: the input is refused",
    assumptions: &["the texts of addresses with anycast, and of variable addresses, are only required not to be read back as another address", "explicit plus signs and either hex letter case are accepted in raw texts", "a base64 text using no letter that differs between the alphabets belongs to both"],
    run,
};

fn anycast(d: u16, seed: u64) -> Option<Box<Anycast>> {
    if d == 0 { return None }
    Some(Box::new(Anycast { depth: SplitDepth::from_bit_len(d).unwrap(), rewrite_prefix: pack(&pattern(seed, d as usize)) }))
}
fn any_bits(d: u16, seed: u64) -> B {
    let mut b = vec![(d > 0) as u8];
    if d > 0 { b.extend(uint(d as u128, 5)); b.extend(pattern(seed, d as usize)) }
    b
}
fn std_bits(d: u16, seed: u64, wc: i8, h: &[u8; 32]) -> B {
    let mut b = vec![1, 0];
    b.extend(any_bits(d, seed));
    b.extend(uint(wc as u8 as u128, 8));
    b.extend(from_bytes(h, 256));
    b
}
fn var_bits(d: u16, seed: u64, wc: i32, a: &B) -> B {
    let mut b = vec![1, 1];
    b.extend(any_bits(d, seed));
    b.extend(uint(a.len() as u128, 9));
    b.extend(uint(wc as u32 as u128, 32));
    b.extend(a);
    b
}
fn ext_bits(a: &Option<B>) -> B {
    match a { None => vec![0, 0], Some(a) => { let mut b = vec![0, 1]; b.extend(uint(a.len() as u128, 9)); b.extend(a); b } }
}
fn ext(a: &B) -> ExtAddr { ExtAddr::new(a.len() as u16, pack(a)).unwrap() }
fn hash(seed: u64) -> [u8; 32] {
    match seed { 0 => [0; 32], 1 => [0xff; 32], 2 => std::array::from_fn(|i| (i == 0) as u8 * 0x80), 3 => std::array::from_fn(|i| (i == 31) as u8), s => pack(&pattern(s, 256)).try_into().unwrap() }
}

/// model of reading an internal address: parts and the number of bits taken
#[derive(Debug, PartialEq, Clone)]
enum Rd { Std(B, i8, B), Var(B, i32, B) }
fn read_int(d: &[u8]) -> Option<(Rd, usize)> {
    let mut p = 0;
    let mut take = |n: usize| { let r = d.get(p..p + n)?; p += n; Some(r.to_vec()) };
    if take(1)?[0] != 1 { return None }
    let var = take(1)?[0] == 1;
    let mut any = vec![];
    if take(1)?[0] == 1 {
        let n = to_u128(&take(5)?) as usize;
        if !(1..=30).contains(&n) { return None }
        any = take(n)?;
    }
    let r = if var {
        let n = to_u128(&take(9)?) as usize;
        let wc = to_u128(&take(32)?) as u32 as i32;
        Rd::Var(any, wc, take(n)?)
    } else { let wc = to_u128(&take(8)?) as u8 as i8; Rd::Std(any, wc, take(256)?) };
    Some((r, p))
}
fn view(a: &IntAddr) -> Rd {
    let any = |x: &Option<Box<Anycast>>| x.as_ref().map(|x| from_bytes(&x.rewrite_prefix, x.depth.into_bit_len() as usize)).unwrap_or_default();
    match a {
        IntAddr::Std(a) => Rd::Std(any(&a.anycast), a.workchain, from_bytes(&a.address.0, 256)),
        IntAddr::Var(a) => Rd::Var(any(&a.anycast), a.workchain, from_bytes(&a.address, a.address_len.into_inner() as usize)),
    }
}
fn load_at(b: &[u8], l: &mut L) -> R {
    let want = read_int(b);
    let c = cell_of(b);
    let ctx = || format!("bits={}", show(&b[..b.len().min(60)]));
    l.evn(2);
    l.tr(1);
    if want.is_none() { l.nt() }
    let mut s = c.as_slice().unwrap();
    let got = np("panic", ctx, || IntAddr::load_from(&mut s))?.ok();
    ckeq!(got.as_ref().map(|a| (view(a), b.len() - s.size_bits() as usize)), want, "load", "{}", ctx());
    let mut s = c.as_slice().unwrap();
    let got = np("panic", ctx, || StdAddr::load_from(&mut s))?.ok();
    ckeq!(got.map(|a| (view(&IntAddr::Std(a)), b.len() - s.size_bits() as usize)), want.filter(|w| matches!(w.0, Rd::Std(..))), "load-std", "{}", ctx());
    Ok(())
}

fn whole(a: &IntAddr, bits: &B, prefix: u64, l: &mut L) -> R {
    let ctx = || format!("{a:?}");
    l.evn(10);
    l.tr(2);
    l.st(1);
    let c = CellBuilder::build_from(a).unwrap();
    ckeq!(cell_bits(c.as_ref()), bits.clone(), "store", "{}", ctx());
    ckeq!(a.bit_len() as usize, bits.len(), "bit_len", "{}", ctx());
    ckeq!(c.parse::<IntAddr>().ok(), Some(a.clone()), "load", "{}", ctx());
    ckeq!((a.prefix(), Addr::prefix(a)), (prefix, prefix), "prefix", "{}", ctx());
    let wc = match a { IntAddr::Std(s) => s.workchain as i32, IntAddr::Var(v) => v.workchain };
    ckeq!((a.workchain(), Addr::workchain(a), a.is_masterchain()), (wc, wc, wc == -1), "workchain", "{}", ctx());
    match a {
        IntAddr::Std(s) => {
            ckeq!((s.bit_len() as usize, s.prefix(), s.is_masterchain(), a.as_std(), a.as_var().is_none()), (bits.len(), prefix, wc == -1, Some(s), true), "std", "{}", ctx());
            ckeq!(c.parse::<StdAddr>().ok(), Some(s.clone()), "load-std", "{}", ctx());
            ckeq!(cell_bits(CellBuilder::build_from(s).unwrap().as_ref()), bits.clone(), "store-std", "{}", ctx());
        }
        IntAddr::Var(v) => {
            ckeq!((v.bit_len() as usize, v.prefix(), v.is_masterchain(), a.as_var(), a.as_std().is_none()), (bits.len(), prefix, wc == -1, Some(v), true), "var", "{}", ctx());
            ck!(c.parse::<StdAddr>().is_err(), "load-std", "{}", ctx());
        }
    }
    // storing is all or nothing
    for room in [bits.len() - 1, bits.len()] {
        let mut b = builder_of(&pattern(5, 1023 - room));
        let before = b.size_bits();
        let ok = a.store_into(&mut b, Cell::empty_context()).is_ok();
        ckeq!((ok, b.size_bits() as usize), (room == bits.len(), if ok { 1023 } else { before as usize }), "store-room", "{} {room}", ctx());
    }
    Ok(())
}

// ---- text
fn parse_raw(s: &str) -> Option<(i8, [u8; 32])> {
    let (w, h) = s.split_once(':')?;
    let (neg, d) = match w.as_bytes().first()? { b'-' => (true, &w[1..]), b'+' => (false, &w[1..]), _ => (false, w) };
    if d.is_empty() || !d.bytes().all(|c| c.is_ascii_digit()) { return None }
    let mut v = 0i32;
    for c in d.bytes() { v = v * 10 + (c - b'0') as i32; if v > 1000 { return None } }
    let v = i8::try_from(if neg { -v } else { v }).ok()?;
    if h.len() != 64 || !h.bytes().all(|c| c.is_ascii_hexdigit()) { return None }
    let n: Vec<u8> = h.bytes().map(|c| (c as char).to_digit(16).unwrap() as u8).collect();
    Some((v, std::array::from_fn(|i| n[2 * i] << 4 | n[2 * i + 1])))
}
fn crc16(d: &[u8]) -> u16 { let mut c = 0u16; for b in d { c ^= (*b as u16) << 8; for _ in 0..8 { c = if c & 0x8000 != 0 { c << 1 ^ 0x1021 } else { c << 1 } } } c }
const STD: &str = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
const URL: &str = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
fn b64(d: &[u8], al: &str) -> String { from_bytes(d, d.len() * 8).chunks(6).map(|c| al.as_bytes()[to_u128(c) as usize] as char).collect() }
fn un64(s: &str, al: &str) -> Option<Vec<u8>> { let mut b = vec![]; for c in s.chars() { b.extend(uint(al.find(c)? as u128, 6)) } Some(pack(&b)) }
fn packet(flag: u8, wc: i8, h: &[u8; 32]) -> Vec<u8> { let mut v = vec![flag, wc as u8]; v.extend(h); let c = crc16(&v); v.extend(c.to_be_bytes()); v }

type Parsed = (i8, [u8; 32], bool, bool, bool);
fn parse_ext(s: &str, f: StdAddrFormat) -> Option<Parsed> {
    if s.len() != 48 {
        if !f.allow_raw || !(66..=69).contains(&s.len()) { return None }
        return parse_raw(s).map(|(w, h)| (w, h, false, false, false));
    }
    let (url, std) = (s.contains(['-', '_']), s.contains(['+', '/']));
    if url && !f.allow_base64_url || std && !f.allow_base64 || !f.allow_base64 && !f.allow_base64_url { return None }
    let d = if url { un64(s, URL) } else { un64(s, STD) }?;
    if crc16(&d[..34]).to_be_bytes() != d[34..] || d[0] & 0x3f != 0x11 { return None }
    Some((d[1] as i8, d[2..34].try_into().unwrap(), d[0] & 0x80 != 0, url, d[0] & 0x40 == 0))
}
fn text(s: &str, l: &mut L) -> R {
    let ctx = || format!("{s:?}");
    for k in 0..8u8 {
        let f = StdAddrFormat { allow_raw: k & 1 != 0, allow_base64: k & 2 != 0, allow_base64_url: k & 4 != 0 };
        let want = parse_ext(s, f);
        l.ev();
        if want.is_none() { l.nt() }
        let got = np("panic", ctx, || StdAddr::from_str_ext(s, f))?;
        ckeq!(got.ok().map(|(a, x)| (a.anycast.is_none(), (a.workchain, a.address.0, x.testnet, x.base64_url, x.bounceable))), want.map(|w| (true, w)), "from_str_ext", "{} formats={k:03b}", ctx());
    }
    let raw = parse_raw(s);
    let st = |a: Option<StdAddr>| a.map(|a| (a.anycast.is_none(), a.workchain, a.address.0));
    let wr = raw.map(|(w, h)| (true, w, h));
    let js = serde_json::to_string(s).unwrap();
    l.evn(5);
    l.tr(1);
    ckeq!(st(np("panic", ctx, || StdAddr::from_str(s))?.ok()), wr, "from_str", "{}", ctx());
    ckeq!(np("panic", ctx, || IntAddr::from_str(s))?.ok(), raw.map(|(w, h)| IntAddr::from((w, HashBytes(h)))), "from_str-int", "{}", ctx());
    ckeq!(st(np("panic", ctx, || serde_json::from_str::<StdAddr>(&js))?.ok()), wr, "serde", "{}", ctx());
    ckeq!(np("panic", ctx, || serde_json::from_str::<IntAddr>(&js))?.ok(), raw.map(|(w, h)| IntAddr::from((w, HashBytes(h)))), "serde-int", "{}", ctx());
    let mut de = serde_json::Deserializer::from_str(&js);
    let any = StdAddrFormat { allow_raw: true, allow_base64: true, allow_base64_url: true };
    ckeq!(st(np("panic", ctx, || StdAddrBase64Repr::<true>::deserialize(&mut de))?.ok()), parse_ext(s, any).map(|w| (true, w.0, w.1)), "serde-base64", "{}", ctx());
    Ok(())
}
fn edits(s: &str, chars: &[char], l: &mut L, f: &dyn Fn(&str, &mut L) -> R) -> R {
    let cs: Vec<char> = s.chars().collect();
    let j = |a: &[char], m: Option<char>, b: &[char]| a.iter().chain(m.iter()).chain(b).collect::<String>();
    let mut set = BTreeSet::new();
    for i in 0..=cs.len() {
        for c in chars { set.insert(j(&cs[..i], Some(*c), &cs[i..])); if i < cs.len() { set.insert(j(&cs[..i], Some(*c), &cs[i + 1..])); } }
        if i < cs.len() { set.insert(j(&cs[..i], None, &cs[i + 1..])); set.insert(j(&cs[..i], None, &[])); set.insert(j(&[], None, &cs[i..])); }
        if i + 1 < cs.len() { let mut x = cs.clone(); x.swap(i, i + 1); set.insert(x.iter().collect()); }
    }
    for t in set { f(&t, l)? }
    Ok(())
}

fn hexs(d: &[u8]) -> String { d.iter().map(|b| format!("{b:02x}")).collect() }
/// text of a bit string: hex digits, completed by a tag bit and `_` unless a whole number of digits
fn bitstr(b: &B) -> String {
    let mut x = b.clone();
    let t = x.len() % 4 != 0;
    if t { x.push(1); while x.len() % 4 != 0 { x.push(0) } }
    x.chunks(4).map(|c| char::from_digit(to_u128(c) as u32, 16).unwrap()).collect::<String>() + if t { "_" } else { "" }
}
fn parse_bitstr(s: &str) -> Option<B> {
    let (d, tag) = match s.strip_suffix('_') { Some(d) => (d, true), None => (s, false) };
    let mut b = vec![];
    for c in d.chars() { if !c.is_ascii_hexdigit() { return None } b.extend(uint(c.to_digit(16).unwrap() as u128, 4)) }
    if tag { while b.last() == Some(&0) { b.pop(); } b.pop(); }
    Some(b)
}
fn ext_text(s: &str, l: &mut L) -> R {
    let want = s.strip_prefix(':').and_then(parse_bitstr).filter(|b| b.len() <= 511);
    let ctx = || format!("{s:?}");
    l.evn(2);
    l.tr(1);
    if want.is_none() { l.nt() }
    let v = |a: ExtAddr| from_bytes(&a.data, a.data_bit_len.into_inner() as usize);
    let got = np("panic", ctx, || ExtAddr::from_str(s))?.ok();
    ck!(got.as_ref().is_none_or(|a| a.data.len() == (a.data_bit_len.into_inner() as usize).div_ceil(8)), "ext-from_str-len", "{}", ctx());
    ckeq!(got.map(v), want.clone(), "ext-from_str", "{}", ctx());
    ckeq!(np("panic", ctx, || serde_json::from_str::<ExtAddr>(&serde_json::to_string(s).unwrap()))?.ok().map(v), want, "ext-serde", "{}", ctx());
    Ok(())
}

fn run(r: &Run) {
    let q = r.quick();
    let seeds: u64 = if q { 6 } else { 40 };
    let wc32: Vec<i32> = vec![0, -1, 1, 127, -128, 128, 0x7fff_ffff, i32::MIN];
    // cell forms
    r.section("std", 256, |i, l| {
        for s in 0..seeds { for d in 0..=30u16 {
            if d > 0 && (s > 4 || i % 17 != 0) { continue }
            let h = hash(s);
            let mut a = StdAddr::new(i as u8 as i8, HashBytes(h));
            a.anycast = anycast(d, s + 1);
            let bits = std_bits(d, s + 1, i as u8 as i8, &h);
            whole(&IntAddr::Std(a.clone()), &bits, u64::from_be_bytes(h[..8].try_into().unwrap()), l)?;
            if i % 51 == 0 { for m in 0..bits.len() { load_at(&bits[..m], l)? } }
            let mut longer = bits.clone();
            longer.extend(pattern(s, 40));
            load_at(&longer, l)?;
        } }
        Ok(())
    });
    r.section("var", 512, |n, l| {
        for d in [0u16, 1, 7, 8, 9, 29, 30] { for (k, wc) in wc32.iter().enumerate() {
            let a = pattern(n + k as u64, n as usize);
            let bits = var_bits(d, 3, *wc, &a);
            let v = VarAddr { anycast: anycast(d, 3), address_len: Uint9::new(n as u16), workchain: *wc, address: pack(&a) };
            let mut p = a.clone();
            p.resize(64, 0);
            whole(&IntAddr::Var(v), &bits, to_u128(&p) as u64, l)?;
            if k == 0 && (n % 37 == 0 || !q) { for m in 0..bits.len() { load_at(&bits[..m], l)? } }
        } }
        Ok(())
    });
    // every 14-bit head followed by ones, zeros or a pattern of every interesting length
    r.section("heads", 1 << 14, |i, l| {
        let head = uint(i as u128, 14);
        for t in 0..3u64 { for n in [0usize, 1, 241, 252, 253, 254, 300, 600, 1009] {
            let mut b = head.clone();
            b.extend(match t { 0 => vec![0; n], 1 => vec![1; n], _ => pattern(i, n) });
            load_at(&b, l)?;
        } }
        Ok(())
    });
    // external, absent and optional addresses inside message headers
    r.section("headers", 513, |i, l| {
        let e = (i < 512).then(|| pattern(i + 5, i as usize));
        let ea = e.as_ref().map(ext);
        let h = hash(4);
        let sd = StdAddr::new(-1, HashBytes(h));
        let sb = std_bits(0, 0, -1, &h);
        let (bits, ctx) = (ext_bits(&e), || format!("ext {i}"));
        l.evn(12);
        l.tr(6);
        l.st(1);
        if let Some(a) = &ea { ckeq!(a.bit_len() as usize, bits.len() - 2, "ext-bit_len", "{}", ctx()); }
        let x = ExtInMsgInfo { src: ea.clone(), dst: IntAddr::Std(sd.clone()), import_fee: Tokens::ZERO };
        let mut w = bits.clone();
        w.extend(&sb);
        w.extend([0; 4]);
        let c = CellBuilder::build_from(&x).unwrap();
        ckeq!(cell_bits(c.as_ref()), w.clone(), "ext-in-store", "{}", ctx());
        ckeq!(c.parse::<ExtInMsgInfo>().ok(), Some(x), "ext-in-load", "{}", ctx());
        for m in [0, 1, 2, 3, 10, bits.len() - 1] { if m < bits.len() { ck!(np("panic", ctx, || cell_of(&w[..m]).parse::<ExtInMsgInfo>())?.is_err(), "ext-in-truncated", "{} {m}", ctx()) } }
        for bad in [0b10u8, 0b11] { let mut w = w.clone(); w[0] = bad >> 1; w[1] = bad & 1; ck!(np("panic", ctx, || cell_of(&w).parse::<ExtInMsgInfo>())?.is_err(), "ext-in-tag", "{} {bad}", ctx()) }
        let x = ExtOutMsgInfo { src: IntAddr::Std(sd.clone()), dst: ea.clone(), created_lt: i, created_at: 7 };
        let mut w = sb.clone();
        w.extend(&bits);
        w.extend(uint(i as u128, 64));
        w.extend(uint(7, 32));
        let c = CellBuilder::build_from(&x).unwrap();
        ckeq!(cell_bits(c.as_ref()), w.clone(), "ext-out-store", "{}", ctx());
        ckeq!(c.parse::<ExtOutMsgInfo>().ok(), Some(x), "ext-out-load", "{}", ctx());
        for m in 267..267 + bits.len() { ck!(np("panic", ctx, || cell_of(&w[..m]).parse::<ExtOutMsgInfo>())?.is_err(), "ext-out-truncated", "{} {m}", ctx()) }
        for src in [None, Some(IntAddr::Std(sd.clone())), Some(IntAddr::Var(VarAddr { anycast: None, address_len: Uint9::new(9), workchain: 5, address: pack(&pattern(2, 9)) }))] {
            let x = RelaxedExtOutMsgInfo { src: src.clone(), dst: ea.clone(), created_lt: 1, created_at: i as u32 };
            let mut w = match &src { None => vec![0, 0], Some(IntAddr::Std(_)) => sb.clone(), Some(_) => var_bits(0, 0, 5, &pattern(2, 9)) };
            let sl = w.len();
            w.extend(&bits);
            w.extend(uint(1, 64));
            w.extend(uint(i as u128, 32));
            let c = CellBuilder::build_from(&x).unwrap();
            ckeq!(cell_bits(c.as_ref()), w.clone(), "relaxed-store", "{}", ctx());
            ckeq!(c.parse::<RelaxedExtOutMsgInfo>().ok(), Some(x), "relaxed-load", "{}", ctx());
            for m in 0..sl { ck!(np("panic", ctx, || cell_of(&w[..m]).parse::<RelaxedExtOutMsgInfo>())?.is_err(), "relaxed-truncated", "{} {m}", ctx()) }
            if src.is_none() { w[1] = 1; ck!(np("panic", ctx, || cell_of(&w).parse::<RelaxedExtOutMsgInfo>())?.is_err(), "relaxed-tag", "{}", ctx()) }
        }
        // its text
        if let (Some(e), Some(a)) = (&e, &ea) {
            let t = format!(":{}", bitstr(e));
            ckeq!(a.to_string(), t.clone(), "ext-text", "{}", ctx());
            ckeq!(serde_json::to_string(a).unwrap(), format!("\"{t}\""), "ext-serde", "{}", ctx());
            ext_text(&t, l)?;
            ckeq!(ExtAddr::from_str(&t).ok(), Some(a.clone()), "ext-from_str", "{}", ctx());
            if i % 31 < 5 { edits(&t, &['0', '8', 'F', 'g', '_', ':', ' ', '\u{e9}'], l, &|s, l| ext_text(s, l))? }
        }
        Ok(())
    });
    r.section("ext-new", 2048, |n, l| { l.ev(); ckeq!(ExtAddr::new(n as u16, vec![0; 256]).is_some(), n <= 511, "ext-new", "{n}"); for k in 0..3 { ext_text(&format!(":{}", "f".repeat(n as usize % 300) + &"8_0"[..k]), l)? } Ok(()) });
    // anycast prefixes
    r.section("anycast", 64, |n, l| {
        let p = pattern(n, n as usize);
        let c = cell_of(&p);
        l.evn(4);
        let a = np("panic", || format!("{n}"), || Anycast::from_slice(&c.as_slice().unwrap()))?;
        ckeq!(a.is_ok(), (1..=30).contains(&n), "anycast-from_slice", "{n}");
        let Ok(a) = a else { l.nt(); return Ok(()) };
        let mut w = uint(n as u128, 5);
        w.extend(&p);
        let c = CellBuilder::build_from(&a).unwrap();
        ckeq!((cell_bits(c.as_ref()), a.bit_len() as usize), (w.clone(), w.len()), "anycast-store", "{n}");
        ckeq!(c.parse::<Anycast>().ok(), Some(a.clone()), "anycast-load", "{n}");
        for m in 0..w.len() { ck!(np("panic", || format!("{n} {m}"), || cell_of(&w[..m]).parse::<Anycast>())?.is_err(), "anycast-truncated", "{n} {m}") }
        // its texts are no other address
        let mut s = StdAddr::new(0, HashBytes(hash(4)));
        s.anycast = Some(Box::new(a));
        ck!(StdAddr::from_str(&s.to_string()).is_err() && serde_json::from_str::<StdAddr>(&serde_json::to_string(&s).unwrap()).is_err(), "anycast-text", "{s}");
        let v = IntAddr::Var(VarAddr { anycast: None, address_len: Uint9::new(n as u16), workchain: 0, address: pack(&p) });
        ck!(IntAddr::from_str(&v.to_string()).is_err() && serde_json::from_str::<IntAddr>(&serde_json::to_string(&v).unwrap()).is_err(), "var-text", "{v}");
        Ok(())
    });
    // texts
    r.section("texts", 256, |i, l| {
        let wc = i as u8 as i8;
        for s in 0..seeds {
            let h = hash(s);
            let a = StdAddr::new(wc, HashBytes(h));
            let raw = format!("{wc}:{}", hexs(&h));
            l.evn(20);
            l.st(1);
            ckeq!((a.to_string(), IntAddr::Std(a.clone()).to_string()), (raw.clone(), raw.clone()), "text", "{raw}");
            ckeq!(serde_json::to_string(&a).unwrap(), format!("\"{raw}\""), "serde", "{raw}");
            ckeq!(serde_json::to_string(&IntAddr::Std(a.clone())).unwrap(), format!("\"{raw}\""), "serde-int", "{raw}");
            text(&raw, l)?;
            ckeq!(StdAddr::from_str(&raw).ok(), Some(a.clone()), "from_str", "{raw}");
            for k in 0..8u8 {
                let (testnet, url, bounce) = (k & 1 != 0, k & 2 != 0, k & 4 != 0);
                let flag = if bounce { 0x11 } else { 0x51 } | if testnet { 0x80 } else { 0 };
                let want = b64(&packet(flag, wc, &h), if url { URL } else { STD });
                let got = np("panic", || raw.clone(), || DisplayBase64StdAddr { addr: &a, flags: Base64StdAddrFlags { testnet, base64_url: url, bounceable: bounce } }.to_string())?;
                ckeq!(got, want.clone(), "base64", "{raw} {k:03b}");
                text(&want, l)?;
                let back = StdAddr::from_str_ext(&want, StdAddrFormat::any()).ok();
                ckeq!(back.map(|(x, f)| (x, f.testnet, f.bounceable)), Some((a.clone(), testnet, bounce)), "base64-back", "{raw} {k:03b}");
                if !testnet {
                    let t = if url { a.display_base64_url(bounce).to_string() } else { a.display_base64(bounce).to_string() };
                    ckeq!(t, want, "display_base64", "{raw} {k:03b}");
                }
            }
            for url in [false, true] {
                let mut out = vec![];
                let mut se = serde_json::Serializer::new(&mut out);
                let ok = if url { StdAddrBase64Repr::<true>::serialize(&a, &mut se) } else { StdAddrBase64Repr::<false>::serialize(&a, &mut se) };
                ck!(ok.is_ok(), "serde-base64", "{raw}");
                let t: String = serde_json::from_slice(&out).unwrap();
                ckeq!(StdAddr::from_str_ext(&t, StdAddrFormat::any()).ok().map(|x| x.0), Some(a.clone()), "serde-base64", "{raw}");
            }
        }
        Ok(())
    });
    let raw_chars = ['0', '7', '9', 'a', 'F', 'g', ':', '-', '+', ' ', '_', '\u{0}', '\u{e9}', '\u{ff10}'];
    let bases: Vec<String> = vec![format!("0:{}", hexs(&hash(5))), format!("-1:{}", hexs(&hash(6)).to_uppercase()), format!("-128:{}", hexs(&hash(0))), format!("127:{}", hexs(&hash(1))), format!("+005:{}", hexs(&hash(7))), format!("0:{}:", hexs(&hash(5))), format!("0:1:{}", hexs(&hash(5))), String::new(), ":".into()];
    r.section("raw-edits", bases.len() as u64, |i, l| { text(&bases[i as usize], l)?; edits(&bases[i as usize], &raw_chars, l, &|s, l| text(s, l)) });
    let cand: Vec<(String, bool)> = (4..if q { 7u64 } else { 20 }).flat_map(|s| [false, true].map(|u| (b64(&packet([0x11, 0x51, 0x91, 0xd1][s as usize % 4], s as i8 - 5, &hash(s)), if u { URL } else { STD }), u))).collect();
    let b64_chars: Vec<char> = STD.chars().chain(['-', '_', '=', ' ', '.', '\u{0}', '\u{e9}', '\u{20ac}']).collect();
    r.section("base64-edits", cand.len() as u64, |i, l| edits(&cand[i as usize].0, &b64_chars, l, &|s, l| text(s, l)));
    r.section("base64-flags", 256, |f, l| {
        for s in 3..8 { for al in [STD, URL] { text(&b64(&packet(f as u8, s as i8 - 4, &hash(s)), al), l)? } }
        Ok(())
    });
    r.section("base64-crc", 256, |hi, l| {
        let base = packet(0x11, 0, &hash(9));
        for lo in 0..256 { let mut p = base.clone(); p[34] = hi as u8; p[35] = lo as u8; text(&b64(&p, STD), l)?; }
        Ok(())
    });
    r.section("base64-flips", 288, |i, l| {
        let base = packet(0x51, -1, &hash(11));
        for j in 0..288u64 { let mut p = base.clone(); p[i as usize / 8] ^= 1 << (i % 8); if j != i { p[j as usize / 8] ^= 1 << (j % 8) } text(&b64(&p, if j % 2 == 0 { STD } else { URL }), l)?; }
        Ok(())
    });
    // dictionary keys
    let ka = |wc: i8, s: u64| StdAddr::new(wc, HashBytes(hash(s)));
    r.section("keys", 256, |i, l| {
        let wc = i as u8 as i8;
        for s in 0..seeds + 256 {
            let h: [u8; 32] = if s < seeds { hash(s) } else { std::array::from_fn(|k| ((s - seeds) as usize / 8 == k) as u8 * (0x80 >> (s as usize % 8))) };
            let a = StdAddr::new(wc, HashBytes(h));
            let bits = std_bits(0, 0, wc, &h);
            let mut b = CellDataBuilder::new();
            l.evn(3);
            ck!(a.store_into_data(&mut b).is_ok(), "key-store", "{a}");
            ckeq!(from_bytes(b.raw_data(), b.size_bits() as usize), bits.clone(), "key-store", "{a}");
            ckeq!(np("panic", || a.to_string(), || StdAddr::load_from_data(&b))?, Some(a.clone()), "key-load", "{a}");
        }
        let mut x = ka(wc, 4);
        x.anycast = anycast(1 + i as u16 % 30, 1);
        ck!(x.store_into_data(&mut CellDataBuilder::new()).is_err(), "key-anycast", "{x}");
        // other tags
        let mut bits = std_bits(0, 0, wc, &hash(4));
        for t in 0..8u8 {
            bits[..3].copy_from_slice(&uint(t as u128, 3));
            let mut b = CellDataBuilder::new();
            b.store_raw(&pack(&bits), 267).unwrap();
            ckeq!(np("panic", || format!("tag {t}"), || StdAddr::load_from_data(&b))?.is_some(), t == 4, "key-tag", "{t}");
        }
        Ok(())
    });
    // dictionaries over all subsets of a small universe of addresses
    let uni: Vec<StdAddr> = [(0, 0), (0, 1), (0, 3), (-1, 0), (-1, 5), (-1, 6), (1, 0), (127, 1), (-128, 1)].into_iter().map(|(w, s)| ka(w, s)).collect();
    r.section("dicts", 1 << uni.len(), |m, l| {
        let sel: Vec<&StdAddr> = uni.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|x| x.1).collect();
        let kb = |a: &StdAddr| std_bits(0, 0, a.workchain, &a.address.0);
        let mut d = Dict::<StdAddr, u32>::new();
        for (i, a) in sel.iter().enumerate() { ck!(d.set(*a, i as u32).is_ok(), "dict-set", "{m}") }
        let mut want: Vec<(B, Val)> = sel.iter().enumerate().map(|(i, a)| (kb(a), Val::new(uint(i as u128, 32)))).collect();
        want.sort_by(|a, b| a.0.cmp(&b.0));
        l.evn(6);
        l.tr(sel.len() as u64);
        l.st(1);
        let cn = canon(&want, 267).unwrap();
        ckeq!(d.root().as_ref().map(|c| *c.repr_hash()), cn.as_ref().map(|c| *c.repr_hash()), "dict", "{m:b}");
        let keys: Vec<B> = d.keys().map(|k| k.map(|k| kb(&k))).collect::<Result<_, _>>().unwrap();
        ckeq!(keys, want.iter().map(|x| x.0.clone()).collect::<Vec<_>>(), "dict-order", "{m:b}");
        for a in &uni { ckeq!(d.get(a).unwrap().map(|v| sel[v as usize]), sel.contains(&a).then_some(a), "dict-get", "{m:b} {a}"); }
        // built at once: the order of the type differs from the order of the bits between workchains of both signs
        let bt: BTreeMap<StdAddr, u32> = sel.iter().enumerate().map(|(i, a)| ((*a).clone(), i as u32)).collect();
        let built = np("panic", || format!("{m:b}"), || Dict::<StdAddr, u32>::try_from_btree(&bt))?;
        let ok = built.ok().is_some_and(|b| read_opt(b.root(), 267) == Some(want.clone()) && b.root().as_ref().map(|c| *c.repr_hash()) == cn.as_ref().map(|c| *c.repr_hash()));
        let mixed = sel.iter().any(|a| a.workchain < 0) && sel.iter().any(|a| a.workchain >= 0);
        if !ok && mixed { l.fail(V { key: "mixed-workchain-build".into(), detail: format!("keys {m:b}") }); } else { ck!(ok, "dict-build", "{m:b}") }
        Ok(())
    });
}
