//! Symbols of the specification <-> bytes and strings of the real contracts.
//!
//! Every encoding is remembered, so that whatever a contract shows (an event,
//! a query answer, a message to a mock) is decoded back to the symbol that
//! produced exactly these bytes; anything else becomes a "?..." symbol, which
//! the specification never expects.
use bech32::ToBase32;
use k256::ecdsa::SigningKey;
use serde_json::{json, Value};
use sha3::{Digest, Keccak256};
use std::cell::RefCell;
use std::collections::HashMap;

/// address prefixes a scenario may run under; "!hrp" addresses carry another
const HRPS: [&str; 8] = ["osmo", "osmo", "osmo", "neutron", "inj", "a", "terra", "juno"];

/// secrets of validators whose addresses share the first (even rows) or last (odd rows) four bytes
const KEY_PAIRS: [[u64; 2]; 16] = [
    [20015998392420, 20015998458435],
    [20015998382433, 20015998499596],
    [20015998414197, 20015998458958],
    [20015998434066, 20015998516170],
    [20015998444737, 20015998472196],
    [20015998506599, 20015998532103],
    [20015998361977, 20015998499590],
    [20015998530591, 20015998569303],
    [20015998360480, 20015998540040],
    [20015998461372, 20015998590693],
    [20015998485818, 20015998564532],
    [20015998409094, 20015998597154],
    [20015998452775, 20015998574444],
    [20015998581114, 20015998597300],
    [20015998523518, 20015998585254],
    [20015998357165, 20015998603966],
];
/// secrets of validators whose addresses start with two zero bytes
const ZERO_KEYS: [u64; 6] = [
    20015998377094, 20015998386435, 20015998389497,
    20015998399840, 20015998410213, 20015998427075,
];

#[derive(Default)]
struct Memo {
    addr_of: HashMap<String, String>,
    name_of: HashMap<String, String>,
    bytes_of: HashMap<String, Vec<u8>>,
    name32: HashMap<Vec<u8>, String>,
    name20: HashMap<Vec<u8>, String>,
    msgs: HashMap<Vec<u8>, Value>,
    ids: HashMap<Vec<u8>, Value>,
    metas: HashMap<Vec<u8>, Value>,
    bodies: HashMap<Vec<u8>, Value>,
    denoms: HashMap<String, String>,
    sigs: HashMap<String, Vec<u8>>,
    keys: HashMap<String, SigningKey>,
    order: Vec<String>,       // names in the order they were first used
    salt: u64,                // 0: no look-alike names, plain denoms, the usual prefix
    twins: bool,
    hrp: Option<String>,
    style: u64,
    spell: HashMap<String, String>, // denom symbol -> denom
}

thread_local! { static M: RefCell<Memo> = RefCell::new(Memo::default()); }

pub fn keccak(b: &[u8]) -> [u8; 32] {
    let mut h = Keccak256::new();
    h.update(b);
    h.finalize().into()
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn unhex(s: &str) -> Option<Vec<u8>> {
    if s.len() % 2 != 0 || !s.is_ascii() {
        return None;
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}

// ---------------------------------------------------------------- addresses
pub fn is_bad(name: &str) -> bool {
    name.is_empty() || name.starts_with('!')
}

/// the account bytes behind a name: 20 bytes for users (u..) and validator
/// keys (k..), 32 bytes for everything else
pub fn raw_bytes(name: &str) -> Vec<u8> {
    if let Some(b) = M.with(|m| m.borrow().bytes_of.get(name).cloned()) {
        return b;
    }
    if let Some(b) = name.strip_prefix('?').and_then(unhex) {
        return b; // bytes nobody named
    }
    let h = keccak(format!("account:{name}").as_bytes());
    let b: Vec<u8> = if let Some(b) = look_alike(name, &h) {
        b
    } else if name.starts_with('k') {
        let pk = key(name).verifying_key().to_encoded_point(false);
        keccak(&pk.as_bytes()[1..])[12..].to_vec()
    } else if name.starts_with("u0") {
        let mut v = h[12..].to_vec();
        v[0] = 0;
        v[1] = 0;
        v[2] = 0;
        v
    } else if name.starts_with('u') {
        h[12..].to_vec()
    } else if name.starts_with('z') {
        let mut v = h.to_vec();
        v[..11].fill(0);
        v[11] |= 1;
        v
    } else {
        h.to_vec()
    };
    M.with(|m| {
        let mut m = m.borrow_mut();
        m.bytes_of.insert(name.to_string(), b.clone());
        if b.len() == 20 {
            m.name20.insert(b.clone(), name.to_string());
        }
        m.name32.insert(pad32(&b), name.to_string());
        m.order.push(name.to_string());
    });
    b
}

fn mix(a: u64, b: &str) -> u64 {
    u64::from_be_bytes(keccak(format!("{a}:{b}").as_bytes())[..8].try_into().unwrap())
}
/// how this scenario spells addresses and denoms: names whose bytes nearly
/// collide with those of other names, some address prefix, denoms that share
/// prefixes or differ in case only
pub fn disguise(salt: u64) {
    M.with(|m| {
        let mut m = m.borrow_mut();
        m.salt = salt;
        let r = mix(salt, "disguise");
        m.twins = r % 100 < 75;
        m.hrp = Some(HRPS[(r >> 8) as usize % HRPS.len()].to_string());
        m.style = (r >> 16) % 8;
    })
}
/// the names of the bounded models, in a fixed order, with look-alikes
pub fn preload(names: &[String]) {
    M.with(|m| {
        let mut m = m.borrow_mut();
        m.salt = 7;
        m.twins = true;
    });
    for n in names {
        if !is_bad(n) {
            addr(n);
        }
    }
    M.with(|m| m.borrow_mut().twins = false);
}
pub fn hrp() -> String {
    M.with(|m| m.borrow().hrp.clone()).unwrap_or_else(|| HRPS[0].to_string())
}
/// bytes for a new name that nearly collide with those of an older one
fn look_alike(name: &str, h: &[u8; 32]) -> Option<Vec<u8>> {
    let c = name.as_bytes()[0];
    if c == b'k' || name.starts_with("u0") {
        return None;
    }
    M.with(|m| {
        let m = m.borrow();
        if !m.twins || m.order.is_empty() {
            return None;
        }
        let r = mix(m.salt, name);
        if r % 100 >= 55 {
            return None;
        }
        let base = &m.bytes_of[&m.order[(r >> 8) as usize % m.order.len()]];
        let (pick, bit) = (((r >> 32) & 0xff) as usize, 1u8 << ((r >> 40) & 7));
        let pos = ((r >> 48) & 0xff) as usize;
        let mut v = base.clone();
        match (c, base.len()) {
            (b'z', _) => {
                // the account of somebody else, after bytes that are not all zero
                v = vec![0; 12];
                v[11] = 1;
                v.extend_from_slice(&base[base.len() - 20..]);
            }
            (b'u', 20) => v[[0, 0, 1, 10, 11, 18, 19, 19][pos % 8]] ^= bit,
            (b'u', _) => v = if pick % 2 == 0 { base[12..].to_vec() } else { base[..20].to_vec() },
            (_, 20) => {
                v = h[..12].to_vec();
                v.extend_from_slice(base);
                if pick % 3 == 0 {
                    v = base.clone();
                    v.extend_from_slice(&h[..12]);
                }
            }
            _ => match pick % 8 {
                0 => v[..12].copy_from_slice(&h[..12]),
                1 => v[20..].copy_from_slice(&h[20..]),
                2 => v[1..].copy_from_slice(&h[1..]),
                3 => v[..31].copy_from_slice(&h[..31]),
                4 => v.rotate_left(16),
                _ => v[[0, 0, 1, 11, 12, 15, 16, 19, 20, 24, 30, 31, 31][pos % 13]] ^= bit,
            },
        }
        let p = pad32(&v);
        let real32 = v.len() == 20 || p[..12].iter().any(|x| *x != 0);
        (real32 && !m.name32.contains_key(&p)).then_some(v)
    })
}
pub fn pad32(b: &[u8]) -> Vec<u8> {
    let mut v = vec![0u8; 32 - b.len()];
    v.extend_from_slice(b);
    v
}
pub fn b32(name: &str) -> Vec<u8> {
    pad32(&raw_bytes(name))
}
pub fn bech(hrp: &str, b: &[u8]) -> String {
    bech32::encode(hrp, b.to_base32(), bech32::Variant::Bech32).unwrap()
}
pub fn addr(name: &str) -> String {
    match name {
        "" => return String::new(),
        "!bad" => return "notanaddress".into(),
        "!hrp" => return bech("cosmos", &raw_bytes("u-hrp")),
        "!empty" => return bech(&hrp(), &[]),
        "!upper" => return bech(&hrp(), &raw_bytes("u-upper")).to_uppercase(),
        "!sum" => {
            let mut s = bech(&hrp(), &raw_bytes("u-sum"));
            let last = s.pop().unwrap();
            s.push(if last == 'q' { 'p' } else { 'q' });
            return s;
        }
        _ => {}
    }
    if let Some(a) = M.with(|m| m.borrow().addr_of.get(name).cloned()) {
        return a;
    }
    let a = bech(&hrp(), &raw_bytes(name));
    M.with(|m| {
        let mut m = m.borrow_mut();
        m.addr_of.insert(name.to_string(), a.clone());
        m.name_of.insert(a.clone(), name.to_string());
    });
    a
}
pub fn name(a: &str) -> String {
    if a.is_empty() {
        return String::new();
    }
    if let Some(n) = M.with(|m| m.borrow().name_of.get(a).cloned()) {
        return n;
    }
    for b in ["!bad", "!hrp", "!empty", "!upper", "!sum"] {
        if addr(b) == a {
            return b.into();
        }
    }
    // an address the harness has not written yet, of bytes it knows
    if let Ok((h, d, bech32::Variant::Bech32)) = bech32::decode(a) {
        use bech32::FromBase32;
        if h == hrp() {
            if let Ok(b) = Vec::<u8>::from_base32(&d) {
                let n = M.with(|m| {
                    let m = m.borrow();
                    if b.len() == 20 { m.name20.get(&b).cloned() } else { m.name32.get(&b).cloned() }
                });
                if let Some(n) = n {
                    if addr(&n) == a {
                        return n;
                    }
                }
            }
        }
    }
    format!("?{a}")
}
pub fn name_of32(b: &[u8]) -> String {
    M.with(|m| m.borrow().name32.get(b).cloned()).unwrap_or_else(|| format!("?{}", hex(b)))
}

/// <<length, symbol>>
pub fn sized(v: &Value) -> Vec<u8> {
    let len = v[0].as_u64().unwrap() as usize;
    let s = v[1].as_str().unwrap();
    if let Some(h) = s.strip_prefix('x') {
        let b = unhex(h).unwrap();
        assert_eq!(b.len(), len, "sized symbol {v}");
        return b;
    }
    let b = raw_bytes(s);
    if len == 32 {
        return pad32(&b);
    }
    assert_eq!(b.len(), len, "sized symbol {v}");
    b
}
pub fn unsized_(b: &[u8]) -> Value {
    let n = M.with(|m| {
        let m = m.borrow();
        match b.len() {
            32 => m.name32.get(b).cloned(),
            20 => m.name20.get(b).cloned(),
            _ => None,
        }
    });
    json!([b.len(), n.unwrap_or_else(|| format!("x{}", hex(b)))])
}
/// bytes of an account as its name
pub fn acct(b: &[u8]) -> String {
    let v = unsized_(b);
    v[1].as_str().unwrap().to_string()
}

// ------------------------------------------------------------------ numbers
pub fn limbs(dec: &str) -> Value {
    let d = dec.trim_start_matches('0').as_bytes();
    let mut out = vec![];
    let mut end = d.len();
    while end > 0 {
        let st = end.saturating_sub(4);
        out.push(std::str::from_utf8(&d[st..end]).unwrap().parse::<u32>().unwrap());
        end = st;
    }
    json!(out)
}
pub fn limbs128(x: u128) -> Value {
    limbs(&x.to_string())
}
/// decimal string of a limb sequence
pub fn dec(v: &Value) -> String {
    let a = v.as_array().unwrap_or_else(|| panic!("limbs {v}"));
    if a.is_empty() {
        return "0".into();
    }
    let mut s = format!("{}", a[a.len() - 1].as_u64().unwrap());
    for x in a.iter().rev().skip(1) {
        s += &format!("{:04}", x.as_u64().unwrap());
    }
    s
}
pub fn u128_of(v: &Value) -> u128 {
    dec(v).parse().unwrap()
}
fn uint256(v: &Value) -> [u8; 32] {
    use std::str::FromStr;
    cosmwasm_std::Uint256::from_str(&dec(v)).unwrap().to_be_bytes()
}
pub fn w32(v: &Value) -> u32 {
    v.as_i64().unwrap_or_else(|| panic!("word {v}")) as i32 as u32
}
pub fn i32v(x: u32) -> Value {
    json!(x as i32)
}

// ------------------------------------------------------------------- denoms
pub fn denom(sym: &str) -> String {
    if let Some(r) = sym.strip_prefix("F/") {
        let (a, sub) = r.split_once('/').unwrap();
        let d = format!("factory/{}/{}", addr(a), sub);
        M.with(|m| m.borrow_mut().denoms.insert(d.clone(), sym.to_string()));
        return d;
    }
    if let Some(d) = M.with(|m| m.borrow().spell.get(sym).cloned()) {
        return d;
    }
    M.with(|m| {
        let mut m = m.borrow_mut();
        let i = m.spell.len();
        let salt = m.salt;
        let mut d = match m.style {
            // one hash with another character in one place
            1 => {
                let mut x = hex(&keccak(format!("{salt}").as_bytes())).to_uppercase().into_bytes();
                let k = [0, 63, 31][(salt % 3) as usize];
                x[k] = b"0123456789ABCDEF"[(i + 3) % 16];
                format!("ibc/{}", String::from_utf8(x).unwrap())
            }
            // each a prefix of another
            2 => format!("tok{}", "en".repeat((i * 7 + 3) % 11)),
            // case only
            3 => "ustake".bytes().enumerate().map(|(k, c)| if (i + 1) >> k & 1 == 1 { c.to_ascii_uppercase() as char } else { c as char }).collect(),
            4 => format!("factory/{}/{}", ["osmo1abc", "osmo1abd"][i % 2], ["x", "xx", "X"][i / 2 % 3]),
            _ => sym.to_string(),
        };
        if m.denoms.contains_key(&d) || i >= 11 {
            d = sym.to_string();
        }
        m.denoms.insert(d.clone(), sym.to_string());
        m.spell.insert(sym.to_string(), d.clone());
        d
    })
}
pub fn known_denom(sym: &str) -> bool {
    M.with(|m| m.borrow().denoms.values().any(|s| s == sym))
}
pub fn known_name(n: &str) -> bool {
    M.with(|m| m.borrow().bytes_of.contains_key(n))
}
pub fn undenom(d: &str) -> String {
    M.with(|m| m.borrow().denoms.get(d).cloned()).unwrap_or_else(|| d.to_string())
}

// ------------------------------------------------- bodies, messages, metadata
fn remember(map: fn(&mut Memo) -> &mut HashMap<Vec<u8>, Value>, b: &[u8], sym: &Value) {
    M.with(|m| {
        let mut m = m.borrow_mut();
        let e = map(&mut m).entry(b.to_vec()).or_insert_with(|| sym.clone());
        assert_eq!(e, sym, "two symbols for the same bytes");
    })
}
pub fn body(v: &Value) -> Vec<u8> {
    let b = match v[0].as_str().unwrap() {
        "raw" | "?" => unhex(v[1].as_str().unwrap()).unwrap(),
        "tm" => {
            let mut b = b32(v[1].as_str().unwrap());
            b.extend_from_slice(&uint256(&v[2]));
            b.extend(unhex(v[3].as_str().unwrap()).unwrap());
            b
        }
        x => panic!("body {x}"),
    };
    remember(|m| &mut m.bodies, &b, v);
    b
}
pub fn unbody(b: &[u8]) -> Value {
    if let Some(v) = M.with(|m| m.borrow().bodies.get(b).cloned()) {
        return v;
    }
    if b.len() < 64 {
        return json!(["raw", hex(b)]);
    }
    let x = cosmwasm_std::Uint256::from_be_bytes(b[32..64].try_into().unwrap());
    json!(["tm", name_of32(&b[..32]), limbs(&x.to_string()), hex(&b[64..])])
}
pub fn msg(v: &Value) -> Vec<u8> {
    let b = if v["v"] == json!(-2) {
        unhex(v["b"][1].as_str().unwrap()).unwrap()
    } else {
        let mut b = vec![v["v"].as_u64().unwrap() as u8];
        b.extend_from_slice(&w32(&v["n"]).to_be_bytes());
        b.extend_from_slice(&w32(&v["o"]).to_be_bytes());
        b.extend(b32(v["s"].as_str().unwrap()));
        b.extend_from_slice(&w32(&v["d"]).to_be_bytes());
        b.extend(b32(v["r"].as_str().unwrap()));
        b.extend(body(&v["b"]));
        b
    };
    remember(|m| &mut m.msgs, &b, v);
    remember(|m| &mut m.ids, &keccak(&b), v);
    b
}
pub fn unmsg(b: &[u8]) -> Value {
    if let Some(v) = M.with(|m| m.borrow().msgs.get(b).cloned()) {
        return v;
    }
    if b.len() < 77 {
        return json!(["?", hex(b)]);
    }
    let w = |i: usize| i32v(u32::from_be_bytes(b[i..i + 4].try_into().unwrap()));
    let v = json!({"v": b[0], "n": w(1), "o": w(5), "s": name_of32(&b[9..41]), "d": w(41),
                   "r": name_of32(&b[45..77]), "b": unbody(&b[77..])});
    remember(|m| &mut m.msgs, b, &v);
    remember(|m| &mut m.ids, &keccak(b), &v);
    v
}
pub fn msg_id(v: &Value) -> Vec<u8> {
    keccak(&msg(v)).to_vec()
}
pub fn unid(b: &[u8]) -> Value {
    M.with(|m| m.borrow().ids.get(b).cloned()).unwrap_or_else(|| json!(["id", hex(b)]))
}
/// a message id given as <<"m", msg>>, <<"id", hex>> or a message
pub fn id_bytes(v: &Value) -> Vec<u8> {
    if v.is_object() {
        return msg_id(v);
    }
    match v[0].as_str().unwrap() {
        "m" => msg_id(&v[1]),
        _ => unhex(v[1].as_str().unwrap()).unwrap(),
    }
}

pub fn meta(v: &Value) -> Vec<u8> {
    let b = match v[0].as_str().unwrap() {
        "raw" | "?" => unhex(v[1].as_str().unwrap()).unwrap(),
        "igp" => {
            let mut b = uint256(&v[1]).to_vec();
            let n = v[2].as_u64().unwrap() as usize;
            let s = v[3].as_str().unwrap();
            let r = match n {
                0 => vec![],
                32 => b32(s),
                20 => raw_bytes(s),
                _ => unhex(s).unwrap(),
            };
            assert_eq!(r.len(), n, "igp metadata {v}");
            b.extend(r);
            b
        }
        "ms" => {
            let mut b = b32(v[1].as_str().unwrap());
            b.extend(b32(v[2].as_str().unwrap()));
            b.extend_from_slice(&w32(&v[3]).to_be_bytes());
            for g in v[4].as_array().unwrap() {
                b.extend(checkpoint_sig(g));
            }
            b.extend(unhex(v[5].as_str().unwrap()).unwrap());
            b
        }
        "agg" => {
            let parts = v[1].as_array().unwrap();
            let mut head = vec![];
            let mut tail: Vec<u8> = vec![];
            let base = parts.len() * 8;
            for p in parts {
                let (st, en) = if p[0] == "oob" {
                    (base + tail.len(), 0x7fff_ffff)
                } else {
                    let x = meta(p);
                    let st = base + tail.len();
                    tail.extend(&x);
                    (st, st + x.len())
                };
                head.extend_from_slice(&(st as u32).to_be_bytes());
                head.extend_from_slice(&(en as u32).to_be_bytes());
            }
            head.extend(tail);
            head
        }
        x => panic!("metadata {x}"),
    };
    remember(|m| &mut m.metas, &b, v);
    b
}
pub fn unmeta(b: &[u8]) -> Value {
    M.with(|m| m.borrow().metas.get(b).cloned()).unwrap_or_else(|| json!([if b.len() < 32 { "raw" } else { "?" }, hex(b)]))
}

// --------------------------------------------------------------- signatures
pub fn key(n: &str) -> SigningKey {
    M.with(|m| {
        let mut m = m.borrow_mut();
        if let Some(k) = m.keys.get(n) {
            return k.clone();
        }
        let i = m.keys.len();
        let h = m.salt as usize % 1_000_003;
        let k = if !m.twins || i >= 32 {
            SigningKey::from_slice(&keccak(format!("key:{n}").as_bytes())).unwrap()
        } else {
            let x = if i < 6 && (h + i) % 5 == 0 { ZERO_KEYS[i] } else { KEY_PAIRS[(h + i / 2) % 16][i % 2] };
            let mut b = [0u8; 32];
            b[24..].copy_from_slice(&x.to_be_bytes());
            SigningKey::from_slice(&b).unwrap()
        };
        m.keys.insert(n.to_string(), k.clone());
        k
    })
}
fn eth_digest(h: &[u8]) -> [u8; 32] {
    let mut b = format!("\x19Ethereum Signed Message:\n{}", h.len()).into_bytes();
    b.extend_from_slice(h);
    keccak(&b)
}
fn sign(k: &str, digest: &[u8; 32], kind: &str) -> Vec<u8> {
    if kind == "zero" {
        // r from the text, s zero: never a signature
        let mut z = keccak(&[digest.as_slice(), k.as_bytes()].concat()).to_vec();
        z.resize(65, 0);
        z[64] = 27;
        return z;
    }
    let (sig, rec) = key(k).sign_prehash_recoverable(digest).unwrap();
    let mut b = sig.to_bytes().to_vec();
    let rec = rec.to_byte();
    match kind {
        "flip" => b.push(27 + (rec ^ 1)),
        "badv" => b.push(27 + 7),
        "lowv" => b.push(26),
        "short" => {
            b.push(27 + rec);
            b.truncate(64);
        }
        "long" => {
            b.push(27 + rec);
            b.extend_from_slice(&[7, 7]);
        }
        _ => b.push(27 + rec),
    }
    b
}
fn signed(k: &str, digest: &[u8; 32], kind: &str) -> Vec<u8> {
    cached_sig(format!("{}/{kind}/{}", hex(&raw_bytes(k)), hex(digest)), || sign(k, digest, kind))
}
fn cached_sig(k: String, f: impl FnOnce() -> Vec<u8>) -> Vec<u8> {
    if let Some(b) = M.with(|m| m.borrow().sigs.get(&k).cloned()) {
        return b;
    }
    let b = f();
    M.with(|m| m.borrow_mut().sigs.insert(k, b.clone()));
    b
}
/// a validator's signature over a checkpoint
fn checkpoint_sig(g: &Value) -> Vec<u8> {
    {
        let mut d = w32(&g["o"]).to_be_bytes().to_vec();
        d.extend(b32(g["tree"].as_str().unwrap()));
        d.extend_from_slice(b"HYPERLANE");
        let mut c = keccak(&d).to_vec();
        c.extend(b32(g["root"].as_str().unwrap()));
        c.extend_from_slice(&w32(&g["idx"]).to_be_bytes());
        c.extend(msg_id(&g["msg"]));
        signed(g["k"].as_str().unwrap(), &eth_digest(&keccak(&c)), g["kind"].as_str().unwrap())
    }
}
/// a validator's signature over an announcement
pub fn announce_sig(g: &Value) -> Vec<u8> {
    {
        let mut d = w32(&g["dom"]).to_be_bytes().to_vec();
        d.extend(b32(g["mb"].as_str().unwrap()));
        d.extend_from_slice(b"HYPERLANE_ANNOUNCEMENT");
        let mut c = keccak(&d).to_vec();
        c.extend_from_slice(g["loc"].as_str().unwrap().as_bytes());
        signed(g["key"].as_str().unwrap(), &eth_digest(&keccak(&c)), g["kind"].as_str().unwrap())
    }
}

// ------------------------------------------------------- reference merkle tree
fn pair(a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] {
    let mut v = a.to_vec();
    v.extend_from_slice(b);
    keccak(&v)
}
/// the leaves of a tree: full subtrees standing for the first ones, then leaf by leaf
#[derive(Clone, Default)]
pub struct Leaves {
    base: u64,
    sub: HashMap<(u32, u64), [u8; 32]>, // (level, index) of the full subtrees the base is made of
    added: Vec<[u8; 32]>,
}
impl Leaves {
    /// as if this many leaves were there already
    pub fn pretend(n: u64, salt: u64) -> Self {
        let mut sub = HashMap::new();
        for i in 0..32 {
            if n >> i & 1 == 1 {
                sub.insert((i, (n >> (i + 1)) << 1), keccak(format!("subtree:{salt}:{i}").as_bytes()));
            }
        }
        Leaves { base: n, sub, added: vec![] }
    }
    pub fn len(&self) -> u64 {
        self.base + self.added.len() as u64
    }
    pub fn push(&mut self, l: [u8; 32]) {
        self.added.push(l);
    }
    /// hash of a node of the complete binary tree; leaves that are not there are zero
    pub fn node(&self, level: u32, idx: u64) -> [u8; 32] {
        if idx << level >= self.len() {
            return (0..level).fold([0u8; 32], |z, _| pair(&z, &z));
        }
        if (idx + 1) << level <= self.base {
            return self.sub[&(level, idx)];
        }
        if level == 0 {
            return self.added[(idx - self.base) as usize];
        }
        pair(&self.node(level - 1, 2 * idx), &self.node(level - 1, 2 * idx + 1))
    }
    pub fn root(&self) -> [u8; 32] {
        self.node(32, 0)
    }
    /// the full subtree at this level that ends the leaves, if they have one
    pub fn side(&self, level: u32) -> Option<[u8; 32]> {
        let n = self.len();
        (n >> level & 1 == 1).then(|| self.node(level, (n >> (level + 1)) << 1))
    }
}

/// forget everything but signatures, which do not depend on a scenario
pub fn reset() {
    M.with(|m| {
        let mut m = m.borrow_mut();
        let sigs = std::mem::take(&mut m.sigs);
        *m = Memo { sigs, ..Memo::default() };
    });
}
