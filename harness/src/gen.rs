//! Recording of executions of the real contracts, for Trace.tla.
use crate::chain::World;
use crate::codec as cc;
use crate::mock;
use serde_json::{json, Value};
use std::cell::{Cell, Ref, RefCell};
use std::collections::BTreeSet;

/// numbers and texts that the code under test names and the original code does not (tools/check.py looks for them)
pub fn dict() -> &'static (Vec<u128>, Vec<String>) {
    static D: std::sync::OnceLock<(Vec<u128>, Vec<String>)> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let v: Value = std::env::var("HPL_DICT").ok().and_then(|x| serde_json::from_str(&x).ok()).unwrap_or_default();
        let l = |k: &str| -> Vec<String> { v[k].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default() };
        (l("n").iter().filter_map(|x| x.parse().ok()).collect(), l("s"))
    })
}

pub struct Rng(Cell<u64>);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(Cell::new(seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ 0x5851_f42d_4c95_7f2d))
    }
    pub fn next(&self) -> u64 {
        self.0.set(self.0.get().wrapping_add(0x9e37_79b9_7f4a_7c15));
        let mut z = self.0.get();
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    /// true p times in 100
    pub fn pct(&self, p: usize) -> bool {
        self.below(100) < p
    }
    pub fn pick<T: Clone>(&self, v: &[T]) -> T {
        v[self.below(v.len())].clone()
    }
    pub fn name(&self, v: &[&str]) -> String {
        v[self.below(v.len())].to_string()
    }
    /// index drawn with these weights
    pub fn weigh(&self, w: &[usize]) -> usize {
        let mut x = self.below(w.iter().sum());
        for (i, k) in w.iter().enumerate() {
            if x < *k {
                return i;
            }
            x -= k;
        }
        unreachable!()
    }
    pub fn shuffle<T>(&self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i + 1));
        }
    }
    /// x, or now and then a number the code under test names and the original code does not
    pub fn num(&self, x: u128) -> u128 {
        let d = &dict().0;
        if d.is_empty() || !self.pct(15) {
            return x;
        }
        let y = self.pick(d);
        self.pick(&[y.saturating_sub(1), y, y, y, y.saturating_add(1)])
    }
    pub fn pick128(&self, v: &[u128]) -> u128 {
        let x = self.pick(v);
        self.num(x)
    }
    /// a length
    pub fn len(&self, x: usize, max: usize) -> usize {
        match self.num(x as u128) {
            y if y <= max as u128 => y as usize,
            _ => x,
        }
    }
    pub fn u128(&self) -> u128 {
        ((self.next() as u128) << 64) | self.next() as u128
    }
}

pub struct G {
    pub r: Rng,
    world: RefCell<World>,
    lines: RefCell<Vec<Value>>,
    err: RefCell<String>,
    pub ver: Value,
    last_data: RefCell<Value>,
    /// the domains of this scenario, some of them easily confused
    pub doms: Vec<i64>,
}

fn domains(r: &Rng) -> Vec<i64> {
    const WELL_KNOWN: [u32; 20] = [
        0, 1, 2, 10, 56, 137, 255, 256, 257, 8453, 42161, 65535, 65536, 169797, 875, 1399811149, 0x7fff_ffff, 0x8000_0000,
        0xffff_fffe, 0xffff_ffff,
    ];
    let mut v: Vec<u32> = vec![];
    let mut add = |x: u32| {
        if ![5, 44, 77, 4242].contains(&x) && !v.contains(&x) {
            v.push(x);
        }
        v.clone()
    };
    let named: Vec<u32> = dict().0.iter().filter_map(|x| u32::try_from(*x).ok()).collect();
    if !named.is_empty() && r.pct(60) {
        let x = r.pick(&named);
        add(x);
        add(if r.pct(50) { x.wrapping_add(1) } else { x.wrapping_sub(1) });
    }
    if r.pct(40) {
        [1, 2, 10, 0, u32::MAX, 1 << 31, (1 << 31) - 1, 169797].map(&mut add);
    }
    while add(r.pick(&WELL_KNOWN)).len() < 4 {}
    add(r.next() as u32);
    loop {
        let v = add(r.pick(&WELL_KNOWN));
        if v.len() >= 8 {
            return v.into_iter().map(|x| x as i32 as i64).collect();
        }
        let b = r.pick(&v);
        add(match r.below(8) {
            0..=3 => b ^ (1 << r.pick(&[0u32, 1, 7, 8, 15, 16, 24, 30, 31])),
            4 => b.swap_bytes(),
            5 => b.wrapping_add(r.pick(&[256, 65536, 1 << 24])),
            6 => b.wrapping_mul(10),
            _ => b.rotate_left(16),
        });
    }
}

pub fn coin(d: &str, x: u128) -> Value {
    json!([d, cc::limbs128(x)])
}
pub fn amt(x: u128) -> Value {
    cc::limbs128(x)
}
/// coins without zero entries or repeated denoms
pub fn coins(c: &[(&str, u128)]) -> Value {
    Value::Array(c.iter().filter(|x| x.1 > 0).map(|x| coin(x.0, x.1)).collect())
}
pub fn nofunds() -> Value {
    json!([])
}
pub fn message(v: u8, n: i64, o: i64, s: &str, d: i64, r: &str, b: Value) -> Value {
    json!({"v": v, "n": n, "o": o, "s": s, "d": d, "r": r, "b": b})
}

impl G {
    pub fn new(seed: u64, ver: Value) -> Self {
        let mut w = World::default();
        w.clock.salt = seed;
        cc::disguise(seed.max(1));
        let r = Rng::new(seed);
        let doms = domains(&r);
        G {
            r,
            doms,
            world: RefCell::new(w),
            lines: Default::default(),
            err: Default::default(),
            ver,
            last_data: Default::default(),
        }
    }
    pub fn w(&self) -> Ref<'_, World> {
        self.world.borrow()
    }
    /// what the last call answered
    pub fn data(&self) -> Value {
        self.last_data.borrow().clone()
    }
    /// why the last call failed
    pub fn why(&self) -> String {
        self.err.borrow().clone()
    }
    pub fn call(&self, c: Value) -> bool {
        let (ok, ev, data, err) = self.world.borrow_mut().run(&c);
        *self.last_data.borrow_mut() = data.clone();
        self.lines.borrow_mut().push(json!({"c": c, "o": {"ok": ok, "ev": ev, "data": data}, "q": []}));
        if !ok {
            if let Ok(k) = std::env::var("WHY") {
                if c["m"]["k"] == json!(k) {
                    eprintln!("{}: {err}", c["a"]);
                }
            }
        }
        *self.err.borrow_mut() = err;
        ok
    }
    pub fn exec(&self, s: &str, a: &str, m: Value, f: Value) -> bool {
        self.call(json!({"t": "exec", "s": s, "a": a, "m": m, "f": f}))
    }
    pub fn ex(&self, s: &str, a: &str, m: Value) -> bool {
        self.exec(s, a, m, json!([]))
    }
    pub fn inst(&self, s: &str, a: &str, kind: &str, mut m: Value) -> bool {
        m["k"] = json!("Inst");
        m["kind"] = json!(kind);
        self.call(json!({"t": "inst", "s": s, "a": a, "m": m, "f": []}))
    }
    pub fn mock(&self, a: &str, over: Value) {
        let mut m = mock::default_cfg();
        for (k, v) in over.as_object().unwrap() {
            assert!(!m[k].is_null(), "mock field {k}");
            m[k] = v.clone();
        }
        self.call(json!({"t": "mock", "s": "", "a": a, "m": m, "f": []}));
    }
    /// change some fields of a mock
    pub fn remock(&self, a: &str, over: Value) {
        let mut m = (*self.w().k[&cc::addr(a)].cfg).clone();
        for (k, v) in over.as_object().unwrap() {
            assert!(!m[k].is_null(), "mock field {k}");
            m[k] = v.clone();
        }
        self.call(json!({"t": "mock", "s": "", "a": a, "m": m, "f": []}));
    }
    pub fn bank(&self, a: &str, f: Value) {
        self.call(json!({"t": "bank", "s": "", "a": a, "m": {"k": "mint"}, "f": f}));
    }
    pub fn q(&self, q: Value) -> Value {
        let r = self.w().ask(&q);
        self.lines.borrow_mut().last_mut().unwrap()["q"].as_array_mut().unwrap().push(json!([q, r.clone()]));
        r
    }
    /// a question that is not recorded
    pub fn peek(&self, q: Value) -> Value {
        self.w().ask(&q)
    }
    pub fn qk(&self, a: &str, ks: &[&str]) {
        for k in ks {
            self.q(json!({"a": a, "k": k}));
        }
    }
    /// a counter of a contract as after a very long history, where that is possible
    pub fn poke(&self, a: &str, n: u32) -> bool {
        let at = cc::addr(a);
        if self.w().kind_of(&at) == "merkle" {
            // a small tree first: does the contract compute what this state means?
            let mut w = self.w().clone();
            let q = |w: &World, k: &str| w.ask(&json!({"a": a, "k": k}));
            if w.poke(&at, &json!({"n": 5})).is_err()
                || q(&w, "Root") != json!(["ok", ["R", 5]])
                || q(&w, "Tree") != json!(["ok", ["T", 5, 5]])
                || q(&w, "Checkpoint") != json!(["ok", ["R", 5, 4]])
            {
                return false;
            }
        }
        let m = json!({"k": "poke", "n": cc::i32v(n)});
        if self.w().clone().poke(&at, &m).is_err() {
            return false;
        }
        self.call(json!({"t": "poke", "s": "", "a": a, "m": m, "f": []}))
    }
    /// a count at which something might wrap around
    pub fn brink(&self) -> u32 {
        let named: Vec<u32> = dict().0.iter().filter_map(|x| u32::try_from(*x).ok()).collect();
        if !named.is_empty() && self.r.pct(40) {
            return self.r.pick(&named).saturating_sub(self.r.below(4) as u32).max(1);
        }
        let b = self.r.pick(&[8u32, 16, 16, 24, 31, 32, 32]);
        let e = ((1u64 << b) as u32).wrapping_sub(self.r.below(4) as u32);
        if self.r.pct(15) { self.r.next() as u32 } else if self.r.pct(5) { 0 } else if e == 0 { u32::MAX } else { e }
    }
    /// balances of these accounts
    pub fn bals(&self, accts: &[&str]) {
        for a in accts {
            self.q(json!({"a": a, "k": "allbal"}));
        }
    }

    /// how often each call succeeded and failed, each query answered and refused
    pub fn count(&self, m: &mut std::collections::BTreeMap<String, usize>) {
        let w = self.w();
        for l in self.lines.borrow().iter() {
            let c = &l["c"];
            let kind = w.kind_of(&cc::addr(c["a"].as_str().unwrap()));
            let t = c["t"].as_str().unwrap();
            let k = if t == "exec" { c["m"]["k"].as_str().unwrap() } else { t };
            let o = if l["o"]["ok"] == true { "ok" } else { "fail" };
            *m.entry(format!("{kind}.{k}.{o}")).or_insert(0) += 1;
            for q in l["q"].as_array().unwrap() {
                let kind = w.kind_of(&cc::addr(q[0]["a"].as_str().unwrap()));
                let k = q[0]["k"].as_str().unwrap();
                let o = q[1][0].as_str().unwrap();
                *m.entry(format!("{kind}?{k}.{o}")).or_insert(0) += 1;
            }
        }
    }
    /// the scenario as the lines of a trace
    pub fn finish(&self) -> (String, usize) {
        let mut names = BTreeSet::new();
        let mut denoms = BTreeSet::new();
        let lines = self.lines.borrow();
        for l in lines.iter() {
            scan(l, &mut names, &mut denoms);
        }
        let init = init_line(names, denoms, &self.ver);
        let n = lines.len();
        let mut s = init.to_string() + "\n";
        for l in lines.iter() {
            s += &l.to_string();
            s.push('\n');
        }
        (s, n)
    }
}

pub fn init_line(names: BTreeSet<String>, denoms: BTreeSet<String>, ver: &Value) -> Value {
    let mut dn: Vec<String> = denoms.into_iter().collect();
    dn.sort_by_key(|d| cc::denom(d));
    let names: Vec<String> = names.into_iter().collect();
    let mut by_addr = names.clone();
    by_addr.sort_by_key(|n| cc::addr(n));
    let mut by_bytes = names.clone();
    by_bytes.sort_by_key(|n| cc::b32(n));
    let rank = |v: &Vec<String>| -> Value {
        let mut m = serde_json::Map::new();
        for (i, n) in v.iter().enumerate() {
            m.insert(n.clone(), json!(i));
        }
        Value::Object(m)
    };
    json!({"init": true, "dn": dn, "ra": rank(&by_addr), "rb": rank(&by_bytes), "ver": ver})
}

fn scan(v: &Value, names: &mut BTreeSet<String>, denoms: &mut BTreeSet<String>) {
    match v {
        Value::String(s) => {
            if cc::known_name(s) {
                names.insert(s.clone());
            }
            if cc::known_denom(s) {
                denoms.insert(s.clone());
            }
        }
        Value::Array(a) => a.iter().for_each(|x| scan(x, names, denoms)),
        Value::Object(o) => o.values().for_each(|x| scan(x, names, denoms)),
        _ => {}
    }
}

/// "1.2.3-rc.1" as the specification writes a version
pub fn parse_version(s: &str) -> Value {
    let (core, pre) = match s.split_once('-') {
        Some((c, p)) => (c, Some(p)),
        None => (s, None),
    };
    let num = |x: &str| {
        if x.is_empty() || !x.bytes().all(|c| c.is_ascii_digit()) || (x.len() > 1 && x.starts_with('0')) {
            None
        } else {
            x.parse::<i32>().ok()
        }
    };
    let parts: Vec<Option<i32>> = core.split('.').map(num).collect();
    if parts.len() != 3 || parts.iter().any(|p| p.is_none()) {
        return json!([]);
    }
    let mut ids = vec![];
    if let Some(p) = pre {
        for id in p.split('.') {
            if id.is_empty() || !id.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'-') {
                return json!([]);
            }
            if id.bytes().all(|c| c.is_ascii_digit()) {
                match num(id) {
                    Some(n) => ids.push(json!([0, n])),
                    None => return json!([]),
                }
            } else {
                // rank among the identifiers the generators use
                let known = ["0a", "a", "aa", "alpha", "b", "beta", "rc", "rc1", "x-"];
                let r = known.iter().position(|k| *k == id).unwrap_or_else(|| panic!("pre-release identifier {id}"));
                ids.push(json!([1, r]));
            }
        }
    }
    json!([parts[0], parts[1], parts[2], ids])
}

/// the version in /repo's Cargo.toml
pub fn code_version() -> Value {
    let t = std::fs::read_to_string("/repo/Cargo.toml").unwrap();
    let mut sect = "";
    for l in t.lines() {
        let l = l.trim();
        if l.starts_with('[') {
            sect = l;
        }
        if sect == "[workspace.package]" && l.starts_with("version") {
            let v = l.split('"').nth(1).unwrap();
            return json!([v, parse_version(v)]);
        }
    }
    panic!("no version");
}
