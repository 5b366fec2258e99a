use crate::codec as cc;
use crate::gen::*;
use serde_json::{json, Value};

const METAS: [&str; 4] = ["", "aa", "00", "deadbeef"];
pub fn raw_meta(g: &G) -> Value {
    json!(["raw", if g.r.pct(85) { g.r.name(&METAS) } else { g.r.name(&["aa00", "aabb", "ab", "0000", "deadbeee", "5eadbeef", "00aa"]) }])
}
pub fn raw_body(g: &G) -> Value {
    let n = g.r.pick(&["", "00", "01", "ff00ff", "68656c6c6f", "0102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f20"]);
    if g.r.pct(85) || n.is_empty() {
        return json!(["raw", n]);
    }
    // nearly the same bytes
    let (a, b) = (&n[..2], &n[n.len() - 2..]);
    let x = match g.r.below(5) {
        0 => format!("{n}00"),
        1 => format!("00{n}"),
        2 => format!("{}{}", &n[..n.len() - 2], if b == "00" { "01" } else { "00" }),
        3 => format!("{}{}", if a == "80" { "00" } else { "80" }, &n[2..]),
        _ => n[2..].to_string(),
    };
    json!(["raw", x])
}
/// bodies and metadata only mailboxes, mocks and the merkle hook get to see
pub fn any_body(g: &G) -> Value {
    let (numbers, texts) = crate::gen::dict();
    if !texts.is_empty() && g.r.pct(5) {
        let t: String = g.r.pick(texts).bytes().map(|b| format!("{b:02x}")).collect();
        return json!(["raw", format!("{t}{}", g.r.name(&["", "00", "5a"]))]);
    }
    if g.r.pct(if numbers.is_empty() { 94 } else { 85 }) {
        return raw_body(g);
    }
    let n = g.r.pick(&[63usize, 64, 65, 77, 96, 128, 255, 256, 257, 300, 1024, 5000, 5000]);
    let n = if g.r.pct(4) { g.r.pick(&[65_535usize, 65_536, 70_000]) } else { n };
    let n = g.r.len(g.r.len(n, 70_000).max(1), 5000).max(1);
    let mut s = g.r.name(&["5a", "00", "ff"]).repeat(n);
    if g.r.pct(30) {
        // one byte of it is another
        let i = 2 * g.r.pick(&[0, n - 1, n / 2, 31.min(n - 1), 32.min(n - 1)]);
        s.replace_range(i..i + 2, "a5");
    }
    json!(["raw", s])
}
pub fn any_meta(g: &G) -> Value {
    if g.r.pct(95) {
        return raw_meta(g);
    }
    let n = g.r.pick(&[31usize, 32, 33, 64, 65, 68, 133, 255, 256, 257, 1024, 3000]);
    // begins with a byte no paymaster metadata (a gas amount) in use begins with
    json!(["raw", format!("a5{}", g.r.name(&["5a", "00", "ff"]).repeat(n - 1))])
}
pub fn dom(g: &G) -> i64 {
    g.r.pick(&g.doms)
}

/// deliveries: a mailbox, recipients and ISMs that misbehave, re-entrant calls
pub fn process(g: &G) {
    let d1 = dom(g);
    let d2 = loop {
        let d = dom(g);
        if d != d1 {
            break d;
        }
    };
    g.inst("u1", "mb", "mailbox", json!({"owner": "u1", "dom": d1}));
    g.inst("u1", "mb2", "mailbox", json!({"owner": "u1", "dom": d2}));
    let isms = ["i1", "i2", "idef"];
    for i in isms {
        let vm = g.r.pick(&["yes", "no", "acc", "yes", "genuine", "yes", "yes"]);
        g.mock(i, json!({ "vmode": vm }));
    }
    let rcpts = ["r1", "r2", "zr3"];
    for r in rcpts {
        let vm = g.r.pick(&["yes", "no", "acc", "genuine"]);
        let ism = if g.r.pct(50) { json!([if g.r.pct(85) { g.r.name(&isms) } else { g.r.name(&rcpts) }]) } else { json!([]) };
        g.mock(r, json!({ "ism": ism, "vmode": vm }));
    }
    g.mock("hk", json!({}));
    if g.r.pct(50) {
        g.inst("u1", "ip", "ipaus", json!({"owner": "u1", "paused": g.r.pct(50)}));
    }
    if g.r.pct(85) {
        let i = g.r.name(&["idef", "idef", "i1", "ip"]);
        g.ex("u1", "mb", json!({"k": "SetDefaultIsm", "x": i}));
    }
    g.ex("u1", "mb2", json!({"k": "SetDefaultIsm", "x": "idef"}));
    for m in ["mb", "mb2"] {
        g.ex("u1", m, json!({"k": "SetDefaultHook", "x": "hk"}));
        g.ex("u1", m, json!({"k": "SetRequiredHook", "x": "hk"}));
    }
    // the messages of this scenario, some differing in one field only
    let mut pool: Vec<Value> = vec![];
    let n = 2 + g.r.below(4);
    while pool.len() < n {
        let m = if pool.is_empty() || g.r.pct(40) {
            let mut r = g.r.name(&["r1", "r2", "zr3", "r1", "r2", "r1", "r2", "zr3", "u2", "nobody", "ip"]);
            let mut s = g.r.name(&["s1", "u3", "zs2", "r1"]);
            // somebody in a part that is not theirs
            if g.r.pct(12) {
                r = g.r.name(&["mb", "mb2", "i1", "idef", "hk"]);
            }
            if g.r.pct(12) {
                s = if g.r.pct(30) { r.clone() } else { g.r.name(&["mb", "mb2", "i1", "u1", "zr3", "r2"]) };
            }
            let o = if g.r.pct(88) { d2 } else { g.r.pick(&[d1, dom(g)]) };
            message(3, g.r.below(3) as i64, o, &s, d1, &r, any_body(g))
        } else {
            let mut m = g.r.pick(&pool);
            match g.r.below(11) {
                0 | 8 => m["n"] = json!(g.r.pick(&[0i64, 1, 2, -1])),
                1 => m["o"] = json!(dom(g)),
                2 => m["s"] = json!(g.r.name(&["s1", "u3", "zs2"])),
                3 | 9 => m["r"] = json!(g.r.name(&["r1", "r2", "zr3"])),
                4 | 10 => m["b"] = any_body(g),
                5 => m["v"] = json!(g.r.pick(&[0, 1, 2, 4, 255])),
                6 => m["d"] = json!(dom(g)),
                _ => m["d"] = json!(d2),
            }
            m
        };
        if !pool.contains(&m) {
            pool.push(m);
        }
    }
    let ops = 10 + g.r.below(26);
    for _ in 0..ops {
        let mut touched: Option<Value> = None;
        match g.r.weigh(&[55, 14, 12, 6, 5, 8, 2]) {
            0 => {
                let m = g.r.pick(&pool);
                let mut meta = any_meta(g);
                let mut m = m;
                if g.r.pct(45) {
                    // one the ism has been told to accept
                    let i = if g.r.pct(85) { g.r.name(&isms) } else { g.r.name(&rcpts) };
                    let acc = g.w().k[&cc::addr(&i)].cfg["acc"].clone();
                    if let Some(a) = acc.as_array().filter(|a| !a.is_empty()) {
                        let p = g.r.pick(a);
                        (meta, m) = (p[0].clone(), p[1].clone());
                    }
                }
                let s = g.r.name(&["u1", "u2", "u3", "r1"]);
                let mb = if g.r.pct(88) { "mb" } else { "mb2" };
                let f = if g.r.pct(6) {
                    g.bank(&s, coins(&[("uosmo", 7)]));
                    coins(&[("uosmo", 7)])
                } else {
                    nofunds()
                };
                g.exec(&s, mb, json!({"k": "Process", "meta": meta, "msg": m}), f);
                touched = Some(m);
            }
            1 => {
                // make an ism accept particular pairs, or change its mind
                let i = g.r.name(&isms);
                let acc: Vec<Value> =
                    (0..1 + g.r.below(5)).map(|_| { let m = g.r.pick(&pool); json!([any_meta(g), m]) }).collect();
                let vm = g.r.pick(&["acc", "acc", "acc", "yes", "no", "err", "genuine", "yes"]);
                g.remock(&i, json!({"vmode": vm, "acc": acc}));
            }
            2 => {
                // a recipient changes its ism, fails, or re-enters
                let r = g.r.name(&rcpts);
                let ism = match g.r.below(4) {
                    0 => json!([]),
                    1 => json!([g.r.name(&["idef", "nobody", "ip", "", "mb"])]),
                    2 if g.r.pct(40) => json!([if g.r.pct(60) { r.clone() } else { g.r.name(&rcpts) }]),
                    _ => json!([g.r.name(&isms)]),
                };
                let ism = if ism == json!([""]) { json!([]) } else { ism };
                let imode = if g.r.pct(8) { "err" } else { "ok" };
                let rmode = if g.r.pct(12) { "fail" } else { "ok" };
                let mut subs = vec![];
                if g.r.pct(45) {
                    for _ in 0..1 + g.r.below(2) {
                        let m = g.r.pick(&pool);
                        let mb = if g.r.pct(80) { "mb" } else { "mb2" };
                        subs.push(json!({"a": mb, "m": {"k": "Process", "meta": any_meta(g), "msg": m}, "f": [], "try": g.r.pct(60)}));
                    }
                }
                let mut c = json!({"ism": ism, "imode": imode, "rmode": rmode, "subs": subs});
                if g.r.pct(30) {
                    let acc: Vec<Value> = (0..1 + g.r.below(3)).map(|_| { let m = g.r.pick(&pool); json!([any_meta(g), m]) }).collect();
                    c["vmode"] = json!(g.r.pick(&["yes", "no", "acc", "acc", "err", "genuine"]));
                    c["acc"] = json!(acc);
                }
                g.remock(&r, c);
            }
            3 => {
                let x = g.r.name(&["idef", "i1", "i2", "ip", "nobody", "!bad", "", "r1", "mb"]);
                let s = if g.r.pct(75) { "u1" } else { "u2" };
                let mb = if g.r.pct(85) { "mb" } else { "mb2" };
                g.ex(s, mb, json!({"k": "SetDefaultIsm", "x": x}));
            }
            4 => {
                // a genuine message, from the other mailbox
                let from = if g.r.pct(80) { "mb2" } else { "mb" };
                let r = g.r.name(&rcpts);
                let b = any_body(g);
                let s = g.r.name(&["u2", "u3"]);
                let to = if g.r.pct(85) { d1 } else { d2 };
                g.ex(&s, from, json!({"k": "Dispatch", "d": to, "r": [32, r], "b": b, "hook": [], "meta": []}));
                if let Some(m) = g.data().get(0).cloned() {
                    if m.is_object() && !pool.contains(&m) {
                        pool.push(m);
                    }
                }
            }
            5 => {
                let k = if g.r.pct(50) { "Pause" } else { "Release" };
                g.ex("u1", "ip", json!({ "k": k }));
            }
            _ => {
                // a recipient that somebody calls directly, and messages too short to be one
                if g.r.pct(50) {
                    let m = json!({"v": -2, "b": ["raw", g.r.name(&["", "03", "0300000001"])]});
                    g.ex("u2", "mb", json!({"k": "Process", "meta": any_meta(g), "msg": m}));
                } else {
                    let m = g.r.pick(&pool);
                    g.ex("u2", "r1", json!({"k": "Handle", "o": m["o"], "s": [32, m["s"]], "b": m["b"]}));
                }
            }
        }
        let m = touched.unwrap_or_else(|| g.r.pick(&pool));
        g.q(json!({"a": "mb", "k": "Delivered", "id": ["m", m]}));
        let m = g.r.pick(&pool);
        let mb = if g.r.pct(70) { "mb" } else { "mb2" };
        g.q(json!({"a": mb, "k": "Delivered", "id": ["m", m]}));
        if g.r.pct(15) {
            let x = g.r.name(&["r1", "r2", "zr3", "u2", "ip", "!bad", "nobody", "mb", "i1"]);
            g.q(json!({"a": "mb", "k": "RecipientIsm", "x": x}));
        }
        if g.r.pct(10) {
            g.qk("mb", &["DefaultIsm", "LocalDomain", "Nonce"]);
        }
        if g.r.pct(5) {
            let h = g.r.name(&["00", "", "0000000000000000000000000000000000000000000000000000000000000000"]);
            g.q(json!({"a": "mb", "k": "Delivered", "id": ["id", h]}));
            g.bals(&["mb", "r1", "u2"]);
        }
    }
    // a long history: many deliveries, then every one of them again
    if g.r.pct(if dict().0.is_empty() { 3 } else { 8 }) {
        g.mock("i9", json!({}));
        g.ex("u1", "mb", json!({"k": "SetDefaultIsm", "x": "i9"}));
        g.mock("r9", json!({}));
        let times = g.r.len(100, 1100) as i64;
        let many: Vec<Value> = (0..times).map(|n| message(3, 250 + n, d2, "s1", d1, "r9", json!(["raw", "01"]))).collect();
        for _ in 0..2 {
            for m in &many {
                g.ex("u2", "mb", json!({"k": "Process", "meta": ["raw", ""], "msg": m}));
            }
        }
        for m in many.iter().step_by(9) {
            g.q(json!({"a": "mb", "k": "Delivered", "id": ["m", m]}));
        }
    }
    for m in pool {
        for mb in ["mb", "mb2"] {
            g.q(json!({"a": mb, "k": "Delivered", "id": ["m", m]}));
        }
    }
}

const DEN: [&str; 4] = ["uatom", "uosmo", "zeta", "Aa"];

pub fn fee_table(g: &G) -> Value {
    let mut f = vec![];
    for d in DEN {
        if g.r.pct(30) {
            f.push((d, amount(g)));
        }
    }
    coins(&f)
}
pub fn amount(g: &G) -> u128 {
    let x = match g.r.below(8) {
        0..=3 => 1 + g.r.below(5) as u128,
        4 => g.r.pick128(&[9_999u128, 10_000, 10_001, 99_999_999, 100_000_000]),
        5 => 1 + g.r.below(1_000_000_007) as u128,
        6 => (1u128 << g.r.pick(&[32usize, 63, 64, 64, 64, 96])) - 1 + g.r.below(3) as u128,
        _ => g.r.u128() >> (1 + g.r.below(60)),
    };
    g.r.num(x).max(1)
}
/// what is attached for these quotes: exact, less, more
pub fn attach(g: &G, quotes: &[Value]) -> Value {
    let mut sum = std::collections::BTreeMap::<String, u128>::new();
    for q in quotes {
        for c in q.as_array().unwrap() {
            let e = sum.entry(c[0].as_str().unwrap().to_string()).or_insert(0);
            *e = e.saturating_add(cc::u128_of(&c[1]));
        }
    }
    match g.r.weigh(&[50, 15, 10, 20, 5]) {
        1 => {
            let ks: Vec<String> = sum.keys().cloned().collect();
            if !ks.is_empty() {
                let k = g.r.pick(&ks);
                let e = sum.get_mut(&k).unwrap();
                *e -= if *e > 0 && g.r.pct(50) { 1 } else { *e };
            }
        }
        2 => {
            let d = g.r.pick(&DEN).to_string();
            *sum.entry(d).or_insert(0) += 1;
        }
        3 => {
            for _ in 0..1 + g.r.below(3) {
                let d = g.r.pick(&DEN).to_string();
                let x = amount(g);
                let e = sum.entry(d).or_insert(0);
                *e = e.saturating_add(x);
            }
        }
        4 => sum.clear(),
        _ => {}
    }
    let v: Vec<(&str, u128)> = sum.iter().map(|(d, x)| (d.as_str(), *x)).collect();
    coins(&v)
}
/// hand an account what it is about to spend
pub fn fund(g: &G, who: &str, f: &Value) {
    if f.as_array().unwrap().is_empty() {
        return;
    }
    let mut short = vec![];
    for c in f.as_array().unwrap() {
        let d = c[0].as_str().unwrap();
        let have = g.w().balance(&cc::addr(who), &cc::denom(d));
        let want = cc::u128_of(&c[1]);
        if have < want {
            short.push((d, want - have));
        }
    }
    if !short.is_empty() {
        g.bank(who, coins(&short));
    }
}

/// dispatches: hooks that quote per message and metadata, fail, re-enter
pub fn dispatch(g: &G) {
    let d = dom(g);
    g.inst("u1", "mb", "mailbox", json!({"owner": "u1", "dom": d}));
    let hooks = ["h1", "h2", "h3"];
    for h in hooks {
        let fee = fee_table(g);
        let hm = g.r.pick(&["ok", "strict", "ok"]);
        g.mock(h, json!({"fee": fee, "hmode": hm}));
    }
    g.mock("r1", json!({}));
    if g.r.pct(40) {
        g.inst("u1", "mk", "merkle", json!({"mailbox": "mb", "mb": "mb"}));
    }
    if g.r.pct(93) {
        let h = g.r.name(&hooks);
        g.ex("u1", "mb", json!({"k": "SetDefaultHook", "x": h}));
    }
    if g.r.pct(93) {
        let h = g.r.name(&["h1", "h1", "h2", "mk"]);
        g.ex("u1", "mb", json!({"k": "SetRequiredHook", "x": h}));
    }
    if g.r.pct(12) {
        let n = g.brink();
        g.poke("mb", n);
    }
    // a long history
    let many = if g.r.pct(if dict().0.is_empty() { 2 } else { 6 }) { 150 + g.r.below(150) } else { 0 };
    let many = if many > 0 { g.r.len(many, 1100) } else { 0 };
    if many > 0 {
        g.mock("h4", json!({}));
        g.ex("u1", "mb", json!({"k": "SetRequiredHook", "x": "h4"}));
    }
    for _ in 0..many {
        g.ex("u2", "mb", json!({"k": "Dispatch", "d": 1, "r": [32, "r1"], "b": ["raw", "01"], "hook": ["h4"], "meta": []}));
    }
    let ops = 8 + g.r.below(20);
    for _ in 0..ops {
        match g.r.weigh(&[66, 18, 10, 6]) {
            0 => {
                let s = g.r.name(&["u1", "u2", "u0x", "r1", "zc", "u1", "u2", "u0x", "r1", "zc", "h1", "h2"]);
                let mut m = dispatch_msg(g);
                if g.r.pct(8) {
                    m["d"] = json!(d);
                }
                if g.r.pct(8) {
                    m["r"] = json!([32, if g.r.pct(50) { s.clone() } else { g.r.name(&["mb", "h1", "u1"]) }]);
                }
                let meta = m["meta"].get(0).cloned().unwrap_or(json!(["raw", ""]));
                // quotes for the message about to be made
                let mut probe = message(3, 0, d, &s, m["d"].as_i64().unwrap(), "r1", m["b"].clone());
                probe["n"] = g.peek(json!({"a": "mb", "k": "Nonce"}))[1].clone();
                let ask = |g: &G, h: &str| -> Value {
                    let v = g.peek(json!({"a": h, "k": "Quote", "meta": meta, "msg": probe}));
                    if v[0] == "ok" { v[1].clone() } else { json!([]) }
                };
                let hook_name = |v: Value| v[1].as_str().unwrap_or("").to_string();
                let req = hook_name(g.peek(json!({"a": "mb", "k": "RequiredHook"})));
                let dfl = hook_name(g.peek(json!({"a": "mb", "k": "DefaultHook"})));
                let sel = m["hook"].get(0).and_then(|x| x.as_str()).map(|x| x.to_string()).unwrap_or(dfl);
                let qs = vec![ask(g, &req), ask(g, &sel)];
                let f = attach(g, &qs);
                if g.r.pct(96) {
                    fund(g, &s, &f);
                }
                let mut qm = m.clone();
                qm["a"] = json!("mb");
                qm["k"] = json!("MQuote");
                qm["sender"] = json!(s);
                if qm["r"][0] == 32 && g.r.pct(50) {
                    g.q(qm);
                }
                g.exec(&s, "mb", m, f);
            }
            1 => {
                let h = g.r.name(&hooks);
                let fee = fee_table(g);
                let hm = g.r.pick(&["ok", "strict", "strict", "fail", "ok"]);
                let qm = if g.r.pct(8) { "err" } else { "ok" };
                let mut tab = vec![];
                if g.r.pct(50) {
                    for _ in 0..1 + g.r.below(2) {
                        tab.push(json!([any_meta(g), dom(g), fee_table(g)]));
                    }
                }
                let mut subs = vec![];
                if g.r.pct(30) {
                    let m = dispatch_msg(g);
                    subs.push(json!({"a": "mb", "m": m, "f": [], "try": g.r.pct(70)}));
                }
                g.remock(&h, json!({"fee": fee, "hmode": hm, "qmode": qm, "tab": tab, "subs": subs}));
            }
            2 => {
                let s = if g.r.pct(75) { "u1" } else { "u2" };
                let x = g.r.name(&["h1", "h2", "h3", "mk", "nobody", "!bad", "h1", "h2", "mb", "r1"]);
                let k = g.r.pick(&["SetDefaultHook", "SetRequiredHook"]);
                g.ex(s, "mb", json!({"k": k, "x": x}));
            }
            _ => {
                let a = g.r.name(&["mb", "u2", "h1", "h2"]);
                let f = fee_table(g);
                g.bank(&a, f);
            }
        }
        g.qk("mb", &["Nonce", "LatestId"]);
        g.bals(&["mb", "h1", "h2", "h3"]);
        if g.r.pct(20) {
            g.qk("mb", &["DefaultHook", "RequiredHook", "LocalDomain"]);
            g.bals(&["u1", "u2", "u0x", "r1"]);
        }
    }
}
pub fn dispatch_msg(g: &G) -> Value {
    let r = match g.r.below(12) {
        0 => json!([20, "u3"]),
        1 => g.r.pick(&[json!([0, "x"]), json!([31, format!("x{}", "11".repeat(31))]), json!([33, format!("x{}", "22".repeat(33))]), json!([64, format!("x{}", "22".repeat(64))])]),
        2 => json!([32, "u3"]),
        3 => json!([32, "zr3"]),
        _ => json!([32, g.r.name(&["r1", "r2"])]),
    };
    let hook = match g.r.below(10) {
        0..=4 => json!([]),
        5 => json!([g.r.name(&["nobody", "!bad", "", "mk", "mb", "r1"])]),
        _ => json!([g.r.name(&["h1", "h2", "h3"])]),
    };
    let meta = if g.r.pct(60) { json!([any_meta(g)]) } else { json!([]) };
    let b = any_body(g);
    json!({"k": "Dispatch", "d": dom(g), "r": r, "b": b, "hook": hook, "meta": meta})
}
