use crate::codec as cc;
use crate::fam_mailbox::*;
use crate::gen::*;
use serde_json::{json, Value};

pub fn users(g: &G) -> String {
    g.r.name(&["u1", "u2", "u3", "u0x", "zc"])
}
/// a message somebody could have dispatched from mb (domain o)
pub fn some_msg(g: &G, o: i64) -> Value {
    let s = g.r.name(&["u1", "u2", "u0x", "zc", "s1"]);
    let d = dom(g);
    let r = g.r.name(&["r1", "r2", "zr3", "u3"]);
    message(3, g.r.below(3) as i64, o, &s, d, &r, raw_body(g))
}
pub fn short_msg(g: &G) -> Value {
    let n = g.r.pick(&[0usize, 1, 5, 40, 44, 76]);
    json!({"v": -2, "b": ["raw", "03".repeat(n)]})
}
pub fn pd(meta: &Value, msg: &Value) -> Value {
    json!({"k": "PostDispatch", "meta": meta, "msg": msg})
}
pub fn quote_of(g: &G, a: &str, meta: &Value, msg: &Value) -> Value {
    let v = g.peek(json!({"a": a, "k": "Quote", "meta": meta, "msg": msg}));
    if v[0] == "ok" {
        v[1].clone()
    } else {
        json!([])
    }
}
/// attach exactly, less or more than the quote, and call
pub fn notify(g: &G, s: &str, a: &str, meta: &Value, msg: &Value) -> bool {
    let q = quote_of(g, a, meta, msg);
    let f = attach(g, &[q]);
    if g.r.pct(97) {
        fund(g, s, &f);
    }
    g.exec(s, a, pd(meta, msg), f)
}
pub fn igp_meta(g: &G) -> Value {
    let gas = amt(g.r.pick128(&[0u128, 1, 2, 25_000, 300_000, 1_000_000_007, u128::MAX]));
    match g.r.below(6) {
        0 => json!(["igp", gas, 0, ""]),
        1 => json!(["igp", gas, 20, g.r.name(&["u2", "u3", "u0x"])]),
        2 | 3 => json!(["igp", gas, 32, g.r.name(&["zc", "u2", "u0x", "r1", "c1", "gp"])]),
        4 => {
            let n = g.r.pick(&[1usize, 19, 21, 31, 33, 40]);
            json!(["igp", gas, n, "5a".repeat(n)])
        }
        _ => json!(["igp", ["raw"], 0, ""]),
    }
}
pub fn any_meta(g: &G) -> Value {
    if g.r.pct(50) {
        return raw_meta(g);
    }
    let m = igp_meta(g);
    if m[1] == json!(["raw"]) {
        // more gas than 128 bits hold
        let big = g.r.pick(&["115792089237316195423570985008687907853269984665640564039457584007913129639935", "340282366920938463463374607431768211456", "1000000000000000000000000000000000000000000"]);
        return json!(["igp", cc::limbs(big), 0, ""]);
    }
    m
}

// ------------------------------------------------------------- composition
pub const TOKS: [&str; 3] = ["uosmo", "uatom", "zeta"];
pub fn rate(g: &G) -> u128 {
    g.r.pick128(&[1u128, 10_000_000_000, 9_999_999_999, 10_000_000_001, 5_000_000_000, 123_456_789_012_345, 1_000_000_000_000_000_000_000, u128::MAX])
}
pub fn price(g: &G) -> u128 {
    g.r.pick128(&[0u128, 1, 1, 2, 3, 1_000_000_000, 99_999, 1u128 << 64, u128::MAX])
}

struct Comp {
    leaves: Vec<String>,
    all: Vec<String>,
    n: usize,
}
fn build(g: &G, c: &mut Comp, depth: usize, doms: &[i64]) -> String {
    c.n += 1;
    let me = format!("h{}", c.n);
    let w = if depth == 0 { [4, 4, 2, 3, 0, 0, 0, 0] } else { [3, 4, 1, 2, 5, 4, 3, 3] };
    let own = "u1";
    match g.r.weigh(&w) {
        0 => {
            let d = g.r.name(&TOKS);
            let x = if g.r.pct(12) { 0 } else { amount(g) };
            g.inst(own, &me, "fee", json!({"owner": own, "fee": coin(&d, x)}));
            c.leaves.push(me.clone());
        }
        1 => {
            let d = g.r.name(&TOKS);
            let gas = g.r.pick128(&[0u128, 1, 25_000, 3_000_000]);
            let benef = "u3";
            g.inst(own, &me, "igp", json!({"owner": own, "denom": d, "benef": benef, "gas": amt(gas)}));
            for d in doms {
                if g.r.pct(90) {
                    g.ex(own, &me, json!({"k": "SetRoute", "d": d, "r": ["ora"]}));
                }
                if g.r.pct(40) {
                    let gas = g.r.pick128(&[0u128, 7, 99_999, 1 << 40]);
                    g.ex(own, &me, json!({"k": "SetGas", "cfg": [[d, amt(gas)]]}));
                }
            }
            c.leaves.push(me.clone());
        }
        2 => {
            g.inst(own, &me, "merkle", json!({"mb": "mb"}));
        }
        3 => {
            g.inst(own, &me, "hpaus", json!({"owner": own, "paused": g.r.pct(8)}));
        }
        4 => {
            let n = g.r.pick(&[0, 1, 2, 2, 3, 3]);
            let hs: Vec<String> = (0..n).map(|_| build(g, c, depth - 1, doms)).collect();
            g.inst(own, &me, "hagg", json!({"owner": own, "hooks": hs}));
        }
        k => {
            let kind = ["hroute", "hcustom", "hfall"][k - 5];
            let a = build(g, c, depth - 1, doms);
            let b = if g.r.pct(60) { build(g, c, depth - 1, doms) } else { a.clone() };
            g.inst(own, &me, kind, json!({ "owner": own }));
            for d in doms {
                if g.r.pct(85) {
                    let x = g.r.pick(&[a.clone(), b.clone()]);
                    g.ex(own, &me, json!({"k": "SetRoute", "d": d, "r": [x]}));
                }
            }
            if kind == "hfall" && g.r.pct(80) {
                g.ex(own, &me, json!({"k": "SetFallback", "x": b}));
            }
            if kind == "hcustom" {
                for d in doms {
                    if g.r.pct(50) {
                        g.ex(own, &me, json!({"k": "Register", "regs": [[d, [32, "r1"], b]], "one": true}));
                    }
                }
            }
        }
    }
    c.all.push(me.clone());
    me
}

/// trees of the real hooks behind a mailbox, paid exactly, less and more
pub fn compose(g: &G) {
    let home = dom(g);
    let doms = [dom(g), dom(g)];
    g.inst("u1", "mb", "mailbox", json!({"owner": "u1", "dom": home}));
    g.inst("u1", "ora", "oracle", json!({"owner": "u1"}));
    for d in doms {
        if g.r.pct(93) {
            // mostly quotes an account can pay
            let (r, p) = if g.r.pct(85) {
                (g.r.pick128(&[10_000_000_000u128, 1, 15_000_000_000, 123_456_789_012]), g.r.pick128(&[1u128, 2, 3, 1000, 0]))
            } else {
                (rate(g), price(g))
            };
            g.ex("u1", "ora", json!({"k": "SetGasData", "c": [d, amt(r), amt(p)]}));
        }
    }
    let mut c = Comp { leaves: vec![], all: vec![], n: 0 };
    let dr = g.r.below(3);
    let req = build(g, &mut c, dr, &doms);
    let dd = g.r.below(4);
    let dfl = build(g, &mut c, dd, &doms);
    let alt = build(g, &mut c, 1, &doms);
    g.ex("u1", "mb", json!({"k": "SetRequiredHook", "x": req}));
    g.ex("u1", "mb", json!({"k": "SetDefaultHook", "x": dfl}));
    for _ in 0..3 + g.r.below(6) {
        let s = users(g);
        let d = g.r.pick(&[doms[0], doms[1], doms[0], dom(g)]);
        let r = g.r.pick(&["r1", "r1", "r2"]);
        let hook = match g.r.below(10) {
            0 => json!([alt]),
            1 => json!([g.r.pick(&c.all)]),
            _ => json!([]),
        };
        let meta = if g.r.pct(50) { json!([any_meta(g)]) } else { json!([]) };
        let m = json!({"k": "Dispatch", "d": d, "r": [32, r], "b": raw_body(g), "hook": hook, "meta": meta});
        let mut qm = m.clone();
        qm["a"] = json!("mb");
        qm["k"] = json!("MQuote");
        qm["sender"] = json!(s);
        let v = g.q(qm.clone());
        let q = if v[0] == "ok" { v[1].clone() } else { json!([]) };
        let f = match g.r.weigh(&[70, 15, 15]) {
            0 => q,
            1 => attach(g, &[q]),
            _ => {
                // less in exactly one denom
                let mut cs: Vec<(String, u128)> =
                    q.as_array().unwrap().iter().map(|c| (c[0].as_str().unwrap().to_string(), cc::u128_of(&c[1]))).collect();
                if !cs.is_empty() {
                    let i = g.r.below(cs.len());
                    cs[i].1 -= 1;
                }
                let v: Vec<(&str, u128)> = cs.iter().map(|(d, x)| (d.as_str(), *x)).collect();
                coins(&v)
            }
        };
        fund(g, &s, &f);
        g.exec(&s, "mb", m, f);
        let all: Vec<&str> = c.all.iter().map(|x| x.as_str()).collect();
        g.bals(&all);
        g.bals(&["mb", &s]);
        g.qk("mb", &["Nonce"]);
        g.q(qm);
        if g.r.pct(12) {
            let h = g.r.pick(&c.all);
            let k = g.r.pick(&["Pause", "Release"]);
            g.ex("u1", &h, json!({ "k": k }));
        }
        if g.r.pct(12) && !c.leaves.is_empty() {
            let h = g.r.pick(&c.leaves);
            if g.r.pct(50) {
                let t = g.r.name(&TOKS);
                g.ex("u1", &h, json!({"k": "SetFee", "fee": coin(&t, amount(g))}));
            } else {
                g.ex("u1", &h, json!({"k": "SetDefaultGas", "g": amt(g.r.pick128(&[0u128, 5, 1_000_000]))}));
            }
        }
        if g.r.pct(4) {
            // coins that do not belong to any payment
            let h = g.r.pick(&c.all);
            g.bank(&h, fee_table(g));
        }
        let h = g.r.pick(&c.all);
        let msg = message(3, 0, home, &s, d, r, json!(["raw", "00"]));
        let me = any_meta(g);
        g.q(json!({"a": h, "k": "Quote", "meta": me, "msg": msg}));
    }
}

// ------------------------------------------------------------------ merkle
pub fn merkle(g: &G) {
    let home = dom(g);
    g.inst("u1", "mb", "mailbox", json!({"owner": "u1", "dom": home}));
    g.inst("u1", "mb2", "mailbox", json!({"owner": "u1", "dom": 77}));
    g.inst("u1", "mk", "merkle", json!({"mb": "mb"}));
    g.inst("u1", "mk2", "merkle", json!({"mb": "mb"}));
    g.mock("h1", json!({}));
    if g.r.pct(10) {
        let x = g.r.name(&["!bad", "", "mb2"]);
        g.inst("u1", "mk3", "merkle", json!({ "mb": x }));
        g.qk("mk3", &["HMailbox", "Count"]);
    }
    for m in ["mb", "mb2"] {
        g.ex("u1", m, json!({"k": "SetRequiredHook", "x": if g.r.pct(70) { "mk" } else { "h1" }}));
        g.ex("u1", m, json!({"k": "SetDefaultHook", "x": if g.r.pct(30) { "mk2" } else { "h1" }}));
    }
    g.ex("u1", "mb2", json!({"k": "SetRequiredHook", "x": "h1"}));
    let qs = ["Count", "Root", "Branch", "Tree", "Checkpoint"];
    g.qk("mk", &qs);
    g.qk("mk", &["HMailbox"]);
    let mut seen: Vec<Value> = vec![];
    if g.r.pct(20) {
        let n = g.brink();
        g.poke("mk", n);
        if g.r.pct(30) {
            let n = g.brink();
            g.poke("mk2", n);
        }
        if g.r.pct(30) {
            let n = g.brink();
            g.poke("mb", n);
        }
    }
    let n = if g.r.pct(3) { 300 } else if g.r.pct(4) { 150 } else { 6 + g.r.below(30) };
    for i in 0..n {
        match g.r.weigh(&[60, 25, 6, 5, 4]) {
            0 => {
                let s = users(g);
                let hook = match g.r.below(5) {
                    0 => json!(["mk"]),
                    1 => json!(["mk2"]),
                    _ => json!([]),
                };
                let from = if g.r.pct(90) { "mb" } else { "mb2" };
                let b = json!(["raw", format!("{:04x}", i)]);
                let r = g.r.name(&["r1", "r2"]);
                g.ex(&s, from, json!({"k": "Dispatch", "d": dom(g), "r": [32, r], "b": b, "hook": hook, "meta": []}));
                if let Some(m) = g.data().get(0).cloned() {
                    if m.is_object() {
                        seen.push(m);
                    }
                }
            }
            1 => {
                // anybody may notify, of the latest message only
                let m = match g.r.below(6) {
                    0 if !seen.is_empty() => g.r.pick(&seen),
                    1 => some_msg(g, home),
                    2 => short_msg(g),
                    _ => seen.last().cloned().unwrap_or_else(|| some_msg(g, home)),
                };
                let s = users(g);
                let to = g.r.name(&["mk", "mk2"]);
                let f = if g.r.pct(15) { coins(&[("uosmo", 3)]) } else { nofunds() };
                fund(g, &s, &f);
                let meta = raw_meta(g);
                g.exec(&s, &to, pd(&meta, &m), f);
            }
            2 => {
                let x = g.r.name(&["mk", "mk2", "h1"]);
                let k = g.r.pick(&["SetDefaultHook", "SetRequiredHook"]);
                g.ex("u1", "mb", json!({"k": k, "x": x}));
            }
            3 => {
                // a hook that fails undoes the insertion
                let hm = g.r.pick(&["fail", "ok"]);
                let mut subs = vec![];
                if g.r.pct(50) {
                    let m = json!({"k": "Dispatch", "d": 5, "r": [32, "r1"], "b": ["raw", "ee"], "hook": ["mk2"], "meta": []});
                    subs.push(json!({"a": "mb", "m": m, "f": [], "try": true}));
                }
                g.remock("h1", json!({"hmode": hm, "subs": subs}));
            }
            _ => {
                let m = seen.last().cloned().unwrap_or_else(|| some_msg(g, home));
                let me = raw_meta(g);
                g.bank("u2", coins(&[("uosmo", 1)]));
                g.q(json!({"a": "mk", "k": "Quote", "meta": me, "msg": m}));
            }
        }
        let a = g.r.name(&["mk", "mk", "mk2"]);
        if n < 40 || g.r.pct(25) {
            g.qk(&a, &qs);
        } else {
            g.qk(&a, &["Count", "Root"]);
        }
        g.qk("mb", &["LatestId"]);
        if g.r.pct(10) {
            g.bals(&["mk", "mk2"]);
        }
    }
    g.qk("mk", &qs);
    g.qk("mk2", &qs);
}

// ----------------------------------------------------------------- routing
pub fn hroute(g: &G) {
    let kind = g.r.pick(&["hroute", "hcustom", "hfall", "hcustom", "hfall"]);
    g.inst("u1", "rt", kind, json!({"owner": "u1"}));
    let hooks = ["h1", "h2", "h3", "h4"];
    for h in hooks {
        let fee = fee_table(g);
        let hm = g.r.pick(&["ok", "strict", "ok"]);
        let tab = if g.r.pct(50) { json!([[raw_meta(g), dom(g), fee_table(g)]]) } else { json!([]) };
        g.mock(h, json!({"fee": fee, "hmode": hm, "tab": tab}));
    }
    let doms = [dom(g), dom(g), dom(g)];
    let rs = ["r1", "r2", "zr3", "u3", "u0x", "r5", "r6"];
    for d in doms {
        if g.r.pct(60) {
            let h = g.r.name(&hooks);
            g.ex("u1", "rt", json!({"k": "SetRoute", "d": d, "r": [h]}));
        }
    }
    if kind == "hfall" && g.r.pct(60) {
        g.ex("u1", "rt", json!({"k": "SetFallback", "x": "h4"}));
    }
    for _ in 0..8 + g.r.below(25) {
        let own = if g.r.pct(85) { "u1" } else { "u2" };
        let d = g.r.pick(&doms);
        let h = if g.r.pct(92) { g.r.name(&hooks) } else { g.r.name(&["nobody", "!bad"]) };
        match g.r.weigh(&[42, 14, 14, 8, 8, 6, 6]) {
            0 => {
                let r = g.r.name(&rs);
                let d = if g.r.pct(85) { d } else { dom(g) };
                let msg = if g.r.pct(95) { message(3, 1, 5, "s1", d, &r, raw_body(g)) } else { short_msg(g) };
                let meta = raw_meta(g);
                g.q(json!({"a": "rt", "k": "Quote", "meta": meta, "msg": msg}));
                let s = users(g);
                notify(g, &s, "rt", &meta, &msg);
                g.bals(&["rt", "h1", "h2", "h3", "h4"]);
            }
            1 => {
                let r = if g.r.pct(80) { json!([h]) } else { json!([]) };
                if h.starts_with('!') {
                    continue; // an address nobody can call anyway
                }
                if g.r.pct(60) {
                    g.ex(own, "rt", json!({"k": "SetRoute", "d": d, "r": r}));
                } else {
                    let mut set = if g.r.pct(90) { vec![json!([d, r])] } else { vec![] };
                    for _ in 0..g.r.below(4) {
                        let x = g.r.pick(&["h1", "h2", "h3", "h4"]);
                        set.push(json!([g.r.pick(&doms), if g.r.pct(65) { json!([x]) } else { json!([]) }]));
                    }
                    g.r.shuffle(&mut set);
                    g.ex(own, "rt", json!({"k": "SetRoutes", "set": set}));
                }
            }
            2 | 3 => {
                let one = g.r.pct(50);
                let n = if one { 1 } else { g.r.below(6) };
                let regs: Vec<Value> = (0..n)
                    .map(|_| {
                        let r = if g.r.pct(93) { json!([32, g.r.name(&rs)]) } else { g.r.pick(&[json!([20, "u3"]), json!([0, "x"])]) };
                        json!([g.r.pick(&doms), r, if g.r.pct(94) { g.r.name(&hooks) } else { h.clone() }])
                    })
                    .collect();
                g.ex(own, "rt", json!({"k": "Register", "regs": regs, "one": one}));
            }
            4 => {
                let n = g.r.below(5);
                let one = g.r.pct(50);
                let regs: Vec<Value> = (0..if one { 1 } else { n })
                    .map(|_| {
                        let r = if g.r.pct(90) { json!([32, g.r.name(&rs)]) } else { json!([20, "u3"]) };
                        json!([g.r.pick(&doms), r])
                    })
                    .collect();
                g.ex(own, "rt", json!({"k": "Clear", "regs": regs, "one": one}));
            }
            5 => {
                g.ex(own, "rt", json!({"k": "SetFallback", "x": h}));
            }
            _ => {
                let h = g.r.name(&hooks);
                let fee = fee_table(g);
                let hm = g.r.pick(&["ok", "strict", "fail", "ok"]);
                let qm = if g.r.pct(10) { "err" } else { "ok" };
                g.remock(&h, json!({"fee": fee, "hmode": hm, "qmode": qm}));
            }
        }
        if kind == "hcustom" {
            let d = g.r.pick(&doms);
            let off = if g.r.pct(30) { json!([g.r.name(&rs)]) } else { json!([]) };
            let lim = if g.r.pct(50) { json!([g.r.pick(&[0, 1, 2, 3, 30, 31])]) } else { json!([]) };
            let ord = g.r.pick(&[json!([]), json!(["asc"]), json!(["desc"])]);
            g.q(json!({"a": "rt", "k": "CustomHooks", "d": d, "off": off, "lim": lim, "ord": ord}));
            let r = if g.r.pct(95) { json!([32, g.r.name(&rs)]) } else { json!([20, "u3"]) };
            g.q(json!({"a": "rt", "k": "CustomHook", "d": d, "r": r}));
        }
        if g.r.pct(25) {
            let d = g.r.pick(&doms);
            g.q(json!({"a": "rt", "k": "GetRoute", "d": d}));
            g.qk("rt", &["HMailbox"]);
        }
    }
}

// --------------------------------------------------------------- aggregate
pub fn hagg(g: &G) {
    let hooks = ["h1", "h2", "h3", "h4", "g2"];
    for h in ["h1", "h2", "h3", "h4"] {
        let fee = fee_table(g);
        let hm = g.r.pick(&["ok", "strict", "strict", "ok"]);
        let tab = if g.r.pct(40) { json!([[raw_meta(g), dom(g), fee_table(g)]]) } else { json!([]) };
        g.mock(h, json!({"fee": fee, "hmode": hm, "tab": tab}));
    }
    let most = if g.r.pct(5) { 34 } else { 5 };
    let hooks = if most > 5 { &hooks[..4] } else { &hooks[..] };
    let some = |g: &G, from: &[&str]| -> Vec<String> { (0..g.r.below(most)).map(|_| g.r.name(from)).collect() };
    let inner = some(g, &["h1", "h2", "h3"]);
    g.inst("u1", "g2", "hagg", json!({"owner": "u1", "hooks": inner}));
    let outer = some(g, hooks);
    g.inst("u1", "ag", "hagg", json!({"owner": "u1", "hooks": outer}));
    if g.r.pct(10) {
        g.inst("u1", "g3", "hagg", json!({"owner": "u1", "hooks": ["h1", g.r.name(&["!bad", ""])]}));
    }
    for _ in 0..6 + g.r.below(16) {
        match g.r.weigh(&[60, 14, 20, 6]) {
            0 => {
                let d = dom(g);
                let msg = if g.r.pct(96) { message(3, 1, 5, "s1", d, "r1", raw_body(g)) } else { short_msg(g) };
                let meta = raw_meta(g);
                g.q(json!({"a": "ag", "k": "Quote", "meta": meta, "msg": msg}));
                let s = users(g);
                notify(g, &s, "ag", &meta, &msg);
            }
            1 => {
                let mut hs = some(g, hooks);
                if g.r.pct(8) {
                    hs.push(g.r.name(&["!bad", "nobody"]));
                }
                let s = if g.r.pct(85) { "u1" } else { "u2" };
                g.ex(s, "ag", json!({"k": "SetHooks", "hooks": hs}));
            }
            2 => {
                let h = g.r.name(&["h1", "h2", "h3", "h4"]);
                let fee = fee_table(g);
                let hm = g.r.pick(&["ok", "strict", "strict", "fail", "ok"]);
                let qm = if g.r.pct(10) { "err" } else { "ok" };
                let tab = if g.r.pct(40) { json!([[raw_meta(g), dom(g), fee_table(g)]]) } else { json!([]) };
                g.remock(&h, json!({"fee": fee, "hmode": hm, "qmode": qm, "tab": tab}));
            }
            _ => {
                let a = g.r.name(&["ag", "g2"]);
                g.bank(&a, fee_table(g));
            }
        }
        g.qk("ag", &["Hooks"]);
        g.bals(&["ag", "g2", "h1", "h2", "h3", "h4"]);
        if g.r.pct(10) {
            g.qk("ag", &["HMailbox"]);
            g.qk("g2", &["Hooks"]);
        }
    }
}

// ----------------------------------------------------------- gas paymaster
pub fn igp(g: &G) {
    let tok = g.r.name(&["uosmo", "uatom"]);
    let gas = g.r.pick128(&[0u128, 1, 25_000, u128::MAX]);
    let ben = g.r.name(&["u3", "c1", "u1"]);
    g.inst("u1", "o1", "oracle", json!({"owner": "u1"}));
    g.inst("u1", "o2", "oracle", json!({"owner": "u1"}));
    g.inst("u1", "gp", "igp", json!({"owner": "u1", "denom": tok, "benef": ben, "gas": amt(gas)}));
    if g.r.pct(6) {
        g.inst("u1", "gp2", "igp", json!({"owner": "u1", "denom": tok, "benef": g.r.name(&["!bad", ""]), "gas": amt(gas)}));
    }
    let doms = [dom(g), dom(g), dom(g)];
    for d in doms {
        for o in ["o1", "o2"] {
            if g.r.pct(85) {
                let (r, p) = if g.r.pct(70) { (g.r.pick128(&[1u128, 10_000_000_000, 12_345_678_901, 333_333_333_333]), g.r.pick128(&[0u128, 1, 3, 777])) } else { (rate(g), price(g)) };
                g.ex("u1", o, json!({"k": "SetGasData", "c": [d, amt(r), amt(p)]}));
            }
        }
        if g.r.pct(90) {
            let o = g.r.name(&["o1", "o2"]);
            g.ex("u1", "gp", json!({"k": "SetRoute", "d": d, "r": [o]}));
        }
    }
    for _ in 0..10 + g.r.below(20) {
        let d = if g.r.pct(94) { g.r.pick(&doms) } else { dom(g) };
        let s = users(g);
        match g.r.weigh(&[38, 30, 8, 8, 8, 4, 4]) {
            0 => {
                let snd = g.r.name(&["u1", "u2", "u0x", "zc", "s1", "gp", "u3"]);
                let msg = if g.r.pct(96) { message(3, 1, 5, &snd, d, "r1", raw_body(g)) } else { short_msg(g) };
                let meta = any_meta(g);
                g.q(json!({"a": "gp", "k": "Quote", "meta": meta, "msg": msg}));
                let q = quote_of(g, "gp", &meta, &msg);
                pay(g, &s, &tok, q, pd(&meta, &msg));
                let mut who = vec!["gp".to_string(), s.clone(), snd];
                if meta[0] == "igp" && (meta[2] == 20 || meta[2] == 32) {
                    who.push(meta[3].as_str().unwrap().to_string());
                }
                for a in who {
                    g.bals(&[&a]);
                }
            }
            1 => {
                let gas = amt(g.r.pick128(&[0u128, 1, 2, 1000, 77_777, 1 << 70, u128::MAX]));
                let to = if g.r.pct(90) { g.r.name(&["u2", "zc", "u0x", "gp", "c1"]) } else { g.r.name(&["!bad", "!upper", "!sum"]) };
                let v = g.q(json!({"a": "gp", "k": "QuoteGas", "d": d, "g": gas}));
                let q = if v[0] == "ok" && cc::dec(&v[1]).parse::<u128>().is_ok() { json!([[tok, v[1]]]) } else { json!([]) };
                let id = if g.r.pct(70) { some_msg(g, 3) } else { json!(["id", "ab".repeat(32)]) };
                pay(g, &s, &tok, q, json!({"k": "PayForGas", "id": id, "d": d, "g": gas, "to": to}));
                g.bals(&["gp", &s, "u2", "zc", "u0x", "c1"]);
            }
            2 => {
                let own = if g.r.pct(80) { "u1" } else { "u2" };
                let x = g.r.pick128(&[0u128, 5, 60_000, 1 << 90, u128::MAX]);
                match g.r.below(3) {
                    0 => g.ex(own, "gp", json!({"k": "SetDefaultGas", "g": amt(x)})),
                    1 => g.ex(own, "gp", json!({"k": "SetGas", "cfg": [[d, amt(x)]]})),
                    _ => g.ex(own, "gp", json!({"k": "UnsetGas", "ds": [d]})),
                };
                g.qk("gp", &["DefaultGas"]);
            }
            3 => {
                let o = g.r.name(&["o1", "o2"]);
                let own = if g.r.pct(90) { "u1" } else { "u2" };
                g.ex(own, &o, json!({"k": "SetGasData", "c": [d, amt(rate(g)), amt(price(g))]}));
            }
            4 => {
                let r = g.r.pick(&[json!(["o1"]), json!(["o2"]), json!([]), json!(["gp3"]), json!(["nobody"])]);
                g.ex("u1", "gp", json!({"k": "SetRoute", "d": d, "r": r}));
            }
            5 => {
                let own = if g.r.pct(80) { "u1" } else { "u2" };
                g.ex(own, "gp", json!({"k": "SetBenef", "x": g.r.name(&["u2", "u3", "zc", "!bad", "gp"])}));
                g.qk("gp", &["Benef"]);
            }
            _ => {
                let b = g.peek(json!({"a": "gp", "k": "Benef"}))[1].as_str().unwrap_or("u1").to_string();
                let s = if g.r.pct(60) { b.clone() } else { users(g) };
                if g.r.pct(40) {
                    g.bank("gp", fee_table(g));
                }
                g.ex(&s, "gp", json!({"k": "Claim"}));
                g.bals(&["gp", &b, &s]);
            }
        }
        if g.r.pct(30) {
            let d = g.r.pick(&doms);
            g.q(json!({"a": "gp", "k": "QuoteGas", "d": d, "g": amt(g.r.pick128(&[1u128, 1000, 123_456]))}));
            g.q(json!({"a": "gp", "k": "Oracle", "d": d}));
        }
    }
}
/// around the quote, in the right and wrong coins
fn pay(g: &G, s: &str, tok: &str, q: Value, m: Value) {
    let x = q.as_array().unwrap().first().map(|c| cc::u128_of(&c[1])).unwrap_or(0);
    let other = if tok == "uosmo" { "uatom" } else { "uosmo" };
    let f = match g.r.weigh(&[40, 12, 25, 8, 8, 7]) {
        0 => coins(&[(tok, x)]),
        1 => coins(&[(tok, x.saturating_sub(1))]),
        2 => coins(&[(tok, x.saturating_add(amount(g)))]),
        3 => coins(&[(other, x)]),
        4 => coins(&[(tok, x), (other, 1)]),
        _ => nofunds(),
    };
    // amounts beyond what an account can ever hold stay unfunded
    if f.as_array().unwrap().iter().all(|c| cc::u128_of(&c[1]) < 1u128 << 100) {
        fund(g, s, &f);
    }
    g.exec(s, "gp", m, f);
}

// ------------------------------------------------- gas settings and oracles
pub fn gasconf(g: &G) {
    g.inst("u1", "o1", "oracle", json!({"owner": "u1"}));
    g.inst("u1", "o2", "oracle", json!({"owner": "u2"}));
    let gas = g.r.pick128(&[0u128, 1, 25_000]);
    g.inst("u1", "gp", "igp", json!({"owner": "u1", "denom": "uosmo", "benef": "u3", "gas": amt(gas)}));
    g.inst("u1", "gq", "igp", json!({"owner": "u1", "denom": "uosmo", "benef": "u3", "gas": amt(gas)}));
    let many = g.r.pct(30);
    let dm = |g: &G| -> i64 {
        if many { g.r.below(40) as i64 * 7 - 100 } else { dom(g) }
    };
    for d in g.doms.clone() {
        let o = g.r.name(&["o1", "o2", "gq"]);
        if g.r.pct(60) {
            g.ex("u1", "gp", json!({"k": "SetRoute", "d": d, "r": [o]}));
        }
        if g.r.pct(50) {
            g.ex("u1", "gq", json!({"k": "SetRoute", "d": d, "r": ["o1"]}));
        }
    }
    for _ in 0..10 + g.r.below(30) {
        let own = if g.r.pct(88) { "u1" } else { "u2" };
        let d = if many && g.r.pct(40) { dom(g) } else { dm(g) };
        match g.r.weigh(&[20, 12, 6, 16, 16, 14]) {
            0 => {
                let n = g.r.below(if many { 13 } else { 5 });
                let n = g.r.len(n, 80);
                let cfg: Vec<Value> = (0..n).map(|_| json!([dm(g), amt(g.r.pick128(&[0u128, 1, 77, 1 << 80, u128::MAX]))])).collect();
                g.ex(own, "gp", json!({"k": "SetGas", "cfg": cfg}));
            }
            1 => {
                let ds: Vec<i64> = (0..g.r.below(4)).map(|_| dm(g)).collect();
                g.ex(own, "gp", json!({"k": "UnsetGas", "ds": ds}));
            }
            2 => {
                g.ex(own, "gp", json!({"k": "SetDefaultGas", "g": amt(g.r.pick128(&[0u128, 3, 1 << 66]))}));
            }
            3 => {
                let o = g.r.name(&["o1", "o2"]);
                let s = if g.r.pct(85) { if o == "o1" { "u1" } else { "u2" } } else { own };
                let r = if g.r.pct(20) { 0 } else { rate(g) };
                g.ex(s, &o, json!({"k": "SetGasData", "c": [d, amt(r), amt(price(g))]}));
                g.q(json!({"a": o, "k": "Oracle", "d": d}));
            }
            4 => {
                let o = g.r.name(&["o1", "o2"]);
                let s = if g.r.pct(85) { if o == "o1" { "u1" } else { "u2" } } else { own };
                let n = g.r.below(6);
                let cfg: Vec<Value> = (0..n)
                    .map(|_| {
                        let r = if g.r.pct(8) { 0 } else { rate(g) };
                        json!([dm(g), amt(r), amt(price(g))])
                    })
                    .collect();
                g.ex(s, &o, json!({"k": "SetGasDatas", "cfg": cfg}));
            }
            _ => {
                let r = g.r.pick(&[json!(["o1"]), json!(["o2"]), json!([]), json!(["gq"]), json!(["nobody"])]);
                let a = g.r.pick(&["gp", "gp", "gq"]);
                let r = if a == "gq" && r == json!(["gq"]) { json!(["o1"]) } else { r };
                g.ex(own, a, json!({"k": "SetRoute", "d": d, "r": r}));
            }
        }
        for _ in 0..2 {
            let x = if g.r.pct(60) { d } else { dm(g) };
            for o in ["o1", "o2", "gp"] {
                g.q(json!({"a": o, "k": "Oracle", "d": x}));
            }
            g.q(json!({"a": "gp", "k": "QuoteGas", "d": x, "g": amt(g.r.pick128(&[0u128, 1, 1_000_000, u128::MAX]))}));
            let ds = if g.r.pct(60) { json!([x]) } else { json!([x, dm(g)]) };
            g.q(json!({"a": "gp", "k": "GasFor", "ds": ds}));
            let msg = message(3, 1, 5, "s1", x, "r1", json!(["raw", ""]));
            let meta = any_meta(g);
            g.q(json!({"a": "gp", "k": "Quote", "meta": meta, "msg": msg}));
        }
        let off = if g.r.pct(40) { json!([dm(g)]) } else { json!([]) };
        let lim = if g.r.pct(60) { json!([g.r.pick(&[0, 1, 2, 5, 29, 30, 31, -1])]) } else { json!([]) };
        let ord = g.r.pick(&[json!([]), json!(["asc"]), json!(["desc"])]);
        g.q(json!({"a": "gp", "k": "ListGas", "off": off, "lim": lim, "ord": ord}));
        g.qk("gp", &["DefaultGas"]);
    }
}

// --------------------------------------------------------------------- fee
pub fn fee(g: &G) {
    let x = if g.r.pct(20) { 0 } else { amount(g) };
    let d0 = g.r.name(&TOKS);
    g.inst("u1", "fh", "fee", json!({"owner": "u1", "fee": coin(&d0, x)}));
    for _ in 0..8 + g.r.below(20) {
        let cur = g.peek(json!({"a": "fh", "k": "Fee"}))[1].clone();
        let (d, x) = (cur[0].as_str().unwrap_or("uosmo").to_string(), cc::u128_of(&cur[1]));
        let s = users(g);
        match g.r.weigh(&[52, 16, 16, 6, 10]) {
            0 => {
                let o = g.r.name(&["uosmo", "uatom", "zeta", "Aa"]);
                let f = match g.r.below(9) {
                    0 | 1 => coins(&[(&d, x)]),
                    2 => coins(&[(&d, x.saturating_sub(1))]),
                    3 => coins(&[(&d, x.saturating_add(amount(g)))]),
                    4 => coins(&[(&o, x)]),
                    5 if o != d => coins(&[(&d, x), (&o, 1)]),
                    6 if o != d => coins(&[(&d, x), (&o, amount(g))]),
                    7 => coins(&[(&o, amount(g))]),
                    _ => nofunds(),
                };
                fund(g, &s, &f);
                let msg = if g.r.pct(90) { some_msg(g, 3) } else { short_msg(g) };
                let meta = any_meta(g);
                g.q(json!({"a": "fh", "k": "Quote", "meta": meta, "msg": msg}));
                g.exec(&s, "fh", pd(&meta, &msg), f);
            }
            1 => {
                let s = if g.r.pct(75) { "u1".to_string() } else { s };
                let t = g.r.name(&TOKS);
                let y = if g.r.pct(20) { 0 } else { amount(g) };
                g.ex(&s, "fh", json!({"k": "SetFee", "fee": coin(&t, y)}));
            }
            2 => {
                let own = g.peek(json!({"a": "fh", "k": "Owner"}))[1].as_str().unwrap_or("u1").to_string();
                let s = if g.r.pct(65) { own } else { s };
                let to = match g.r.below(6) {
                    0..=2 => json!([]),
                    3 => json!([g.r.name(&["!bad", "!hrp"])]),
                    _ => json!([g.r.name(&["u2", "u3", "zc", "fh", "u0x"])]),
                };
                g.ex(&s, "fh", json!({"k": "FeeClaim", "to": to}));
            }
            3 => {
                g.bank("fh", fee_table(g));
            }
            _ => {
                if g.r.pct(50) {
                    g.ex("u1", "fh", json!({"k": "InitOwn", "to": "u2"}));
                } else {
                    g.ex("u2", "fh", json!({"k": "ClaimOwn"}));
                }
                g.qk("fh", &["Owner"]);
            }
        }
        g.qk("fh", &["Fee"]);
        g.bals(&["fh", "u1", "u2", "u3", "zc", "u0x"]);
        if g.r.pct(10) {
            g.qk("fh", &["HMailbox"]);
        }
    }
}

// ---------------------------------------------------------------- pausable
pub fn pausable(g: &G) {
    let (a, b) = (g.r.pct(50), g.r.pct(50));
    g.inst("u1", "ph", "hpaus", json!({"owner": "u1", "paused": a}));
    g.inst("u1", "pi", "ipaus", json!({"owner": "u2", "paused": b}));
    for _ in 0..10 + g.r.below(20) {
        let x = g.r.name(&["ph", "pi"]);
        let msg = if g.r.pct(90) { some_msg(g, 3) } else { short_msg(g) };
        let meta = any_meta(g);
        match g.r.weigh(&[40, 30, 6, 6]) {
            0 => {
                let own = g.peek(json!({"a": x, "k": "Owner"}))[1].as_str().unwrap_or("u1").to_string();
                let s = if g.r.pct(70) { own } else { users(g) };
                let k = g.r.pick(&["Pause", "Release"]);
                g.ex(&s, &x, json!({ "k": k }));
            }
            1 => {
                let s = users(g);
                let f = if g.r.pct(30) { fee_table(g) } else { nofunds() };
                fund(g, &s, &f);
                g.exec(&s, "ph", pd(&meta, &msg), f);
            }
            2 => {
                let o = g.r.name(&["u1", "u2"]);
                g.ex(&o, &x, json!({"k": "InitOwn", "to": "u3"}));
            }
            _ => {
                g.ex("u3", &x, json!({"k": "ClaimOwn"}));
            }
        }
        for p in ["ph", "pi"] {
            g.qk(p, &["Paused"]);
        }
        g.q(json!({"a": "pi", "k": "Verify", "meta": meta, "msg": msg}));
        g.q(json!({"a": "pi", "k": "VerifyInfo", "msg": msg}));
        g.q(json!({"a": "ph", "k": "Quote", "meta": meta, "msg": msg}));
        if g.r.pct(15) {
            g.qk("pi", &["ModuleType", "Owner"]);
            g.qk("ph", &["HMailbox", "Owner"]);
            g.bals(&["ph"]);
        }
    }
}
