//! Everything together: two chains, each with a mailbox, a tree of real hooks,
//! a tree of real ISMs, a validator announcement, a warp route; users,
//! validators, relayers and owners act in any order.
use crate::codec as cc;
use crate::fam_admin::*;
use crate::fam_hooks::*;
use crate::fam_isms::*;
use crate::fam_mailbox::*;
use crate::gen::*;
use serde_json::{json, Value};

struct Chain {
    x: &'static str, // suffix of this chain's names
    dom: i64,
    far: i64,
    tok: Tok,
}
enum Tok {
    Bank(String),
    Cw(String),
}
impl Chain {
    fn n(&self, s: &str) -> String {
        format!("{s}{}", self.x)
    }
}
fn owner_of(g: &G, a: &str) -> String {
    g.peek(json!({"a": a, "k": "Owner"}))[1].as_str().unwrap_or("u1").to_string()
}
fn keys(g: &G) -> Value {
    let mut ks = vec!["k1", "k2", "k3"];
    g.r.shuffle(&mut ks);
    ks.truncate(1 + g.r.below(3));
    Value::Array(ks.iter().map(|k| json!([20, k])).collect())
}
fn chain(g: &G, x: &'static str, dom: i64, far: i64, bridged: bool) -> Chain {
    let n = |s: &str| format!("{s}{x}");
    let own = "u1";
    g.inst(own, &n("mb"), "mailbox", json!({"owner": own, "dom": dom}));
    // hooks
    g.inst(own, &n("or"), "oracle", json!({"owner": own}));
    let rate = g.r.pick128(&[10_000_000_000u128, 1, 15_000_000_000, 123_456_789_012]);
    g.ex(own, &n("or"), json!({"k": "SetGasData", "c": [far, amt(rate), amt(g.r.pick128(&[0u128, 1, 3, 1000]))]}));
    let tok = g.r.name(&["uosmo", "uosmo", "uatom"]);
    g.inst(own, &n("gp"), "igp", json!({"owner": own, "denom": tok, "benef": "u3", "gas": amt(g.r.pick128(&[0u128, 1, 25_000]))}));
    g.ex(own, &n("gp"), json!({"k": "SetRoute", "d": far, "r": [n("or")]}));
    g.inst(own, &n("fe"), "fee", json!({"owner": own, "fee": coin("uosmo", g.r.below(6) as u128)}));
    g.inst(own, &n("mk"), "merkle", json!({"mb": n("mb")}));
    if g.r.pct(15) {
        // after a very long history
        let b = g.brink();
        g.poke(&n("mb"), b);
    }
    g.inst(own, &n("ph"), "hpaus", json!({"owner": own, "paused": g.r.pct(8)}));
    let mut hs = vec![n("mk"), n("ph"), n("gp"), n("fe"), n("mk")];
    g.r.shuffle(&mut hs);
    hs.truncate(1 + g.r.below(3));
    g.inst(own, &n("ag"), "hagg", json!({"owner": own, "hooks": hs}));
    let rk = g.r.pick(&["hroute", "hcustom", "hfall"]);
    g.inst(own, &n("rt"), rk, json!({ "owner": own }));
    for d in [dom, far] {
        let h = g.r.name(&[&n("gp"), &n("mk"), &n("ag"), &n("fe")]);
        g.ex(own, &n("rt"), json!({"k": "SetRoute", "d": d, "r": [h]}));
    }
    if rk == "hfall" {
        g.ex(own, &n("rt"), json!({"k": "SetFallback", "x": n("ph")}));
    }
    if rk == "hcustom" && g.r.pct(60) {
        g.ex(own, &n("rt"), json!({"k": "Register", "regs": [[far, [32, "r1"], n("fe")]], "one": g.r.pct(50)}));
    }
    let r = g.r.name(&["mk", "ag", "fe", "ph", "mk"]);
    g.ex(own, &n("mb"), json!({"k": "SetRequiredHook", "x": n(&r)}));
    let d = g.r.name(&["gp", "rt", "ag", "mk", "rt"]);
    g.ex(own, &n("mb"), json!({"k": "SetDefaultHook", "x": n(&d)}));
    // isms
    g.inst(own, &n("ms"), "imulti", json!({ "owner": own }));
    for d in [far, dom] {
        let ks = keys(g);
        let t = 1 + g.r.below(ks.as_array().unwrap().len());
        g.ex(own, &n("ms"), json!({"k": "SetVals", "d": d, "t": t, "vals": ks}));
    }
    g.inst(own, &n("ip"), "ipaus", json!({"owner": own, "paused": g.r.pct(8)}));
    g.mock(&n("ge"), json!({"vmode": "genuine"}));
    let mut is = vec![n("ms"), n("ip"), n("ge")];
    g.r.shuffle(&mut is);
    is.truncate(1 + g.r.below(3));
    let t = 1 + g.r.below(is.len());
    g.inst(own, &n("ig"), "iagg", json!({"owner": own, "isms": is, "t": t}));
    let y = g.r.name(&["ig", "ms", "ig", "ge"]);
    let z = g.r.name(&["ip", "ms", "ge"]);
    g.inst(own, &n("ir"), "iroute", json!({"owner": own, "isms": [[far, n(&y)], [dom, n(&z)]]}));
    let i = g.r.name(&["ir", "ig", "ms", "ge"]);
    g.ex(own, &n("mb"), json!({"k": "SetDefaultIsm", "x": n(&i)}));
    g.inst(own, &n("va"), "va", json!({"mb": n("mb")}));
    // tokens
    let mode = if bridged { "bridged" } else { "collateral" };
    let wr = n("w");
    let tok = if g.r.pct(50) {
        let d = if bridged { "utok" } else { "uosmo" };
        g.inst(own, &wr, "wnat", json!({"owner": own, "mb": n("mb"), "mode": mode, "denom": d}));
        Tok::Bank(if bridged { format!("F/{wr}/utok") } else { "uosmo".into() })
    } else {
        if !bridged {
            let b: Vec<Value> = ["u1", "u2", "zc"].iter().map(|u| json!([u, amt(5000)])).collect();
            g.inst(own, &n("cw"), "cw20", json!({"minter": "u9", "bals": b}));
        }
        g.inst(own, &wr, "wcw", json!({"owner": own, "mb": n("mb"), "mode": mode, "tok": if bridged { String::new() } else { n("cw") }}));
        Tok::Cw(if bridged { format!("{wr}.tok") } else { n("cw") })
    };
    if g.r.pct(35) {
        let i = g.r.name(&["ig", "ms", "ge", "ir"]);
        g.ex(own, &wr, json!({"k": "SetIsm", "x": n(&i)}));
    }
    if g.r.pct(30) {
        let h = g.r.name(&["ag", "gp", "rt"]);
        g.ex(own, &wr, json!({"k": "SetHook", "x": n(&h)}));
    }
    Chain { x, dom, far, tok }
}

const WHO: [&str; 4] = ["u1", "u2", "zc", "u0x"];

fn money(g: &G, c: &Chain, who: &[&str]) {
    g.bals(&[&c.n("mb"), &c.n("ag"), &c.n("gp"), &c.n("fe"), &c.n("rt"), &c.n("w")]);
    for w in who {
        match &c.tok {
            Tok::Bank(_) => g.bals(&[w]),
            Tok::Cw(t) => {
                g.q(json!({"a": t, "k": "CBal", "x": w}));
            }
        }
    }
    if let Tok::Cw(t) = &c.tok {
        g.qk(t, &["CSupply"]);
        g.q(json!({"a": t, "k": "CBal", "x": c.n("w")}));
    }
}
fn pay_for(g: &G, s: &str, q: &Value) -> Value {
    let f = match g.r.weigh(&[80, 20]) {
        0 => q.clone(),
        _ => attach(g, &[q.clone()]),
    };
    if f.as_array().unwrap().iter().all(|c| cc::u128_of(&c[1]) < 1u128 << 100) {
        fund(g, s, &f);
    }
    f
}
fn deliver(g: &G, cs: &[Chain], m: &Value) -> bool {
    let c = cs.iter().find(|c| json!(c.dom) == m["d"]).unwrap_or(&cs[0]);
    let c = if g.r.pct(97) { c } else { g.r.pick(&[&cs[0], &cs[1]]) };
    let mb = c.n("mb");
    // the metadata the ISM in force might accept
    let im = g.peek(json!({"a": mb, "k": "RecipientIsm", "x": m["r"]}));
    let meta = match im[1].as_str() {
        Some(i) if im[0] == "ok" && g.w().k.contains_key(&cc::addr(i)) => part_for(g, i, m, std::slice::from_ref(m)),
        _ => raw_meta(g),
    };
    let s = users(g);
    let ok = g.ex(&s, &mb, json!({"k": "Process", "meta": meta, "msg": m}));
    g.q(json!({"a": mb, "k": "Delivered", "id": ["m", m]}));
    if g.r.pct(20) {
        g.q(json!({"a": mb, "k": "RecipientIsm", "x": m["r"]}));
    }
    let to = m["b"][1].as_str().unwrap_or("");
    if m["b"][0] == "tm" && !to.starts_with('?') {
        money(g, c, &[to]);
    }
    ok
}

pub fn system(g: &G) {
    let da = dom(g);
    let db = loop {
        let d = dom(g);
        if d != da {
            break d;
        }
    };
    g.mock("r1", json!({}));
    g.mock("r2", json!({}));
    let cs = [chain(g, "a", da, db, g.r.pct(20)), chain(g, "b", db, da, g.r.pct(80))];
    for c in &cs {
        let o = if c.x == "a" { "wb" } else { "wa" };
        g.ex("u1", &c.n("w"), json!({"k": "SetRoute", "d": c.far, "r": [[32, o]]}));
    }
    if g.r.pct(30) {
        let i = g.r.name(&["geb", "msb", "igb", "ira"]);
        g.remock("r1", json!({"ism": [i]}));
    }
    for u in WHO {
        g.bank(u, coins(&[("uosmo", 1 << 40), ("uatom", 100_000)]));
    }
    let mut pool: Vec<Value> = vec![];
    for _ in 0..22 + g.r.below(30) {
        let c = &cs[g.r.below(2)];
        let o = if c.x == "a" { &cs[1] } else { &cs[0] };
        let mb = c.n("mb");
        let s = g.r.name(&WHO);
        match g.r.weigh(&[22, 20, 34, 12, 4, 5, 3, 5, 3]) {
            0 => {
                let d = if g.r.pct(92) { o.dom } else { g.r.pick(&[c.dom, dom(g)]) };
                let r = g.r.name(&["r1", "r2", "r1", "r2", "u3", "wa", "wb"]);
                let hook = if g.r.pct(15) { json!([c.n(&g.r.name(&["mk", "gp", "ag", "rt", "fe", "ph"]))]) } else { json!([]) };
                let meta = if g.r.pct(40) { json!([crate::fam_hooks::any_meta(g)]) } else { json!([]) };
                let b = if r.starts_with('w') { raw_body(g) } else { any_body(g) };
                let m = json!({"k": "Dispatch", "d": d, "r": [32, r], "b": b, "hook": hook, "meta": meta});
                let mut qm = m.clone();
                qm["a"] = json!(mb);
                qm["k"] = json!("MQuote");
                qm["sender"] = json!(s);
                let q = g.q(qm);
                let q = if q[0] == "ok" { q[1].clone() } else { json!([]) };
                let f = pay_for(g, &s, &q);
                if g.exec(&s, &mb, m, f) {
                    pool.push(g.data()[0].clone());
                }
                g.qk(&mb, &["Nonce", "LatestId"]);
                g.qk(&c.n("mk"), &["Count", "Root", "Checkpoint"]);
                g.bals(&[&s]);
                money(g, c, &[]);
            }
            1 => {
                let have = |w: &str| match &c.tok {
                    Tok::Bank(d) => g.w().balance(&cc::addr(w), &cc::denom(d)),
                    Tok::Cw(t) => cc::u128_of(&g.peek(json!({"a": t, "k": "CBal", "x": w}))[1]),
                };
                let mut s = s;
                if have(&s) == 0 {
                    if let Some(w) = WHO.iter().find(|w| have(w) > 0) {
                        s = w.to_string();
                    }
                }
                let x = if g.r.pct(95) { 1 + g.r.u128() % have(&s).clamp(1, 900) } else { have(&s).saturating_add(1) };
                let r = g.r.name(&WHO);
                let hook = if g.r.pct(10) { json!([c.n(&g.r.name(&["mk", "gp", "fe"]))]) } else { json!([]) };
                let meta = if g.r.pct(25) { json!([crate::fam_hooks::any_meta(g)]) } else { json!([]) };
                // what the mailbox wants for such a message
                let wr = c.n("w");
                let set = g.peek(json!({"a": wr, "k": "GetHook"}))[1].clone();
                let hk = if hook == json!([]) { set } else { hook.clone() };
                let q = g.peek(json!({"a": mb, "k": "MQuote", "sender": wr, "d": o.dom, "r": [32, o.n("w")], "b": ["tm", r, amt(x), ""], "hook": hk, "meta": meta}));
                let mut f: Vec<(String, u128)> = vec![];
                if q[0] == "ok" {
                    for e in q[1].as_array().unwrap() {
                        f.push((e[0].as_str().unwrap().into(), cc::u128_of(&e[1])));
                    }
                }
                match &c.tok {
                    Tok::Bank(d) => match f.iter_mut().find(|e| &e.0 == d) {
                        Some(e) => e.1 = e.1.saturating_add(x),
                        None => f.push((d.clone(), x)),
                    },
                    Tok::Cw(t) => {
                        g.ex(&s, t, json!({"k": "IncAllow", "sp": wr, "amt": amt(x)}));
                    }
                }
                if g.r.pct(8) && !f.is_empty() {
                    let i = g.r.below(f.len());
                    f[i].1 = f[i].1.saturating_sub(1);
                }
                let f: Vec<(&str, u128)> = f.iter().map(|(d, x)| (d.as_str(), *x)).collect();
                let f = coins(&f);
                let k = json!({"k": "TransferRemote", "d": if g.r.pct(96) { o.dom } else { dom(g) }, "r": [32, r], "amt": amt(x), "hook": hook, "meta": meta});
                if g.exec(&s, &wr, k, f) {
                    let m = g.q(json!({"a": mb, "k": "LatestId"}))[1].clone();
                    if m.is_object() {
                        pool.push(m);
                    }
                }
                g.qk(&c.n("mk"), &["Count", "Root"]);
                g.bals(&[&s]);
                money(g, c, &[&s]);
            }
            2 => {
                if pool.is_empty() {
                    continue;
                }
                let mut m = if g.r.pct(60) { pool[g.r.below(pool.len()).max(g.r.below(pool.len()))].clone() } else { g.r.pick(&pool) };
                if g.r.pct(10) {
                    match g.r.below(6) {
                        0 => m["n"] = json!(cc::w32(&m["n"]).wrapping_add(1) as i32),
                        1 => m["o"] = json!(dom(g)),
                        2 => m["s"] = json!(g.r.name(&["wa", "wb", "u2"])),
                        3 if m["b"][1].as_str().unwrap().len() < 128 => m["r"] = json!(g.r.name(&["wa", "wb", "r1", "r2"])),
                        4 => m["b"] = json!(["tm", g.r.name(&WHO), amt(400), ""]),
                        _ => m["v"] = json!(2),
                    }
                }
                deliver(g, &cs, &m);
            }
            3 => {
                // owners at work
                let (a, m) = match g.r.below(15) {
                    0 => ("mb", json!({"k": "SetDefaultIsm", "x": c.n(&g.r.name(&["ir", "ig", "ms", "ge", "ip"]))})),
                    1 => ("mb", json!({"k": "SetDefaultHook", "x": c.n(&g.r.name(&["gp", "rt", "ag", "mk"]))})),
                    2 => ("mb", json!({"k": "SetRequiredHook", "x": c.n(&g.r.name(&["mk", "ag", "fe", "ph"]))})),
                    3 => ("fe", json!({"k": "SetFee", "fee": coin(&g.r.name(&["uosmo", "uatom"]), g.r.below(5) as u128)})),
                    4 => ("ag", json!({"k": "SetHooks", "hooks": [c.n("mk"), c.n(&g.r.name(&["gp", "fe", "ph"]))]})),
                    5 => ("gp", json!({"k": "SetGas", "cfg": [[o.dom, amt(g.r.pick128(&[0u128, 5, 100_000]))]]})),
                    6 => ("or", json!({"k": "SetGasData", "c": [o.dom, amt(rate(g)), amt(g.r.below(4) as u128)]})),
                    7 => ("ig", json!({"k": "SetIsms", "isms": [c.n("ms"), c.n(&g.r.name(&["ip", "ge"]))], "t": 1 + g.r.below(2)})),
                    8 | 9 => {
                        let ks = keys(g);
                        let t = 1 + g.r.below(ks.as_array().unwrap().len());
                        ("ms", json!({"k": "SetVals", "d": o.dom, "t": t, "vals": ks}))
                    }
                    10 => ("ir", json!({"k": "SetIsmRoute", "d": o.dom, "x": c.n(&g.r.name(&["ig", "ms", "ge", "ip"]))})),
                    11 => ("rt", json!({"k": "SetRoute", "d": o.dom, "r": if g.r.pct(80) { json!([c.n(&g.r.name(&["gp", "mk", "fe", "ph"]))]) } else { json!([]) }})),
                    12 => ("rt", json!({"k": "Register", "regs": [[o.dom, [32, g.r.name(&["r1", "r2", "wa", "wb"])], c.n("fe")]], "one": g.r.pct(50)})),
                    13 => ("w", json!({"k": "SetIsm", "x": c.n(&g.r.name(&["ig", "ms", "ge", "ir"]))})),
                    _ => ("w", json!({"k": "SetRoute", "d": o.dom, "r": g.r.pick(&[json!([]), json!([[32, o.n("w")]]), json!([[32, o.n("w")]]), json!([[32, "r1"]])])})),
                };
                let a = c.n(a);
                let s = if g.r.pct(80) { owner_of(g, &a) } else { s };
                g.ex(&s, &a, m);
                let kind = g.w().kind_of(&cc::addr(&a));
                settings(g, &kind, &a);
            }
            4 => {
                let a = c.n(&g.r.name(&["ph", "ip"]));
                let s = owner_of(g, &a);
                let k = g.r.pick(&["Pause", "Release", "Release"]);
                g.ex(&s, &a, json!({ "k": k }));
                g.qk(&a, &["Paused"]);
            }
            5 => {
                let a = c.n(&g.r.name(&["mb", "ms", "w", "fe", "gp", "ig", "ph", "rt"]));
                let pend = g.peek(json!({"a": a, "k": "Pending"}))[1].get(0).and_then(|x| x.as_str()).map(|x| x.to_string());
                match pend {
                    Some(p) if g.r.pct(60) => g.ex(&p, &a, json!({"k": "ClaimOwn"})),
                    Some(_) => g.ex(&owner_of(g, &a), &a, json!({"k": "RevokeOwn"})),
                    None => g.ex(&owner_of(g, &a), &a, json!({"k": "InitOwn", "to": g.r.name(&["u2", "u3", "zc"])})),
                };
                g.qk(&a, &["Owner", "Pending"]);
            }
            6 => {
                // an upgrade in the middle of it all
                let a = c.n(&g.r.name(&["mb", "w", "mk", "gp", "ms", "ig", "ir", "rt", "ag", "fe", "va"]));
                let kind = g.w().kind_of(&cc::addr(&a));
                let v = if g.r.pct(60) { "0.0.6".to_string() } else { near_version(g, g.ver[0].as_str().unwrap()) };
                let pv = parse_version(&v);
                g.call(json!({"t": "setver", "s": "", "a": a, "m": {"cn": kind, "cvs": v, "cv": pv}, "f": []}));
                g.call(json!({"t": "migrate", "s": "u1", "a": a, "m": {"k": "Migrate"}, "f": []}));
                g.qk(&a, &["ver"]);
                settings(g, &kind, &a);
            }
            7 => match g.r.below(4) {
                0 => {
                    let a = c.n("gp");
                    let b = g.peek(json!({"a": a, "k": "Benef"}))[1].as_str().unwrap_or("u3").to_string();
                    g.ex(&b, &a, json!({"k": "Claim"}));
                    g.bals(&[&a, &b]);
                }
                1 => {
                    let a = c.n("fe");
                    let s = owner_of(g, &a);
                    g.ex(&s, &a, json!({"k": "FeeClaim", "to": g.r.pick(&[json!([]), json!(["u3"])])}));
                    g.bals(&[&a, &s, "u3"]);
                }
                2 if !pool.is_empty() => {
                    let m = g.r.pick(&pool);
                    let a = c.n("gp");
                    let gas = amt(g.r.pick128(&[1u128, 1000, 77_777]));
                    let q = g.q(json!({"a": a, "k": "QuoteGas", "d": m["d"], "g": gas}));
                    let f = pay_for(g, &s, &if q[0] == "ok" && q[1] != json!([]) { json!([["uosmo", q[1]]]) } else { json!([]) });
                    g.exec(&s, &a, json!({"k": "PayForGas", "id": m, "d": m["d"], "g": gas, "to": s}), f);
                    g.bals(&[&a, &s]);
                }
                _ => {
                    let m = pool.last().cloned().unwrap_or_else(|| some_msg(g, c.dom));
                    let a = c.n(&g.r.name(&["mk", "fe", "ag", "rt", "gp", "ph"]));
                    let meta = crate::fam_hooks::any_meta(g);
                    notify(g, &s, &a, &meta, &m);
                    g.qk(&c.n("mk"), &["Count", "Root"]);
                    money(g, c, &[]);
                }
            },
            _ => {
                let k = g.r.name(&["k1", "k2"]);
                let loc = g.r.name(&["s3://a", "s3://b"]);
                let (d, m) = if g.r.pct(80) { (c.dom, mb.clone()) } else { (o.dom, o.n("mb")) };
                g.ex(&s, &c.n("va"), json!({"k": "Announce", "v": [20, k], "loc": loc, "sig": {"key": k, "dom": d, "mb": m, "loc": loc, "kind": "ok"}}));
                settings(g, "va", &c.n("va"));
            }
        }
    }
    // whatever is left is delivered, or shown again that it was
    for m in pool {
        deliver(g, &cs, &m);
    }
}
