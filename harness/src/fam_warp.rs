use crate::codec as cc;
use crate::fam_hooks::*;
use crate::fam_mailbox::*;
use crate::gen::*;
use serde_json::{json, Value};

struct Side {
    mb: &'static str,
    wr: &'static str,
    dom: i64,
    native: bool,
    denom: String, // bank denom or token contract
}

fn side(g: &G, mb: &'static str, wr: &'static str, dom: i64, bridged: bool) -> Side {
    let native = g.r.pct(50);
    g.inst("u1", mb, "mailbox", json!({"owner": "u1", "dom": dom}));
    g.ex("u1", mb, json!({"k": "SetDefaultIsm", "x": "gen"}));
    g.ex("u1", mb, json!({"k": "SetDefaultHook", "x": "hk"}));
    g.ex("u1", mb, json!({"k": "SetRequiredHook", "x": "hreq"}));
    let denom = match (native, bridged) {
        (true, true) => format!("F/{wr}/utok"),
        (true, false) => "uosmo".to_string(),
        (false, true) => format!("{wr}.tok"),
        (false, false) => "cw".to_string(),
    };
    if native {
        let d = if bridged { "utok" } else { "uosmo" };
        g.inst("u1", wr, "wnat", json!({"owner": "u1", "mb": mb, "mode": if bridged { "bridged" } else { "collateral" }, "denom": d}));
    } else {
        if !bridged {
            let b: Vec<Value> = ["u1", "u2", "u3", "zc"].iter().map(|u| json!([u, amt(1 << 70)])).collect();
            g.inst("u1", "cw", "cw20", json!({"minter": "u9", "bals": b}));
        }
        g.inst("u1", wr, "wcw", json!({"owner": "u1", "mb": mb, "mode": if bridged { "bridged" } else { "collateral" }, "tok": if bridged { "" } else { "cw" }}));
    }
    Side { mb, wr, dom, native, denom }
}

const PEOPLE: [&str; 6] = ["u1", "u2", "u3", "zc", "u0x", "zd"];

fn holds(g: &G, s: &Side, who: &str) -> u128 {
    if s.native {
        g.w().balance(&cc::addr(who), &cc::denom(&s.denom))
    } else {
        let v = g.peek(json!({"a": s.denom, "k": "CBal", "x": who}));
        cc::u128_of(&v[1])
    }
}
fn money(g: &G, sides: &[&Side]) {
    for s in sides {
        if s.native {
            g.bals(&[s.wr, s.mb]);
        } else {
            g.qk(&s.denom, &["CSupply"]);
            g.q(json!({"a": s.denom, "k": "CBal", "x": s.wr}));
        }
    }
}

/// a pair of warp routes with honest and forged traffic
pub fn warp(g: &G) {
    let (da, db) = (dom(g), 4242);
    g.mock("gen", json!({"vmode": "genuine"}));
    let reqfee = if g.r.pct(60) { json!([]) } else { coins(&[("uosmo", 3)]) };
    g.mock("hreq", json!({"fee": reqfee, "hmode": "ok"}));
    g.mock("hk", json!({}));
    g.mock("h1", json!({}));
    let a = side(g, "mba", "wa", da, g.r.pct(15));
    let b = side(g, "mbb", "wb", db, g.r.pct(85));
    if g.r.pct(6) {
        let x = g.r.name(&["!bad", ""]);
        g.inst("u1", "wx", "wnat", json!({"owner": "u1", "mb": x, "mode": "collateral", "denom": "uosmo"}));
        g.inst("u1", "wy", "wcw", json!({"owner": "u1", "mb": "mba", "mode": "collateral", "tok": x}));
    }
    g.ex("u1", "wa", json!({"k": "SetRoute", "d": db, "r": [[32, "wb"]]}));
    g.ex("u1", "wb", json!({"k": "SetRoute", "d": da, "r": [[32, "wa"]]}));
    for u in ["u1", "u2", "u3", "zc"] {
        g.bank(u, coins(&[("uosmo", 1 << 70), ("uatom", 1000)]));
    }
    let sides = [&a, &b];
    if g.r.pct(12) {
        // a route to itself, over the local domain
        let s = g.r.pick(&sides);
        g.ex("u1", s.wr, json!({"k": "SetRoute", "d": s.dom, "r": [[32, s.wr]]}));
    }
    // with enrolment left alone the books must balance
    let honest = g.r.pct(50);
    let mut flight: Vec<Value> = vec![];
    let mut done: Vec<Value> = vec![];
    for _ in 0..12 + g.r.below(24) {
        let mut s = g.r.pick(&sides);
        if g.r.pct(80) && !PEOPLE.iter().any(|u| holds(g, s, u) > 0) {
            s = if s.wr == "wa" { &b } else { &a };
        }
        let o = if s.wr == "wa" { &b } else { &a };
        match g.r.weigh(&if honest { [50, 42, 4, 0, 4, 0] } else { [42, 30, 8, 10, 3, 7] }) {
            0 => {
                let mut who = g.r.name(&["u1", "u2", "u3", "zc", "u0x"]);
                if g.r.pct(90) {
                    let rich: Vec<&str> = PEOPLE.iter().copied().filter(|u| holds(g, s, u) > 0).collect();
                    if !rich.is_empty() {
                        who = g.r.name(&rich);
                    }
                }
                if g.w().balance(&cc::addr(&who), &cc::denom("uosmo")) < 100 {
                    g.bank(&who, coins(&[("uosmo", 1 << 70), ("uatom", 1000)]));
                }
                let have = holds(g, s, &who);
                let x = match g.r.below(20) {
                    0 => 0,
                    1 => have,
                    2 if g.r.pct(50) => have.saturating_add(1),
                    3 if g.r.pct(30) => u128::MAX,
                    _ if have > 0 => 1 + (g.r.u128() % have.min(5000)),
                    _ => 5,
                };
                let r = match g.r.below(16) {
                    0 => g.r.pick(&[json!([20, "u3"]), json!([0, "x"]), json!([31, format!("x{}", "02".repeat(31))])]),
                    1 => json!([33, format!("x{}", "02".repeat(33))]),
                    3 => json!([32, g.r.name(&["wa", "wb", "mba", "hk"])]),
                    _ => json!([32, g.r.name(&PEOPLE)]),
                };
                let hook = match g.r.below(8) {
                    0 => json!(["h1"]),
                    1 => json!([g.r.name(&["nobody", "!bad", "hk", "h1", "hk"])]),
                    _ => json!([]),
                };
                let meta = if g.r.pct(30) { json!([raw_meta(g)]) } else { json!([]) };
                let d = match g.r.below(20) { 0 => s.dom, 1 => dom(g), _ => o.dom };
                if !s.native && g.r.pct(94) {
                    let al = if g.r.pct(93) { x } else { x / 2 };
                    g.ex(&who, &s.denom, json!({"k": "IncAllow", "sp": s.wr, "amt": amt(al)}));
                }
                // funds: the amount, less, more, other coins, the hooks' fee
                let fee: u128 = quote_of(g, "hreq", &json!(["raw", ""]), &message(3, 0, 0, "u1", 0, "u1", json!(["raw", ""])))
                    .get(0).map(|c| cc::u128_of(&c[1])).unwrap_or(0);
                let mut f: Vec<(String, u128)> = vec![];
                if s.native {
                    let y = match g.r.below(8) {
                        0 => x.saturating_sub(1),
                        1 => x.saturating_add(4),
                        _ => x,
                    };
                    f.push((s.denom.clone(), y));
                }
                if fee > 0 && g.r.pct(90) {
                    if let Some(e) = f.iter_mut().find(|e| e.0 == "uosmo") {
                        e.1 = e.1.saturating_add(fee);
                    } else {
                        f.push(("uosmo".into(), fee));
                    }
                }
                if g.r.pct(12) {
                    f.push(("uatom".into(), 2));
                }
                let f: Vec<(&str, u128)> = f.iter().map(|(d, x)| (d.as_str(), *x)).collect();
                let f = coins(&f);
                g.exec(&who, s.wr, json!({"k": "TransferRemote", "d": d, "r": r, "amt": amt(x), "hook": hook, "meta": meta}), f);
                let n = cc::w32(&g.peek(json!({"a": s.mb, "k": "Nonce"}))[1]);
                if n > 0 {
                    let m = g.peek(json!({"a": s.mb, "k": "LatestId"}))[1].clone();
                    if m.is_object() && !flight.contains(&m) && !done.contains(&m) {
                        flight.push(m);
                    }
                }
                money(g, &[s]);
                if s.native {
                    g.bals(&[&who]);
                } else {
                    g.q(json!({"a": s.denom, "k": "CBal", "x": who}));
                    g.q(json!({"a": s.denom, "k": "CAllow", "o": who, "sp": s.wr}));
                    g.bals(&[s.wr]);
                }
                g.bals(&["hreq", "hk", "h1"]);
            }
            1 => {
                let pool = if flight.is_empty() || g.r.pct(12) { &done } else { &flight };
                if pool.is_empty() {
                    continue;
                }
                let m = g.r.pick(pool);
                let mb = if m["d"] == json!(a.dom) { "mba" } else { "mbb" };
                let who = users(g);
                let meta = raw_meta(g);
                if g.ex(&who, mb, json!({"k": "Process", "meta": meta, "msg": m})) {
                    flight.retain(|x| x != &m);
                    done.push(m.clone());
                } else if g.why().contains("nauthorized") || g.r.pct(30) {
                    flight.retain(|x| x != &m);
                }
                let to = m["b"][1].as_str().unwrap_or("u1").to_string();
                let t = if mb == "mba" { &a } else { &b };
                money(g, &[t]);
                if t.native {
                    g.bals(&[&to]);
                } else if !to.starts_with('?') {
                    g.q(json!({"a": t.denom, "k": "CBal", "x": to}));
                }
            }
            2 => {
                // messages other contracts or people dispatched to the route
                let who = g.r.name(&["u1", "u2", "zc"]);
                let x = if g.r.pct(90) { amt(7) } else { cc::limbs("340282366920938463463374607431768211456") };
                let body = if g.r.pct(85) { json!(["tm", g.r.name(&PEOPLE), x, g.r.name(&["", "", "ab"])]) } else { raw_body(g) };
                g.bank(&who, coins(&[("uosmo", 3)]));
                let f = if reqfee == json!([]) { nofunds() } else { coins(&[("uosmo", 3)]) };
                g.exec(&who, o.mb, json!({"k": "Dispatch", "d": s.dom, "r": [32, s.wr], "b": body, "hook": [], "meta": []}), f);
                if let Some(m) = g.data().get(0).cloned() {
                    if m.is_object() {
                        flight.push(m);
                    }
                }
                money(g, &[s]);
            }
            3 => {
                // calls to handle by whoever, about whatever
                let who = if g.r.pct(30) { s.mb.to_string() } else { g.r.name(&["u1", "u2", "mba", "mbb", "gen"]) };
                let snd = match g.r.below(8) {
                    0 => json!([20, "u2"]),
                    1 => json!([0, "x"]),
                    2 => json!([32, s.wr]),
                    _ => json!([32, o.wr]),
                };
                let or = if g.r.pct(80) { o.dom } else { dom(g) };
                let x = match g.r.below(6) {
                    0 => cc::limbs("340282366920938463463374607431768211456"),
                    1 => amt(0),
                    2 => amt(1 << 60),
                    _ => amt(1 + g.r.below(40) as u128),
                };
                let body = if g.r.pct(90) { json!(["tm", g.r.name(&PEOPLE), x, g.r.name(&["", "", "ab"])]) } else { raw_body(g) };
                let to = body[1].as_str().unwrap().to_string();
                g.exec(&who, s.wr, json!({"k": "Handle", "o": or, "s": snd, "b": body}), nofunds());
                money(g, &[s]);
                if body[0] == "tm" && s.native {
                    g.bals(&[&to]);
                } else if body[0] == "tm" {
                    g.q(json!({"a": s.denom, "k": "CBal", "x": to}));
                }
            }
            4 => {
                let hm = if g.r.pct(15) { "fail" } else { "ok" };
                let h = g.r.name(&["hk", "h1"]);
                g.remock(&h, json!({ "hmode": hm }));
            }
            _ => {
                let own = if g.r.pct(85) { "u1" } else { "u2" };
                let m = match g.r.below(6) {
                    0 => json!({"k": "SetHook", "x": g.r.name(&["h1", "hk", "nobody", "!bad"])}),
                    1 => json!({"k": "SetIsm", "x": g.r.name(&["gen", "nobody", "!bad"])}),
                    2 => json!({"k": "SetMailbox", "x": g.r.name(&["mba", "mbb", "u2"])}),
                    3 => json!({"k": "SetRoute", "d": o.dom, "r": g.r.pick(&[json!([]), json!([[32, o.wr]]), json!([[32, "u2"]])])}),
                    4 => json!({"k": "SetRoute", "d": o.dom, "r": g.r.pick(&[json!([[20, "u2"]]), json!([[0, "x"]])])}),
                    _ => json!({"k": "SetRoutes", "set": [[o.dom, [[32, o.wr]]], [dom(g), [[32, "u3"]]]]}),
                };
                g.ex(own, s.wr, m);
                g.qk(s.wr, &["GetMailbox", "GetHook", "GetIsm", "Ism", "TokType", "TokMode", "Domains"]);
                g.q(json!({"a": s.wr, "k": "GetRoute", "d": o.dom}));
            }
        }
        if g.r.pct(10) {
            money(g, &sides);
            g.qk("wa", &["Ism", "GetHook", "TokType", "TokMode"]);
            g.qk("wb", &["Ism", "GetHook", "TokType", "TokMode"]);
        }
    }
    money(g, &sides);
}
