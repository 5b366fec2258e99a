use crate::chain::KINDS;
use crate::codec as cc;
use crate::fam_hooks::*;
use crate::fam_mailbox::*;
use crate::gen::*;
use serde_json::{json, Value};

/// one contract of this kind
pub fn create(g: &G, kind: &str, a: &str, owner: &str) -> bool {
    let m = match kind {
        "mailbox" => json!({"dom": dom(g)}),
        "va" | "merkle" => json!({"mb": "mb"}),
        "hagg" => json!({"hooks": ["x1"]}),
        "fee" => json!({"fee": coin("uosmo", 3)}),
        "hpaus" | "ipaus" => json!({"paused": g.r.pct(30)}),
        "igp" => json!({"denom": "uosmo", "benef": "u3", "gas": amt(7)}),
        "iagg" => json!({"isms": ["x1", "x2"], "t": 1}),
        "iroute" => json!({"isms": [[5, "x1"]]}),
        "wnat" => {
            let mode = g.r.pick(&["bridged", "collateral"]);
            json!({"mb": "mb", "mode": mode, "denom": if mode == "bridged" { "utok" } else { "uosmo" }})
        }
        "wcw" => {
            let mode = g.r.pick(&["bridged", "collateral"]);
            json!({"mb": "mb", "mode": mode, "tok": if mode == "bridged" { "" } else { "cw" }})
        }
        _ => json!({}),
    };
    let mut m = m;
    m["owner"] = json!(owner);
    g.inst("u9", a, kind, m)
}
pub fn create_mailbox(g: &G) {
    g.inst("u1", "mb", "mailbox", json!({"owner": "u1", "dom": 11}));
}

/// every administrative message a kind has
pub fn admin_msg(g: &G, kind: &str) -> Value {
    let x = g.r.name(&["x1", "x2", "u2"]);
    let d = dom(g);
    let mut all: Vec<Value> = vec![];
    if ["hroute", "hcustom", "hfall", "igp"].contains(&kind) {
        all.push(json!({"k": "SetRoute", "d": d, "r": if g.r.pct(80) { json!([x]) } else { json!([]) }}));
        all.push(json!({"k": "SetRoutes", "set": [[d, [x]], [dom(g), []]]}));
    }
    match kind {
        "mailbox" => {
            for k in ["SetDefaultIsm", "SetDefaultHook", "SetRequiredHook"] {
                all.push(json!({"k": k, "x": x}));
            }
        }
        "hagg" => all.push(json!({"k": "SetHooks", "hooks": [x, "x2"]})),
        "fee" => {
            all.push(json!({"k": "SetFee", "fee": coin("uatom", g.r.below(4) as u128)}));
            all.push(json!({"k": "FeeClaim", "to": if g.r.pct(50) { json!([]) } else { json!(["u3"]) }}));
        }
        "hpaus" | "ipaus" => {
            all.push(json!({"k": "Pause"}));
            all.push(json!({"k": "Release"}));
        }
        "hcustom" => {
            all.push(json!({"k": "Register", "regs": [[d, [32, "r1"], x]], "one": g.r.pct(50)}));
            all.push(json!({"k": "Clear", "regs": [[d, [32, "r1"]]], "one": g.r.pct(50)}));
        }
        "hfall" => all.push(json!({"k": "SetFallback", "x": x})),
        "igp" => {
            all.push(json!({"k": "SetDefaultGas", "g": amt(g.r.below(9) as u128)}));
            all.push(json!({"k": "SetGas", "cfg": [[d, amt(5)]]}));
            all.push(json!({"k": "UnsetGas", "ds": [d]}));
            all.push(json!({"k": "SetBenef", "x": x}));
        }
        "oracle" => {
            all.push(json!({"k": "SetGasData", "c": [d, amt(g.r.below(2) as u128), amt(2)]}));
            all.push(json!({"k": "SetGasDatas", "cfg": [[d, amt(3), amt(2)], [dom(g), amt(1 + g.r.below(2) as u128), amt(0)]]}));
        }
        "iagg" => all.push(json!({"k": "SetIsms", "isms": [x, "x2"], "t": 1 + g.r.below(2)})),
        "imulti" => {
            all.push(json!({"k": "SetVals", "d": d, "t": 1, "vals": [[20, "k1"], [20, "k2"]]}));
            all.push(json!({"k": "UnsetDomain", "d": d}));
        }
        "iroute" => {
            all.push(json!({"k": "SetIsmRoute", "d": d, "x": x}));
            all.push(json!({"k": "UnsetIsmRoute", "ds": [d, 5]}));
        }
        "wnat" | "wcw" => {
            let r = json!([32, g.r.name(&["w1", "w2"])]);
            all.push(json!({"k": "SetRoute", "d": d, "r": if g.r.pct(80) { json!([r]) } else { json!([]) }}));
            all.push(json!({"k": "SetRoutes", "set": [[d, [r]], [dom(g), []]]}));
            for k in ["SetMailbox", "SetHook", "SetIsm"] {
                all.push(json!({"k": k, "x": x}));
            }
        }
        _ => {}
    }
    let mut m = g.r.pick(&all);
    // now and then nothing at all in a batch
    for k in ["set", "regs", "cfg", "ds", "hooks"] {
        if m.get(k).is_some() && m.get("one") != Some(&json!(true)) && g.r.pct(8) {
            m[k] = json!([]);
        }
    }
    m
}
/// what a contract of this kind answers about its settings
pub fn settings(g: &G, kind: &str, a: &str) {
    let routed = ["hroute", "hcustom", "hfall", "igp", "wnat", "wcw"].contains(&kind);
    if routed {
        g.qk(a, &["Domains"]);
        g.q(json!({"a": a, "k": "ListRoutes", "off": [], "lim": [30], "ord": []}));
    }
    let d = dom(g);
    let msg = message(3, 1, d, "s1", dom(g), "r1", json!(["raw", "01"]));
    match kind {
        "mailbox" => g.qk(a, &["DefaultIsm", "DefaultHook", "RequiredHook", "Nonce", "LocalDomain"]),
        "hagg" => g.qk(a, &["Hooks"]),
        "fee" => {
            g.qk(a, &["Fee"]);
            g.bals(&[a]);
        }
        "hpaus" | "ipaus" => g.qk(a, &["Paused"]),
        "hcustom" => {
            g.q(json!({"a": a, "k": "CustomHook", "d": d, "r": [32, "r1"]}));
        }
        "hfall" => {
            g.q(json!({"a": a, "k": "Quote", "meta": ["raw", ""], "msg": msg}));
        }
        "igp" => {
            g.qk(a, &["DefaultGas", "Benef"]);
            g.q(json!({"a": a, "k": "ListGas", "off": [], "lim": [30], "ord": []}));
            g.bals(&[a]);
        }
        "oracle" => {
            g.q(json!({"a": a, "k": "Oracle", "d": d}));
        }
        "iagg" => g.qk(a, &["Isms"]),
        "imulti" => {
            g.q(json!({"a": a, "k": "Enrolled", "d": d}));
        }
        "iroute" => {
            g.q(json!({"a": a, "k": "Route", "msg": msg}));
        }
        "wnat" | "wcw" => g.qk(a, &["GetMailbox", "GetHook", "GetIsm", "TokType", "TokMode", "Ism"]),
        "va" => {
            g.qk(a, &["VMailbox", "VDomain", "Anns"]);
            g.q(json!({"a": a, "k": "Locs", "vs": [[20, "k1"], [20, "k2"]]}));
        }
        "merkle" => g.qk(a, &["HMailbox", "Count", "Root", "Branch", "Tree"]),
        _ => {}
    }
}
pub fn world_for(g: &G, kind: &str) {
    if ["va", "merkle", "wnat", "wcw"].contains(&kind) {
        create_mailbox(g);
    }
    if ["hroute", "hcustom", "hfall", "hagg"].contains(&kind) {
        g.mock("x1", json!({"fee": coins(&[("uosmo", 4)])}));
        g.mock("x2", json!({"fee": coins(&[("uosmo", 5)])}));
    }
    if ["iagg", "iroute"].contains(&kind) {
        g.mock("x1", json!({}));
        g.mock("x2", json!({}));
    }
    if kind == "wcw" {
        g.call(json!({"t": "inst", "s": "u9", "a": "cw", "f": [],
            "m": {"k": "Inst", "kind": "cw20", "minter": "u9", "bals": [["u1", amt(100)], ["u2", amt(50)]]}}));
    }
}

/// who may administer, and how that changes
pub fn owner(g: &G) {
    let owned: Vec<&str> = KINDS.iter().copied().filter(|k| *k != "va" && *k != "merkle").collect();
    let kind = g.r.pick(&owned);
    world_for(g, kind);
    if g.r.pct(10) {
        let bad = g.r.name(&["!bad", "", "!hrp", "!upper"]);
        create(g, kind, "b", &bad);
        g.qk("b", &["Owner"]);
    }
    let first = g.r.name(&["u1", "u2", "zc", "u9", "u0x"]);
    create(g, kind, "a", &first);
    let people = ["u1", "u2", "u3", "zc", "u9"];
    for _ in 0..14 + g.r.below(30) {
        let own = g.peek(json!({"a": "a", "k": "Owner"}))[1].as_str().unwrap_or("u1").to_string();
        let pend = g.peek(json!({"a": "a", "k": "Pending"}))[1][0].as_str().unwrap_or("u2").to_string();
        let s = match g.r.below(10) {
            0..=4 => own.clone(),
            5 | 6 => pend.clone(),
            _ => g.r.name(&people),
        };
        let f = if g.r.pct(6) { coins(&[("uosmo", 2)]) } else { nofunds() };
        fund(g, &s, &f);
        match g.r.weigh(&[20, 10, 16, 50, 4]) {
            0 => {
                let to = if g.r.pct(90) { g.r.name(&people) } else { g.r.name(&["!bad", "", "!sum", "!hrp", "a"]) };
                g.exec(&s, "a", json!({"k": "InitOwn", "to": to}), f);
            }
            1 => {
                g.exec(&s, "a", json!({"k": "RevokeOwn"}), f);
            }
            2 => {
                let s = if g.r.pct(60) { pend } else { s };
                g.exec(&s, "a", json!({"k": "ClaimOwn"}), nofunds());
            }
            3 => {
                let m = admin_msg(g, kind);
                g.exec(&s, "a", m, f);
            }
            _ => {
                g.bank("a", coins(&[("uosmo", 5)]));
            }
        }
        g.qk("a", &["Owner", "Pending"]);
        settings(g, kind, "a");
    }
}

/// how a contract may be asked to be set up
fn setup_msg(g: &G, kind: &str, a: &str) -> Value {
    let valid = |g: &G, v: &[&str]| if g.r.pct(93) { g.r.name(v) } else { g.r.name(&["!bad", "", "!sum", "!hrp", "!upper", "!empty"]) };
    let any = ["u1", "u2", "zc", "u0x", "x1", "x2", "mb", "mb2", a];
    let owner = valid(g, &["u1", "u2", "zc", "u9", "u0x", "mb", a]);
    let mbs: &[&str] = if kind == "va" { &["mb", "mb2", "mb", "mb2", "u1", "x1"] } else { &["mb", "mb2", "u1", "x1"] };
    let mb = valid(g, mbs);
    let some = |g: &G, n: usize| -> Vec<Value> { (0..n).map(|_| json!(valid(g, &any))).collect() };
    let mut m = match kind {
        "mailbox" => json!({"dom": dom(g)}),
        "va" | "merkle" => json!({"mb": mb}),
        "hagg" => {
            let n = g.r.below(5);
            json!({"hooks": some(g, n)})
        }
        "fee" => json!({"fee": coin(&g.r.name(&["uosmo", "uatom", "utok"]), if g.r.pct(10) { 0 } else { amount(g) })}),
        "hpaus" | "ipaus" => json!({"paused": g.r.pct(50)}),
        "igp" => json!({"denom": g.r.name(&["uosmo", "uatom"]), "benef": valid(g, &any), "gas": amt(if g.r.pct(20) { 0 } else { amount(g) })}),
        "iagg" => {
            let n = if g.r.pct(6) { 250 + g.r.below(12) } else { g.r.len(g.r.below(5), 600) };
            if n > 5 {
                // many, all of them valid
                json!({"isms": (0..n).map(|_| json!(g.r.name(&any))).collect::<Vec<_>>(), "t": g.r.pick(&[0usize, 1, 2, n.min(255), 255])})
            } else {
                json!({"isms": some(g, n), "t": g.r.below(n + 2).min(255)})
            }
        }
        "iroute" => {
            let n = g.r.below(4);
            let ds: Vec<i64> = (0..n).map(|_| dom(g)).collect();
            json!({"isms": ds.iter().map(|d| json!([d, valid(g, &any)])).collect::<Vec<_>>()})
        }
        "wnat" => {
            let mode = g.r.pick(&["bridged", "bridged", "collateral"]);
            let d = if mode == "bridged" { g.r.name(&["utok", "x", "tok/sub"]) } else { g.r.name(&["uosmo", "uatom"]) };
            let mut m = json!({"mb": mb, "mode": mode, "denom": d});
            if mode == "bridged" && g.r.pct(60) {
                let w = |g: &G| g.r.name(&["", "tok", "Token of the other chain", "TOK", "a/b", "uosmo"]);
                let n = g.r.below(4);
                let units: Vec<Value> = (0..n)
                    .map(|_| {
                        let k = g.r.below(3);
                        let al: Vec<String> = (0..k).map(|_| w(g)).collect();
                        json!([w(g), cc::i32v(g.r.pick(&[0u32, 0, 3, 6, 18, 255, 256, 0x7fff_ffff, 0xffff_ffff])), al])
                    })
                    .collect();
                let base = if g.r.pct(90) { format!("F/{a}/{d}") } else { g.r.name(&["uosmo", "utok"]) };
                m["dm"] = json!({"desc": w(g), "units": units, "base": base, "display": w(g), "name": w(g), "sym": w(g)});
            }
            m
        }
        "wcw" => {
            let mode = g.r.pick(&["bridged", "bridged", "collateral"]);
            let mut m = json!({"mb": mb, "mode": mode, "tok": if mode == "bridged" { "".to_string() } else { valid(g, &["cw", "u1", "x1"]) }});
            if mode == "bridged" && g.r.pct(70) {
                let n = g.r.below(4);
                let bals: Vec<Value> = (0..n)
                    .map(|_| json!([valid(g, &any), amt(if g.r.pct(12) { 0 } else if g.r.pct(12) { u128::MAX - g.r.below(2) as u128 } else { amount(g) })]))
                    .collect();
                let mint = match g.r.below(5) {
                    0 => json!([]),
                    1 => json!([a]),
                    2 => json!(["u2", amt(5)]),
                    3 => json!([valid(g, &["u1", "u2"]), amt(amount(g))]),
                    _ => json!(["u1"]),
                };
                m["init"] = json!({"name": g.r.name(&["Token", "Tok", "To", "A rather longer name, of fifty letters, and no more", "A rather longer name, of fifty letters, and no more.."]),
                    "sym": g.r.name(&["TOKEN", "tok", "a-b-c", "Abcdefghijkl", "TOKEN", "tok", "ab", "TOK3N", "Abcdefghijklm"]),
                    "dec": g.r.pick(&[0, 1, 6, 6, 18, 18, 19, 255]), "bals": bals, "mint": mint});
            }
            m
        }
        _ => json!({}),
    };
    if kind == "mailbox" || (kind == "igp" && g.r.pct(30)) {
        m["hrp"] = json!(g.r.name(&["~", "~", "~", "", "foo", "barbaz", "q", "Foo", "FOO", "foO", "foo-x", "foo1", "fo o"]));
    }
    m["owner"] = json!(owner);
    m
}

/// what a contract answers about itself, whatever it is
fn identity(g: &G, kind: &str, a: &str) {
    g.qk(a, &["HMailbox", "ModuleType", "TokType", "TokMode", "VMailbox", "VDomain", "Hrp", "LocalDomain"]);
    if kind == "wcw" {
        g.qk(&format!("{a}.tok"), &["CInfo", "CMinter"]);
    }
}
/// and how it was set up
fn initially(g: &G, kind: &str, a: &str) {
    g.qk(a, &["Owner", "Pending"]);
    settings(g, kind, a);
    match kind {
        "iroute" => {
            for _ in 0..4 {
                let msg = message(3, 1, dom(g), "s1", dom(g), "r1", json!(["raw", "01"]));
                g.q(json!({"a": a, "k": "Route", "msg": msg}));
            }
        }
        "wcw" => {
            let t = format!("{a}.tok");
            g.qk(&t, &["CSupply"]);
            for x in ["u1", "u2", "zc", "x1", a] {
                g.q(json!({"a": t, "k": "CBal", "x": x}));
            }
        }
        _ => {}
    }
}

/// every kind of contract set up in every way, and what it says it is ever after
pub fn setup(g: &G) {
    g.inst("u1", "mb", "mailbox", json!({"owner": "u1", "dom": dom(g)}));
    g.inst("u1", "mb2", "mailbox", json!({"owner": "u2", "dom": dom(g)}));
    g.mock("x1", json!({}));
    g.mock("x2", json!({}));
    g.call(json!({"t": "inst", "s": "u9", "a": "cw", "f": [],
        "m": {"k": "Inst", "kind": "cw20", "minter": "u9", "bals": [["u1", amt(100)], ["u2", amt(50)]]}}));
    let mut made: Vec<(&str, String)> = vec![];
    for i in 0..8 + g.r.below(8) {
        let kind = g.r.pick(&["mailbox", "mailbox", "va", "hagg", "fee", "merkle", "hpaus", "hroute", "hcustom", "hfall", "igp", "oracle", "iagg", "iagg",
            "imulti", "ipaus", "iroute", "wcw", "wcw", "wcw", "wnat", "wnat", "wnat"]);
        let a = format!("c{i}");
        let m = setup_msg(g, kind, &a);
        if g.inst(&g.r.name(&["u1", "u2", "u9"]), &a, kind, m) {
            made.push((kind, a.clone()));
        }
        identity(g, kind, &a);
        initially(g, kind, &a);
        if made.is_empty() {
            continue;
        }
        for _ in 0..g.r.below(4) {
            let (kind, a) = g.r.pick(&made);
            let own = g.peek(json!({"a": a, "k": "Owner"}))[1].as_str().unwrap_or("u1").to_string();
            let s = if g.r.pct(80) { own } else { g.r.name(&["u1", "u2", "x1"]) };
            match kind {
                "va" | "merkle" => continue,
                _ if g.r.pct(20) => g.ex(&s, &a, json!({"k": "InitOwn", "to": g.r.name(&["u1", "u2", "u3"])})),
                _ => g.ex(&s, &a, admin_msg(g, kind)),
            };
            identity(g, kind, &a);
        }
    }
    for (kind, a) in &made {
        identity(g, kind, a);
    }
}

/// route tables of every contract that has one
pub fn routes(g: &G) {
    let kind = g.r.pick(&["hroute", "hcustom", "hfall", "igp", "wnat", "wcw"]);
    world_for(g, kind);
    create(g, kind, "a", "u1");
    let warp = kind == "wnat" || kind == "wcw";
    let many = g.r.pct(45);
    let dm = |g: &G| -> i64 {
        if many {
            match g.r.below(3) {
                0 => g.r.below(50) as i64,
                1 => -(1 + g.r.below(20) as i64),
                _ => i32::MAX as i64 - g.r.below(20) as i64,
            }
        } else {
            dom(g)
        }
    };
    let route = |g: &G| -> Value {
        if g.r.pct(20) {
            return json!([]);
        }
        if warp {
            return match g.r.below(10) {
                0 => json!([[20, "u2"]]),
                1 => json!([[0, "x"]]),
                2 => json!([[33, format!("x{}", "01".repeat(33))]]),
                _ => json!([[32, g.r.name(&["w1", "w2", "u2", "zw"])]]),
            };
        }
        json!([g.r.name(&["x1", "x2", "u2", "nobody", "zc"])])
    };
    let ops = 6 + g.r.below(16);
    for _ in 0..ops {
        let s = if g.r.pct(92) { "u1" } else { "u2" };
        if g.r.pct(50) {
            g.ex(s, "a", json!({"k": "SetRoute", "d": dm(g), "r": route(g)}));
        } else {
            let n = g.r.below(if many { 14 } else { 5 });
            let n = g.r.len(n, 80);
            let set: Vec<Value> = (0..n).map(|_| json!([dm(g), route(g)])).collect();
            g.ex(s, "a", json!({"k": "SetRoutes", "set": set}));
        }
        g.qk("a", &["Domains"]);
        for _ in 0..2 {
            g.q(json!({"a": "a", "k": "GetRoute", "d": dm(g)}));
        }
        for _ in 0..2 {
            let off = if g.r.pct(50) { json!([dm(g)]) } else { json!([]) };
            let lim = if g.r.pct(60) { json!([g.r.pick(&[0, 1, 2, 3, 9, 10, 11, 29, 30, 31, 100, -1])]) } else { json!([]) };
            let ord = g.r.pick(&[json!([]), json!(["asc"]), json!(["desc"])]);
            g.q(json!({"a": "a", "k": "ListRoutes", "off": off, "lim": lim, "ord": ord}));
        }
    }
    // page through the whole table
    for ord in [json!([]), json!(["asc"]), json!(["desc"])] {
        let lim = if g.r.pct(40) { json!([]) } else { json!([1 + g.r.below(12)]) };
        let mut off = json!([]);
        for _ in 0..40 {
            let p = g.q(json!({"a": "a", "k": "ListRoutes", "off": off, "lim": lim, "ord": ord}));
            match p[1].as_array().and_then(|a| a.last()) {
                Some(e) => off = json!([e[0]]),
                None => break,
            }
        }
    }
}

/// migrations from stored versions of every order and name
pub fn migrate(g: &G) {
    let kind = g.r.pick(&KINDS);
    world_for(g, kind);
    create(g, kind, "a", "u1");
    if kind == "fee" || kind == "igp" {
        g.bank("a", coins(&[("uosmo", 12)]));
    }
    if kind == "mailbox" {
        g.mock("x1", json!({}));
        for k in ["SetDefaultIsm", "SetDefaultHook", "SetRequiredHook"] {
            g.ex("u1", "a", json!({"k": k, "x": "x1"}));
        }
        g.ex("u2", "a", json!({"k": "Dispatch", "d": 5, "r": [32, "r1"], "b": ["raw", "aa"], "hook": [], "meta": []}));
    }
    let can_admin = kind != "va" && kind != "merkle";
    let code = g.ver[0].as_str().unwrap().to_string();
    for _ in 0..6 + g.r.below(8) {
        for _ in 0..g.r.below(3) {
            if can_admin {
                let m = admin_msg(g, kind);
                g.ex("u1", "a", m);
            } else if kind == "va" {
                let k = g.r.name(&["k1", "k2"]);
                let loc = g.r.name(&["s3://a", "s3://b"]);
                g.ex("u2", "a", json!({"k": "Announce", "v": [20, k], "loc": loc, "sig": {"key": k, "dom": 11, "mb": "mb", "loc": loc, "kind": "ok"}}));
            }
        }
        if can_admin && g.r.pct(20) {
            g.ex("u1", "a", json!({"k": "InitOwn", "to": "u2"}));
        }
        if g.r.pct(85) {
            let v = near_version(g, &code);
            let cn = match g.r.below(14) {
                0 => g.r.name(&["other", "", "hpl-mailboxx", "HPL-MAILBOX"]),
                1 => g.r.pick(&KINDS).to_string(),
                _ => kind.to_string(),
            };
            let pv = parse_version(&v);
            g.call(json!({"t": "setver", "s": "", "a": "a", "m": {"cn": cn, "cvs": v, "cv": pv}, "f": []}));
        }
        g.qk("a", &["ver"]);
        settings(g, kind, "a");
        g.call(json!({"t": "migrate", "s": "u1", "a": "a", "m": {"k": "Migrate"}, "f": []}));
        g.qk("a", &["ver", "Owner", "Pending"]);
        settings(g, kind, "a");
        if kind == "mailbox" {
            g.qk("a", &["LatestId"]);
            g.bals(&["a"]);
        }
    }
}
pub fn near_version(g: &G, code: &str) -> String {
    let p: Vec<i64> = code.split('.').map(|x| x.split('-').next().unwrap().parse().unwrap()).collect();
    match g.r.below(12) {
        0 => code.to_string(),
        1 | 2 => {
            // one component up or down
            let mut q = p.clone();
            let i = g.r.below(3);
            q[i] += g.r.pick(&[-1i64, 1]);
            if q[i] < 0 {
                q[i] = 9;
            }
            format!("{}.{}.{}", q[0], q[1], q[2])
        }
        3 => format!("{}.{}.{}", p[0], p[1], g.r.pick(&[0i64, 1, 9, 10, 11, 70, 100])),
        4 => format!("{}.{}.{}", p[0], g.r.pick(&[0i64, 1, 10]), g.r.pick(&[0i64, 9])),
        5 => format!("{}.{}.{}", g.r.pick(&[0i64, 1, 10]), 0, 0),
        6 | 7 => {
            let pre = g.r.name(&["alpha", "alpha.1", "rc", "rc1", "1", "0a", "rc.1.x-", "beta"]);
            format!("{code}-{pre}")
        }
        8 => {
            let pre = g.r.name(&["alpha", "rc.1"]);
            format!("{}.{}.{}-{pre}", p[0], p[1], p[2] + g.r.pick(&[-1i64, 1]))
        }
        9 => g.r.name(&["", "x", "1", "1.0", "0.0", "v0.0.1", "0.0.01", "0.0.0.1", "0.0.-1", "latest"]),
        _ => format!("{}.{}.{}", g.r.below(2), g.r.below(3), g.r.below(12)),
    }
}
