use crate::codec as cc;
use crate::fam_hooks::*;
use crate::fam_mailbox::*;
use crate::gen::*;
use serde_json::{json, Value};

const KEYS: [&str; 6] = ["k1", "k2", "k3", "k4", "k5", "k6"];

pub fn sig(k: &str, o: &Value, tree: &str, root: &str, idx: i64, msg: &Value, kind: &str) -> Value {
    json!({"k": k, "o": o, "tree": tree, "root": root, "idx": idx, "msg": msg, "kind": kind})
}

/// multisig metadata for a message: mostly right, or wrong in one place
pub fn ms_meta(g: &G, signers: &[String], msg: &Value, others: &[Value]) -> Value {
    let tree = g.r.name(&["mk", "mk2"]);
    let root = g.r.name(&["rt1", "rt2"]);
    let idx = g.r.pick(&[0i64, 1, 7, -1]);
    let mut sigs: Vec<Value> = signers.iter().map(|k| sig(k, &msg["o"], &tree, &root, idx, msg, "ok")).collect();
    let flaw = g.r.below(14);
    if !sigs.is_empty() {
        let i = g.r.below(sigs.len());
        match flaw {
            0 => sigs[i]["tree"] = json!(if tree == "mk" { "mk2" } else { "mk" }),
            1 => sigs[i]["root"] = json!(if root == "rt1" { "rt2" } else { "rt1" }),
            2 => sigs[i]["idx"] = json!(if idx == 1 { 0 } else { 1 }),
            3 => sigs[i]["msg"] = g.r.pick(others),
            4 => sigs[i]["o"] = json!(g.r.pick(&[1i64, 2, -1, 44])),
            5 => sigs[i]["kind"] = json!(g.r.pick(&["badv", "lowv", "zero", "flip"])),
            6 => {
                // the same signature again
                let s = sigs[i].clone();
                let j = g.r.below(sigs.len() + 1);
                if g.r.pct(50) { sigs.insert(j, s) } else { let k = g.r.below(sigs.len()); sigs[k] = s }
            }
            7 => sigs[i]["k"] = json!("kx"),
            8 => {
                let s = sig("kx", &msg["o"], &tree, &root, idx, msg, "ok");
                let j = g.r.below(sigs.len() + 1);
                sigs.insert(j, s);
            }
            _ => {}
        }
    }
    let trail = if g.r.pct(10) { "ab".repeat(1 + g.r.below(64)) } else { String::new() };
    json!(["ms", tree, root, idx, sigs, trail])
}

pub fn ism_msg(g: &G, doms: &[i64]) -> Value {
    let mut m = some_msg(g, g.r.pick(doms));
    m["n"] = json!(g.r.below(2));
    m
}

/// sets of validators of every size a threshold can count
fn large_multisig(g: &G) {
    let d = dom(g);
    let o = dom(g);
    let n = g.r.pick(&[16usize, 17, 32, 33, 40, 64, 65, 127, 255, 256, 257]);
    let n = g.r.len(n, 300).max(2);
    let t = g.r.pick(&[n, n, n - 1, n / 2 + 1, 200, 2]).min(255);
    let ks: Vec<String> = (1..=n).map(|i| format!("k{i}")).collect();
    let vals: Vec<Value> = ks.iter().map(|k| json!([20, k])).collect();
    g.ex("u1", "ms", json!({"k": "SetVals", "d": d, "t": t, "vals": vals}));
    g.q(json!({"a": "ms", "k": "Enrolled", "d": d}));
    let msg = ism_msg(g, &[d]);
    let other = ism_msg(g, &[d, o]);
    g.q(json!({"a": "ms", "k": "VerifyInfo", "msg": msg}));
    for m in [t, t - 1, t + 1] {
        let mut by = ks.clone();
        g.r.shuffle(&mut by);
        if m > n {
            let again = by[0].clone();
            by.push(again);
        }
        by.truncate(m);
        if m == t && g.r.pct(40) {
            // one signer twice, so one too few
            let (i, j) = (g.r.below(by.len()), g.r.below(by.len()));
            by[i] = by[j].clone();
        }
        let meta = ms_meta(g, &by, &msg, &[other.clone()]);
        g.q(json!({"a": "ms", "k": "Verify", "meta": meta, "msg": msg}));
    }
}

pub fn multisig(g: &G) {
    g.inst("u1", "ms", "imulti", json!({"owner": "u1"}));
    if g.r.pct(2) {
        large_multisig(g);
        if g.r.pct(60) {
            return;
        }
    }
    let doms = [dom(g), dom(g), dom(g)];
    let mut msgs: Vec<Value> = (0..3).map(|_| ism_msg(g, &doms)).collect();
    let m2 = { let mut m = msgs[0].clone(); m["b"] = json!(["raw", "77"]); m };
    msgs.push(m2);
    for d in doms {
        if g.r.pct(80) {
            enroll(g, "u1", d);
        }
    }
    for _ in 0..8 + g.r.below(14) {
        match g.r.weigh(&[24, 12, 64]) {
            0 => {
                let s = if g.r.pct(85) { "u1" } else { "u2" };
                let d = g.r.pick(&doms);
                enroll(g, s, d);
            }
            1 => {
                let s = if g.r.pct(85) { "u1" } else { "u2" };
                let d = g.r.pick(&doms);
                g.ex(s, "ms", json!({"k": "UnsetDomain", "d": d}));
            }
            _ => {}
        }
        for _ in 0..2 {
            let msg = if g.r.pct(96) { g.r.pick(&msgs) } else { short_msg(g) };
            // as many of the enrolled as it takes, or one fewer, or more
            let e = if msg["o"].is_null() { json!(["err"]) } else { g.peek(json!({"a": "ms", "k": "Enrolled", "d": msg["o"]})) };
            let (t, mut vals): (usize, Vec<String>) = if e[0] == "ok" {
                (e[1][0].as_u64().unwrap_or(1) as usize, e[1][1].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect())
            } else {
                (1, KEYS.iter().map(|x| x.to_string()).collect())
            };
            vals.retain(|v| v.starts_with('k')); // the others cannot sign
            g.r.shuffle(&mut vals);
            if g.r.pct(70) {
                vals.dedup();
                let n = match g.r.below(5) {
                    0 => t.saturating_sub(1),
                    1 => t + 1,
                    _ => t,
                };
                vals.truncate(n);
            }
            let meta = if g.r.pct(95) && !msg["o"].is_null() {
                ms_meta(g, &vals, &msg, &msgs)
            } else {
                raw_meta(g)
            };
            g.q(json!({"a": "ms", "k": "Verify", "meta": meta, "msg": msg}));
            g.q(json!({"a": "ms", "k": "VerifyInfo", "msg": msg}));
        }
        for d in doms {
            g.q(json!({"a": "ms", "k": "Enrolled", "d": d}));
        }
        if g.r.pct(10) {
            g.qk("ms", &["ModuleType", "Owner"]);
        }
    }
}
fn enroll(g: &G, s: &str, d: i64) {
    let n = match g.r.below(30) {
        0 => 0,
        x => 1 + x % 5,
    };
    let mut vals: Vec<Value> = vec![];
    let mut ks = KEYS.map(|k| k.to_string());
    g.r.shuffle(&mut ks);
    for k in ks.iter().take(n) {
        vals.push(match g.r.below(90) {
            0 => json!([20, "u2"]),
            1 => json!([32, k]),
            2 => json!([0, "x"]),
            3 => json!([19, format!("x{}", "11".repeat(19))]),
            4 if !vals.is_empty() => g.r.pick(&vals),
            5 => json!([20, "u0x"]),
            6 => json!([21, format!("x{}", "11".repeat(21))]),
            _ => json!([20, k]),
        });
    }
    let t = match g.r.below(24) {
        0 => 0,
        1 => n + 1,
        2 => 255,
        _ if n > 0 => 1 + g.r.below(n),
        _ => 1,
    };
    g.ex(s, "ms", json!({"k": "SetVals", "d": d, "t": t, "vals": vals}));
}

// ----------------------------------------------------- aggregate and routing
fn leaf_isms(g: &G, doms: &[i64], msgs: &[Value]) -> Vec<String> {
    let n = if g.r.pct(8) { 9 + g.r.below(26) } else { 4 };
    let names: Vec<String> = (1..=n).map(|i| format!("i{i}")).collect();
    for i in &names {
        mock_ism(g, i, msgs, true);
    }
    g.inst("u1", "ip", "ipaus", json!({"owner": "u1", "paused": g.r.pct(40)}));
    g.inst("u1", "ms", "imulti", json!({"owner": "u1"}));
    for d in doms {
        if g.r.pct(75) {
            let t = 1 + g.r.below(2);
            g.ex("u1", "ms", json!({"k": "SetVals", "d": d, "t": t, "vals": [[20, "k1"], [20, "k2"]]}));
        }
    }
    names.into_iter().chain(["ip".to_string(), "ms".to_string()]).collect()
}
fn mock_ism(g: &G, i: &str, msgs: &[Value], fresh: bool) {
    let acc: Vec<Value> = (0..g.r.below(5))
        .map(|_| {
            let m = g.r.pick(msgs);
            json!([part_meta(g), m])
        })
        .collect();
    let vm = g.r.pick(&["acc", "acc", "acc", "yes", "no", "yes", "err"]);
    let n = g.r.below(3);
    let vi: Vec<String> = (0..n).map(|_| g.r.name(&["k1", "k2", "k3"])).collect();
    let t = g.r.below(3);
    let cfg = json!({"vmode": vm, "acc": acc, "vi": [t, vi]});
    if fresh {
        g.mock(i, cfg)
    } else {
        g.remock(i, cfg)
    }
}
/// a part of an aggregate's metadata, now and then a long one
fn part_meta(g: &G) -> Value {
    if g.r.pct(96) {
        return raw_meta(g);
    }
    let n = g.r.pick(&[8usize, 32, 64, 255, 256, 257, 1000, 1000]);
    let n = if g.r.pct(20) { g.r.pick(&[65_500usize, 65_535, 65_536, 70_000]) } else { n };
    let n = g.r.len(n, 70_000).max(8);
    json!(["raw", format!("a5{}", g.r.name(&["5a", "ff"]).repeat(n - 1))])
}
/// metadata an ism might accept for a message
pub fn part_for(g: &G, i: &str, msg: &Value, msgs: &[Value]) -> Value {
    match g.w().kind_of(&cc::addr(i)).as_str() {
        "mock" => {
            let acc = g.w().k[&cc::addr(i)].cfg["acc"].clone();
            let hit: Vec<Value> = acc.as_array().unwrap().iter().filter(|a| &a[1] == msg).cloned().collect();
            if !hit.is_empty() && g.r.pct(70) {
                return g.r.pick(&hit)[0].clone();
            }
            part_meta(g)
        }
        "ipaus" => part_meta(g),
        "imulti" if !msg["o"].is_null() => {
            let ks = g.r.pick(&[vec!["k1"], vec!["k1", "k2"], vec!["k2"], vec!["k2", "k1"], vec!["k3"]]);
            let ks: Vec<String> = ks.into_iter().map(|k| k.to_string()).collect();
            ms_meta(g, &ks, msg, msgs)
        }
        "iagg" => {
            let v = g.peek(json!({"a": i, "k": "Isms"}));
            agg_meta(g, &v[1][1], msg, msgs)
        }
        "iroute" => {
            let v = g.peek(json!({"a": i, "k": "Route", "msg": msg}));
            if v[0] == "ok" { part_for(g, v[1].as_str().unwrap(), msg, msgs) } else { raw_meta(g) }
        }
        _ => raw_meta(g),
    }
}
fn agg_meta(g: &G, isms: &Value, msg: &Value, msgs: &[Value]) -> Value {
    let names: Vec<String> = isms.as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default();
    let mut parts: Vec<Value> = names.iter().map(|i| part_for(g, i, msg, msgs)).collect();
    match g.r.below(25) {
        0 => parts.push(raw_meta(g)),
        1 if !parts.is_empty() => {
            let i = g.r.below(parts.len());
            parts[i] = json!(["oob"]);
        }
        2 => g.r.shuffle(&mut parts),
        3 => return raw_meta(g),
        _ => {}
    }
    if parts.is_empty() {
        return raw_meta(g);
    }
    json!(["agg", parts])
}

pub fn iagg(g: &G) {
    let doms = [dom(g), dom(g)];
    let msgs: Vec<Value> = (0..3).map(|_| ism_msg(g, &doms)).collect();
    let leaves = leaf_isms(g, &doms, &msgs);
    let most = leaves.len().max(8) - 4;
    let some = |g: &G| -> Vec<String> { (0..1 + g.r.below(most)).map(|_| g.r.pick(&leaves)).collect() };
    let distinct = |g: &G| -> Vec<String> {
        let mut l = leaves.clone();
        g.r.shuffle(&mut l);
        l.truncate(1 + g.r.below(most));
        l
    };
    let inst = |g: &G, a: &str, mut l: Vec<String>| {
        let t = match g.r.below(10) {
            0 => 0,
            1 => l.len() + 1,
            2 => 255,
            _ => 1 + g.r.below(l.len().max(1)),
        };
        if g.r.pct(5) {
            l.push(g.r.name(&["!bad", ""]));
        }
        g.inst("u1", a, "iagg", json!({"owner": "u1", "isms": l, "t": t}))
    };
    if g.r.pct(15) {
        inst(g, "a9", if g.r.pct(30) { vec![] } else { some(g) });
        g.qk("a9", &["Isms"]);
    }
    let mut names = leaves.clone();
    if inst(g, "a2", distinct(g)) {
        names.push("a2".into());
    }
    let mut l = distinct(g);
    if names.len() > leaves.len() && g.r.pct(40) {
        l.push("a2".into());
    }
    while !inst(g, "ag", l.clone()) {}
    for _ in 0..6 + g.r.below(14) {
        match g.r.weigh(&[25, 25, 10, 40]) {
            0 => {
                let mut l = if g.r.pct(85) { distinct(g) } else { some(g) };
                if g.r.pct(6) {
                    l.push(g.r.name(&["!bad", "nobody", ""]));
                }
                if g.r.pct(4) {
                    l.clear();
                }
                let t = match g.r.below(10) {
                    0 => 0,
                    1 => l.len() + 1,
                    _ => 1 + g.r.below(l.len().max(1)),
                };
                let s = if g.r.pct(85) { "u1" } else { "u2" };
                g.ex(s, "ag", json!({"k": "SetIsms", "isms": l, "t": t}));
            }
            1 => {
                let i = g.r.name(&["i1", "i2", "i3", "i4"]);
                mock_ism(g, &i, &msgs, false);
            }
            2 => {
                let k = g.r.pick(&["Pause", "Release"]);
                g.ex("u1", "ip", json!({ "k": k }));
            }
            _ => {}
        }
        g.qk("ag", &["Isms"]);
        for _ in 0..3 {
            let a = if g.r.pct(80) { "ag" } else { "a2" };
            let msg = if g.r.pct(97) { g.r.pick(&msgs) } else { short_msg(g) };
            let isms = g.peek(json!({"a": a, "k": "Isms"}));
            let meta = agg_meta(g, &isms[1][1], &msg, &msgs);
            g.q(json!({"a": a, "k": "Verify", "meta": meta, "msg": msg}));
            g.q(json!({"a": a, "k": "VerifyInfo", "msg": msg}));
        }
        if g.r.pct(10) {
            g.qk("ag", &["ModuleType", "Owner"]);
        }
    }
}

pub fn iroute(g: &G) {
    let doms = [dom(g), dom(g), dom(g)];
    let msgs: Vec<Value> = (0..4).map(|_| ism_msg(g, &doms)).collect();
    let leaves = leaf_isms(g, &doms, &msgs);
    g.inst("u1", "ag", "iagg", json!({"owner": "u1", "isms": ["i1", "i2"], "t": 1 + g.r.below(2)}));
    let mut targets = leaves.clone();
    targets.push("ag".into());
    let mods: Vec<Value> = (0..g.r.below(4)).map(|_| json!([g.r.pick(&doms), g.r.pick(&targets)])).collect();
    g.inst("u1", "r2", "iroute", json!({"owner": "u1", "isms": mods}));
    targets.push("r2".into());
    let mods: Vec<Value> = (0..g.r.below(4)).map(|_| json!([g.r.pick(&doms), g.r.pick(&targets)])).collect();
    g.inst("u1", "ro", "iroute", json!({"owner": "u1", "isms": mods}));
    if g.r.pct(6) {
        let x = g.r.name(&["!bad", ""]);
        g.inst("u1", "r3", "iroute", json!({"owner": "u1", "isms": [[5, "i1"], [6, x]]}));
    }
    for _ in 0..6 + g.r.below(16) {
        let s = if g.r.pct(88) { "u1" } else { "u2" };
        match g.r.weigh(&[32, 12, 20, 6, 30]) {
            0 => {
                let x = if g.r.pct(92) { g.r.pick(&targets) } else { g.r.name(&["nobody", "!bad", ""]) };
                let d = if g.r.pct(92) { g.r.pick(&doms) } else { dom(g) };
                g.ex(s, "ro", json!({"k": "SetIsmRoute", "d": d, "x": x}));
            }
            1 => {
                let ds: Vec<i64> = (0..g.r.below(4)).map(|_| g.r.pick(&doms)).collect();
                g.ex(s, "ro", json!({"k": "UnsetIsmRoute", "ds": ds}));
            }
            2 => {
                let i = g.r.name(&["i1", "i2", "i3", "i4"]);
                mock_ism(g, &i, &msgs, false);
            }
            3 => {
                let k = g.r.pick(&["Pause", "Release"]);
                g.ex("u1", "ip", json!({ "k": k }));
            }
            _ => {}
        }
        for _ in 0..3 {
            let msg = if g.r.pct(97) { g.r.pick(&msgs) } else { short_msg(g) };
            let meta = part_for(g, "ro", &msg, &msgs);
            g.q(json!({"a": "ro", "k": "Route", "msg": msg}));
            g.q(json!({"a": "ro", "k": "Verify", "meta": meta, "msg": msg}));
            g.q(json!({"a": "ro", "k": "VerifyInfo", "msg": msg}));
        }
        if g.r.pct(10) {
            g.qk("ro", &["ModuleType", "Owner"]);
        }
    }
}

// ------------------------------------------------------ validator announce
pub fn announce(g: &G) {
    let d1 = dom(g);
    let d2 = loop {
        let d = if g.r.pct(50) { dom(g) } else { (d1 as i32 ^ (1 << g.r.below(32))) as i64 };
        if d != d1 {
            break d;
        }
    };
    g.inst("u1", "mb", "mailbox", json!({"owner": "u1", "dom": d1}));
    g.inst("u1", "mb2", "mailbox", json!({"owner": "u1", "dom": d2}));
    g.inst("u1", "va", "va", json!({"mb": "mb"}));
    g.inst("u1", "va2", "va", json!({"mb": "mb2"}));
    if g.r.pct(10) {
        let x = g.r.name(&["!bad", "", "nobody", "va"]);
        g.inst("u1", "va3", "va", json!({ "mb": x }));
    }
    let long = format!("s3://{}", "p/".repeat(g.r.len(g.r.pick(&[120usize, 127, 128, 300]), 600)));
    let long2 = format!("{long}x");
    let mut locs = vec!["s3://a", "s3://b", "", "s3://aa", "s3://A", "s3://a ", "file:///x y/ü", &long, &long2];
    let named: Vec<String> = crate::gen::dict().1.iter().flat_map(|t| [t.clone(), format!("{t}a"), format!("s3://a{t}")]).take(9).collect();
    locs.extend(named.iter().map(|x| x.as_str()));
    let crowd = g.r.pct(4);
    let keys: Vec<String> = (1..=if crowd { 34 + g.r.below(12) } else { 4 }).map(|i| format!("k{i}")).collect();
    let many = if crowd { 0 } else if g.r.pct(4) { g.r.len(34, 120) } else { 0 };
    let n = if crowd { keys.len() + 10 } else { 8 + g.r.below(20) + many };
    for i in 0..n {
        let k = if crowd && g.r.pct(95) { keys[i % keys.len()].clone() } else { g.r.pick(&keys) };
        let loc = if many > 0 && g.r.pct(90) { format!("s3://m{i}") } else { g.r.name(&locs) };
        let mut s = json!({"key": k, "dom": d1, "mb": "mb", "loc": loc, "kind": "ok"});
        let mut v = json!([20, k]);
        let mut at = "va";
        match g.r.below(if crowd { 80 } else { 16 }) {
            0 => s["key"] = json!(if g.r.pct(50) { "k5".to_string() } else { g.r.pick(&keys) }),
            1 => s["dom"] = json!(g.r.pick(&[1i64, d2, -1])),
            2 => s["mb"] = json!("mb2"),
            3 => s["loc"] = json!(g.r.name(&locs)),
            4 => s["kind"] = json!(g.r.pick(&["flip", "badv", "lowv", "zero", "short", "long"])),
            5 => v = g.r.pick(&[json!([32, "k1"]), json!([0, "x"]), json!([20, "u2"]), json!([19, format!("x{}", "00".repeat(19))]), json!([21, format!("x{}", "00".repeat(21))])]),
            6 => {
                s["dom"] = json!(d2);
                s["mb"] = json!("mb2");
                at = "va2";
            }
            7 => at = "va2",
            _ => {}
        }
        let who = users(g);
        let f = if g.r.pct(3) { coins(&[("uosmo", 3)]) } else { nofunds() };
        fund(g, &who, &f);
        g.exec(&who, at, json!({"k": "Announce", "v": v, "loc": loc, "sig": s}), f);
        if n > 40 && i % 8 != 0 && i + 4 < n {
            continue;
        }
        for va in ["va", "va2"] {
            let mut vs: Vec<Value> = keys.iter().map(|k| json!([20, k])).collect();
            vs.push(json!([20, "k5"]));
            vs.push(json!([20, "u2"]));
            g.q(json!({"a": va, "k": "Locs", "vs": vs}));
            g.qk(va, &["Anns"]);
        }
        if g.r.pct(8) {
            g.qk("va", &["VMailbox", "VDomain"]);
            g.q(json!({"a": "va", "k": "Locs", "vs": [[20, k], [0, "x"], [20, "k1"], [20, "k1"]]}));
        }
    }
}
