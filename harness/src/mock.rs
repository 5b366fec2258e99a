//! A contract that can stand for any hook, ISM or recipient.  Its behaviour is
//! its configuration, which the specification knows (kind "mock").
use crate::chain::{Coins, Contract, Out, Res, World};
use crate::codec as cc;
use crate::wire;
use serde_json::{json, Value};
use std::rc::Rc;

pub fn default_cfg() -> Value {
    json!({"fee": [], "hmode": "ok", "qmode": "ok", "tab": [], "vmode": "yes", "acc": [], "vi": [1, []],
           "ism": [], "imode": "ok", "rmode": "ok", "subs": []})
}

fn hexv(v: &Value) -> Res<Vec<u8>> {
    v.as_str().and_then(cc::unhex).ok_or_else(|| "hex".to_string())
}

pub fn coins_of(v: &Value) -> Coins {
    v.as_array().unwrap().iter().map(|c| (cc::denom(c[0].as_str().unwrap()), cc::u128_of(&c[1]))).collect()
}

fn quote(c: &Contract, meta: &[u8], msg: &[u8]) -> Res<Coins> {
    if c.cfg["qmode"] == "err" {
        return Err("mock quote".into());
    }
    if msg.len() >= 77 {
        let d = cc::i32v(u32::from_be_bytes(msg[41..45].try_into().unwrap()));
        for t in c.cfg["tab"].as_array().unwrap() {
            if t[1] == d && cc::meta(&t[0]) == meta {
                return Ok(coins_of(&t[2]));
            }
        }
    }
    Ok(coins_of(&c.cfg["fee"]))
}

pub fn query(w: &World, c: &Contract, bin: &[u8]) -> Res<Vec<u8>> {
    let q: Value = serde_json::from_slice(bin).map_err(|e| e.to_string())?;
    let cfg = &c.cfg;
    let r = if let Some(x) = q["hook"]["quote_dispatch"].as_object() {
        let c = quote(c, &hexv(&x["metadata"])?, &hexv(&x["message"])?)?;
        let fees: Vec<Value> = c.iter().map(|(d, a)| json!({"denom": d, "amount": a.to_string()})).collect();
        json!({ "fees": fees })
    } else if let Some(x) = q["ism"]["verify"].as_object() {
        let (meta, msg) = (hexv(&x["metadata"])?, hexv(&x["message"])?);
        let v = match cfg["vmode"].as_str().unwrap() {
            "yes" => true,
            "no" => false,
            "genuine" => w.sent.contains(&msg),
            "acc" => cfg["acc"].as_array().unwrap().iter().any(|a| cc::meta(&a[0]) == meta && cc::msg(&a[1]) == msg),
            _ => return Err("mock verify".into()),
        };
        json!({ "verified": v })
    } else if q["ism"]["verify_info"].is_object() {
        if cfg["vmode"] == "err" {
            return Err("mock verify info".into());
        }
        let n: Vec<String> = cfg["vi"][1].as_array().unwrap().iter().map(|x| cc::hex(&cc::raw_bytes(x.as_str().unwrap()))).collect();
        json!({"threshold": cfg["vi"][0], "validators": n})
    } else if !q["ism_specifier"]["interchain_security_module"].is_null() {
        if cfg["imode"] == "err" {
            return Err("mock ism".into());
        }
        json!({"ism": cfg["ism"].get(0).map(|a| cc::addr(a.as_str().unwrap()))})
    } else {
        return Err("mock query".into());
    };
    Ok(serde_json::to_vec(&r).unwrap())
}

pub fn execute(w: &mut World, sender: &str, addr: &str, bin: &[u8], funds: &Coins, depth: usize) -> Res<Out> {
    let m: Value = serde_json::from_slice(bin).map_err(|e| e.to_string())?;
    let c = w.k[addr].clone();
    let me = cc::name(addr);
    let s = cc::name(sender);
    let first = if m["post_dispatch"].is_object() {
        let x = &m["post_dispatch"];
        let (meta, msg) = (hexv(&x["metadata"])?, hexv(&x["message"])?);
        match c.cfg["hmode"].as_str().unwrap() {
            "fail" => return Err("mock hook".into()),
            "strict" => {
                if &quote(&c, &meta, &msg)? != funds {
                    return Err("mock hook: not the quote".into());
                }
            }
            _ => {}
        }
        json!(["hook", me, s, cc::unmeta(&meta), cc::unmsg(&msg), World::coinseq(funds)])
    } else if m["handle"].is_object() {
        if c.cfg["rmode"] == "fail" {
            return Err("mock recipient".into());
        }
        let x = &m["handle"];
        let (snd, body) = (hexv(&x["sender"])?, hexv(&x["body"])?);
        let o = cc::i32v(x["origin"].as_u64().ok_or("origin")? as u32);
        json!(["handle", me, s, o, cc::unsized_(&snd), cc::unbody(&body), World::coinseq(funds)])
    } else {
        return Err("mock execute".into());
    };
    let mut ev = vec![first];
    let subs = c.cfg["subs"].as_array().unwrap().clone();
    if !subs.is_empty() {
        let mut cfg = (*c.cfg).clone();
        cfg["subs"] = json!([]);
        w.k.get_mut(addr).unwrap().cfg = Rc::new(cfg);
    }
    for u in subs {
        let to = cc::addr(u["a"].as_str().unwrap());
        let try_ = u["try"] == true;
        let save = w.clone();
        let bin = wire::exec(&w.kind_of(&to), &u["m"]);
        match w.execute(addr, &to, &bin, &coins_of(&u["f"]), depth + 1) {
            Ok(o) => {
                ev.extend(o.ev);
                if try_ {
                    ev.push(json!(["sub", me, true]));
                }
            }
            Err(_) if try_ => {
                *w = save;
                ev.push(json!(["sub", me, false]));
            }
            Err(e) => return Err(e),
        }
    }
    Ok(Out { ev, data: None })
}
