//! The JSON messages of the contracts: calls, queries and their answers.
use crate::chain::{Coins, Contract, World};
use crate::codec as cc;
use crate::mock;
use serde_json::{json, Value};
use std::rc::Rc;

fn st<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap_or_else(|| panic!("field {k} of {v}"))
}
fn ad(v: &Value) -> String {
    cc::addr(v.as_str().unwrap_or_else(|| panic!("address {v}")))
}
fn opt(v: &Value, f: impl Fn(&Value) -> Value) -> Value {
    v.get(0).map(f).unwrap_or(Value::Null)
}
fn hx(b: Vec<u8>) -> Value {
    json!(cc::hex(&b))
}
fn arr(v: &Value) -> &Vec<Value> {
    v.as_array().unwrap_or_else(|| panic!("array {v}"))
}
fn map(v: &Value, f: impl Fn(&Value) -> Value) -> Value {
    Value::Array(arr(v).iter().map(f).collect())
}
fn amount(v: &Value) -> Value {
    json!(cc::dec(v))
}
fn coin(v: &Value) -> Value {
    json!({"denom": cc::denom(v[0].as_str().unwrap()), "amount": cc::dec(&v[1])})
}

/// the contract name each kind stores for itself
pub fn code_name(kind: &str) -> &'static str {
    match kind {
        "mailbox" => "hpl-mailbox",
        "va" => "hpl-validator-announce",
        "hagg" => "hpl-hook-aggregate",
        "fee" => "hpl-hook-fee",
        "merkle" => "hpl-hook-merkle",
        "hpaus" => "hpl-hook-pausable",
        "hroute" => "hpl-hook-routing",
        "hcustom" => "hpl-hook-routing-custom",
        "hfall" => "hpl-hook-routing-fallback",
        "igp" => "hpl-igp",
        "oracle" => "hpl-igp-oracle",
        "iagg" => "hpl-ism-aggregate",
        "imulti" => "hpl-ism-multisig",
        "ipaus" => "hpl-ism-pausable",
        "iroute" => "hpl-ism-routing",
        "wnat" => "hpl-warp-native",
        "wcw" => "hpl-warp-cw20",
        _ => "",
    }
}
fn kind_of_code(n: &str) -> String {
    crate::chain::KINDS.iter().find(|k| code_name(k) == n).map(|k| k.to_string()).unwrap_or_else(|| n.to_string())
}

fn set_route(kind: &str, d: &Value, r: &Value) -> Value {
    let warp = kind == "wnat" || kind == "wcw";
    let r = opt(r, |x| if warp { hx(cc::sized(x)) } else { json!(ad(x)) });
    json!({"domain": cc::w32(d), "route": r})
}

pub fn exec(kind: &str, m: &Value) -> Vec<u8> {
    let own = if kind == "oracle" { "ownership" } else { "ownable" };
    let x = |k: &str| json!({k: {}});
    let v = match st(m, "k") {
        "InitOwn" => json!({own: {"init_ownership_transfer": {"next_owner": ad(&m["to"])}}}),
        "RevokeOwn" => json!({own: {"revoke_ownership_transfer": {}}}),
        "ClaimOwn" => json!({own: {"claim_ownership": {}}}),
        "SetRoute" => json!({"router": {"set_route": {"set": set_route(kind, &m["d"], &m["r"])}}}),
        "SetRoutes" => json!({"router": {"set_routes": {"set": map(&m["set"], |e| set_route(kind, &e[0], &e[1]))}}}),
        "SetMailbox" => json!({"connection": {"set_mailbox": {"mailbox": ad(&m["x"])}}}),
        "SetHook" => json!({"connection": {"set_hook": {"hook": ad(&m["x"])}}}),
        "SetIsm" => json!({"connection": {"set_ism": {"ism": ad(&m["x"])}}}),
        "Pause" => json!({"pausable": x("pause")}),
        "Release" => json!({"pausable": x("release")}),
        // mailbox
        "SetDefaultIsm" => json!({"set_default_ism": {"ism": ad(&m["x"])}}),
        "SetDefaultHook" => json!({"set_default_hook": {"hook": ad(&m["x"])}}),
        "SetRequiredHook" => json!({"set_required_hook": {"hook": ad(&m["x"])}}),
        "Dispatch" => json!({ "dispatch": dispatch(m) }),
        "Process" => json!({"process": {"metadata": hx(cc::meta(&m["meta"])), "message": hx(cc::msg(&m["msg"]))}}),
        "Handle" => json!({"handle": {"origin": cc::w32(&m["o"]), "sender": hx(cc::sized(&m["s"])), "body": hx(cc::body(&m["b"]))}}),
        // hooks
        "PostDispatch" => json!({"post_dispatch": {"metadata": hx(cc::meta(&m["meta"])), "message": hx(cc::msg(&m["msg"]))}}),
        "SetHooks" => json!({"set_hooks": {"hooks": map(&m["hooks"], |a| json!(ad(a)))}}),
        "SetFee" => json!({"fee_hook": {"set_fee": {"fee": coin(&m["fee"])}}}),
        "FeeClaim" => json!({"fee_hook": {"claim": {"recipient": opt(&m["to"], |a| json!(ad(a)))}}}),
        "SetFallback" => json!({"set_fallback_hook": {"hook": ad(&m["x"])}}),
        "Register" | "Clear" => {
            let reg = st(m, "k") == "Register";
            let one = |e: &Value| {
                let mut o = json!({"dest_domain": cc::w32(&e[0]), "recipient": cc::hex(&cc::sized(&e[1]))});
                if reg {
                    o["hook"] = json!(ad(&e[2]));
                }
                o
            };
            let base = if reg { "register_custom_hook" } else { "clear_custom_hook" };
            if m["one"] == true {
                json!({base: one(&m["regs"][0])})
            } else {
                json!({format!("{base}s"): map(&m["regs"], one)})
            }
        }
        // gas
        "SetDefaultGas" => json!({"set_default_gas": {"gas": amount(&m["g"])}}),
        "SetGas" => json!({"set_gas_for_domain": {"config": map(&m["cfg"], |e| json!([cc::w32(&e[0]), cc::dec(&e[1])]))}}),
        "UnsetGas" => json!({"unset_gas_for_domain": {"domains": map(&m["ds"], |d| json!(cc::w32(d)))}}),
        "SetBenef" => json!({"set_beneficiary": {"beneficiary": ad(&m["x"])}}),
        "Claim" => x("claim"),
        "PayForGas" => json!({"pay_for_gas": {"message_id": hx(cc::id_bytes(&m["id"])), "dest_domain": cc::w32(&m["d"]),
                              "gas_amount": amount(&m["g"]), "refund_address": ad(&m["to"])}}),
        "SetGasDatas" => json!({"set_remote_gas_data_configs": {"configs": map(&m["cfg"], gas_data)}}),
        "SetGasData" => json!({"set_remote_gas_data": {"config": gas_data(&m["c"])}}),
        // isms
        "SetIsms" => json!({"set_isms": {"isms": map(&m["isms"], |a| json!(ad(a))), "threshold": m["t"]}}),
        "SetVals" => json!({"set_validators": {"domain": cc::w32(&m["d"]), "threshold": m["t"],
                            "validators": map(&m["vals"], |v| hx(cc::sized(v)))}}),
        "UnsetDomain" => json!({"unset_domain": {"domain": cc::w32(&m["d"])}}),
        "SetIsmRoute" => json!({"set": {"ism": {"domain": cc::w32(&m["d"]), "address": ad(&m["x"])}}}),
        "UnsetIsmRoute" => json!({"unset": {"domains": map(&m["ds"], |d| json!(cc::w32(d)))}}),
        // validator announce
        "Announce" => json!({"announce": {"validator": hx(cc::sized(&m["v"])), "storage_location": m["loc"],
                             "signature": hx(cc::announce_sig(&m["sig"]))}}),
        // warp
        "TransferRemote" => json!({"transfer_remote": {"dest_domain": cc::w32(&m["d"]), "recipient": hx(cc::sized(&m["r"])),
                                   "amount": amount(&m["amt"]), "hook": opt(&m["hook"], |a| json!(ad(a))),
                                   "metadata": opt(&m["meta"], |v| hx(cc::meta(v)))}}),
        // cw20
        "Xfer" => json!({"transfer": {"recipient": ad(&m["to"]), "amount": amount(&m["amt"])}}),
        "XferFrom" => json!({"transfer_from": {"owner": ad(&m["from"]), "recipient": ad(&m["to"]), "amount": amount(&m["amt"])}}),
        "IncAllow" => json!({"increase_allowance": {"spender": ad(&m["sp"]), "amount": amount(&m["amt"])}}),
        "Burn" => json!({"burn": {"amount": amount(&m["amt"])}}),
        "Mint" => json!({"mint": {"recipient": ad(&m["to"]), "amount": amount(&m["amt"])}}),
        k => panic!("HARNESS:call {k}"),
    };
    serde_json::to_vec(&v).unwrap()
}

fn dispatch(m: &Value) -> Value {
    json!({"dest_domain": cc::w32(&m["d"]), "recipient_addr": hx(cc::sized(&m["r"])), "msg_body": hx(cc::body(&m["b"])),
           "hook": opt(&m["hook"], |a| json!(ad(a))), "metadata": opt(&m["meta"], |v| hx(cc::meta(v)))})
}
fn gas_data(c: &Value) -> Value {
    json!({"remote_domain": cc::w32(&c[0]), "token_exchange_rate": cc::dec(&c[1]), "gas_price": cc::dec(&c[2])})
}

pub fn inst(m: &Value) -> Vec<u8> {
    let owner = || ad(&m["owner"]);
    let hrp = || match m["hrp"].as_str() {
        None | Some("~") => cc::hrp(),
        Some(h) => h.to_string(),
    };
    let v = match st(m, "kind") {
        "mailbox" => json!({"hrp": hrp(), "owner": owner(), "domain": cc::w32(&m["dom"])}),
        "va" => json!({"hrp": hrp(), "mailbox": ad(&m["mb"])}),
        "hagg" => json!({"owner": owner(), "hooks": map(&m["hooks"], |a| json!(ad(a)))}),
        "fee" => json!({"owner": owner(), "fee": coin(&m["fee"])}),
        "merkle" => json!({"mailbox": ad(&m["mb"])}),
        "hpaus" | "ipaus" => json!({"owner": owner(), "paused": m["paused"]}),
        "hroute" | "hcustom" | "hfall" | "oracle" | "imulti" => json!({"owner": owner()}),
        "igp" => json!({"hrp": hrp(), "owner": owner(), "gas_token": cc::denom(st(m, "denom")), "beneficiary": ad(&m["benef"]),
                        "default_gas_usage": amount(&m["gas"])}),
        "iagg" => json!({"owner": owner(), "isms": map(&m["isms"], |a| json!(ad(a))), "threshold": m["t"]}),
        "iroute" => json!({"owner": owner(), "isms": map(&m["isms"], |e| json!({"domain": cc::w32(&e[0]), "address": ad(&e[1])}))}),
        "wnat" => {
            let t = if st(m, "mode") == "bridged" {
                json!({"bridged": {"denom": st(m, "denom"), "metadata": denom_metadata(&m["dm"])}})
            } else {
                json!({"collateral": {"denom": cc::denom(st(m, "denom"))}})
            };
            json!({"token": t, "hrp": hrp(), "owner": owner(), "mailbox": ad(&m["mb"])})
        }
        "wcw" => {
            let t = if st(m, "mode") == "bridged" {
                let none = json!({"name": "Token", "sym": "TOKEN", "dec": 6, "bals": [], "mint": []});
                let i = if m["init"].is_null() { &none } else { &m["init"] };
                let mint = match i["mint"].as_array().unwrap().as_slice() {
                    [] => Value::Null,
                    [who] => json!({"minter": ad(who), "cap": null}),
                    [who, cap] => json!({"minter": ad(who), "cap": cc::dec(cap)}),
                    _ => panic!("HARNESS:minter"),
                };
                json!({"bridged": {"code_id": 1, "init_msg": {"name": i["name"], "symbol": i["sym"], "decimals": i["dec"],
                       "initial_balances": map(&i["bals"], |b| json!({"address": ad(&b[0]), "amount": cc::dec(&b[1])})),
                       "mint": mint, "marketing": null}}})
            } else {
                json!({"collateral": {"address": ad(&m["tok"])}})
            };
            json!({"token": t, "hrp": hrp(), "owner": owner(), "mailbox": ad(&m["mb"])})
        }
        "cw20" => json!({"name": "Token", "symbol": "TOKEN", "decimals": 6,
                         "initial_balances": map(&m["bals"], |b| json!({"address": ad(&b[0]), "amount": cc::dec(&b[1])})),
                         "mint": {"minter": ad(&m["minter"]), "cap": null}, "marketing": null}),
        k => panic!("HARNESS:kind {k}"),
    };
    serde_json::to_vec(&v).unwrap()
}

fn denom_metadata(m: &Value) -> Value {
    if m.is_null() {
        return Value::Null;
    }
    json!({"description": m["desc"], "base": cc::denom(st(m, "base")), "display": m["display"], "name": m["name"], "symbol": m["sym"],
           "denom_units": map(&m["units"], |u| json!({"denom": u[0], "exponent": cc::w32(&u[1]).to_string(), "aliases": u[2]}))})
}

fn name_or_null(v: &Value) -> Value {
    match v.as_str() {
        Some(a) => json!([cc::name(a)]),
        None => json!([]),
    }
}
fn num(v: &Value) -> Value {
    v.as_u64().map(|x| cc::i32v(x as u32)).unwrap_or_else(|| json!(["?", v]))
}
fn big(v: &Value) -> Value {
    match v.as_str() {
        Some(s) if !s.is_empty() && s.bytes().all(|c| c.is_ascii_digit()) => cc::limbs(s),
        _ => json!(["?", v]),
    }
}
fn bytes(v: &Value) -> Vec<u8> {
    v.as_str().and_then(cc::unhex).unwrap_or_default()
}
fn hex_or_q(v: &Value) -> Value {
    json!(v.as_str().unwrap_or("?"))
}
fn nm(v: &Value) -> Value {
    json!(v.as_str().map(cc::name).unwrap_or_else(|| format!("?{v}")))
}
fn list(v: &Value, f: impl Fn(&Value) -> Value) -> Value {
    match v.as_array() {
        Some(a) => Value::Array(a.iter().map(f).collect()),
        None => json!(["?", v]),
    }
}
fn coins(v: &Value) -> Value {
    let mut m = Coins::new();
    for c in v.as_array().into_iter().flatten() {
        let a: u128 = c["amount"].as_str().and_then(|x| x.parse().ok()).unwrap_or(0);
        let e = m.entry(c["denom"].as_str().unwrap_or("?").to_string()).or_insert(0);
        *e = e.saturating_add(a);
    }
    World::coinseq(&m)
}

impl World {
    pub fn kind_of(&self, addr: &str) -> String {
        self.k.get(addr).map(|c| c.kind.clone()).unwrap_or_default()
    }

    /// run one call of the specification; (ok, events, data, error text)
    pub fn run(&mut self, c: &Value) -> (bool, Vec<Value>, Value, String) {
        self.clock.tick();
        let a = st(c, "a").to_string();
        let at = cc::addr(&a);
        let m = c["m"].clone();
        let r = match st(c, "t") {
            "exec" => {
                let bin = exec(&self.kind_of(&at), &m);
                let f = mock::coins_of(&c["f"]);
                let s = ad(&c["s"]);
                self.tx(|w| w.execute(&s, &at, &bin, &f, 0))
            }
            "inst" => {
                let bin = inst(&m);
                let kind = st(&m, "kind").to_string();
                let s = ad(&c["s"]);
                self.tx(|w| w.instantiate(&s, &at, &kind, &bin, 0))
            }
            "migrate" => self.tx(|w| w.migrate(&at)),
            "setver" => {
                let cn = st(&m, "cn");
                let n = if code_name(cn).is_empty() { cn } else { code_name(cn) };
                let v = json!({"contract": n, "version": m["cvs"]});
                let k = self.k.get_mut(&at).unwrap();
                Rc::make_mut(&mut k.kv).insert(b"contract_info".to_vec(), serde_json::to_vec(&v).unwrap());
                Ok(crate::chain::Out { ev: vec![], data: None })
            }
            "poke" => self.poke(&at, &m).map(|_| crate::chain::Out { ev: vec![], data: None }),
            "mock" => {
                self.k.insert(at, Contract { kind: "mock".into(), kv: Default::default(), cfg: Rc::new(m) });
                Ok(crate::chain::Out { ev: vec![], data: None })
            }
            "bank" => {
                let f = mock::coins_of(&c["f"]);
                self.tx(|w| w.mint(&at, &f)).map(|_| crate::chain::Out { ev: vec![], data: None })
            }
            t => panic!("HARNESS:call type {t}"),
        };
        match r {
            Ok(o) => {
                let data = match o.data {
                    None => json!([]),
                    Some(d) => match serde_json::from_slice::<Value>(&d) {
                        Ok(v) if v["message_id"].is_string() => json!([cc::unid(&bytes(&v["message_id"]))]),
                        _ => json!(["?"]),
                    },
                };
                (true, o.ev, data, String::new())
            }
            Err(e) => (false, vec![], json!([]), e),
        }
    }

    /// put a counter where only a very long history would take it; refused when
    /// the contract does not keep it the way this function knows
    pub fn poke(&mut self, at: &str, m: &Value) -> Result<(), String> {
        let n = cc::w32(&m["n"]);
        let save = self.clone();
        let k = self.k.get_mut(at).ok_or("no such contract")?;
        let kind = k.kind.clone();
        let kv = Rc::make_mut(&mut k.kv);
        let put = |old: &Value, x: u64| if old.is_string() { json!(x.to_string()) } else { json!(x) };
        let me = cc::name(at);
        let good = match kind.as_str() {
            "mailbox" => {
                let old: Value = kv.get(b"nonce".as_slice()).and_then(|v| serde_json::from_slice(v).ok()).ok_or("no nonce")?;
                kv.insert(b"nonce".to_vec(), put(&old, n as u64).to_string().into_bytes());
                self.ask(&json!({"a": me, "k": "Nonce"})) == json!(["ok", cc::i32v(n)])
            }
            "merkle" => {
                let mut t: Value = kv.get(b"message_tree".as_slice()).and_then(|v| serde_json::from_slice(v).ok()).ok_or("no tree")?;
                if t["count"].is_null() || t["branch"].as_array().map(|b| b.len()) != Some(32) || t.as_object().map(|o| o.len()) != Some(2) {
                    return Err("another tree".into());
                }
                let l = cc::Leaves::pretend(n as u64, n as u64 ^ self.clock.salt);
                t["count"] = put(&t["count"], n as u64);
                for i in 0..32u32 {
                    let h = l.side(i).unwrap_or_else(|| cc::keccak(&[i as u8, n as u8]));
                    t["branch"][i as usize] = json!(cc::hex(&h));
                }
                kv.insert(b"message_tree".to_vec(), serde_json::to_vec(&t).unwrap());
                self.leaves.insert(at.to_string(), Rc::new(l));
                self.ask(&json!({"a": me, "k": "Count"})) == json!(["ok", cc::i32v(n)])
            }
            k => panic!("HARNESS:poke {k}"),
        };
        if !good {
            *self = save;
            return Err("another layout".into());
        }
        Ok(())
    }

    /// ["ok", answer] or ["err"]
    pub fn ask(&self, q: &Value) -> Value {
        match self.ask_(q) {
            Some(v) => json!(["ok", v]),
            None => json!(["err"]),
        }
    }

    fn ask_(&self, q: &Value) -> Option<Value> {
        let a = cc::addr(st(q, "a"));
        let k = st(q, "k");
        match k {
            "bal" => return Some(cc::limbs128(self.balance(&a, &cc::denom(st(q, "d"))))),
            "allbal" => return Some(World::coinseq(&self.bank.get(&a).cloned().unwrap_or_default())),
            _ => {}
        }
        let c = self.k.get(&a)?;
        let kind = c.kind.as_str();
        if k == "ver" {
            if code_name(kind).is_empty() {
                return None;
            }
            let v: Value = serde_json::from_slice(c.kv.get(b"contract_info".as_slice())?).ok()?;
            return Some(json!([kind_of_code(v["contract"].as_str()?), v["version"]]));
        }
        let page = |extra: Value, off: Value| {
            let mut o = extra;
            o["offset"] = off;
            o["limit"] = opt(&q["lim"], |x| json!(cc::w32(x)));
            o["order"] = opt(&q["ord"], |x| x.clone());
            o
        };
        let offw = || opt(&q["off"], |x| json!(cc::w32(x)));
        let mm = |name: &str| json!({"merkle_hook": {name: {}}});
        let mbq = |name: &str| json!({"mailbox": {name: {}}});
        let metamsg = || json!({"metadata": hx(cc::meta(&q["meta"])), "message": hx(cc::msg(&q["msg"]))});
        let warp = kind == "wnat" || kind == "wcw";
        let bin = match k {
            "Owner" => json!({"ownable": {"get_owner": {}}}),
            "Pending" => json!({"ownable": {"get_pending_owner": {}}}),
            "Domains" => json!({"router": {"domains": {}}}),
            "GetRoute" => json!({"router": {"get_route": {"domain": cc::w32(&q["d"])}}}),
            "ListRoutes" => json!({"router": {"list_routes": page(json!({}), offw())}}),
            "GetMailbox" => json!({"connection": {"get_mailbox": {}}}),
            "GetHook" => json!({"connection": {"get_hook": {}}}),
            "GetIsm" => json!({"connection": {"get_ism": {}}}),
            "Paused" => json!({"pausable": {"pause_info": {}}}),
            "LocalDomain" => mbq("local_domain"),
            "DefaultIsm" => mbq("default_ism"),
            "DefaultHook" => mbq("default_hook"),
            "RequiredHook" => mbq("required_hook"),
            "Delivered" => json!({"mailbox": {"message_delivered": {"id": hx(cc::id_bytes(&q["id"]))}}}),
            "Nonce" => mbq("nonce"),
            "LatestId" => mbq("latest_dispatch_id"),
            "RecipientIsm" => json!({"mailbox": {"recipient_ism": {"recipient_addr": ad(&q["x"])}}}),
            "MQuote" => json!({"hook": {"quote_dispatch": {"sender": ad(&q["sender"]), "msg": dispatch(q)}}}),
            "HMailbox" => json!({"hook": {"mailbox": {}}}),
            "Quote" => json!({"hook": {"quote_dispatch": metamsg()}}),
            "Fee" => json!({"fee_hook": {"fee": {}}}),
            "Hooks" => json!({"aggregate_hook": {"hooks": {}}}),
            "Count" => mm("count"),
            "Root" => mm("root"),
            "Branch" => mm("branch"),
            "Tree" => mm("tree"),
            "Checkpoint" => mm("check_point"),
            "CustomHook" => json!({"custom_routing_hook": {"custom_hook": {"dest_domain": cc::w32(&q["d"]),
                                   "recipient": cc::hex(&cc::sized(&q["r"]))}}}),
            "CustomHooks" => json!({"custom_routing_hook": {"custom_hooks":
                                   page(json!({"dest_domain": cc::w32(&q["d"])}), opt(&q["off"], |x| hx(cc::b32(x.as_str().unwrap()))))}}),
            "DefaultGas" => json!({"igp": {"default_gas": {}}}),
            "GasFor" => json!({"igp": {"gas_for_domain": {"domains": map(&q["ds"], |d| json!(cc::w32(d)))}}}),
            "ListGas" => json!({"igp": {"list_gas_for_domains": page(json!({}), offw())}}),
            "Benef" => json!({"igp": {"beneficiary": {}}}),
            "QuoteGas" => json!({"igp": {"quote_gas_payment": {"dest_domain": cc::w32(&q["d"]), "gas_amount": amount(&q["g"])}}}),
            "Oracle" => json!({"oracle": {"get_exchange_rate_and_gas_price": {"dest_domain": cc::w32(&q["d"])}}}),
            "ModuleType" => json!({"ism": {"module_type": {}}}),
            "Verify" => json!({"ism": {"verify": metamsg()}}),
            "VerifyInfo" => json!({"ism": {"verify_info": {"message": hx(cc::msg(&q["msg"]))}}}),
            "Isms" => json!({"aggregate_ism": {"isms": {}}}),
            "Enrolled" => json!({"multisig_ism": {"enrolled_validators": {"domain": cc::w32(&q["d"])}}}),
            "Route" => json!({"routing_ism": {"route": {"message": hx(cc::msg(&q["msg"]))}}}),
            "Locs" => json!({"get_announce_storage_locations": {"validators": map(&q["vs"], |v| hx(cc::sized(v)))}}),
            "Anns" => json!({"get_announced_validators": {}}),
            "VMailbox" => json!({"mailbox": {}}),
            "VDomain" => json!({"local_domain": {}}),
            "TokType" => json!({"token_default": {"token_type": {}}}),
            "TokMode" => json!({"token_default": {"token_mode": {}}}),
            "Ism" => json!({"ism_specifier": {"interchain_security_module": []}}),
            "CBal" => json!({"balance": {"address": ad(&q["x"])}}),
            "CSupply" | "CInfo" => json!({"token_info": {}}),
            "CMinter" => json!({"minter": {}}),
            "Hrp" => mbq("hrp"),
            "CAllow" => json!({"allowance": {"owner": ad(&q["o"]), "spender": ad(&q["sp"])}}),
            k => panic!("HARNESS:query {k}"),
        };
        let bin = serde_json::to_vec(&bin).unwrap();
        let raw = self.query(&a, &bin, 0).ok()?;
        let v: Value = serde_json::from_slice(&raw).ok()?;
        let route = |r: &Value| match r {
            Value::Null => json!([]),
            r if warp => json!([cc::unsized_(&bytes(r))]),
            r => json!([nm(r)]),
        };
        let leaves = self.leaves.get(&a).map(|l| (**l).clone()).unwrap_or_default();
        let n = cc::i32v(leaves.len() as u32);
        let root = |r: &Value| if bytes(r) == leaves.root() { json!(["R", n]) } else { json!(["R?", hex_or_q(r)]) };
        let branch = |b: &Value| {
            let ok = b.as_array().map(|x| x.len()) == Some(32)
                && (0..32).all(|i| leaves.side(i as u32).map(|h| bytes(&b[i]) == h).unwrap_or(true));
            if ok { "T" } else { "T?" }
        };
        Some(match k {
            "Owner" => nm(&v["owner"]),
            "Pending" => name_or_null(&v["pending_owner"]),
            "Domains" => list(&v["domains"], num),
            "GetRoute" => json!([num(&v["route"]["domain"]), route(&v["route"]["route"])]),
            "ListRoutes" => list(&v["routes"], |e| json!([num(&e["domain"]), route(&e["route"])])),
            "GetMailbox" => name_or_null(&v["mailbox"]),
            "GetHook" => name_or_null(&v["hook"]),
            "GetIsm" => name_or_null(&v["ism"]),
            "Paused" => v["paused"].clone(),
            "LocalDomain" => num(&v["local_domain"]),
            "DefaultIsm" => nm(&v["default_ism"]),
            "DefaultHook" => nm(&v["default_hook"]),
            "RequiredHook" => nm(&v["required_hook"]),
            "Delivered" => v["delivered"].clone(),
            "Nonce" => num(&v["nonce"]),
            "LatestId" => cc::unid(&bytes(&v["message_id"])),
            "RecipientIsm" => nm(&v["ism"]),
            "MQuote" | "Quote" => coins(&v["fees"]),
            "HMailbox" => match v["mailbox"].as_str() {
                Some("unrestricted") => json!("unrestricted"),
                _ => nm(&v["mailbox"]),
            },
            "Fee" => json!([cc::undenom(v["fee"]["denom"].as_str().unwrap_or("?")), big(&v["fee"]["amount"])]),
            "Hooks" => list(&v["hooks"], nm),
            "Count" => num(&v["count"]),
            "Root" => root(&v["root"]),
            "Branch" => json!([branch(&v["branch"]), n]),
            "Tree" => json!([branch(&v["branch"]), n, num(&v["count"])]),
            "Checkpoint" => {
                let mut r = root(&v["root"]);
                r.as_array_mut().unwrap().push(num(&v["count"]));
                r
            }
            "CustomHook" => nm(&v["hook"]),
            "CustomHooks" => list(&v["custom_hooks"], |e| {
                json!([num(&e["dest_domain"]), cc::name_of32(&bytes(&e["recipient"])), nm(&e["hook"])])
            }),
            "DefaultGas" => big(&v["gas"]),
            "GasFor" | "ListGas" => list(&v["gas"], |e| json!([num(&e[0]), big(&e[1])])),
            "Benef" => nm(&v["beneficiary"]),
            "QuoteGas" => big(&v["gas_needed"]),
            "Oracle" => json!([big(&v["exchange_rate"]), big(&v["gas_price"])]),
            "ModuleType" => v["type"].clone(),
            "Verify" => v["verified"].clone(),
            "VerifyInfo" => json!([v["threshold"], list(&v["validators"], |x| json!(cc::acct(&bytes(x))))]),
            "Isms" => json!([v["threshold"], list(&v["isms"], nm)]),
            "Enrolled" => json!([v["threshold"], list(&v["validators"], |x| json!(cc::acct(&bytes(x))))]),
            "Route" => nm(&v["ism"]),
            "Locs" => list(&v["storage_locations"], |e| json!([cc::unsized_(&bytes(&e[0])), e[1]])),
            "Anns" => list(&v["validators"], |x| json!(cc::acct(&bytes(x)))),
            "VMailbox" => json!(cc::acct(&bytes(&v["mailbox"]))),
            "VDomain" => num(&v["local_domain"]),
            "TokType" => {
                if let Some(d) = v["type"]["native"]["fungible"]["denom"].as_str() {
                    json!(["native", cc::undenom(d)])
                } else {
                    json!(["cw20", nm(&v["type"]["c_w20"]["contract"])])
                }
            }
            "TokMode" => v["mode"].clone(),
            "Ism" => name_or_null(&v["ism"]),
            "CBal" => big(&v["balance"]),
            "CSupply" => big(&v["total_supply"]),
            "CInfo" => json!([v["name"], v["symbol"], v["decimals"]]),
            "CMinter" => json!([nm(&v["minter"]), v["cap"].as_str().map(|c| vec![cc::limbs(c)]).unwrap_or_default()]),
            "Hrp" => match v["hrp"].as_str() {
                Some(h) if h == cc::hrp() => json!("~"),
                Some(h) => json!(h),
                None => json!("?"),
            },
            "CAllow" => big(&v["allowance"]),
            _ => unreachable!(),
        })
    }
}
