//! A minimal deterministic chain: bank, wasm messages with sub-messages and
//! replies, queries, tokenfactory, transactions that are undone when they
//! fail.  The contracts it runs are the real ones of /repo.
use crate::codec as cc;
use crate::mock;
use cosmwasm_std::testing::MockApi;
use cosmwasm_std::{
    from_json, Addr, AllBalanceResponse, Api, BalanceResponse, BankMsg, BankQuery, Binary, BlockInfo, CanonicalAddr,
    Coin, ContractInfo, ContractResult, CosmosMsg, Deps, DepsMut, Empty, Env, Event, MessageInfo, Order, Querier,
    QuerierResult, QuerierWrapper, QueryRequest, RecoverPubkeyError, Record, Reply, ReplyOn, Response, StdError,
    StdResult, Storage, SubMsg, SubMsgResponse, SubMsgResult, SupplyResponse, SystemError, SystemResult, Timestamp,
    Uint128, VerificationError, WasmMsg, WasmQuery,
};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub const MAX_DEPTH: usize = 12;
pub type Kv = BTreeMap<Vec<u8>, Vec<u8>>;
pub type Coins = BTreeMap<String, u128>;
pub type Res<T> = Result<T, String>;

#[derive(Clone)]
pub struct Contract {
    pub kind: String,
    pub kv: Rc<Kv>,
    pub cfg: Rc<Value>, // of a mock
}

#[derive(Clone, Default)]
pub struct World {
    pub k: BTreeMap<String, Contract>,
    pub bank: Rc<BTreeMap<String, Coins>>,
    pub sent: Rc<BTreeSet<Vec<u8>>>,
    pub leaves: BTreeMap<String, Rc<cc::Leaves>>,
    /// denoms made by the token factory
    pub made: Rc<std::collections::BTreeSet<String>>,
    pub clock: Clock,
}

/// The block a call runs in.  Nothing the contracts do may depend on it, so it
/// advances irregularly: several calls in one block, then years at once.
#[derive(Clone, Default)]
pub struct Clock {
    pub salt: u64,
    calls: u64,
    height: u64,
    secs: u64,
}
impl Clock {
    pub fn tick(&mut self) {
        self.calls += 1;
        let mut z = (self.salt ^ self.calls).wrapping_mul(0x9e37_79b9_7f4a_7c15);
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^= z >> 31;
        const STEP: [u64; 16] = [0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 7, 101, 1009, 20011, 1_000_003, 30_000_001];
        let n = STEP[(z % 16) as usize];
        self.height += n;
        if self.secs < 14_000_000_000 {
            self.secs += n * (1 + (z >> 8) % 12);
        }
        // numbers the source names: the next multiples of them, as heights and as times
        let d = crate::gen::dict();
        let d: Vec<u64> = d.0.iter().filter(|x| (2..1 << 31).contains(*x)).map(|x| *x as u64).collect();
        if !d.is_empty() && (z >> 16) % 6 == 0 {
            let n = d[(z >> 20) as usize % d.len()];
            let next = |x: u64| x + (n - x % n);
            if (z >> 40) % 2 == 0 {
                self.height = next(1 + self.height + n) - 1 - (z >> 41) % 2;
            } else {
                let now = 1_700_000_000 + self.secs;
                let then = next(now + n) - (z >> 41) % 2;
                if then < 15_000_000_000 {
                    self.secs = then - 1_700_000_000;
                }
            }
        }
    }
}

// ------------------------------------------------------------------ storage
pub struct Store(pub Rc<Kv>);
impl Storage for Store {
    fn get(&self, key: &[u8]) -> Option<Vec<u8>> {
        self.0.get(key).cloned()
    }
    fn range<'a>(&'a self, start: Option<&[u8]>, end: Option<&[u8]>, order: Order) -> Box<dyn Iterator<Item = Record> + 'a> {
        use std::ops::Bound::*;
        if let (Some(a), Some(b)) = (start, end) {
            if a >= b {
                return Box::new(std::iter::empty());
            }
        }
        let lo = start.map(|s| Included(s.to_vec())).unwrap_or(Unbounded);
        let hi = end.map(|s| Excluded(s.to_vec())).unwrap_or(Unbounded);
        let it = self.0.range((lo, hi)).map(|(k, v)| (k.clone(), v.clone()));
        match order {
            Order::Ascending => Box::new(it),
            Order::Descending => Box::new(it.rev()),
        }
    }
    fn set(&mut self, key: &[u8], value: &[u8]) {
        if value.is_empty() {
            panic!("empty value");
        }
        Rc::make_mut(&mut self.0).insert(key.to_vec(), value.to_vec());
    }
    fn remove(&mut self, key: &[u8]) {
        Rc::make_mut(&mut self.0).remove(key);
    }
}

// ---------------------------------------------------------------------- api
pub struct ChainApi(MockApi);
impl ChainApi {
    pub fn new() -> Self {
        ChainApi(MockApi::default())
    }
}
fn decode_addr(a: &str) -> StdResult<Vec<u8>> {
    use bech32::FromBase32;
    let bad = |m: &str| Err(StdError::generic_err(format!("addr: {m}")));
    if a != a.to_lowercase() {
        return bad("case");
    }
    match bech32::decode(a) {
        Ok((h, d, bech32::Variant::Bech32)) if h == cc::hrp() => match Vec::<u8>::from_base32(&d) {
            Ok(b) if !b.is_empty() && b.len() <= 255 => Ok(b),
            _ => bad("data"),
        },
        _ => bad("bech32"),
    }
}
impl Api for ChainApi {
    fn addr_validate(&self, human: &str) -> StdResult<Addr> {
        decode_addr(human).map(|_| Addr::unchecked(human))
    }
    fn addr_canonicalize(&self, human: &str) -> StdResult<CanonicalAddr> {
        decode_addr(human).map(CanonicalAddr::from)
    }
    fn addr_humanize(&self, canonical: &CanonicalAddr) -> StdResult<Addr> {
        Ok(Addr::unchecked(cc::bech(&cc::hrp(), canonical.as_slice())))
    }
    fn secp256k1_verify(&self, h: &[u8], s: &[u8], p: &[u8]) -> Result<bool, VerificationError> {
        self.0.secp256k1_verify(h, s, p)
    }
    fn secp256k1_recover_pubkey(&self, h: &[u8], s: &[u8], r: u8) -> Result<Vec<u8>, RecoverPubkeyError> {
        self.0.secp256k1_recover_pubkey(h, s, r)
    }
    fn ed25519_verify(&self, m: &[u8], s: &[u8], p: &[u8]) -> Result<bool, VerificationError> {
        self.0.ed25519_verify(m, s, p)
    }
    fn ed25519_batch_verify(&self, m: &[&[u8]], s: &[&[u8]], p: &[&[u8]]) -> Result<bool, VerificationError> {
        self.0.ed25519_batch_verify(m, s, p)
    }
    fn debug(&self, _: &str) {}
}

// ------------------------------------------------------------------ querier
pub struct Q<'a> {
    pub w: &'a World,
    pub depth: usize,
}
fn answer<T: serde::Serialize>(v: &T) -> QuerierResult {
    SystemResult::Ok(ContractResult::Ok(cosmwasm_std::to_json_binary(v).unwrap()))
}
impl Querier for Q<'_> {
    fn raw_query(&self, bin: &[u8]) -> QuerierResult {
        let req: QueryRequest<Empty> = match from_json(bin) {
            Ok(r) => r,
            Err(e) => return SystemResult::Ok(ContractResult::Err(e.to_string())),
        };
        match req {
            QueryRequest::Wasm(WasmQuery::Smart { contract_addr, msg }) => {
                match self.w.query(&contract_addr, &msg, self.depth + 1) {
                    Ok(b) => SystemResult::Ok(ContractResult::Ok(Binary(b))),
                    Err(e) => SystemResult::Ok(ContractResult::Err(e)),
                }
            }
            QueryRequest::Wasm(WasmQuery::Raw { contract_addr, key }) => match self.w.k.get(&contract_addr) {
                Some(c) => SystemResult::Ok(ContractResult::Ok(Binary(c.kv.get(key.as_slice()).cloned().unwrap_or_default()))),
                None => SystemResult::Err(SystemError::NoSuchContract { addr: contract_addr }),
            },
            QueryRequest::Bank(BankQuery::Balance { address, denom }) => {
                let amount = self.w.balance(&address, &denom);
                answer(&BalanceResponse::new(Coin::new(amount, denom)))
            }
            QueryRequest::Bank(BankQuery::AllBalances { address }) => {
                let cs = self.w.bank.get(&address).cloned().unwrap_or_default();
                answer(&AllBalanceResponse::new(to_coins(&cs)))
            }
            QueryRequest::Bank(BankQuery::Supply { denom }) => {
                let t: u128 = self.w.bank.values().filter_map(|c| c.get(&denom)).fold(0u128, |a, b| a.saturating_add(*b));
                answer(&SupplyResponse::new(Coin::new(t, denom)))
            }
            _ => SystemResult::Err(SystemError::UnsupportedRequest { kind: "query".into() }),
        }
    }
}
trait MkResp {
    fn new(c: Coin) -> Self;
}
impl MkResp for BalanceResponse {
    fn new(c: Coin) -> Self {
        let mut r = BalanceResponse::default();
        r.amount = c;
        r
    }
}
impl MkResp for SupplyResponse {
    fn new(c: Coin) -> Self {
        let mut r = SupplyResponse::default();
        r.amount = c;
        r
    }
}
trait MkAll {
    fn new(c: Vec<Coin>) -> Self;
}
impl MkAll for AllBalanceResponse {
    fn new(c: Vec<Coin>) -> Self {
        let mut r = AllBalanceResponse::default();
        r.amount = c;
        r
    }
}
pub fn to_coins(c: &Coins) -> Vec<Coin> {
    c.iter().map(|(d, a)| Coin::new(*a, d.clone())).collect()
}
pub fn from_coins(c: &[Coin]) -> Res<Coins> {
    let mut m = Coins::new();
    for x in c {
        let a = x.amount.u128();
        if a > 0 {
            let e = m.entry(x.denom.clone()).or_insert(0);
            *e = e.checked_add(a).ok_or("coin overflow")?;
        }
    }
    Ok(m)
}

// ------------------------------------------------- entry points of the repo
macro_rules! call {
    ($f:path, $bin:expr, $($a:expr),+) => {
        match from_json($bin) {
            Ok(m) => $f($($a),+, m).map_err(|e| format!("{e:?}")),
            Err(e) => Err(format!("parse: {e}")),
        }
    };
}
macro_rules! dispatch_kinds {
    ($kind:expr, $ep:ident, $bin:expr, $($a:expr),+) => {
        match $kind {
            "mailbox" => call!(hpl_mailbox::contract::$ep, $bin, $($a),+),
            "va" => call!(hpl_validator_announce::contract::$ep, $bin, $($a),+),
            "hagg" => call!(hpl_hook_aggregate::$ep, $bin, $($a),+),
            "fee" => call!(hpl_hook_fee::$ep, $bin, $($a),+),
            "merkle" => call!(hpl_hook_merkle::$ep, $bin, $($a),+),
            "hpaus" => call!(hpl_hook_pausable::$ep, $bin, $($a),+),
            "hroute" => call!(hpl_hook_routing::$ep, $bin, $($a),+),
            "hcustom" => call!(hpl_hook_routing_custom::$ep, $bin, $($a),+),
            "hfall" => call!(hpl_hook_routing_fallback::$ep, $bin, $($a),+),
            "igp" => call!(hpl_igp::contract::$ep, $bin, $($a),+),
            "oracle" => call!(hpl_igp_oracle::contract::$ep, $bin, $($a),+),
            "iagg" => call!(hpl_ism_aggregate::$ep, $bin, $($a),+),
            "imulti" => call!(hpl_ism_multisig::contract::$ep, $bin, $($a),+),
            "ipaus" => call!(hpl_ism_pausable::$ep, $bin, $($a),+),
            "iroute" => call!(hpl_ism_routing::contract::$ep, $bin, $($a),+),
            "wnat" => call!(hpl_warp_native::contract::$ep, $bin, $($a),+),
            "wcw" => call!(hpl_warp_cw20::contract::$ep, $bin, $($a),+),
            k => Err(format!("no entry point for {k}")),
        }
    };
}

/// the reply entry point of a contract, where it has one
#[allow(unused_imports)]
fn reply_of(kind: &str, deps: DepsMut, en: Env, r: Reply) -> Result<Response, String> {
    // a contract's own `reply` hides this one
    fn reply(_: DepsMut, _: Env, _: Reply) -> Result<Response, String> {
        Err("no reply entry point".into())
    }
    match kind {
        "mailbox" => {
            use hpl_mailbox::contract::*;
            reply(deps, en, r).map_err(|e| format!("{e:?}"))
        }
        "va" => {
            use hpl_validator_announce::contract::*;
            reply(deps, en, r).map_err(|e| format!("{e:?}"))
        }
        "hagg" => {
            use hpl_hook_aggregate::*;
            reply(deps, en, r).map_err(|e| format!("{e:?}"))
        }
        "fee" => {
            use hpl_hook_fee::*;
            reply(deps, en, r).map_err(|e| format!("{e:?}"))
        }
        "merkle" => {
            use hpl_hook_merkle::*;
            reply(deps, en, r).map_err(|e| format!("{e:?}"))
        }
        "hpaus" => {
            use hpl_hook_pausable::*;
            reply(deps, en, r).map_err(|e| format!("{e:?}"))
        }
        "hroute" => {
            use hpl_hook_routing::*;
            reply(deps, en, r).map_err(|e| format!("{e:?}"))
        }
        "hcustom" => {
            use hpl_hook_routing_custom::*;
            reply(deps, en, r).map_err(|e| format!("{e:?}"))
        }
        "hfall" => {
            use hpl_hook_routing_fallback::*;
            reply(deps, en, r).map_err(|e| format!("{e:?}"))
        }
        "igp" => {
            use hpl_igp::contract::*;
            reply(deps, en, r).map_err(|e| format!("{e:?}"))
        }
        "oracle" => {
            use hpl_igp_oracle::contract::*;
            reply(deps, en, r).map_err(|e| format!("{e:?}"))
        }
        "iagg" => {
            use hpl_ism_aggregate::*;
            reply(deps, en, r).map_err(|e| format!("{e:?}"))
        }
        "imulti" => {
            use hpl_ism_multisig::contract::*;
            reply(deps, en, r).map_err(|e| format!("{e:?}"))
        }
        "ipaus" => {
            use hpl_ism_pausable::*;
            reply(deps, en, r).map_err(|e| format!("{e:?}"))
        }
        "iroute" => {
            use hpl_ism_routing::contract::*;
            reply(deps, en, r).map_err(|e| format!("{e:?}"))
        }
        "wnat" => {
            use hpl_warp_native::contract::*;
            reply(deps, en, r).map_err(|e| format!("{e:?}"))
        }
        "wcw" => {
            use hpl_warp_cw20::contract::*;
            reply(deps, en, r).map_err(|e| format!("{e:?}"))
        }
        k => Err(format!("no reply entry point for {k}")),
    }
}

pub const KINDS: [&str; 17] = [
    "mailbox", "va", "hagg", "fee", "merkle", "hpaus", "hroute", "hcustom", "hfall", "igp", "oracle", "iagg", "imulti",
    "ipaus", "iroute", "wnat", "wcw",
];

fn caught<T>(f: impl FnOnce() -> Res<T>) -> Res<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(p) => {
            let m = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            if let Some(x) = m.strip_prefix("HARNESS:") {
                panic!("{x}");
            }
            Err(format!("panic: {m}"))
        }
    }
}

pub fn env(address: &str, c: &Clock) -> Env {
    Env {
        block: BlockInfo {
            height: 1 + c.height,
            time: Timestamp::from_nanos((1_700_000_000 + c.secs) * 1_000_000_000 + c.calls % 7),
            chain_id: "osmosis-1".into(),
        },
        transaction: if c.calls % 3 == 0 { None } else { Some(cosmwasm_std::TransactionInfo { index: (c.calls % 5) as u32 }) },
        contract: ContractInfo { address: Addr::unchecked(address) },
    }
}

enum Entry<'a> {
    Inst(&'a [u8]),
    Exec(&'a [u8]),
    Migrate,
    Reply(Reply),
}

pub struct Out {
    pub ev: Vec<Value>,
    pub data: Option<Vec<u8>>,
}

impl World {
    // ------------------------------------------------------------- bank
    pub fn balance(&self, a: &str, d: &str) -> u128 {
        self.bank.get(a).and_then(|c| c.get(d)).copied().unwrap_or(0)
    }
    pub fn mint(&mut self, a: &str, c: &Coins) -> Res<()> {
        let bank = Rc::make_mut(&mut self.bank);
        let e = bank.entry(a.to_string()).or_default();
        for (d, x) in c {
            if *x > 0 {
                let v = e.entry(d.clone()).or_insert(0);
                *v = v.checked_add(*x).ok_or("balance overflow")?;
            }
        }
        Ok(())
    }
    pub fn burn(&mut self, a: &str, c: &Coins) -> Res<()> {
        let bank = Rc::make_mut(&mut self.bank);
        for (d, x) in c {
            let e = bank.get_mut(a).ok_or("insufficient funds")?;
            let v = e.get_mut(d).ok_or("insufficient funds")?;
            *v = v.checked_sub(*x).ok_or("insufficient funds")?;
            if *v == 0 {
                e.remove(d);
            }
            if e.is_empty() {
                bank.remove(a);
            }
        }
        Ok(())
    }
    fn transfer(&mut self, from: &str, to: &str, c: &Coins) -> Res<()> {
        if c.is_empty() {
            return Ok(());
        }
        self.burn(from, c)?;
        self.mint(to, c)
    }

    // ---------------------------------------------------------- contracts
    fn run_entry(&self, addr: &str, sender: &str, funds: &Coins, depth: usize, e: Entry) -> Res<(Response, Rc<Kv>)> {
        let c = self.k.get(addr).ok_or("no such contract")?;
        let api = ChainApi::new();
        let q = Q { w: self, depth };
        let mut store = Store(c.kv.clone());
        let info = MessageInfo { sender: Addr::unchecked(sender), funds: to_coins(funds) };
        let en = env(addr, &self.clock);
        let kind = c.kind.as_str();
        let r = caught(|| {
            let deps = DepsMut { storage: &mut store, api: &api, querier: QuerierWrapper::new(&q) };
            match e {
                Entry::Inst(b) => match kind {
                    "cw20" => match from_json(b) {
                        Ok(m) => cw20_base::contract::instantiate(deps, en, info, m).map_err(|e| format!("{e:?}")),
                        Err(e) => Err(format!("parse: {e}")),
                    },
                    _ => dispatch_kinds!(kind, instantiate, b, deps, en, info),
                },
                Entry::Exec(b) => match kind {
                    "cw20" => match from_json(b) {
                        Ok(m) => cw20_base::contract::execute(deps, en, info, m).map_err(|e| format!("{e:?}")),
                        Err(e) => Err(format!("parse: {e}")),
                    },
                    _ => dispatch_kinds!(kind, execute, b, deps, en, info),
                },
                Entry::Migrate => dispatch_kinds!(kind, migrate, b"{}".as_slice(), deps, en),
                Entry::Reply(r) => reply_of(kind, deps, en, r),
            }
        })?;
        Ok((r, store.0))
    }

    pub fn query(&self, addr: &str, bin: &[u8], depth: usize) -> Res<Vec<u8>> {
        if depth > MAX_DEPTH {
            return Err("query depth".into());
        }
        let c = self.k.get(addr).ok_or("no such contract")?;
        if c.kind == "mock" {
            return mock::query(self, c, bin);
        }
        let api = ChainApi::new();
        let q = Q { w: self, depth };
        let store = Store(c.kv.clone());
        let en = env(addr, &self.clock);
        let b = caught(|| {
            let deps = Deps { storage: &store, api: &api, querier: QuerierWrapper::new(&q) };
            match c.kind.as_str() {
                "cw20" => match from_json(bin) {
                    Ok(m) => cw20_base::contract::query(deps, en, m).map_err(|e| format!("{e:?}")),
                    Err(e) => Err(format!("parse: {e}")),
                },
                kind => dispatch_kinds!(kind, query, bin, deps, en),
            }
        })?;
        Ok(b.to_vec())
    }

    fn finish(&mut self, addr: &str, r: Response, depth: usize) -> Res<Out> {
        let kind = self.k[addr].kind.clone();
        let mut ev = vec![];
        if kind == "mailbox" {
            // learn the message before anything refers to it by its id
            for a in r.events.iter().flat_map(|e| e.attributes.iter()).filter(|a| a.key == "message") {
                cc::unmsg(&cc::unhex(&a.value).unwrap_or_default());
            }
        }
        for e in &r.events {
            if let Some(v) = self.event(addr, &kind, e) {
                ev.push(v);
            }
        }
        let mut data = r.data.map(|b| b.to_vec());
        for sm in r.messages {
            let SubMsg { id, msg, reply_on, .. } = sm;
            let save = self.clone();
            match self.message(addr, msg, depth) {
                Ok(o) => {
                    ev.extend(o.ev);
                    if matches!(reply_on, ReplyOn::Always | ReplyOn::Success) {
                        let rep = Reply {
                            id,
                            result: SubMsgResult::Ok(SubMsgResponse { events: vec![], data: o.data.map(Binary) }),
                        };
                        let o = self.reply(addr, rep, depth)?;
                        ev.extend(o.ev);
                        data = o.data.or(data);
                    }
                }
                Err(e) => {
                    if matches!(reply_on, ReplyOn::Always | ReplyOn::Error) {
                        *self = save;
                        let o = self.reply(addr, Reply { id, result: SubMsgResult::Err(e) }, depth)?;
                        ev.extend(o.ev);
                        data = o.data.or(data);
                    } else {
                        return Err(e);
                    }
                }
            }
        }
        Ok(Out { ev, data })
    }

    fn reply(&mut self, addr: &str, rep: Reply, depth: usize) -> Res<Out> {
        let (r, kv) = self.run_entry(addr, addr, &Coins::new(), depth, Entry::Reply(rep))?;
        self.k.get_mut(addr).unwrap().kv = kv;
        self.finish(addr, r, depth)
    }

    pub fn execute(&mut self, sender: &str, addr: &str, bin: &[u8], funds: &Coins, depth: usize) -> Res<Out> {
        if depth > MAX_DEPTH {
            return Err("call depth".into());
        }
        let kind = self.k.get(addr).ok_or("no such contract")?.kind.clone();
        self.transfer(sender, addr, funds)?;
        if kind == "mock" {
            return mock::execute(self, sender, addr, bin, funds, depth);
        }
        let (r, kv) = self.run_entry(addr, sender, funds, depth, Entry::Exec(bin))?;
        self.k.get_mut(addr).unwrap().kv = kv;
        if kind == "merkle" {
            // what the hook accepted, for the reference tree
            if let Ok(v) = serde_json::from_slice::<Value>(bin) {
                if let Some(m) = v["post_dispatch"]["message"].as_str().and_then(cc::unhex) {
                    let mut l = self.leaves.get(addr).map(|l| (**l).clone()).unwrap_or_default();
                    l.push(cc::keccak(&m));
                    self.leaves.insert(addr.to_string(), Rc::new(l));
                }
            }
        }
        self.finish(addr, r, depth)
    }

    pub fn instantiate(&mut self, sender: &str, addr: &str, kind: &str, bin: &[u8], depth: usize) -> Res<Out> {
        if self.k.contains_key(addr) {
            return Err("address taken".into());
        }
        self.k.insert(
            addr.to_string(),
            Contract { kind: kind.to_string(), kv: Rc::new(Kv::new()), cfg: Rc::new(Value::Null) },
        );
        let (r, kv) = self.run_entry(addr, sender, &Coins::new(), depth, Entry::Inst(bin))?;
        self.k.get_mut(addr).unwrap().kv = kv;
        self.finish(addr, r, depth)
    }

    pub fn migrate(&mut self, addr: &str) -> Res<Out> {
        let (r, kv) = self.run_entry(addr, addr, &Coins::new(), 0, Entry::Migrate)?;
        self.k.get_mut(addr).unwrap().kv = kv;
        self.finish(addr, r, 0)
    }

    fn message(&mut self, from: &str, m: CosmosMsg, depth: usize) -> Res<Out> {
        let none = Out { ev: vec![], data: None };
        match m {
            CosmosMsg::Bank(BankMsg::Send { to_address, amount }) => {
                let c = from_coins(&amount)?;
                if c.is_empty() {
                    return Err("empty send".into());
                }
                decode_addr(&to_address).map_err(|e| e.to_string())?;
                self.transfer(from, &to_address, &c)?;
                Ok(none)
            }
            CosmosMsg::Bank(BankMsg::Burn { amount }) => {
                let c = from_coins(&amount)?;
                if c.is_empty() {
                    return Err("empty burn".into());
                }
                self.burn(from, &c)?;
                Ok(none)
            }
            CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds }) => {
                let c = from_coins(&funds)?;
                let mut o = self.execute(from, &contract_addr, &msg, &c, depth + 1)?;
                o.data = None; // only replies see it, and none of the contracts asks for one
                Ok(o)
            }
            CosmosMsg::Wasm(WasmMsg::Instantiate { msg, .. }) => {
                let child = cc::addr(&format!("{}.tok", cc::name(from)));
                let o = self.instantiate(from, &child, "cw20", &msg, depth + 1)?;
                // MsgInstantiateContractResponse { address = 1, data = 2 }
                let mut d = vec![0x0a, child.len() as u8];
                d.extend_from_slice(child.as_bytes());
                Ok(Out { ev: o.ev, data: Some(d) })
            }
            CosmosMsg::Stargate { type_url, value } => self.stargate(from, &type_url, &value),
            m => Err(format!("unsupported message {m:?}")),
        }
    }

    fn stargate(&mut self, from: &str, url: &str, value: &[u8]) -> Res<Out> {
        use prost::Message;
        let none = Out { ev: vec![], data: None };
        let p = |e: prost::DecodeError| e.to_string();
        let own = |d: &str| d.starts_with(&format!("factory/{from}/"));
        match url {
            "/osmosis.tokenfactory.v1beta1.MsgCreateDenom" => {
                let m = pb::CreateDenom::decode(value).map_err(p)?;
                if m.sender != from || m.subdenom.len() > 44 {
                    return Err("create denom".into());
                }
                let d = format!("factory/{from}/{}", m.subdenom);
                cc::denom(&format!("F/{}/{}", cc::name(from), m.subdenom));
                if !Rc::make_mut(&mut self.made).insert(d.clone()) {
                    return Err("denom exists".into());
                }
                let r = pb::CreateDenomResponse { new_token_denom: d };
                Ok(Out { ev: vec![], data: Some(r.encode_to_vec()) })
            }
            "/osmosis.tokenfactory.v1beta1.MsgMint" | "/osmosis.tokenfactory.v1beta1.MsgBurn" => {
                let mint = url.ends_with("MsgMint");
                let (sender, other, amount) = if mint {
                    let m = pb::Mint::decode(value).map_err(p)?;
                    (m.sender, m.mint_to_address, m.amount)
                } else {
                    let m = pb::Burn::decode(value).map_err(p)?;
                    (m.sender, m.burn_from_address, m.amount)
                };
                let c = amount.ok_or("no amount")?;
                let x: u128 = c.amount.parse().map_err(|_| "amount too large")?;
                if sender != from || !own(&c.denom) || x == 0 || !(other.is_empty() || other == from) {
                    return Err("tokenfactory".into());
                }
                let m = Coins::from([(c.denom, x)]);
                if mint {
                    self.mint(from, &m)?
                } else {
                    self.burn(from, &m)?
                }
                Ok(none)
            }
            "/osmosis.tokenfactory.v1beta1.MsgSetDenomMetadata" => {
                let m = pb::SetDenomMetadata::decode(value).map_err(p)?;
                let d = m.metadata.ok_or("no metadata")?;
                if m.sender != from || !self.made.contains(&d.base) || !own(&d.base) {
                    return Err("denom metadata".into());
                }
                let units: Vec<Value> =
                    d.denom_units.iter().map(|u| json!([u.denom, cc::i32v(u.exponent), u.aliases])).collect();
                let e = json!(["dmeta", cc::name(from), d.description, units, cc::undenom(&d.base), d.display, d.name, d.symbol]);
                Ok(Out { ev: vec![e], data: None })
            }
            u => Err(format!("unsupported stargate message {u}")),
        }
    }

    /// a contract event as the specification writes it
    fn event(&mut self, addr: &str, kind: &str, e: &Event) -> Option<Value> {
        let at = |k: &str| e.attributes.iter().find(|a| a.key == k).map(|a| a.value.clone()).unwrap_or_default();
        let hx = |k: &str| cc::unhex(&at(k)).unwrap_or_default();
        let num = |k: &str| at(k).parse::<u32>().map(cc::i32v).unwrap_or_else(|_| json!(format!("?{}", at(k))));
        let dec = |k: &str| {
            let s = at(k);
            if !s.is_empty() && s.bytes().all(|c| c.is_ascii_digit()) { cc::limbs(&s) } else { json!(["?", s]) }
        };
        let me = cc::name(addr);
        Some(match (kind, e.ty.as_str()) {
            ("mailbox", "mailbox_dispatch_id") => json!(["dispid", me, cc::unid(&hx("message_id"))]),
            ("mailbox", "mailbox_dispatch") => {
                let raw = hx("message");
                Rc::make_mut(&mut self.sent).insert(raw.clone());
                json!(["disp", me, cc::name_of32(&hx("sender")), num("destination"), cc::name_of32(&hx("recipient")), cc::unmsg(&raw)])
            }
            ("mailbox", "mailbox_process_id") => json!(["procid", me, cc::unid(&hx("message_id"))]),
            ("mailbox", "mailbox_process") => {
                json!(["proc", me, num("origin"), cc::name_of32(&hx("sender")), cc::name_of32(&hx("recipient"))])
            }
            ("merkle", "hpl_hook_merkle::post_dispatch") => json!(["mk", me, cc::unid(&hx("message_id")), num("index")]),
            ("merkle", "hpl_hook_merkle::inserted_into_tree") => json!(["mkins", me, num("index")]),
            ("igp", "igp-core-pay-for-gas") => json!([
                "gas", me, cc::name(&at("sender")), num("dest_domain"), cc::unid(&hx("message_id")), dec("gas_amount"),
                dec("gas_refunded"), dec("gas_required"), dec("payment")
            ]),
            _ => return None,
        })
    }

    /// coins as the specification writes them
    pub fn coinseq(c: &Coins) -> Value {
        Value::Array(c.iter().filter(|x| *x.1 > 0).map(|(d, a)| json!([cc::undenom(d), cc::limbs128(*a)])).collect())
    }

    /// one undoable transaction
    pub fn tx<T>(&mut self, f: impl FnOnce(&mut World) -> Res<T>) -> Res<T> {
        let save = self.clone();
        let r = f(self);
        if r.is_err() {
            *self = save;
        }
        r
    }
}

pub fn uint(x: u128) -> Uint128 {
    Uint128::new(x)
}

mod pb {
    #[derive(Clone, PartialEq, prost::Message)]
    pub struct CreateDenom {
        #[prost(string, tag = "1")]
        pub sender: String,
        #[prost(string, tag = "2")]
        pub subdenom: String,
    }
    #[derive(Clone, PartialEq, prost::Message)]
    pub struct CreateDenomResponse {
        #[prost(string, tag = "1")]
        pub new_token_denom: String,
    }
    #[derive(Clone, PartialEq, prost::Message)]
    pub struct Coin {
        #[prost(string, tag = "1")]
        pub denom: String,
        #[prost(string, tag = "2")]
        pub amount: String,
    }
    #[derive(Clone, PartialEq, prost::Message)]
    pub struct Mint {
        #[prost(string, tag = "1")]
        pub sender: String,
        #[prost(message, optional, tag = "2")]
        pub amount: Option<Coin>,
        #[prost(string, tag = "3")]
        pub mint_to_address: String,
    }
    #[derive(Clone, PartialEq, prost::Message)]
    pub struct Burn {
        #[prost(string, tag = "1")]
        pub sender: String,
        #[prost(message, optional, tag = "2")]
        pub amount: Option<Coin>,
        #[prost(string, tag = "3")]
        pub burn_from_address: String,
    }
    #[derive(Clone, PartialEq, prost::Message)]
    pub struct DenomUnit {
        #[prost(string, tag = "1")]
        pub denom: String,
        #[prost(uint32, tag = "2")]
        pub exponent: u32,
        #[prost(string, repeated, tag = "3")]
        pub aliases: Vec<String>,
    }
    #[derive(Clone, PartialEq, prost::Message)]
    pub struct Metadata {
        #[prost(string, tag = "1")]
        pub description: String,
        #[prost(message, repeated, tag = "2")]
        pub denom_units: Vec<DenomUnit>,
        #[prost(string, tag = "3")]
        pub base: String,
        #[prost(string, tag = "4")]
        pub display: String,
        #[prost(string, tag = "5")]
        pub name: String,
        #[prost(string, tag = "6")]
        pub symbol: String,
    }
    #[derive(Clone, PartialEq, prost::Message)]
    pub struct SetDenomMetadata {
        #[prost(string, tag = "1")]
        pub sender: String,
        #[prost(message, optional, tag = "2")]
        pub metadata: Option<Metadata>,
    }
}
