//! Runs every transition of a bounded model (MC.tla) on the real contracts.
use crate::chain::World;
use crate::codec as cc;
use serde::Deserialize;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use std::sync::Arc;

#[derive(Deserialize)]
struct Key {
    h: Vec<u32>,
    i: u32,
    ok: bool,
}

pub struct Edges {
    setup: Vec<Value>,
    lines: Vec<(Vec<u32>, u32, String)>,
    at: HashMap<Vec<u32>, usize>, // history -> the edge that ends it
}

pub fn load(path: &str) -> Edges {
    use std::io::BufRead;
    let f = std::io::BufReader::new(std::fs::File::open(path).unwrap());
    let mut e = Edges { setup: vec![], lines: vec![], at: HashMap::new() };
    for l in f.split(b'\n') {
        let l = l.unwrap();
        if l.starts_with(b"\"EDGE ") {
            let s: String = serde_json::from_slice(&l).unwrap();
            let s = s[5..].to_string();
            let k: Key = serde_json::from_str(&s).unwrap();
            let mut h = k.h.clone();
            h.push(k.i);
            if k.ok {
                e.at.entry(h).or_insert(e.lines.len());
            }
            e.lines.push((k.h, k.i, s));
        } else if l.starts_with(b"\"SETUP ") {
            let s: String = serde_json::from_slice(&l).unwrap();
            e.setup = serde_json::from_str(&s[6..]).unwrap();
        }
    }
    e
}

struct Runner {
    e: Arc<Edges>,
    worlds: HashMap<Vec<u32>, Option<World>>,
}

pub fn norm(q: &Value, a: &Value) -> Value {
    if q["k"] == "Verify" && *a != json!(["ok", true]) { json!(["no"]) } else { a.clone() }
}
fn bag(es: &[Value], tag: &str) -> Vec<String> {
    let mut v: Vec<String> = es.iter().filter(|e| e[0] == tag).map(|e| e.to_string()).collect();
    v.sort();
    v
}
fn seqs(v: &Value) -> Vec<Value> {
    v.as_array().cloned().unwrap_or_default()
}

/// categories, what the specification has, what the implementation has
fn diff(w: &World, before: &World, c: &Value, spec: &Value, ok: bool, ev: &[Value], data: &Value) -> Vec<(String, Value, Value)> {
    let m = match c["t"].as_str().unwrap() {
        "exec" | "inst" => c["m"]["k"].as_str().unwrap(),
        t => t,
    };
    let kind = if c["t"] == "inst" { c["m"]["kind"].as_str().unwrap().to_string() } else { before.kind_of(&cc::addr(c["a"].as_str().unwrap())) };
    let mut out = vec![];
    if spec["ok"] != json!(ok) {
        let tag = spec["tag"].as_str().unwrap_or("");
        out.push((format!("ok/{kind}/{m}/{}{tag}", if ok { "accepts" } else { "refuses" }), spec["ok"].clone(), json!(ok)));
        return out;
    }
    if ok {
        let sev = seqs(&spec["ev"]);
        let mut tags: Vec<String> = sev.iter().chain(ev).map(|e| e[0].as_str().unwrap().to_string()).collect();
        tags.sort();
        tags.dedup();
        let mut same = true;
        for t in tags {
            let (a, b) = (bag(&sev, &t), bag(ev, &t));
            if a != b {
                same = false;
                out.push((format!("ev/{t}/{kind}/{m}"), json!(a), json!(b)));
            }
        }
        let ord = |es: &[Value]| -> Vec<Value> {
            es.iter().filter(|e| ["hook", "handle", "sub"].contains(&e[0].as_str().unwrap())).cloned().collect()
        };
        if same && ord(&sev) != ord(ev) {
            out.push((format!("ev/order/{kind}/{m}"), json!(sev), json!(ev)));
        }
        if &spec["data"] != data {
            out.push((format!("data/{kind}/{m}"), spec["data"].clone(), data.clone()));
        }
    }
    for qa in seqs(&spec["q"]) {
        let q = &qa[0];
        let a = w.ask(q);
        if norm(q, &qa[1]) != norm(q, &a) {
            let kind = w.kind_of(&cc::addr(q["a"].as_str().unwrap()));
            out.push((format!("q/{kind}/{}", q["k"].as_str().unwrap()), json!({"q": q, "a": qa[1]}), a));
        }
    }
    out
}

impl Runner {
    /// the world after a history, if the implementation went along with it
    fn world(&mut self, h: &[u32]) -> Option<World> {
        if let Some(w) = self.worlds.get(h) {
            return w.clone();
        }
        let w = if h.is_empty() {
            let mut w = World::default();
            for c in self.e.setup.clone() {
                let (ok, _, _, err) = w.run(&c);
                if !ok {
                    eprintln!("setup {c}: {err}");
                }
            }
            Some(w)
        } else {
            match self.world(&h[..h.len() - 1]) {
                None => None,
                Some(mut w) => match self.e.at.get(h) {
                    None => panic!("no edge ends history {h:?}"),
                    Some(k) => {
                        let l: Value = serde_json::from_str(&self.e.lines[*k].2).unwrap();
                        w.clock.salt = salt(h);
                        let (ok, ..) = w.run(&l["c"]);
                        if ok { Some(w) } else { None }
                    }
                },
            }
        };
        self.worlds.insert(h.to_vec(), w.clone());
        w
    }
}

fn salt(h: &[u32]) -> u64 {
    let mut x = std::collections::hash_map::DefaultHasher::new();
    h.hash(&mut x);
    x.finish()
}

pub fn replay(args: &[String]) {
    let e = Arc::new(load(&args[0]));
    let threads: usize = args[1].parse().unwrap();
    // histories go to one thread each, unless there are too few of them
    let few = e.at.len() < 500;
    names();
    // the set-up has to be accepted before anything can be explored
    let mut w0 = World::default();
    for (k, c) in e.setup.iter().enumerate() {
        let m = if ["exec", "inst"].contains(&c["t"].as_str().unwrap()) { c["m"]["k"].clone() } else { c["t"].clone() };
        let kind = if c["t"] == "inst" { c["m"]["kind"].as_str().unwrap().to_string() } else { w0.kind_of(&cc::addr(c["a"].as_str().unwrap())) };
        let (ok, _, _, err) = w0.run(c);
        if !ok {
            let b = json!({"cat": format!("ok/{kind}/{}/refuses", m.as_str().unwrap()), "spec": true, "impl": false, "why": err, "scenario": e.setup[..=k],
                           "times": 1});
            println!("{}", json!({"edges": 0, "questions": 0, "unreachable": e.lines.len(), "broken": 0, "bad": [], "setup": b}));
            return;
        }
    }
    let mut hs = vec![];
    for t in 0..threads {
        let e = e.clone();
        hs.push(
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || {
                    names();
                    let mut r = Runner { e: e.clone(), worlds: HashMap::new() };
                    let (mut n, mut nq, mut lost) = (0usize, 0usize, 0usize);
                    let mut found: HashMap<String, (usize, Value)> = HashMap::new();
                    for (h, i, s) in e.lines.iter() {
                        let mut hh = std::collections::hash_map::DefaultHasher::new();
                        h.hash(&mut hh);
                        if few {
                            i.hash(&mut hh);
                        }
                        if hh.finish() as usize % threads != t {
                            continue;
                        }
                        let Some(before) = r.world(h) else {
                            lost += 1;
                            continue;
                        };
                        let spec: Value = serde_json::from_str(s).unwrap();
                        let mut w = before.clone();
                        let mut h2 = h.clone();
                        h2.push(*i);
                        w.clock.salt = salt(&h2);
                        let (ok, ev, data, err) = w.run(&spec["c"]);
                        n += 1;
                        nq += seqs(&spec["q"]).len();
                        for (cat, a, b) in diff(&w, &before, &spec["c"], &spec, ok, &ev, &data) {
                            let f = found.entry(cat.clone()).or_insert_with(|| {
                                let mut steps = e.setup.clone();
                                for k in 1..=h.len() {
                                    let l: Value = serde_json::from_str(&e.lines[e.at[&h[..k]]].2).unwrap();
                                    steps.push(l["c"].clone());
                                }
                                steps.push(spec["c"].clone());
                                (0, json!({"cat": cat, "spec": a, "impl": b, "why": err, "scenario": steps, "h": h, "i": i}))
                            });
                            f.0 += 1;
                        }
                        if ok && spec["ok"] == true && !r.worlds.contains_key(&h2) {
                            r.worlds.insert(h2, Some(w));
                        }
                    }
                    (n, nq, lost, found)
                })
                .unwrap(),
        );
    }
    let (mut n, mut nq, mut lost) = (0, 0, 0);
    let mut bad = vec![];
    let mut broken = 0;
    for h in hs {
        match h.join() {
            Ok((a, b, c, f)) => {
                n += a;
                nq += b;
                lost += c;
                for (_, (k, mut v)) in f {
                    v["times"] = json!(k);
                    bad.push(v);
                }
            }
            Err(p) => {
                broken += 1;
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()));
                eprintln!("replay: {}", m.unwrap_or_default());
            }
        }
    }
    println!("{}", json!({"edges": n, "questions": nq, "unreachable": lost, "broken": broken, "bad": bad}));
}

/// the names of the models, some of them spelt nearly alike, the same in every thread
fn names() {
    let v: Value = serde_json::from_str(include_str!("../../spec/names.json")).unwrap();
    let n: Vec<String> = v["names"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
    cc::preload(&n);
}

/// init FILE: the init record of the names and denoms listed in FILE
pub fn init(args: &[String]) {
    names();
    let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[0]).unwrap()).unwrap();
    let names = v["names"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
    let denoms = v["denoms"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
    println!("{}", crate::gen::init_line(names, denoms, &crate::gen::code_version()));
}
