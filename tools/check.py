#!/usr/bin/env python3
"""check.py PROPERTY   decides one property on /repo's working tree.

Exit 0: it held on everything explored.  Exit 1 with a VIOLATION line: it is
broken.  Exit 2: the check could not decide.
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS  # noqa: E402
import literals  # noqa: E402

JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
HPL = os.path.join(V, "harness", "target", "debug", "hplcheck")
CORES = 8


class Undecided(Exception):
    pass


def build():
    """the harness, and with it every contract, from /repo's working tree"""
    env = dict(os.environ, RUSTUP_TOOLCHAIN="1.98.1-x86_64-unknown-linux-gnu", DOCS_RS="1", CARGO_INCREMENTAL="0",
               CARGO_TARGET_DIR=os.path.join(V, "harness", "target"))
    r = subprocess.run(["cargo", "build", "--offline", "--locked", "-q"], cwd=os.path.join(V, "harness"), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print("\n".join(r.stdout.splitlines()[-40:]))
        raise Undecided("the harness does not build against /repo")


def tlc(module, cfg, meta, env=None, heap="3g", workers=1, timeout=3000):
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", JAR, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg, module]
    r = subprocess.run(cmd, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       timeout=timeout, errors="replace")
    shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout


def mismatches(out):
    for line in out.splitlines():
        if line.startswith('"MISMATCH '):
            yield json.loads(json.loads(line)[len("MISMATCH "):])


def states(out):
    m = re.findall(r"^(\d+) states generated, (\d+) distinct", out, re.M)
    return (int(m[-1][1]), int(m[-1][0])) if m else (0, 0)


def random_traces(fam, seed, n, tmp):
    """record scenarios of the real contracts and step the specification along them"""
    pre = os.path.join(tmp, f"{fam}.{seed}")
    g = subprocess.run([HPL, "gen", fam, str(seed), str(n), "1", pre], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if g.returncode or not g.stdout:
        raise Undecided(f"the generator of {fam} (seed {seed}) stopped: {g.stderr[-400:]}")
    info = json.loads(g.stdout)
    info["stderr"] = g.stderr
    trace = pre + ".0.ndjson"
    rc, out = tlc(os.path.join(V, "spec", "Trace.tla"), os.path.join(V, "spec", "Trace.cfg"), pre + ".md", env={"TRACE": trace})
    bad = list(mismatches(out))
    lines = info["calls"] + info["scenarios"]
    if rc != 0 and not bad:
        raise Undecided(f"TLC could not step along {fam} (seed {seed}):\n" + "\n".join(out.splitlines()[-30:])[:3000])
    samples = []
    with open(trace) as f:
        text = f.read().splitlines()
    if len(text) != lines:
        raise Undecided(f"{fam}: {len(text)} lines recorded, {lines} expected")
    for b in bad:
        e = b["line"]
        i = e - 1
        while '"init":true' not in text[i]:
            i -= 1
        b["scenario"] = text[i:e]
    for k in (1, len(text) // 2):
        if k < len(text):
            samples.append(text[k][:600])
    os.remove(trace)
    d, gen = states(out)
    return dict(fam=fam, seed=seed, info=info, bad=bad, states=d, transitions=gen, samples=samples)


def model(module, variant, tier, tmp):
    """explore the bounded model; then make every one of its transitions with the real contracts"""
    name = module + ("." + variant if variant else "")
    init, out, meta = (os.path.join(tmp, f"{name}.{x}") for x in ("init", "out", "md"))
    with open(init, "w") as f:
        subprocess.run([HPL, "init", os.path.join(V, "spec", "names.json")], stdout=f, check=True)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx12g", "-Xss64m", "-cp", JAR, "tlc2.TLC", "-workers", str(CORES), "-metadir", meta, "-noGenerateSpecTE",
           "-config", os.path.join(V, "spec", "MC.cfg"), os.path.join(V, "spec", module + ".tla")]
    with open(out, "w") as f:
        r = subprocess.run(cmd, env=dict(os.environ, INIT=init, VERIF_TIER=tier, MCV=variant or "nn"), stdout=f, stderr=subprocess.STDOUT)
    shutil.rmtree(meta, ignore_errors=True)
    said = []
    with open(out, errors="replace") as f:
        for line in f:
            if not line.startswith(('"EDGE ', '"SETUP ')):
                said.append(line[:2000])
    said = "".join(said)
    if r.returncode or "No error has been found" not in said:
        raise Undecided(f"the model {name} does not have the property, or TLC failed:\n{said[-3000:]}")
    d, gen = states(said)
    g = subprocess.run([HPL, "replay", out, str(CORES)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    os.remove(out)
    if g.returncode or not g.stdout:
        raise Undecided(f"the replay of {name} stopped: {g.stderr[-1000:]}")
    info = json.loads(g.stdout)
    if info["broken"]:
        raise Undecided(f"the replay of {name} stopped: {g.stderr[-1000:]}")
    if info.get("setup"):
        info["bad"].append(info["setup"])
        info["undecided"] = f"the set-up of {name} was refused: {json.dumps(info['setup'])[:600]}"
    if info["edges"] + info["unreachable"] < 10 and not info.get("setup"):
        raise Undecided(f"the model {name} has next to no transitions")
    for b in info["bad"]:
        b["family"], b["seed"] = name, 0
        b["scenario"] = [json.dumps(x) for x in b["scenario"]]
    m = re.search(r"depth of the complete state graph search is (\d+)", said)
    return dict(name=name, states=d, transitions=gen, depth=int(m.group(1)) if m else 0, **info)


def known():
    """the violations on record that are not repaired"""
    out = []
    p = os.path.join(V, "known-findings.txt")
    for line in open(p):
        line = line.strip()
        if line and not line.startswith("#") and not line.startswith("fixed:"):
            out.append(line)
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    p = PROPS[prop]
    t0 = time.time()
    ev_path = os.path.join(V, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    if os.path.exists(ev_path):
        os.remove(ev_path)
    for line in known():
        if line.startswith(f"KNOWN-FINDING: property={prop} "):
            print(line)
    tmp = tempfile.mkdtemp(prefix=f"hpl-{prop}-")
    undecided = []
    bad, samples, seen = [], [], {}
    st = tr = ntraces = ncalls = edges = asked = 0
    parts = []
    try:
        build()
        os.environ["HPL_DICT"] = json.dumps(literals.new(os.environ.get("HPL_REPO", "/repo")))
        jobs = []
        for fam, quick, thorough in p["fams"]:
            n = quick if tier == "quick" else thorough
            chunk = 250
            for j in range(CORES):
                left, r = n, 0
                while left > 0:
                    jobs.append((random_traces, fam, seed * 1000003 + j * 1009 + r, min(chunk, left), tmp))
                    left -= chunk
                    r += 1
        for module, variant in p["mc"]:
            try:
                r = model(module, variant, tier, tmp)
            except Undecided as e:
                undecided.append(str(e))
                continue
            st += r["states"]
            tr += r["transitions"]
            edges += r["edges"]
            asked += r["questions"]
            bad += r["bad"]
            if "undecided" in r:
                undecided.append(r["undecided"])
            parts.append(f"model {r['name']}: {r['states']} states to depth {r['depth']}, all {r['edges']} transitions made on the contracts, "
                         f"{r['questions']} answers compared")
            if not r["bad"] and r["unreachable"]:
                undecided.append(f"{r['unreachable']} transitions of {r['name']} were not reached")
        with cf.ThreadPoolExecutor(CORES) as ex:
            futs = [ex.submit(*j) for j in jobs]
            for f in futs:
                try:
                    r = f.result()
                except Undecided as e:
                    undecided.append(str(e))
                    continue
                st += r["states"]
                tr += r["transitions"]
                ntraces += r["info"]["scenarios"]
                ncalls += r["info"]["calls"]
                for k, v in r["info"]["seen"].items():
                    seen[k] = seen.get(k, 0) + v
                if len(samples) < 6:
                    samples += [{"family": r["fam"], "seed": r["seed"], "step": s} for s in r["samples"]]
                if r["info"]["broken"]:
                    # a generator may happen to write the same bytes in two ways; such a scenario says nothing
                    clash = all("two symbols" in l or not l.startswith("scenario ") for l in r["info"]["stderr"].splitlines())
                    if clash and r["info"]["broken"] * 20 <= r["info"]["scenarios"]:
                        print("NOTE: " + f"{r['info']['broken']} scenarios of {r['fam']} (seed {r['seed']}) name the same bytes in two ways and were left out")
                    else:
                        undecided.append(f"{r['info']['broken']} scenarios of {r['fam']} (seed {r['seed']}) could not be recorded: {r['info']['stderr'][:400]}")
                for b in r["bad"]:
                    b["family"], b["seed"] = r["fam"], r["seed"]
                    bad.append(b)
        for fam, q, t in p["fams"]:
            parts.append(f"random long histories of family {fam}")
    except Undecided as e:
        undecided.append(str(e))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    mine, other = {}, {}
    for b in bad:
        hit = any(re.fullmatch(c, b["cat"]) for c in p["cats"])
        (mine if hit else other).setdefault(b["cat"], []).append(b)
    rc = 0
    rep = os.path.join(V, "out", prop)
    shutil.rmtree(rep, ignore_errors=True)
    for k, (cat, bs) in enumerate(sorted(mine.items())):
        os.makedirs(rep, exist_ok=True)
        b = min(bs, key=lambda b: len(b["scenario"]))
        n = sum(b.get("times", 1) for b in bs)
        path = os.path.join(rep, f"{k}.json")
        with open(path, "w") as f:
            json.dump(dict(property=prop, what=cat, family=b["family"], seed=b["seed"], times=n, specification=b["spec"],
                           implementation=b["impl"], steps=[json.loads(x) for x in b["scenario"]]), f, indent=1)
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  {cat} ({n} times): the specification has {json.dumps(b['spec'])[:300]}, the implementation {json.dumps(b['impl'])[:300]}")
        rc = 1
    for cat, bs in sorted(other.items()):
        print(f"NOTE: a difference that does not concern {prop}: {cat} ({len(bs)} times)")
    if rc == 0:
        missing = [m for m in p.get("must", []) if not seen.get(m)]
        if missing and not undecided and not other:
            undecided.append("never exercised: " + ", ".join(missing))
        if undecided:
            rc = 2
    for u in undecided:
        print("UNDECIDED:", u)
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=st, transitions=tr, traces_validated_against_impl=ntraces + edges, calls=ncalls + edges,
                            random_traces=ntraces, model_transitions_replayed=edges,
                            questions=asked + sum(v for k, v in seen.items() if "?" in k), seen=seen, samples=samples, explored=parts),
              assumptions=["the chain (message routing, atomic rollback, balances) is the harness's model of the CosmWasm runtime",
                           "keccak256 and secp256k1 are collision-free and unforgeable"],
              wall_s=round(time.time() - t0, 1), violations=sum(len(b) for b in mine.values()))
    with open(ev_path, "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} {tier}: {edges} model transitions, {ntraces} random traces, {ncalls + edges} calls, {ev['coverage']['questions']} questions, {st} states, "
          f"{ev['wall_s']} s -> {['held', 'VIOLATED', 'undecided'][rc]}")
    sys.exit(rc)


if __name__ == "__main__":
    main()
