#!/usr/bin/env python3
"""check.py <property>: decide one property of /repo by static analysis of its current source.

Builds the analysis driver (driver/, a rustc wrapper) and lets it compile /repo's three library crates and
the entry-point crate probe/ in the configurations the property needs.  Nothing of /repo is executed: the
driver interprets abstractly the MIR the compiler produced.  See DESIGN.md."""
import json, os, re, shutil, subprocess, sys, time, concurrent.futures as cf

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "tools"))
import table, witness, sage

REPO = "/repo"
LIBS = ("poseidon377", "poseidon_permutation", "poseidon_parameters")
CONFIGS = {
    # name: (probe features, release profile)
    "min": ([], False),
    "max": (["r1cs", "words"], False),
    "alloc": (["c_alloc"], False),
    "std": (["c_std"], False),
    "arkworks": (["c_arkworks"], False),
    "parallel": (["c_parallel"], False),
    "u32": (["c_u32"], False),
    "min-release": ([], True),
    "max-release": (["r1cs", "words"], True),
    "all": (["r1cs", "words", "c_alloc", "c_std", "c_arkworks", "c_parallel", "c_u32"], False),
}
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TARGET = os.path.join(V, "target")
DRIVER = os.path.join(TARGET, "driver", "release", "vpdriver")


def sh(cmd, env=None, cwd=None, timeout=None):
    return subprocess.run(cmd, env=env, cwd=cwd, capture_output=True, text=True, timeout=timeout)


def base_env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUST")) or k in ("CARGO_HOME", "RUSTUP_HOME")}
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e


def sysroot(env):
    return sh(["rustc", "+nightly", "--print", "sysroot"], env=env).stdout.strip()


def build_driver():
    env = base_env()
    env["CARGO_TARGET_DIR"] = os.path.join(TARGET, "driver")
    r = sh(["cargo", "+nightly", "build", "--release", "--offline", "--locked"], env=env, cwd=os.path.join(V, "driver"))
    if r.returncode != 0:
        sys.stderr.write(r.stderr[-4000:])
        print("the analysis driver does not build")
        sys.exit(2)


def run_config(name, props):
    """Analyse one configuration.  Returns a dict."""
    res = run_config_once(name, props)
    if "words" in res["features"] and not res["ok"] and not res["err_lib"] and "InstanceVar" in res["err"]:
        # the circuit instance can no longer be built field by field: analyse the rest
        less = run_config_once(name, props, ("words",))
        if less["ok"]:
            return less
    return res


def run_config_once(name, props, without=()):
    feats, rel = CONFIGS[name]
    feats = [f for f in feats if f not in without]
    env = base_env()
    sr = sysroot(env)
    td = os.path.join(TARGET, "an-" + name)
    out = os.path.join(td, "out.json")
    os.makedirs(td, exist_ok=True)
    for f in os.listdir(td):
        if f.startswith("out.json"):
            os.remove(os.path.join(td, f))
    prof = os.path.join(td, "release" if rel else "debug")
    # cargo would skip crates it thinks unchanged: always analyse the source as it is now
    for sub in (".fingerprint", "build"):
        fp = os.path.join(prof, sub)
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith(("poseidon", "probe")):
                    shutil.rmtree(os.path.join(fp, d))
    env.update(
        LD_LIBRARY_PATH=os.path.join(sr, "lib"),
        RUSTFLAGS="-Zalways-encode-mir -Zinline-mir=no",
        RUSTC_WRAPPER=DRIVER,
        CARGO_TARGET_DIR=td,
        CARGO_INCREMENTAL="0",
        RUST_MIN_STACK=str(1 << 30),
        VP_OUT=out,
        VP_PROPS=",".join(props),
        VERIF_TIER=TIER,
    )
    cmd = ["cargo", "+nightly", "build", "--offline", "--locked", "--message-format=json"] + (["--release"] if rel else [])
    if feats:
        cmd += ["--features", ",".join(feats)]
    r = sh(cmd, env=env, cwd=os.path.join(V, "probe"))
    res = {"name": name, "features": feats, "release": rel, "ok": r.returncode == 0, "err": "", "externs": [], "deps": [], "unsafe": [], "facts": {}}
    errs = []
    for l in r.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("reason") == "compiler-message":
            c = (m["message"].get("code") or {}).get("code")
            pk = m.get("target", {}).get("name", "").replace("-", "_")
            if c == "unsafe_code" and pk in LIBS:
                sp = m["message"]["spans"]
                res["unsafe"].append((pk, f"{sp[0]['file_name']}:{sp[0]['line_start']}" if sp else "?", m["message"]["message"]))
            if m["message"].get("level") == "error":
                errs.append((pk, m["message"].get("rendered") or m["message"]["message"]))
        if m.get("reason") == "compiler-artifact":
            n = m["target"]["name"].replace("-", "_")
            for f in m["filenames"]:
                if os.path.dirname(f) not in res["deps"]:
                    res["deps"].append(os.path.dirname(f))
                if f.endswith((".rmeta", ".rlib")) and n in LIBS + ("decaf377", "ark_relations", "ark_r1cs_std"):
                    res["externs"].append((n, f))
    if not res["ok"]:
        res["err"] = "".join(e[1] for e in errs)[:3000] or r.stderr[-3000:]
        res["err_lib"] = any(e[0] in LIBS for e in errs)
    if os.path.exists(out):
        with open(out) as f:
            res["data"] = json.load(f)
    for c in LIBS:
        p = f"{out}.{c}"
        if os.path.exists(p):
            with open(p) as f:
                res["facts"][c] = json.load(f)
    return res


# ------------------------------------------------------------------ obligations
class Verdict:
    def __init__(self, prop):
        self.prop = prop
        self.obs = []  # (config, id, state, where, why)

    def put(self, cfg, oid, ok, why="", at="", st=None):
        self.obs.append((cfg, oid, st or ("same" if ok else "fail"), at, why))


def semantic(v, prop, cfgs):
    n = {}
    for c in cfgs:
        d = c.get("data")
        if d is None:
            continue
        for o in d["obligations"]:
            if o["p"] == prop:
                v.put(c["name"], o["id"], o["st"] in ("same", "agree"), o["why"], o["at"], o["st"])
                n[c["name"]] = n.get(c["name"], 0) + 1
    os.makedirs(os.path.join(TARGET, "counts"), exist_ok=True)
    with open(os.path.join(TARGET, "counts", prop), "w") as f:
        json.dump({prop: n}, f)
    for c in cfgs:
        if c.get("data") is not None:
            floor = table.FLOORS.get(prop, {}).get(c["name"], 1)
            if prop == "P10" and "r1cs" in c["features"] and "words" not in c["features"]:
                floor //= 3
            k = n.get(c["name"], 0)
            if k < floor:
                v.put(c["name"], "coverage", False, f"only {k} obligations, {floor} expected")


PARTICULAR = " [particular exponents]"


def p24(v, cfgs):
    ref = next(c for c in cfgs if c["name"] == "min")
    for c in cfgs:
        if not c["ok"] or "data" not in c:
            v.put(c["name"], f"configuration {c['name']} compiles", False, "does not compile: " + c["err"][:600], f"features {c['features']}")
        else:
            v.put(c["name"], f"configuration {c['name']} compiles", True)
    ok = [c for c in cfgs if "data" in c]
    ids = sorted({i for c in ok for i in c["data"]["prints"]})
    # a function with a loop over an arbitrary exponent is compared for particular exponents
    alt = lambda i: i[: -len(PARTICULAR)] if i.endswith(PARTICULAR) else i + PARTICULAR
    vals = {i: [c["data"]["prints"].get(i) for c in ok if not (i.startswith("circuit") and "r1cs" not in c["features"])] for i in ids}
    for c in ok:
        for i in ids:
            if i.startswith("circuit") and "r1cs" not in c["features"]:
                continue
            got = c["data"]["prints"].get(i)
            # the value most configurations agree on names the odd one out
            common = max(set(vals[i]) - {None}, key=lambda x: (vals[i].count(x), x == ref.get("data", {}).get("prints", {}).get(i)))
            if got is None and alt(i) in c["data"]["prints"]:
                continue
            if got is None:
                why = "; ".join(o["why"] for o in c["data"]["obligations"] if o["st"] == "unknown")[:300]
                v.put(c["name"], f"{c['name']}: {i}", False, "the function computed could not be determined " + why, st="unknown")
            else:
                at = ""
                if got != common:
                    at = "; ".join(f"{k.split('::')[-1]} ({l})" for k, l in list(c["data"]["functions"].items())[:12])
                v.put(c["name"], f"{c['name']}: {i}", got == common, "computes a different function than the other configurations", at)
    if len(ids) < table.FLOORS["P24"]["prints"]:
        v.put("-", "coverage", False, f"only {len(ids)} functions compared")
    for lib in LIBS:
        f = ref["facts"].get(lib)
        if f is None:
            v.put("min", f"{lib} without std", False, "not compiled with default features off")
        else:
            v.put("min", f"{lib} without std", "std" not in f["links"], f"{lib} links the standard library with default features off", f"crate root of {lib}")


# Everything the libraries may use of the outside world.
PURE_CRATES = {"core", "alloc", "decaf377", "subtle", "ark_ff", "ark_r1cs_std", "ark_relations", "num_traits", "num_bigint", "cfg_if"} | set(LIBS)
STD_OK = ("std::rt::begin_panic", "std::rt::panic_fmt", "std::rt::panic_display", "std::f64::", "std::f32::", "std::num::", "std::panicking::panic", "std::ops::", "std::cmp::")
DENY = re.compile(r"(^|::)(rand|random|rand_helper|perf_trace|test_rng|getrandom|io|fs|env|net|process|time|thread|os|simd_rand)::")


def effect(krate, name):
    if krate == "std":
        return None if name.startswith(STD_OK) or "<impl f64>" in name or "<impl f32>" in name else "uses the operating-system layer of the standard library"
    if krate == "ark_std":
        return "uses ambient facilities of ark_std" if DENY.search(name) or "rng" in name.lower() else None
    if krate not in PURE_CRATES:
        return f"uses crate {krate}"
    if krate in ("core", "alloc") and re.search(r"::(sync::atomic|cell::OnceCell|cell::LazyCell|task|arch)::", name):
        return "uses shared-state or machine-specific primitives"
    if krate == "decaf377" and re.search(r"rand|rng", name.lower()):
        return "draws randomness"
    return None


def p25(v, cfgs):
    bodies = calls = 0
    for c in cfgs:
        for lib in LIBS:
            f = c["facts"].get(lib)
            tag = f"{c['name']}/{lib}"
            if f is None:
                v.put(c["name"], f"{tag} analysed", False, "the crate was not analysed: " + c["err"][:300], st="unknown")
                continue
            if len(f["bodies"]) < table.FLOORS["P25"][lib]:
                v.put(c["name"], f"{tag} coverage", False, f"only {len(f['bodies'])} bodies analysed")
            us = [u for u in c["unsafe"] if u[0] == lib]
            v.put(c["name"], f"{tag}: no unsafe code", not us, "; ".join(f"{m}" for _, _, m in us), "; ".join(a for _, a, _ in us))
            for n, mut, tls, freeze, at in f["statics"]:
                bad = ["mutable"] * mut + ["thread-local"] * tls + ["interior-mutable"] * (not freeze)
                v.put(c["name"], f"{tag}: static {n}", not bad, f"static {n} is {', '.join(bad)}", at)
            for b in f["bodies"]:
                bodies += 1
                bad = []
                for k, n, cnt in b["calls"]:
                    calls += cnt
                    w = effect(k, n)
                    if w:
                        bad.append(f"calls {n}: {w}")
                for k, n, cnt in b["types"]:
                    w = effect(k, n)
                    if w:
                        bad.append(f"handles a {n}: {w}")
                for n, mut, tls, freeze in b["statics"]:
                    if mut or tls or not freeze:
                        bad.append(f"refers to the mutable static {n}")
                if b["ptr_casts"]:
                    bad.append("turns an address into a number")
                if b["asm"]:
                    bad.append("inline assembly")
                if b["tls"]:
                    bad.append("refers to a thread-local")
                v.put(c["name"], f"{tag}: {b['name']}", not bad, "; ".join(bad[:4]), f"{b['name']} ({b['at']})")
    return {"bodies": bodies, "calls": calls}


def p33(v, cfgs):
    bodies = calls = 0
    for c in cfgs:
        for lib in LIBS:
            f = c["facts"].get(lib)
            tag = f"{c['name']}/{lib}"
            if f is None:
                v.put(c["name"], f"{tag} analysed", False, "not compiled with default features off: " + c["err"][:300], st="unknown")
                continue
            for k in ("std", "alloc"):
                v.put(c["name"], f"{tag}: does not link {k}", k not in f["links"], f"{lib} or one of its dependencies links {k} with default features off", f"crate root of {lib}")
            for b in f["bodies"]:
                bodies += 1
                calls += sum(x[2] for x in b["calls"])
                bad = [f"{what} {n}" for what, l in (("calls", b["calls"]), ("handles a", b["types"])) for k, n, _ in l if k in ("std", "alloc")]
                v.put(c["name"], f"{tag}: {b['name']}", not bad, "; ".join(bad[:4]), f"{b['name']} ({b['at']})")
    return {"bodies": bodies, "calls": calls}


def p37(v, cfgs):
    bodies = 0
    for c in cfgs:
        for lib in LIBS:
            f = c["facts"].get(lib)
            tag = f"{c['name']}/{lib}"
            if f is None:
                v.put(c["name"], f"{tag} analysed", False, "the crate was not analysed: " + c["err"][:300], st="unknown")
                continue
            if len(f["bodies"]) < table.FLOORS["P25"][lib]:
                v.put(c["name"], f"{tag} coverage", False, f"only {len(f['bodies'])} bodies analysed")
            for _, at, m in (u for u in c["unsafe"] if u[0] == lib):
                v.put(c["name"], f"{tag}: {at}", False, m, at)
            for b in f["bodies"]:
                bodies += 1
                bad = ["inline assembly"] * bool(b["asm"]) + [f"refers to the mutable static {s[0]}" for s in b["statics"] if s[1]]
                bad += [f"calls the foreign function {n}" for n in b["foreign"]]
                v.put(c["name"], f"{tag}: {b['name']}", not bad, "; ".join(bad[:4]), f"{b['name']} ({b['at']})")
    return {"bodies": bodies}


FIELD = 8444461749428370424248824938781546531375899335154063827935233455917409239041
SCRIPT = "poseidonperm_x17.sage"


def p40(v, cfgs):
    """the Rust side is decided by the driver (semantic); the script against the same tables here"""
    out = {}
    for c in cfgs:
        if "data" not in c:
            v.put(c["name"], f"configuration {c['name']} analysed", False, "could not be analysed: " + c["err"][:600], st="unknown")
            continue
        tab = {n: [int(x, 16) for x in c["data"]["prints"].get(f"rate 2: table {n}", "").split()] for n in ("head", "mds", "arc")}
        if not all(tab.values()):
            v.put(c["name"], "tables of rate 2", False, "the shipped tables could not be determined", "poseidon377::RATE_2_PARAMS", "unknown")
            continue

        def put(i, ok, why, at, unknown):
            v.put(c["name"], i, ok, why, at, None if ok or not unknown else "unknown")

        out = sage.decide(os.path.join(REPO, SCRIPT), FIELD, tab["head"], tab["mds"], tab["arc"], put)
    return out


SHARED = {
    "poseidon_parameters": ["alpha::Alpha", "arc_matrix::ArcMatrix", "arc_matrix::OptimizedArcMatrix", "matrix::Matrix", "matrix::SquareMatrix", "mds_matrix::MdsMatrix", "mds_matrix::OptimizedMdsMatrices", "round_numbers::RoundNumbers", "v1::PoseidonParameters", "v2::PoseidonParameters"],
    "poseidon_permutation": ["permutation::Instance"],
}


def p28(v, cfgs):
    for c in cfgs:
        for lib, want in SHARED.items():
            f = c["facts"].get(lib)
            if f is None:
                v.put(c["name"], f"{c['name']}/{lib} analysed", False, "the crate was not analysed: " + c["err"][:300], st="unknown")
                continue
            seen = {n.rsplit("::", 1)[-1] for n, *_ in f["types"]}
            for w in want:
                if w.rsplit("::", 1)[-1] not in seen:
                    v.put(c["name"], f"{c['name']}: {w}", False, "type not found")
            for n, pub, send, sync, freeze in f["types"]:
                # circuit variables share their constraint system and are tied to one thread by design
                if "r1cs::" in n or not (pub or any(n.rsplit("::", 1)[-1] == w.rsplit("::", 1)[-1] for w in want)):
                    continue
                bad = ["not Send"] * (not send) + ["not Sync"] * (not sync) + ["holds interior mutability"] * (not freeze)
                v.put(c["name"], f"{c['name']}: {lib}::{n} is Send, Sync and free of interior mutability", not bad, f"{n} is {', '.join(bad)}", f"type {n} in {lib}")
        for lib in LIBS:
            f = c["facts"].get(lib)
            for n, mut, tls, freeze, at in (f or {}).get("statics", []):
                bad = ["mutable"] * mut + ["interior-mutable"] * (not freeze and not tls)
                v.put(c["name"], f"{c['name']}: static {n}", not bad, f"static {n} is {', '.join(bad)}", at)
            for b in (f or {}).get("bodies", []):
                bad = [s[0] for s in b["statics"] if s[1] or not s[3]]
                if bad:
                    v.put(c["name"], f"{c['name']}: {b['name']} keeps no shared state", False, f"refers to mutable static {bad[0]}", b["at"])
        wit(v, c, "threads")


def sealed(v, c):
    """no function other crates can reach hands out write access to a permutation instance"""
    f = c["facts"].get("poseidon_permutation")
    if f is None:
        return
    own = [x for x in f["fields"] if x[0].rsplit("::", 1)[-1] == "Instance"]
    v.put(c["name"], f"{c['name']}: the permutation instance is a type of its own", bool(own), "type Instance not found in poseidon_permutation")
    for t, n, pub in own:
        v.put(c["name"], f"{c['name']}: field {n} of Instance is private", not pub, f"field {n} of {t} can be read and written by any program", f"field {t}::{n}")
    got = [h for h in f["handles"] if h[0].rsplit("::", 1)[-1] == "Instance"]
    for t, fn, why, at in got:
        v.put(c["name"], f"{c['name']}: {fn} keeps the instance's state private", False, f"{fn} {why}: a caller can change the state or parameters of {t}", at)
    if not got:
        v.put(c["name"], f"{c['name']}: no reachable function of Instance hands out write access", True)


def wit(v, c, kind):
    if not c["ok"]:
        v.put(c["name"], f"{c['name']} compiles", False, c["err"][:600], st="unknown")
        return
    env = base_env()
    ext = {}
    for n, p in c["externs"]:
        if n not in ext or p.endswith(".rmeta"):
            ext[n] = p
    tmp = os.path.join(TARGET, f"wit-{c['name']}-{kind}-{os.getpid()}")
    rs = witness.run(kind, sorted(ext.items()), c["deps"], tmp, env)
    shutil.rmtree(tmp, ignore_errors=True)
    for i, ok, why in rs:
        v.put(c["name"], f"{c['name']}: {i}", ok, why, f"witness program `{i}`")


# ------------------------------------------------------------------ main
def main():
    if sys.argv[1] == "--setup":
        build_driver()
        return
    prop = sys.argv[1]
    t0 = time.time()
    meta = table.PROPS[prop]
    build_driver()
    with cf.ThreadPoolExecutor(5) as ex:
        cfgs = list(ex.map(lambda n: run_config(n, [prop]), meta["configs"]))
    v = Verdict(prop)
    extra = {}
    kind = meta["kind"]
    compiled = [c for c in cfgs if "data" in c]
    if kind == "semantic":
        if not compiled:
            for c in cfgs:
                v.put(c["name"], f"configuration {c['name']} analysed", False, "no configuration could be analysed: " + c["err"][:800], st="unknown")
        # a configuration that does not compile at all is P24's business, unless it is the only one
        semantic(v, prop, cfgs)
    elif prop == "P24":
        p24(v, cfgs)
    elif prop == "P40":
        semantic(v, prop, cfgs)
        extra = p40(v, cfgs)
    elif prop == "P25":
        extra = p25(v, cfgs)
    elif prop == "P33":
        extra = p33(v, cfgs)
    elif prop == "P37":
        extra = p37(v, cfgs)
    elif prop == "P26":
        for c in cfgs:
            wit(v, c, "circuit" if "r1cs" in c["features"] else "native")
            if "r1cs" in c["features"]:
                wit(v, c, "native")
            sealed(v, c)
        n = len(v.obs)
        if n < table.FLOORS["P26"]["witnesses"]:
            v.put("-", "coverage", False, f"only {n} witnesses")
    elif prop == "P28":
        p28(v, cfgs)
    finish(prop, meta, v, cfgs, extra, t0)


def known():
    out = {}
    p = os.path.join(V, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(.*?) :: (.*)$", l.strip())
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


def finish(prop, meta, v, cfgs, extra, t0):
    kn = known()
    bad, listed = [], []
    for o in v.obs:
        if o[2] in ("same", "agree"):
            continue
        (listed if (prop, o[1]) in kn else bad).append(o)
    for o in listed:
        print(f"KNOWN-FINDING: property={prop} {o[1]}: {kn[(prop, o[1])]}")
    ev = os.path.join(V, "evidence")
    os.makedirs(ev, exist_ok=True)
    nob = len(v.obs)
    dis = sum(1 for o in v.obs if o[2] in ("same", "agree"))
    data = [c["data"] for c in cfgs if "data" in c]
    fns = {}
    for d in data:
        fns.update(d["functions"])
    cov = {
        "rule": meta["rule"],
        "explanation": meta["note"],
        "obligations": nob,
        "discharged": dis,
        "decided_by_exact_normal_forms": sum(1 for o in v.obs if o[2] == "same"),
        "decided_by_random_interpretation": sum(1 for o in v.obs if o[2] == "agree"),
        "checker_cmd": f"python3 check.py {prop}",
        "trusted_base": table.TRUSTED,
        "configurations": [{"name": c["name"], "features": c["features"], "release": c["release"], "compiled": c["ok"]} for c in cfgs],
        "samples": [{"configuration": o[0], "obligation": o[1], "result": o[2]} for o in v.obs[:: max(1, nob // 12)]][:14],
    }
    if meta["kind"] == "semantic" or prop in ("P24", "P40"):
        cov.update(
            {
                "library_functions_analysed": len(fns),
                "functions": [f"{k} ({l})" for k, l in sorted(fns.items())][:60],
                "jobs": sum(len(d["jobs"]) for d in data),
                "call_sites": sum(d["call_sites"] for d in data),
                "calls_followed": sum(d["calls"] for d in data),
                "statements_interpreted": sum(d["steps"] for d in data),
                "jobs_over_particular_exponents_only": sorted({b for d in data for b in d["bounded"]}),
                "branches_on_undetermined_values": sum(d["forks"] for d in data),
                "modelled_library_calls": {k: n for d in data for k, n in d["modelled"].items()},
            }
        )
    cov.update(extra)
    with open(os.path.join(ev, prop + ".json"), "w") as f:
        json.dump({"property": prop, "tier": "thorough" if TIER == "thorough" else "quick", "seed": SEED, "level": meta["level"], "coverage": cov, "assumptions": meta.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(bad)}, f, indent=1)
        f.write("\n")
    rp = os.path.join(ev, prop + ".violations.txt")
    if os.path.exists(rp):
        os.remove(rp)
    print(f"{prop}: {dis} of {nob} obligations discharged, {len(cfgs)} configurations, {time.time() - t0:.0f} s")
    if bad:
        with open(rp, "w") as f:
            f.write(f"property {prop}: {meta['rule']}\n")
            f.write(f"re-run: cd {V} && python3 check.py {prop}\n\n")
            for o in bad[:200]:
                f.write(f"[{o[0]}] {o[1]}: {o[2]}\n   {o[4]}\n   at {o[3]}\n")
            if len(bad) > 200:
                f.write(f"... and {len(bad) - 200} more\n")
        for o in bad[:3]:
            print(f"  [{o[0]}] {o[1]}: {o[4][:400]}\n      at {o[3][:500]}")
        print(f"VIOLATION property={prop} replay={rp}")
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except Exception as e:  # an error of the check itself
        import traceback

        traceback.print_exc()
        sys.exit(2)
