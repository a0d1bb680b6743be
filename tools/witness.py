"""Compile-fail witnesses for P26 (and thread-sharing witnesses for P28).

Each witness is a small client program with one hole.  Filled with the misuse it must be rejected, with
an error of the expected kind whose primary location is the marked line and nowhere else; filled with the
corresponding correct use ("twin") it must compile.  The programs are only type-checked, never run."""
import json, os, subprocess, concurrent.futures as cf

T = [(k, (k + 1, k, (k + 1) ** 2, k * k, 39, k + 1, 39 * (k + 1), 31)) for k in range(1, 8)]
HEAD = """#![allow(unused, non_snake_case)]
use decaf377::Fq;
use poseidon377::*;
use poseidon_parameters::v1::*;
"""


def ty(k, life="'_"):
    g = ", ".join(map(str, dict(T)[k]))
    return f"Instance<{life}, {g}>" if life else f"Instance<{g}>"


def pty(k):
    return "PoseidonParameters<" + ", ".join(map(str, dict(T)[k])) + ">"


def tup(n, v="v"):
    return v if n == 1 else "(" + ", ".join([v] * n) + ")"


def native():
    """(name, template with @@ at the hole, misuse, twin, accepted error codes)"""
    w = []
    arity = ["E0308", "E0061"]
    for k, _ in T:
        for n in (k - 1, k + 1):
            bad = "()" if n == 0 else tup(n)
            w.append((f"hash_{k} of {n} elements", f"pub fn f(d: &Fq, v: Fq) -> Fq {{\n    hash_{k}(d, @@)\n}}\n", bad, tup(k), arity))
        w.append((f"hash_{k} without domain separator", f"pub fn f(d: &Fq, v: Fq) -> Fq {{\n    hash_{k}(@@)\n}}\n", tup(k), f"d, {tup(k)}", arity))
        for n in (k, k + 2):
            for fn in ("n_to_1_fixed_hash", "unoptimized_n_to_1_fixed_hash"):
                r = "&" if fn == "n_to_1_fixed_hash" else ""
                w.append((f"rate-{k} {fn} of {n} words", f"pub fn f(v: Fq) -> Fq {{\n    let p = RATE_{k}_PARAMS;\n    let mut i = Instance::new(&p);\n    i.{fn}({r}@@)\n}}\n", f"[v; {n}]", f"[v; {k+1}]", arity))
        w.append((f"rate-{k} output read at another width", f"pub fn f(v: Fq) {{\n    let p = RATE_{k}_PARAMS;\n    let i = Instance::new(&p);\n    let o: [Fq; @@] = i.output_words();\n}}\n", str(k + 2), str(k + 1), arity))
        for o in range(1, 8):
            if o == k:
                continue
            if abs(o - k) == 1 or (k, o) in ((1, 7), (7, 1)):
                w.append((f"rate-{k} instance on rate-{o} parameters", f"pub fn f() {{\n    let p = RATE_{o}_PARAMS;\n    let q = RATE_{k}_PARAMS;\n    let i: {ty(k)} = Instance::new(@@);\n}}\n", "&p", "&q", arity))
                w.append((f"rate-{o} parameters used as rate-{k}", f"pub fn f() -> {pty(k)} {{\n    @@\n}}\n", f"RATE_{o}_PARAMS", f"RATE_{k}_PARAMS", arity))
        body = f"pub fn f(v: Fq) -> Fq {{\n    let mut p = RATE_{k}_PARAMS;\n    let mut i = Instance::new(&p);\n    @@;\n    i.n_to_1_fixed_hash(&[v; {k+1}])\n}}\n"
        twin = "let mut q = RATE_%d_PARAMS; q" % k
        w.append((f"rate-{k} parameters reassigned while in use", body, "p.M = 1", f"{twin}.M = 1", ["E0506"]))
        w.append((f"rate-{k} matrix written while in use", body, "p.mds.0.set_element(0, 0, v)", f"{twin}.mds.0.set_element(0, 0, v)", ["E0502", "E0499"]))
        w.append((f"rate-{k} parameters moved while in use", body, "drop(p)", "drop(p.clone())", ["E0505"]))
        w.append((f"rate-{k} instance outlives its parameters", f"pub fn f(v: Fq) -> Fq {{\n    let q = RATE_{k}_PARAMS;\n    let mut i = Instance::new(&q);\n    {{\n        let p = q.clone();\n        i = Instance::new(@@);\n    }}\n    i.n_to_1_fixed_hash(&[v; {k+1}])\n}}\n", "&p", "&q", ["E0597"]))
        w.append((f"rate-{k} instance returned from its parameters' scope", f"pub fn f(q: &{pty(k)}) -> {ty(k)} {{\n    let p = q.clone();\n    @@\n}}\n", "Instance::new(&p)", "Instance::new(q)", ["E0515", "E0597"]))
        w.append((f"rate-{k} instance made static from borrowed parameters", f"pub fn f<'a>(q: &'a {pty(k)}) {{\n    let i: {ty(k, chr(39) + 'a')} = Instance::new(q);\n    let j: {ty(k, '@@')} = i;\n}}\n", "'static", "'a", ["", "E0521", "E0308"]))
        w.append((f"rate-{k} hashing through a shared reference", f"pub fn f(i: @@ {ty(k)}, v: Fq) -> Fq {{\n    i.n_to_1_fixed_hash(&[v; {k+1}])\n}}\n", "&", "&mut", ["E0596"]))
        w.append((f"rate-{k} state read directly", f"pub fn f() -> Fq {{\n    let p = RATE_{k}_PARAMS;\n    let i = Instance::new(&p);\n    i.@@[1]\n}}\n", "state_words", "output_words()", ["E0616", "E0609"]))
        w.append((f"rate-{k} state written directly", f"pub fn f(v: Fq) {{\n    let p = RATE_{k}_PARAMS;\n    let mut i = Instance::new(&p);\n    @@;\n}}\n", "i.state_words[0] = v", "i.output_words()[0] = v", ["E0616", "E0609"]))
        w.append((f"rate-{k} parameters swapped inside an instance", f"pub fn f() {{\n    let p = RATE_{k}_PARAMS;\n    let q = RATE_{k}_PARAMS;\n    let mut i = Instance::new(&p);\n    @@;\n}}\n", "i.parameters = &q", "i = Instance::new(&q)", ["E0616", "E0609"]))
        w.append((f"rate-{k} state written by indexing the instance", f"pub fn f(v: Fq) {{\n    let p = RATE_{k}_PARAMS;\n    let mut i = Instance::new(&p);\n    @@[0] = v;\n}}\n", "i", "i.output_words()", ["E0608"]))
        w.append((f"rate-{k} state written through the instance", f"pub fn f(v: Fq) {{\n    let p = RATE_{k}_PARAMS;\n    let mut i = Instance::new(&p);\n    @@ = [v; {k+1}];\n}}\n", "*i", "let o", ["E0614"]))
        w.append((f"rate-{k} instance made from a state", f"pub fn f(v: Fq) {{\n    let p = RATE_{k}_PARAMS;\n    let i: {ty(k)} = @@;\n}}\n", f"[v; {k+1}].into()", "Instance::new(&p)", ["E0277"]))
        w.append((f"rate-{k} bare permutation of an instance", f"pub fn f() {{\n    let p = RATE_{k}_PARAMS;\n    let mut i = Instance::new(&p);\n    i.@@;\n}}\n", "permute()", "output_words()", ["E0624", "E0599"]))
        w.append((f"rate-{k} instance built from a forged state", f"pub fn f(v: Fq) {{\n    let p = RATE_{k}_PARAMS;\n    let i: {ty(k)} = @@;\n}}\n", f"Instance {{ parameters: &p, state_words: [v; {k+1}] }}", "Instance::new(&p)", ["E0451", "E0560", "private fields"]))
    return w


def circuit():
    w = []
    arity = ["E0308", "E0061"]
    head = "use ark_relations::r1cs::{ConstraintSystemRef, SynthesisError};\nuse ark_r1cs_std::fields::fp::FpVar;\nuse decaf377::r1cs::FqVar;\nuse poseidon_permutation::r1cs::InstanceVar;\n"
    sig = "pub fn f(cs: ConstraintSystemRef<Fq>, d: &FqVar, x: FqVar, v: Fq) -> Result<FqVar, SynthesisError> {\n"
    for k, _ in T:
        ok = tup(k, "x.clone()")
        for n in (k - 1, k + 1):
            bad = "()" if n == 0 else tup(n, "x.clone()")
            w.append((f"circuit hash_{k} of {n} elements", head + sig + f"    poseidon377::r1cs::hash_{k}(cs, d, @@)\n}}\n", bad, ok, arity))
        w.append((f"circuit hash_{k} of a native value", head + sig + f"    poseidon377::r1cs::hash_{k}(cs, d, @@)\n}}\n", tup(k), ok, arity))
        w.append((f"native hash_{k} of a circuit value", head + "pub fn f(d: &Fq, x: FqVar, v: Fq) -> Fq {\n" + f"    hash_{k}(d, @@)\n}}\n", ok, tup(k), arity))
        for n in (k, k + 2):
            w.append((f"circuit rate-{k} permutation fed {n} words", head + f"pub fn f(cs: ConstraintSystemRef<Fq>, a: [FpVar<Fq>; {n}], b: [FpVar<Fq>; {k+1}]) -> FpVar<Fq> {{\n    InstanceVar::n_to_1_fixed_hash(RATE_{k}_PARAMS, cs, @@)\n}}\n", "a", "b", arity))
    return w


def threads():
    """programs that must compile: one parameter set, many threads"""
    w = []
    for k, _ in T:
        w.append((f"rate-{k} parameters shared by threads", f"""pub fn f(v: Fq) {{
    static P: {pty(k)} = RATE_{k}_PARAMS;
    let p = RATE_{k}_PARAMS;
    let mut i = Instance::new(&p);
    std::thread::scope(|s| {{
        for _ in 0..2 {{
            s.spawn(|| Instance::new(&p).n_to_1_fixed_hash(&[v; {k+1}]));
            s.spawn(|| Instance::new(&P).n_to_1_fixed_hash(&[v; {k+1}]));
            s.spawn(|| i.output_words());
        }}
    }});
    std::thread::scope(|s| {{
        s.spawn(|| i.n_to_1_fixed_hash(&[v; {k+1}]));
    }});
    std::thread::spawn(move || hash_{k}(&v, {tup(k)}));
}}
"""))
    return w


def compile_one(args):
    src, path, externs, deps, env = args
    with open(path, "w") as f:
        f.write(src)
    cmd = ["rustc", "+nightly", "--edition", "2021", "--crate-type", "lib", "--crate-name", "witness", "--emit", "metadata", "-o", path + ".rmeta", "--error-format", "json"]
    for d in deps:
        cmd += ["-L", "dependency=" + d]
    for n, p in externs:
        cmd += ["--extern", f"{n}={p}"]
    r = subprocess.run(cmd + [path], capture_output=True, text=True, env=env)
    errs = []
    for l in r.stderr.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("level") != "error" or not m.get("spans"):
            continue
        lines = [s["line_start"] for s in m["spans"] if s["is_primary"]]
        labels = [s["line_start"] for s in m["spans"]]
        errs.append(((m.get("code") or {}).get("code", "") if m.get("code") else "", lines, labels, m["message"]))
    for p in (path, path + ".rmeta"):
        try:
            os.remove(p)
        except OSError:
            pass
    return r.returncode, errs, r.stderr


def run(kind, externs, deps, tmp, env):
    """-> list of (id, ok, why)"""
    os.makedirs(tmp, exist_ok=True)
    jobs, meta = [], []
    if kind == "threads":
        for i, (name, body) in enumerate(threads()):
            jobs.append((HEAD + body, f"{tmp}/t{i}.rs", externs, deps, env))
            meta.append((name, "pass", None, None))
    else:
        for i, (name, tpl, bad, good, codes) in enumerate(native() if kind == "native" else circuit()):
            src = HEAD + tpl
            at = src[: src.index("@@")].count("\n") + 1
            jobs.append((src.replace("@@", bad), f"{tmp}/b{i}.rs", externs, deps, env))
            meta.append((name, "reject", at, codes))
            jobs.append((src.replace("@@", good), f"{tmp}/g{i}.rs", externs, deps, env))
            meta.append((name, "twin", None, None))
    out = []
    with cf.ThreadPoolExecutor(8) as ex:
        for (name, what, at, codes), (rc, errs, err) in zip(meta, ex.map(compile_one, jobs)):
            if what in ("pass", "twin"):
                ok = rc == 0
                out.append((f"{name}: {'the correct program compiles' if what == 'twin' else 'compiles'}", ok, "" if ok else "rejected: " + "; ".join(e[3] for e in errs)[:300]))
            else:
                # (codes beyond the first are the same refusal when a private name is another: whether any path
                # to the state is public is the field analysis's to say)
                hit = [e for e in errs if e[0] in codes or (not e[0] and any(" " in c and c in e[3] for c in codes))]
                # the misuse on the marked line must be among the places the error points at
                ok = rc != 0 and bool(hit) and len(hit) == len(errs) and all(at in e[2] or e[0] in ("E0505", "E0596", "E0502", "E0506") for e in hit)
                why = "accepted by the compiler" if rc == 0 else f"rejected for another reason: {[(e[0], e[1], e[3]) for e in errs]}"
                out.append((f"{name}: rejected", ok, "" if ok else why[:400]))
    return out
