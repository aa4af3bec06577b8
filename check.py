#!/usr/bin/env python3
"""check.py <property> [quick|thorough] : decide one property of serde_yaml by symbolic execution.

Builds the engine, the symbolic IR of the harnesses of the property (from /repo's working tree) and the
native replay binary; explores every harness; replays every counterexample natively before reporting it;
replays sampled paths natively to validate the encoding; writes evidence/<property>.json.
Exit: 0 held on everything explored, 1 violation (VIOLATION line), anything else: no answer.
"""
import concurrent.futures as cf, glob, hashlib, json, os, re, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(V, ".build"))
TOOLCHAIN = "1.88.0-x86_64-unknown-linux-gnu"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true")
for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
    ENV.pop(k, None)
T0 = time.time()


def die(msg, code=2):
    print("CHECK-ERROR " + msg, flush=True)
    sys.exit(code)


def cargo(args, cwd, target, what):
    e = dict(ENV, CARGO_TARGET_DIR=target)
    r = subprocess.run(["cargo"] + args, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        errs = [l for l in r.stdout.splitlines() if not l.startswith("warning")]
        raise RuntimeError("%s does not build:\n%s" % (what, "\n".join(errs[-60:])))


def build_engine():
    cargo(["build", "--release", "--offline"], V + "/rsym", BUILD + "/engine", "engine")
    return BUILD + "/engine/release/rsym"


def build_ir(feat):
    t = "%s/sym-%s" % (BUILD, feat)
    args = ["rustc", "--lib", "--release", "--offline", "--features", feat, "--",
            "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"]
    cargo(args, V + "/harness-sym", t, "symbolic build of the harnesses")
    ll = sorted(glob.glob(t + "/release/deps/harness_sym-*.ll"), key=os.path.getmtime)
    if not ll:
        raise RuntimeError("no LLVM IR produced")
    return ll[-1]


def build_native(feat, profile):
    t = "%s/nat-%s" % (BUILD, feat)
    args = ["build", "--offline", "--features", feat] + (["--release"] if profile == "release" else [])
    cargo(args, V + "/harness", t, "native build of the harnesses")
    return "%s/%s/replay" % (t, "release" if profile == "release" else "debug")


def harness_list(feat, tier):
    """parse //@ lines:  //@ q|t [key=value..] | bound"""
    src = open("%s/harness/src/%s.rs" % (V, feat)).read().splitlines()
    out, meta = [], None
    for l in src:
        m = re.match(r"\s*//@\s*(\w)\s*([^|]*)\|\s*(.*)", l)
        if m:
            meta = (m.group(1), dict(kv.split("=", 1) for kv in m.group(2).split()), m.group(3).strip())
            continue
        m = re.match(r"\s*fn (h_\w+)\(\)", l)
        if m:
            if meta is None:
                die("harness %s has no //@ line" % m.group(1))
            if meta[0] == "q" or tier == "thorough":
                out.append(dict(name=m.group(1), tier=meta[0], opts=meta[1], bound=meta[2]))
            meta = None
    return out


def native(binary, cases, timeout=120, valgrind=False):
    """cases: [(harness, hex)] -> list of result strings (one process per case if a crash occurs)"""
    def run(cs):
        cmd = [binary]
        if valgrind:
            cmd = ["valgrind", "-q", "--error-exitcode=97", "--leak-check=no"] + cmd
        try:
            r = subprocess.run(cmd, input="".join("%s %s\n" % c for c in cs), stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            return None, ["timeout"]
        return r.returncode, r.stdout.splitlines()
    rc, out = run(cases)
    if rc == 0 and len(out) == len(cases):
        return out
    res = []
    for c in cases:
        rc, o = run([c])
        if rc == 97 and valgrind:
            res.append("memory error reported by valgrind")
        elif rc != 0:
            res.append("crash %s" % rc if rc is not None else "timeout")
        else:
            res.append(o[0] if o else "crash 0")
    return res


def confirms(kind, vid, res):
    if kind == "check" or kind == "leak":
        return res == "check %d" % vid
    if kind == "panic":
        return res.startswith("panic") or res.startswith("crash")
    return res.startswith(("panic", "crash", "memory", "timeout"))


def main():
    prop = sys.argv[1]
    if prop == "--setup":
        os.makedirs(BUILD, exist_ok=True)
        try:
            build_engine()
        except RuntimeError as e:
            die(str(e))
        return
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    feat = prop.lower()
    budget = float(os.environ.get("VERIF_BUDGET", 560 if tier == "quick" else 3000))
    only = os.environ.get("VERIF_ONLY")
    hs = harness_list(feat, tier)
    if only:
        hs = [h for h in hs if re.search(only, h["name"])]
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(V + "/evidence/replays", exist_ok=True)
    try:
        with cf.ThreadPoolExecutor(3) as ex:
            fe, fi, fn = ex.submit(build_engine), ex.submit(build_ir, feat), ex.submit(build_native, feat, "release")
            engine, ll, nat = fe.result(), fi.result(), fn.result()
    except RuntimeError as e:
        die(str(e))
    built = time.time() - T0
    known = []
    kf = V + "/known-findings.txt"
    if os.path.exists(kf):
        for l in open(kf):
            m = re.match(r"finding:\s+property=(\S+)\s+harness=(\S+)\s+kind=(\S+)\s+input=(\S+)\s*(.*)", l)
            if m and m.group(1) == prop:
                known.append(m.groups()[1:])
    results, problems, violations, known_hit = [], [], [], {}
    traces_ok = 0
    samples, funcs, stubs = [], set(), {}
    dev = None
    for h in hs:
        out = "%s/%s.%s.out" % (BUILD, feat, h["name"])
        if os.path.exists(out):
            os.unlink(out)
        left = budget - (time.time() - T0)
        if left < 5:
            problems.append("%s: not explored, time budget used up" % h["name"])
            continue
        cmd = [engine, "--ll", ll, "--harness", h["name"], "--out", out, "--timeout", str(int(left)),
               "--audit", h["opts"].get("audit", "16"), "--path-z3", h["opts"].get("pathz3", "1"),
               "--max-steps", h["opts"].get("steps", "60000000")]
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=left + 20)
        except subprocess.TimeoutExpired:
            problems.append("%s: not decided within the time limit" % h["name"])
            continue
        print("  " + r.stdout.strip()[-600:].replace("\n", "\n  "), flush=True)
        if r.returncode not in (0, 1) or not os.path.exists(out):
            problems.append("%s: engine failed (%s)" % (h["name"], r.returncode))
            continue
        d = json.loads(open(out).read())
        os.unlink(out)
        d["bound"] = h["bound"]
        results.append(d)
        funcs |= set(d["functions"])
        for k, n in d["stubs"].items():
            stubs[k] = stubs.get(k, 0) + n
        st = d["stats"]
        # ---- counterexamples: replay natively before believing them
        hit = False
        seen = set()
        for v in d["violations"]:
            key = (v["kind"], v["id"], v["stack"][:3].__str__())
            if key in seen and len(seen) > 3:
                continue
            seen.add(key)
            if dev is None:
                try:
                    dev = build_native(feat, "debug")
                except RuntimeError as e:
                    die(str(e))
            case = [(h["name"], v["input"])]
            got = {"dev": native(dev, case)[0], "release": native(nat, case)[0]}
            ok = any(confirms(v["kind"], v["id"], g) for g in got.values())
            if not ok and v["kind"] in ("memory", "abort"):
                got["valgrind"] = native(dev, case, valgrind=True)[0]
                ok = confirms(v["kind"], v["id"], got["valgrind"])
            if not ok:
                problems.append("%s: counterexample %s (%s, %s) does not reproduce natively: %s" % (h["name"], v["input"], v["kind"], v["what"], got))
                continue
            kn = [k for k in known if k[0] == h["name"] and k[1] in (v["kind"], "%s:%d" % (v["kind"], v["id"])) and re.fullmatch(k[2], v["input"])]
            if kn:
                known_hit[kn[0]] = known_hit.get(kn[0], 0) + 1
                continue
            p = "%s/evidence/replays/%s-%s-%s.json" % (V, prop, h["name"], hashlib.sha1((v["kind"] + str(v["id"]) + v["input"]).encode()).hexdigest()[:10])
            rec = dict(property=prop, harness=h["name"], kind=v["kind"], check=v["id"], what=v["what"], input=v["input"],
                       native=got, stack=v["stack"],
                       rerun="cd %s && echo '%s %s' | %s" % (V, h["name"], v["input"], dev))
            json.dump(rec, open(p, "w"), indent=1)
            violations.append(rec)
            if not hit:
                print("VIOLATION property=%s replay=%s" % (prop, p), flush=True)
                print("  harness %s input %s: %s; native: %s" % (h["name"], v["input"], v["what"], got), flush=True)
            hit = True
        # ---- completeness of the exploration
        if not d["violations"]:
            if st.get("mass_unknown", 0) == 0 and abs(d["mass"] - 1) > 1e-6:
                problems.append("%s: explored paths do not partition the input space (mass %.9f)" % (h["name"], d["mass"]))
            if d["mass"] > 1 + 1e-6:
                problems.append("%s: overlapping paths (mass %.9f)" % (h["name"], d["mass"]))
        for k, n in d["inconclusive"].items():
            problems.append("%s: %s (%d)" % (h["name"], k, n))
        if st.get("audit_bad", 0):
            problems.append("%s: %d domain verdicts not confirmed by Z3" % (h["name"], st["audit_bad"]))
        for i in h["opts"].get("reach", "1").split(","):
            if not d["reach"].get(i):
                problems.append("%s: reachability witness %s never reached" % (h["name"], i))
        # ---- encoding validation: sampled paths must behave identically in the real build
        tr = d["traces"]
        if tr:
            got = native(nat, [(h["name"], t[0]) for t in tr], timeout=300)
            bad = [(t, g) for t, g in zip(tr, got) if g.strip() != ("ok " + t[1]).strip()]
            traces_ok += len(tr) - len(bad)
            samples += [dict(harness=h["name"], input=t[0], observed=t[1][:200]) for t in tr[:2]]
            if bad and not d["violations"]:
                problems.append("%s: %d of %d sampled paths differ natively, e.g. input %s: engine %s native %s" % (h["name"], len(bad), len(tr), bad[0][0][0], bad[0][0][1][:120], bad[0][1][:120]))
        if hit and tier == "quick":
            break
    S = lambda k: sum(r["stats"].get(k, 0) for r in results)
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
              coverage=dict(
                  states=S("paths"), transitions=S("steps"), traces_validated_against_impl=traces_ok,
                  samples=samples[:12],
                  exhaustive=not problems and not violations,
                  solver=dict(name="Z3 " + (results[0]["z3"] if results else "?"), queries=S("z3_sat") + S("z3_unsat") + S("z3_unknown"),
                              sat=S("z3_sat"), unsat=S("z3_unsat"), unknown=S("z3_unknown"), seconds=round(S("z3_us") / 1e6, 2),
                              path_conditions_confirmed=S("path_z3"), domain_verdicts_audited=S("audit"), branch_decisions_by_byte_domains=S("q_domain"),
                              decisions_by_checked_model=S("q_model")),
                  assertions=dict(evaluated=S("asserts"), decided_by_z3=S("asserts_z3"), decided_by_complete_evaluation=S("asserts_dom"), constant_true_on_path=S("asserts_trivial")),
                  assume_killed=S("assume_killed"), concretized_operands=S("concretized"),
                  harnesses=[dict(name=r["harness"], bound=r["bound"], paths=r["stats"].get("paths", 0), steps=r["stats"].get("steps", 0),
                                  wall_s=r["wall_s"], input_space_covered=("1 (exact)" if r["stats"].get("mass_unknown", 0) == 0 and abs(r["mass"] - 1) < 1e-6 else r["mass"]),
                                  reach=r["reach"], inconclusive=r["inconclusive"]) for r in results],
                  functions_encoded=len(funcs),
                  functions=sorted(f for f in funcs if "serde_yaml" in f or "libyaml" in f or "indexmap" in f)[:400],
                  stubs=stubs, problems=problems,
                  violations=[dict(harness=v["harness"], input=v["input"], what=v["what"]) for v in violations][:20],
                  known_findings=[" ".join(k) for k in known_hit],
                  build_s=round(built, 1)),
              assumptions=[
                  "bounds: each harness covers exactly the inputs its bound describes; nothing outside is claimed",
                  "the IR is compiled with opt-level 1, overflow checks and debug assertions on; the native replay uses dev and release profiles",
                  "hash maps use an ideal (injective) hash in place of SipHash; allocation never fails; memchr/memrchr are modelled byte-exactly",
                  "floating-point conversion kernels run on concrete operands after an exhaustive case split",
              ],
              wall_s=round(time.time() - T0, 2), violations=len(violations))
    json.dump(ev, open("%s/evidence/%s.json" % (V, prop), "w"), indent=1)
    for k, n in known_hit.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, k[3]))
    print("%s %s: %d harnesses, %d paths, %d steps, %d Z3 queries (%.1f s), %d traces validated, %d violations, %d problems, %.1f s" % (
        prop, tier, len(results), S("paths"), S("steps"), ev["coverage"]["solver"]["queries"], S("z3_us") / 1e6, traces_ok, len(violations), len(problems), time.time() - T0))
    if violations:
        sys.exit(1)
    for p in problems[:20]:
        print("CHECK-ERROR " + p)
    sys.exit(2 if problems else 0)


main()
