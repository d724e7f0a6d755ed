#!/usr/bin/env python3
"""run.py check PROP quick|thorough   decide the bit-precise harnesses of PROP with Kani (CBMC)
   run.py replay FILE                 run one reported counterexample natively

Kani translates the library's compiled code (MIR) to the CBMC back end and decides each harness for
every bit pattern of its inputs. A failing harness is re-run for its counterexample, which is then
executed natively, with the real mathematical functions, before it is reported."""
import json, os, re, subprocess, sys, time, hashlib, glob

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
TARGET = os.path.join(HERE, "target")
FLAGS = ["-Z", "stubbing", "-Z", "unstable-options", "--no-memory-safety-checks", "--no-overflow-checks", "--output-format", "terse"]
ONLY_THOROUGH = re.compile(r"_pair_|_build_(exponential|invgauss|poisson)")
INFO = {
    "G28": dict(
        bounds="Yval::into_float for every bit pattern of f64, f32, bool, u8, u16, u32, u64, usize responses (no bound on the value; +infinity is left unspecified for the positive families, non-finite values for linear); ModelBuilder::build end to end with one response (thorough: also two), one feature, no intercept, no standardisation",
        functions=["Yval<Linear>::into_float", "Yval<Logistic>::into_float", "Yval<Poisson>::into_float", "Yval<Binomial<N>>::into_float (N = 1, 7, 12, 65535)", "Yval<Exponential>::into_float", "Yval<Gamma>::into_float", "Yval<InvGaussian>::into_float", "ModelBuilder::data", "ModelBuilderData::build"],
        assume=["the text of an error message is not computed (float and integer Display are stubbed)"]),
    "G31": dict(
        bounds="every double- and single-precision linear predictor (finite; natural parameters of the complementary log-log link including infinities) and response in [0,1]; every 32-bit count (Poisson), counts 0..12 (binomial with N = 12); nat_param on one-element arrays",
        functions=["Logistic::log_like_natural", "Logistic::log_like_sat", "logistic Logit::func_inv", "logistic Cloglog::func_inv", "Cloglog::nat_param", "Poisson::log_like_sat", "Binomial::log_like_sat", "math::prod_log"],
        assume=["exp, exp_m1, ln and ln_1p are replaced by contracts true of every faithful libm: special values, sign, saturation and simple bounds (e^x >= 1+x, ln(1+x) <= x, range of the logarithm of a finite double)"]),
}

def env():
    e = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTFLAGS="--cfg verif_hooks", CARGO_TARGET_DIR=TARGET)
    e.pop("RUSTUP_TOOLCHAIN", None)
    return e

def native():
    e = env()
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_TARGET_DIR"] = os.path.join(TARGET, "native")
    r = subprocess.run(["cargo", "build", "--offline", "--locked"], cwd=HERE, env=e, capture_output=True, text=True)
    if r.returncode:
        sys.stderr.write(r.stderr[-4000:])
        print("the native harness does not build against /repo")
        sys.exit(2)
    return os.path.join(TARGET, "native", "debug", "gvk")

def harnesses(prop, tier):
    src = open(os.path.join(HERE, "src", "lib.rs")).read()
    names = re.search(r"\ntable!\((.*?)\);", src, re.S).group(1).split()
    return [n for n in names if n.startswith(prop.lower() + "_") and (tier == "thorough" or not ONLY_THOROUGH.search(n))]

def kani(args, timeout):
    # without --locked: kani's own cargo wrapper passes it on where it applies
    try:
        p = subprocess.run(["timeout", "-k", "5", str(timeout), "cargo", "kani"] + FLAGS + args, cwd=HERE, env=env(), capture_output=True, text=True)
        return p.returncode, p.stdout + p.stderr
    except Exception as ex:
        return 99, str(ex)

def run_native(gv, mode, name, vals=()):
    try:
        p = subprocess.run([gv, mode, name] + list(vals), capture_output=True, text=True, timeout=120)
    except subprocess.TimeoutExpired:
        return False, [], ""
    m = re.search(r"^(REPRODUCED|not reproduced) ?(.*)\n(.*)", p.stdout, re.M)
    return (p.returncode == 1 and bool(m) and m.group(1) == "REPRODUCED"), (m.group(2).split() if m else []), (m.group(3) if m else "")

def source_hash():
    h = hashlib.sha256()
    for f in sorted(glob.glob("/repo/src/**/*.rs", recursive=True)):
        h.update(open(f, "rb").read())
    return h.hexdigest()[:16]

def check(prop, tier):
    t0 = time.time()
    total = 780 if tier == "quick" else 3000
    names = harnesses(prop, tier)
    sel = [a for n in names for a in ("--harness", n)] + ["--exact"]
    sel = [a if not a.startswith(prop.lower()) else a for a in sel]
    each = 240 if tier == "quick" else 1500
    rc, out = kani(sel + ["-j", "7", "--harness-timeout", f"{each}s"], total - 120)
    done = re.search(r"Complete - (\d+) successfully verified harnesses, (\d+) failures, (\d+) total", out)
    if not done:
        sys.stderr.write(out[-4000:])
        print(f"{prop}: Kani gave no answer")
        return 2
    good, bad_n, n = map(int, done.groups())
    bad = re.findall(r"Verification failed for - (\S+)", out)
    checks = [tuple(map(int, m)) for m in re.findall(r"\*\* (\d+) of (\d+) failed", out)]
    times = [float(x) for x in re.findall(r"Verification Time: ([\d.]+)s", out)]
    violations, undecided = [], []
    if bad:
        gv = native()
        for name in bad:
            left = total - (time.time() - t0)
            vals, found = [], False
            if left > 60:
                _, o = kani(["-Z", "concrete-playback", "--concrete-playback=print", "--harness", name, "--exact", "--harness-timeout", f"{int(left-30)}s"], int(left - 20))
                for block in re.findall(r"concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n    \];", o, re.S):
                    vals = ["".join(f"{int(b):02x}" for b in re.findall(r"\d+", v)) for v in re.findall(r"^\s*vec!\[(.*?)\]", block, re.M)]
                    found, vals, shown = run_native(gv, "replay", name, vals)
                    if found:
                        break
            if not found:
                # the solver's values may rest on the slack of a contract: look for a genuine witness
                found, vals, shown = run_native(gv, "hunt", name)
            if found:
                violations.append(dict(property=prop, harness=name, values=vals, shown=shown))
            else:
                undecided.append(name)
    for v in violations:
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        path = os.path.join(ROOT, "replays", f"{prop}-{v['harness']}.json")
        json.dump(v, open(path, "w"), indent=1)
        print(f"  {v['harness']}: fails for {v['shown']}")
        print(f"VIOLATION property={prop} replay={path}")
    info = INFO[prop]
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="other", wall_s=time.time() - t0,
              violations=len(violations), assumptions=info["assume"],
              coverage=dict(explanation="bounded model checking of the compiled library code by Kani/CBMC, bit-precise floating point; every harness is decided for all values of its inputs",
                            bounds=info["bounds"], functions_encoded=info["functions"], harnesses=names, harnesses_run=n, harnesses_proved=good,
                            assertions_checked=sum(b for _, b in checks), assertions_failed=sum(a for a, _ in checks), queries=len(times), solver_seconds=round(sum(times), 3),
                            solver="CBMC 6 (Kani 0.68)", undecided=undecided, source_hash=source_hash(),
                            samples=[dict(harness=h) for h in names[:3]]))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w"), indent=1)
    print(f"{prop} {tier}: {good} of {n} harnesses proved, {len(violations)} violations, {len(undecided)} undecided, {time.time()-t0:.0f} s")
    if violations:
        return 1
    return 0 if good else 2

def replay(path):
    v = json.load(open(path))
    ok, vals, shown = run_native(native(), "replay", v["harness"], v["values"])
    print(f"{v['harness']}: {shown}")
    if ok:
        print(f"VIOLATION property={v['property']} replay={path}")
        return 1
    print("not reproduced")
    return 0

if __name__ == "__main__":
    a = sys.argv[1:]
    sys.exit(replay(a[1]) if a[0] == "replay" else check(a[1], a[2] if len(a) > 2 else "quick"))
