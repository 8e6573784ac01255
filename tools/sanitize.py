#!/usr/bin/env python3
"""P25: the workloads of every property under ThreadSanitizer and AddressSanitizer.

sanitize.py build   builds both instrumented monitors
sanitize.py run     builds if necessary, runs, judges the reports, writes evidence/P25.json
"""
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

ROOT = os.path.abspath(os.path.join(os.path.dirname(__file__), ".."))
TARGET = "x86_64-unknown-linux-gnu"
KINDS = {"thread": "TSAN_OPTIONS", "address": "ASAN_OPTIONS"}

def tdir(kind): return os.path.join(ROOT, "target", "san-" + kind)
def binary(kind): return os.path.join(tdir(kind), TARGET, "debug", "vmon")

def want(kind):
    h = hashlib.sha256(kind.encode())
    for base in ("/repo/src", "/repo/Cargo.toml", os.path.join(ROOT, "harness"), os.path.join(ROOT, "tools", "rustc-wrap.sh")):
        files = [base] if os.path.isfile(base) else sorted(os.path.join(d, f) for d, _, fs in os.walk(base) for f in fs)
        for f in files:
            h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()

def build(kind):
    stamp = os.path.join(tdir(kind), "repo.stamp")
    w = want(kind)
    if os.path.exists(binary(kind)) and os.path.exists(stamp) and open(stamp).read() == w: return True
    os.makedirs(tdir(kind), exist_ok=True)
    if os.path.exists(stamp): os.remove(stamp)
    for hooks in ("1", "0"):
        for p in glob.glob(os.path.join(tdir(kind), "*", "debug", ".fingerprint", "miniboosts-*")) + glob.glob(os.path.join(tdir(kind), "*", "debug", ".fingerprint", "vmon-*")):
            shutil.rmtree(p, ignore_errors=True)
        env = dict(os.environ, RUSTUP_TOOLCHAIN="nightly", RUSTFLAGS=f"-Zsanitizer={kind} --cfg vmon_san", CARGO_TARGET_DIR=tdir(kind),
                   RUSTC_WRAPPER=os.path.join(ROOT, "tools", "rustc-wrap.sh"), VMON_HOOKS=hooks, CARGO_NET_OFFLINE="true")
        r = subprocess.run(["cargo", "build", "--offline", "--quiet", "-Zbuild-std", "--target", TARGET, "--manifest-path", os.path.join(ROOT, "harness", "Cargo.toml")],
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode == 0:
            open(stamp, "w").write(w)
            return True
    print(r.stdout[-4000:], file=sys.stderr)
    print(f"build of the monitors under the {kind} sanitizer failed", file=sys.stderr)
    return False

def options(kind, log):
    o = {"thread": "halt_on_error=0 exitcode=0 history_size=5 second_deadlock_stack=1 detect_deadlocks=1 suppressions=" + os.path.join(ROOT, "tools", "tsan.supp"), "address": "halt_on_error=1 detect_leaks=0 exitcode=77 detect_stack_use_after_return=1"}[kind]
    return f"log_path={log} {o}"

def call(kind, args, log, extra=None, timeout=None):
    env = dict(os.environ, VMON_ROOT=ROOT, **(extra or {}))
    if kind: env[KINDS[kind]] = options(kind, log)
    exe = binary(kind) if kind else os.path.join(ROOT, "target", "debug", "vmon")
    try:
        r = subprocess.run([exe] + args, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), ""
    return r.returncode, r.stdout, r.stderr

def reports(log):
    out = []
    for f in sorted(glob.glob(log + ".*")):
        t = open(f, errors="replace").read()
        out += [p for p in re.split(r"={18,}\n", t) if "SUMMARY:" in p or "ERROR: AddressSanitizer" in p or "WARNING: ThreadSanitizer" in p]
    return out

def main():
    if sys.argv[1:] == ["build"]:
        sys.exit(0 if all([build(k) for k in KINDS]) else 2)
    t0 = time.time()
    thorough = os.environ.get("VERIF_TIER", "quick") == "thorough"
    seed = os.environ.get("VERIF_SEED", "1")
    scratch = os.environ["VMON_SCRATCH"]
    bad = False
    violations, parts, alive = [], {}, {}
    for kind in (None, "thread", "address"):
        name = kind or "plain"
        if kind and not build(kind): bad = True; continue
        if kind:
            log = os.path.join(scratch, f"self-{kind}")
            call(kind, ["selftest", "race" if kind == "thread" else "free"], log)
            rs = reports(log)
            alive[name] = len(rs)
            if not rs:
                print(f"the {kind} sanitizer did not report the deliberate defect", file=sys.stderr); bad = True; continue
        log = os.path.join(scratch, f"log-{name}")
        extra = {"VMON_VARIANT": name, "VMON_BUDGET": "270" if thorough else "90"}
        rc, out, err = call(kind, ["P25"], log, extra, timeout=700)
        rs = reports(log)
        for r in rs:
            m = re.search(r"SUMMARY: (.*)", r)
            violations.append((name, (m.group(1) if m else r.strip().splitlines()[0])[:300], r))
        last = [l for l in out.splitlines() if l.startswith("P25 ")]
        print(f"[{name}] " + (last[-1] if last else f"ended with {rc}"))
        for l in out.splitlines():
            if l.startswith("VIOLATION ") or l.startswith("KNOWN-FINDING") or l.startswith("  "): print(l)
        if rc == 1: violations.append((name, None, None))
        elif rc is None or rc == 137 or rc == -9: print(f"[{name}] cut short", file=sys.stderr); bad = True
        elif rc not in (0, 2) and not rs: violations.append((name, f"the process died with {rc}", err[-4000:]))
        elif rc == 2: print(err[-2000:], file=sys.stderr); bad = True
        p = os.path.join(ROOT, "evidence", f"parts-P25-{name}.json")
        if os.path.exists(p):
            parts[name] = json.load(open(p)); os.remove(p)
            parts[name]["sanitizer_reports"] = len(rs)
    shown = set()
    for i, (name, what, text) in enumerate(violations):
        if what is None or what in shown: continue
        shown.add(what)
        if len(shown) > 5: break
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        path = os.path.join(ROOT, "replays", f"P25-{name}-{seed}-{i}.txt")
        open(path, "w").write(f"VERIF_SEED={seed} VERIF_TIER={'thorough' if thorough else 'quick'} ./check.sh P25   # {name}\n{text}\n")
        print(f"VIOLATION property=P25 replay={path}")
        print(f"  [{name}] {what}")
    ev, per, samples = {}, {}, []
    for name, p in parts.items():
        for k, v in p["coverage"]["events"].items(): ev[f"{name}: {k}"] = v
        for k, v in p["coverage"]["per_family"].items(): per[f"{name}: {k}"] = v
        samples += [dict(s, instrumentation=name) for s in p["coverage"]["samples"][:3]]
    cov = dict(
        evaluations=sum(p["coverage"]["evaluations"] for p in parts.values()),
        distinct_nontrivial=max([p["coverage"]["distinct_nontrivial"] for p in parts.values()] or [0]),
        rule=next(iter(parts.values()))["coverage"]["rule"] if parts else "", samples=samples, events=ev, per_family=per,
        runs={n: dict(evaluations=p["coverage"]["evaluations"], distinct=p["coverage"]["distinct_nontrivial"], sanitizer_reports=p["sanitizer_reports"], wall_s=p["wall_s"], time_capped=p["coverage"]["time_capped"], inconclusive=p["coverage"]["inconclusive"]) for n, p in parts.items()},
        deliberate_defects_reported=alive, exploration="complete" if not bad else "incomplete")
    json.dump(dict(property="P25", tier="thorough" if thorough else "quick", seed=int(seed), level="exploration", coverage=cov,
                   assumptions=next(iter(parts.values()))["assumptions"] if parts else [], wall_s=time.time() - t0, violations=len(violations)),
              open(os.path.join(ROOT, "evidence", "P25.json"), "w"), indent=1)
    print(f"P25: {cov['evaluations']} cases, {sum(p['sanitizer_reports'] for p in parts.values())} sanitizer reports, {len(violations)} violations, {time.time() - t0:.0f} s")
    sys.exit(1 if violations else 2 if bad else 0)

main()
