#!/usr/bin/env python3
"""Decide one property of pbrtrs by bounded exhaustive exploration.

    check.py C05 [--tier quick|thorough] [--replay FILE]
    check.py --setup            build every harness
    check.py --all [--tier T]   every check, one after the other

Rebuilds the harness from /repo's working tree (both float precisions), runs
it, triages crashes, and writes evidence/<id>.json.
Exit status: 0 held on everything explored, 1 violation, 2 no answer.
"""
import hashlib, json, os, shutil, signal, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(V, "target")
PARSER = ["C%02d" % i for i in range(1, 14)]
CORE = ["C%02d" % i for i in range(14, 24)]
FINDINGS = os.path.join(V, "known_findings.txt")
DEADLINE = {"quick": 840, "thorough": 6 * 3600}

ENV = dict(os.environ)
ENV["PATH"] = "/usr/local/bin:/root/.cargo/bin:/usr/bin:/bin:" + ENV.get("PATH", "")
ENV.update(RUSTUP_TOOLCHAIN="1.98.1", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
           RUSTC_WRAPPER="", CARGO_INCREMENTAL="0", RUST_BACKTRACE="0")
for k in ("CARGO_TARGET_DIR", "CARGO_BUILD_TARGET_DIR", "CARGO_PROFILE_DEV_DEBUG", "CARGO_ENCODED_RUSTFLAGS"):
    ENV.pop(k, None)
FLAGS = "--cfg pbrtrs_verif -Awarnings"


class NoAnswer(Exception):
    pass


# ------------------------------------------------------------------ building
def tree_hash(*roots):
    h = hashlib.sha256()
    for root in roots:
        if os.path.isfile(root):
            files = [root]
        else:
            files = sorted(os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs)
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def build(crate, f64, dev=False, only=None, flags=FLAGS):
    """Returns (binary or None, message)."""
    name = crate + ("64" if f64 else "32") + ("d" if dev else "") + ("-" + only if only else "")
    tdir = os.path.join(TARGET, name)
    os.makedirs(tdir, exist_ok=True)
    prof = "debug" if dev else "release"
    binary = os.path.join(tdir, prof, crate)
    stamp = os.path.join(tdir, "stamp")
    want = tree_hash(REPO + "/src", REPO + "/Cargo.toml", V + "/fw/src", V + "/fw/Cargo.toml",
                     "%s/%s/src" % (V, crate), "%s/%s/Cargo.toml" % (V, crate)) + flags + str(only)
    if os.path.exists(binary) and os.path.exists(stamp) and open(stamp).read() == want:
        return binary, "up to date"
    if os.path.exists(stamp):
        os.remove(stamp)
    # Cargo decides by file times: forget its verdict on the crates that change.
    fp = os.path.join(tdir, prof, ".fingerprint")
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.split("-")[0] in ("pbrtrs", "fw", "pchk", "mchk"):
                shutil.rmtree(os.path.join(fp, d))
    cmd = ["cargo", "build", "--offline", "--target-dir", tdir]
    if not dev:
        cmd.append("--release")
    feats = []
    if only:
        cmd.append("--no-default-features")
        feats.append(only)
    if f64:
        feats.append("f64")
    if feats:
        cmd += ["--features", ",".join(feats)]
    r = subprocess.run(cmd, cwd=os.path.join(V, crate), env=dict(ENV, RUSTFLAGS=flags),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0:
        return None, r.stdout[-4000:]
    with open(stamp, "w") as f:
        f.write(want)
    return binary, "built"


def build_for(prop):
    """{config: binary}, notes. One configuration that does not compile is left
    out (there is nothing to run in it); none at all is no answer."""
    crate = "pchk" if prop in PARSER else "mchk"
    jobs = {"f32": (crate, False), "f64": (crate, True)}
    if prop == "C01":
        jobs["dev"] = (crate, False, True)
    with ThreadPoolExecutor(3) as ex:
        fut = {k: ex.submit(build, *a) for k, a in jobs.items()}
        res = {k: f.result() for k, f in fut.items()}
    notes = []
    if crate == "mchk":
        # an API change elsewhere must not take this property along
        for k in list(res):
            for fl in (FLAGS, FLAGS + " --cfg coord_plain"):
                if res[k][0] is None:
                    r = build(crate, k == "f64", only="p" + prop[1:], flags=fl)
                    if r[0]:
                        res[k] = r
                        notes.append("%s: only this property's part of the harness compiles" % k)
    for k, (b, msg) in res.items():
        if b is None:
            sys.stderr.write("build of %s (%s) failed:\n%s\n" % (crate, k, msg))
            notes.append("%s: does not compile, not explored" % k)
    bins = {k: b for k, (b, _) in res.items() if b}
    if "f32" not in bins:
        raise NoAnswer("the harness does not build against /repo")
    return bins, notes


# ------------------------------------------------------------------ running
def harness(binary, prop, tier, config, scratch, t_end, extra=()):
    out = os.path.join(scratch, "out.json")
    slots = os.path.join(scratch, "slots")
    for f in (out, slots, slots + ".names"):
        if os.path.exists(f):
            os.remove(f)
    cmd = [binary, prop, "--tier", tier, "--config", config, "--out", out, "--slots", slots] + list(extra)
    left = t_end - time.time()
    if left < 1:
        raise NoAnswer("out of time")
    try:
        r = subprocess.run(cmd, env=ENV, cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=left, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        raise NoAnswer("%s (%s) did not finish in time" % (prop, config))
    doc = None
    if r.returncode in (0, 1) and os.path.exists(out):
        doc = json.load(open(out))
    return r.returncode, doc, slots, r.stderr[-2000:]


def active_cases(slots):
    """(space, index, text) of the cases being executed when the process died."""
    res = []
    try:
        names = open(slots + ".names").read().split("\n")
        data = open(slots, "rb").read()
    except OSError:
        return res
    size = 32 + 4096
    for i in range(len(data) // size):
        sp, idx, _, ln = struct.unpack_from("<QQQQ", data, i * size)
        if 0 < sp <= len(names):
            text = data[i * size + 32:i * size + 32 + min(ln, 4096)].decode("utf-8", "replace")
            res.append((names[sp - 1], idx, text))
    return res


def run_config(binary, prop, tier, config, scratch, t_end, extra=()):
    """Returns (doc or None, violations)."""
    rc, doc, slots, err = harness(binary, prop, tier, config, scratch, t_end, extra)
    if doc is not None:
        return doc, doc["violations"]
    if rc >= 0:
        raise NoAnswer("%s (%s) ended with status %d: %s" % (prop, config, rc, err))
    if rc == -signal.SIGKILL:
        raise NoAnswer("%s (%s) was killed" % (prop, config))
    # died by a signal: which of the cases under way does it, alone?
    how = "process died by signal %d (%s)" % (-rc, " ".join(err.split())[-200:])
    for space, idx, text in active_cases(slots):
        c, d, _, e = harness(binary, prop, tier, config, scratch, min(t_end, time.time() + 180),
                             list(extra) + ["--only", "%s:%d" % (space, idx)])
        if c < 0 and c != -signal.SIGKILL:
            return None, [{"space": space, "index": idx, "case": text[:600],
                           "what": "process died by signal %d (%s)" % (-c, " ".join(e.split())[-200:])}]
        if d is not None and d["violations"]:
            return d, d["violations"]
    rc, doc, slots, err = harness(binary, prop, tier, config, scratch, t_end, extra)
    if doc is not None and doc["violations"]:
        return doc, doc["violations"]
    if rc < 0 and rc != -signal.SIGKILL:
        act = active_cases(slots)
        s, i, t = act[0] if act else ("", -1, "")
        return None, [{"space": s, "index": i, "case": t[:600], "what": how + ", in the course of the whole exploration only"}]
    raise NoAnswer("%s (%s): %s, not reproduced" % (prop, config, how))


def known_findings(prop):
    res = []
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop):
                f = l.split(" ", 3)
                res.append((f[2].split("=", 1)[1], f[3]))
    return res


def check(prop, tier, seed):
    t0 = time.time()
    t_end = t0 + DEADLINE[tier]
    scratch = tempfile.mkdtemp(prefix="pbrtrs-%s-" % prop)
    docs, viols, lines = {}, [], []
    try:
        bins, notes = build_for(prop)
        t_build = time.time() - t0
        runs = [("f32", bins.get("f32"), prop), ("f64", bins.get("f64"), prop)]
        if prop == "C01":
            runs.append(("f32-dev", bins.get("dev"), "C01S"))
        for config, binary, p in runs:
            if binary is None or viols:
                continue
            doc, vs = run_config(binary, p, tier, config.split("-")[0], scratch, t_end)
            if doc:
                docs[config] = doc
            viols += [dict(v, config=config, harness=p) for v in vs]
        for fid, what in known_findings(prop):
            # each finding is one space of its own, explored apart from the rest
            binary = bins.get("dev")
            if binary is None or viols:
                continue
            rc, doc, _, err = harness(binary, fid, tier, "f32", scratch, t_end)
            if rc in (-signal.SIGABRT, -signal.SIGSEGV) and "overflowed its stack" in err:
                lines.append("KNOWN-FINDING: property=%s %s" % (prop, what))
            elif doc is not None:
                docs["finding-" + fid] = doc
                viols += [dict(v, config="f32-dev", harness=fid) for v in doc["violations"]]
            else:
                raise NoAnswer("finding %s: status %d %s" % (fid, rc, err))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    for l in lines:
        print(l)
    write_evidence(prop, tier, seed, docs, notes, viols, lines, time.time() - t0, t_build)
    total = sum(d["executions"] for d in docs.values())
    print("%s %s: %d executions, %d model states, %d transitions, %.1f s (build %.1f s)" % (
        prop, tier, total, sum(d["states"] for d in docs.values()), sum(d["transitions"] for d in docs.values()),
        time.time() - t0, t_build))
    for n in notes:
        print("note: " + n)
    if viols:
        v = viols[0]
        rdir = os.path.join(V, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s-%s-%d.json" % (prop, v["config"], v["space"] or "run", v["index"]))
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "violation": v, "all": viols,
                       "rerun": "python3 check.py %s --replay %s" % (prop, path)}, f, indent=1)
        for v in viols[:3]:
            print("  [%s %s:%d] %s\n    case: %s" % (v["config"], v["space"], v["index"], v["what"], v["case"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0


def write_evidence(prop, tier, seed, docs, notes, viols, lines, wall, t_build):
    samples = []
    for k, d in docs.items():
        samples += ["%s %s" % (k, s) for s in d["samples"]]
    spaces = [dict(s, config=k) for k, d in docs.items() for s in d["spaces"]]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(d["states"] for d in docs.values()),
            "transitions": sum(d["transitions"] for d in docs.values()),
            "traces_validated_against_impl": sum(d["executions"] for d in docs.values()),
            "cases": sum(d["cases"] for d in docs.values()),
            "distinct_results_of_the_implementation": sum(d["distinct_outcomes"] for d in docs.values()),
            "exhaustive": bool(spaces) and not viols and all(s["covered"] == s["size"] for s in spaces),
            "spaces": spaces,
            "counts": {k: d["extra"] for k, d in docs.items() if d["extra"]},
            "samples": samples[:40] or ["none: " + "; ".join(v["what"] for v in viols)[:300]],
            "how": "every case of every listed space was executed on the code built from /repo and compared with the "
                   "reference model; states and transitions are those of the model visited, distinct per configuration",
        },
        "assumptions": [
            "nothing is claimed beyond the listed spaces (no sampling inside them)",
            "the reference model in /verif/%s/src states the property correctly" % ("pchk" if prop in PARSER else "mchk"),
            "built by rustc 1.98.1 for this machine with overflow checks and debug assertions on",
        ] + notes,
        "known_findings": lines,
        "build_s": round(t_build, 2),
        "wall_s": round(wall, 2),
        "violations": len(viols),
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    tmp = os.path.join(V, "evidence", ".%s.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(V, "evidence", prop + ".json"))


def replay(prop, path):
    v = json.load(open(path))
    tier, v = v["tier"], v["violation"]
    bins, _ = build_for(prop)
    binary = bins["dev" if v["config"].endswith("dev") else v["config"]]
    scratch = tempfile.mkdtemp(prefix="pbrtrs-replay-")
    try:
        rc, doc, _, err = harness(binary, v["harness"], tier, v["config"].split("-")[0], scratch, time.time() + 600,
                                  ["--only", "%s:%d" % (v["space"], v["index"])])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if doc is not None and not doc["violations"]:
        print("not reproduced")
        return 0
    print(json.dumps(doc["violations"], indent=1) if doc else "died: %d %s" % (rc, err))
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def main():
    a = sys.argv[1:]
    opt = lambda k, d: a[a.index(k) + 1] if k in a else d
    tier = opt("--tier", os.environ.get("VERIF_TIER", "quick"))
    if tier not in DEADLINE:
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    try:
        if "--setup" in a:
            for p in ("C01", "C14"):
                build_for(p)
            return 0
        if "--all" in a:
            return max(check(p, tier, seed) for p in PARSER + CORE)
        prop = a[0]
        if prop not in PARSER + CORE:
            raise NoAnswer("unknown property " + prop)
        if "--replay" in a:
            return replay(prop, opt("--replay", None))
        return check(prop, tier, seed)
    except NoAnswer as e:
        print("NO-ANSWER: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
