#!/usr/bin/env python3
"""check.py <property>          run the check of a property (VERIF_SEED, VERIF_TIER from the environment)
   check.py replay <file>      run one saved case against the current tree
   check.py build [variant..]  only build

Builds the harness against /repo's working tree, runs it, prints VIOLATION / KNOWN-FINDING lines and writes
evidence/<property>.json. Exit 0: held; 1: violated; anything else: the check itself failed."""
import fcntl, json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(VERIF, "target")
EVIDENCE = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")

# compiled sets of the library's features
VARIANTS = {
    "full": "full",
    "bare": "main",
    "rmp": "fmt_rmp",
    "bincode": "fmt_bincode",
    "postcard_json": "fmt_postcard,fmt_json",
    "json": "fmt_json",
}
# property -> variants and the share of the cases they get; default: everything with all features
USES = {
    "C04": [("full", 1.0), ("rmp", 0.1), ("bincode", 0.1), ("postcard_json", 0.1), ("json", 0.1), ("bare", 0.1)],
    "C10": [("full", 1.0), ("bare", 0.2)],
    "C15": [("full", 1.0), ("bare", 0.2)],
    "C16": [("full", 1.0), ("bare", 0.2)],
    "C24": [("full", 1.0), ("bare", 0.2)],
}


def die(msg, code=2):
    print(f"check: {msg}", file=sys.stderr)
    sys.exit(code)


def build(variant):
    """Builds one variant and returns the path of its binary"""
    os.makedirs(os.path.join(TARGET, "bin"), exist_ok=True)
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="1.85.1")
    env.pop("RUSTFLAGS", None)
    cmd = ["cargo", "build", "--quiet", "--ignore-rust-version", "--locked"]
    if VARIANTS[variant]:
        cmd += ["--features", VARIANTS[variant]]
    with open(os.path.join(TARGET, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        p = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            errors = [l for l in p.stdout.splitlines()]
            die("building the harness failed:\n" + "\n".join(errors[-60:]))
        out = os.path.join(TARGET, "bin", f"bvt-{variant}")
        tmp = out + ".new"
        shutil.copy2(os.path.join(TARGET, "debug", "bvt"), tmp)
        os.replace(tmp, out)
    return out


def known_for(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            if line.startswith(f"known: property={prop} "):
                words = line.split()
                sig = [w for w in words if w.startswith("signature=")][0][len("signature="):]
                out.append((sig, line.split(sig, 1)[1].strip()))
    return out


def run_variant(prop, variant, share, tmp):
    binary = build(variant)
    out = os.path.join(tmp, f"{variant}.json")
    env = dict(os.environ, BVT_OUT=EVIDENCE, BVT_KNOWN=KNOWN, BVT_VARIANT=variant)
    env["BVT_SCALE"] = str(float(os.environ.get("BVT_SCALE", "1")) * share)
    p = subprocess.run([binary, "run", prop, out], env=env, stdout=subprocess.PIPE, text=True)
    doc = json.load(open(out)) if os.path.exists(out) else None
    if p.returncode in (0, 1) and doc is not None:
        return doc
    if p.returncode == 1:
        for line in p.stdout.splitlines():
            if line.startswith("FATAL-VIOLATION"):
                path = line.split("replay=")[1].strip()
                return {"failures": [{"part": "", "replay": path, "message": json.load(open(path))["message"]}]}
    if p.returncode == 4:
        return stuck(binary, env, p.stdout)
    if p.returncode in (-6, -11, -4, -8, -7):
        return crashed(prop, binary, env, p.returncode)
    die(f"the harness ({variant}) ended with {p.returncode}\n{p.stdout[-2000:]}", 3)


def stuck(binary, env, output):
    """A case did not end because its thread is blocked or never stops: run it alone"""
    line = [l for l in output.splitlines() if l.startswith("STUCK")][0]
    path = line.split("replay=")[1].strip()
    r = subprocess.run([binary, "replay", path], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    if r.returncode not in (1, 4):
        die("a case did not end, but it does when it runs alone", 3)
    doc = json.load(open(path))
    return {"failures": [{"part": doc["part"], "replay": path, "message": doc["message"]}]}


def crashed(prop, binary, env, code):
    """The process died of a signal that a case can cause: find that case and run it alone"""
    journal = tempfile.mkdtemp(prefix="bvt-journal-")
    try:
        env = dict(env, BVT_JOURNAL=journal)
        subprocess.run([binary, "run", prop], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        for f in sorted(os.listdir(journal)):
            path = os.path.join(journal, f)
            try:
                doc = json.load(open(path))
            except ValueError:
                continue
            r = subprocess.run([binary, "replay", path], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if r.returncode < 0 and r.returncode != -9:
                doc["message"] = f"the process died of signal {-r.returncode}"
                doc["variant"] = env["BVT_VARIANT"]
                os.makedirs(os.path.join(EVIDENCE, "replay"), exist_ok=True)
                keep = os.path.join(EVIDENCE, "replay", f"{prop}-crash.json")
                json.dump(doc, open(keep, "w"))
                return {"failures": [{"part": doc["part"], "replay": keep, "message": doc["message"]}]}
    finally:
        shutil.rmtree(journal, ignore_errors=True)
    die(f"the harness died of signal {-code}, which no single case reproduces", 3)


def check(prop):
    started = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.environ["VERIF_SEED"] = str(seed)
    os.makedirs(EVIDENCE, exist_ok=True)
    evidence = os.path.join(EVIDENCE, f"{prop}.json")
    if os.path.exists(evidence):
        os.remove(evidence)
    docs = []
    with tempfile.TemporaryDirectory(prefix="bvt-") as tmp:
        for variant, share in USES.get(prop, [("full", 1.0)]):
            doc = run_variant(prop, variant, share, tmp)
            doc["variant"] = variant
            docs.append(doc)
            if doc["failures"]:
                break
    failures = [dict(f, variant=d["variant"]) for d in docs for f in d["failures"]]
    known = known_for(prop)
    seen = {}
    for d in docs:
        for sig, (n, detail) in d.get("known_seen", {}).items():
            seen[sig] = seen.get(sig, 0) + n
    coverage = {
        "evaluations": sum(d.get("evaluations", 0) for d in docs),
        "distinct_nontrivial": sum(d.get("distinct_nontrivial", 0) for d in docs),
        "rule": " ".join(dict.fromkeys(d["rule"] for d in docs if d.get("rule"))),
        "samples": [dict(s, variant=d["variant"]) for d in docs for s in d.get("samples", [])][:16],
        "parts": [dict(p, variant=d["variant"]) for d in docs for p in d.get("parts", [])],
        "known_findings_observed": seen,
    }
    doc = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": coverage,
        "assumptions": [
            "generated cases sample the quantified domain; absence of violations outside of them is not shown",
            "the harness' own codec, transport and models are right",
        ],
        "wall_s": round(time.time() - started, 3),
        "violations": len(failures),
    }
    json.dump(doc, open(evidence, "w"), indent=1)
    for sig, text in known:
        print(f"KNOWN-FINDING: property={prop} {sig} {text} (seen in {seen.get(sig, 0)} cases of this run)")
    for f in failures:
        print(f"VIOLATION property={prop} replay={f['replay']}")
        print(f"  [{f['variant']}/{f['part']}] {f['message']}"[:2000])
    print(f"{prop}: {coverage['evaluations']} cases, {coverage['distinct_nontrivial']} distinct non-trivial, "
          f"{len(failures)} violations, {doc['wall_s']} s")
    sys.exit(1 if failures else 0)


def main():
    args = sys.argv[1:]
    if not args:
        die(__doc__)
    if args[0] == "build":
        for v in args[1:] or VARIANTS:
            build(v)
        return
    if args[0] == "replay":
        doc = json.load(open(args[1]))
        binary = build(doc.get("variant") or "full")
        env = dict(os.environ, BVT_KNOWN=KNOWN, BVT_OUT=tempfile.gettempdir())
        sys.exit(subprocess.run([binary, "replay", args[1]], env=env).returncode)
    check(args[0])


main()
