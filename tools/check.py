#!/usr/bin/env python3
"""Builds and runs the check of one property:  tools/check.py C04 [--replay FILE] [extra args for the harness]

Everything is rebuilt from the working tree in $VERIF_REPO (default /repo).  Objects are kept in /verif/.build
(ignored by git) under a name that is the hash of every input file and flag, so nothing stale can be used.
Exit status: that of the harness (0 held, 1 violation); 2 if something could not be built or run.
"""
import concurrent.futures as cf, hashlib, json, os, pathlib, subprocess, sys, time

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
BUILD = pathlib.Path(os.environ.get("VERIF_BUILD", str(VERIF / ".build")))
CFG = json.loads((VERIF / "harness" / "checks.json").read_text())
CXX = "g++"

ASAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
TSAN = ["-fsanitize=thread", "-fno-omit-frame-pointer"]
BASE = ["-std=c++20", "-O1", "-g1", "-DBOOST_ASIO_NO_DEPRECATED", "-w", "-pthread"]


def lib_sources():
    """the library proper: src/*.cpp and src/detail/*.cpp, as its own build does"""
    return sorted(str(p.relative_to(REPO)) for d in ("src", "src/detail") for p in (REPO / d).glob("*.cpp"))



def tree_hash():
    h = hashlib.sha256()
    for d in ("include", "src"):
        for p in sorted((REPO / d).rglob("*")):
            if p.is_file():
                h.update(str(p.relative_to(REPO)).encode() + b"\0")
                h.update(p.read_bytes())
    return h


def harness_hash():
    h = hashlib.sha256()
    for p in sorted((VERIF / "harness").glob("*.hpp")):
        h.update(p.name.encode() + b"\0" + p.read_bytes())
    return h


def compile_one(src, flags, key):
    out = BUILD / (key + ".o")
    if out.exists():
        return out, ""
    tmp = BUILD / f"{key}.{os.getpid()}.tmp.o"
    cmd = [CXX, *flags, "-I", str(REPO / "include"), "-I", str(VERIF / "harness"), "-c", str(src), "-o", str(tmp)]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        return None, " ".join(cmd) + "\n" + r.stderr[-6000:]
    os.replace(tmp, out)
    return out, ""


def build(cfg, variant):
    BUILD.mkdir(parents=True, exist_ok=True)
    san = {"asan": ASAN, "tsan": TSAN, "none": []}[variant.get("san", "asan")]
    flags = BASE + san + variant.get("flags", [])
    th = tree_hash().hexdigest()
    hh = harness_hash().hexdigest()
    jobs = []

    def key(src, fl, with_tree):
        h = hashlib.sha256()
        h.update(repr(fl).encode())
        h.update(pathlib.Path(src).read_bytes())
        h.update(str(pathlib.Path(src).name).encode())
        h.update(hh.encode())
        if with_tree:
            h.update(th.encode())
        h.update(str(REPO).encode())
        return h.hexdigest()[:32]

    for s in variant["sources"]:
        p = VERIF / "harness" / s
        for fl in [flags + [f"-DPBT_PART={k}"] for k in range(variant["parts"])] if "parts" in variant else [flags]:
            jobs.append((p, fl, key(p, fl, True)))
    pflags = BASE + san
    p = VERIF / "harness" / "pbt.cpp"
    jobs.append((p, pflags, key(p, pflags, False)))
    for s in [] if variant.get("nolib") else lib_sources():
        if pathlib.Path(s).name in variant.get("without", []):  # included by the harness
            continue
        fl = flags + ["-DBOOST_COBALT_SOURCE=1"]
        jobs.append((REPO / s, fl, key(REPO / s, fl, True)))
    for s in variant.get("io", []):
        fl = flags + ["-DBOOST_COBALT_IO_SOURCE=1", "-DBOOST_COBALT_SOURCE=1"]
        jobs.append((REPO / "src/io" / s, fl, key(REPO / "src/io" / s, fl, True)))
    with cf.ThreadPoolExecutor(max_workers=max(2, min(8, os.cpu_count() or 2))) as ex:
        res = list(ex.map(lambda j: compile_one(*j), jobs))
    errs = [e for o, e in res if o is None]
    if errs:
        print("BUILD FAILED\n" + "\n".join(errs), file=sys.stderr)
        sys.exit(2)
    objs = [str(o) for o, _ in res]
    exe = BUILD / ("bin-" + hashlib.sha256(repr((sorted(objs), flags)).encode()).hexdigest()[:32])
    if not exe.exists():
        tmp = str(exe) + f".{os.getpid()}.tmp"
        cmd = [CXX, *flags, *objs, "-o", tmp, "-lboost_system", *variant.get("libs", [])]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            print("LINK FAILED\n" + " ".join(cmd) + "\n" + r.stderr[-6000:], file=sys.stderr)
            sys.exit(2)
        os.replace(tmp, exe)
    return exe


def merge(parts, out, prop, tier, seed, wall):
    cov = {"evaluations": 0, "nontrivial_evaluations": 0, "distinct_nontrivial": 0, "unreproduced_failures": 0,
           "rule": "", "suites": {}, "samples": []}
    viol = 0
    for name, p in parts:
        if not p.exists():
            continue
        d = json.loads(p.read_text())
        c = d["coverage"]
        for k in ("evaluations", "nontrivial_evaluations", "distinct_nontrivial", "unreproduced_failures"):
            cov[k] += c[k]
        cov["rule"] += (" || " if cov["rule"] else "") + c["rule"]
        cov["suites"].update({(f"{name}/{k}" if name else k): v for k, v in c["suites"].items()})
        cov["samples"] += c["samples"]
        viol += d["violations"]
        p.unlink()
    out.write_text(json.dumps({"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
                               "wall_s": round(wall, 2), "violations": viol}, indent=1) + "\n")


def main():
    prop = sys.argv[1]
    if prop == "--self-test":  # nothing built here survives until the checks run, so just see that we can
        BUILD.mkdir(parents=True, exist_ok=True)
        r = subprocess.run([CXX, *BASE, *ASAN, "-fsyntax-only", str(VERIF / "harness" / "pbt.cpp")])
        return 0 if r.returncode == 0 and lib_sources() else 2
    rest = sys.argv[2:]
    cfg = CFG[prop]
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    variants = cfg["variants"]
    if "--build-only" in rest:
        for v in variants:
            build(cfg, v)
        return 0
    replay = None
    if "--replay" in rest:
        i = rest.index("--replay")
        replay = rest[i + 1]
        del rest[i:i + 2]
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "replay").mkdir(exist_ok=True)
    parts, rc = [], 0
    for v in variants:
        exe = build(cfg, v)
        name = v.get("name", "")
        if replay is not None:
            text = pathlib.Path(replay).read_text()
            want = [l.split()[1] for l in text.splitlines() if l.startswith("variant ")]
            if want and want[0] != (name or "-"):
                continue
            return subprocess.run([str(exe), "--replay", replay, *rest]).returncode
        ev = VERIF / "evidence" / f".{prop}.{name}.part"
        budget = v.get("budget", {"quick": 240, "thorough": 2400}).get(tier, 240)
        cmd = [str(exe), "--seed", str(seed), "--tier", tier, "--evidence", str(ev), "--budget", str(budget),
               "--replay-dir", str(VERIF / "replay"), "--replay-tag", name or "-", *rest]
        sys.stdout.flush()
        r = subprocess.run(cmd)
        parts.append((name, ev))
        if r.returncode == 1:
            rc = 1
            break
        if r.returncode != 0:
            print(f"harness exited with {r.returncode}", file=sys.stderr)
            rc = 2
            break
    for f in (VERIF / "KNOWN_FINDINGS").read_text().splitlines() if (VERIF / "KNOWN_FINDINGS").exists() else []:
        if f.startswith("known: property=" + prop + " "):
            print("KNOWN-FINDING: " + f[len("known: "):])
    merge(parts, VERIF / "evidence" / f"{prop}.json", prop, tier, seed, time.time() - t0)
    return rc


if __name__ == "__main__":
    sys.exit(main())
