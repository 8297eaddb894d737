#!/usr/bin/env python3
"""Builds one property's harness from /repo's working tree and runs it.

    run.py ID [--tier quick|thorough] [--replay FILE]

Exit 0: the property held on everything explored. Exit 1: a line
"VIOLATION property=<ID> replay=<path>" was printed. Exit 2: no answer
(the harness could not be built).
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
JOBS = int(os.environ.get("VP_JOBS", "8"))
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

CXX = os.environ.get("VP_CXX", "g++")
BASE = ["-std=c++17", "-O1", "-g0", "-w", "-fno-strict-aliasing", "-ftrivial-auto-var-init=pattern", "-DEDYN_DEBUG", "-pthread"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
INCLUDE = re.compile(r'^[ \t]*#[ \t]*include[ \t]*([<"])([^>"\n]+)[>"]', re.M)


def read(p):
    with open(p, encoding="utf-8", errors="replace") as f:
        return re.sub(r"/\*.*?\*/", "", f.read(), flags=re.S)


_entt = {}


def needs_entt(path, seen=None):
    """Whether a file reaches EnTT through its includes (as /opt/vp/scope decides)."""
    if path in _entt:
        return _entt[path]
    top = seen is None
    seen = set() if top else seen
    seen.add(path)
    text = re.sub(r"//.*", "", read(path))
    res = bool(re.search(r"\bentt::", text))
    for kind, name in INCLUDE.findall(text):
        if name.startswith("entt/"):
            res = True
            continue
        for d in ([REPO + "/include"] if kind == "<" else [os.path.dirname(path), REPO + "/include"]):
            sub = os.path.normpath(os.path.join(d, name))
            if os.path.isfile(sub):
                if sub not in seen and needs_entt(sub, seen):
                    res = True
                break
    if top:
        _entt[path] = res
    return res


def repo_sources():
    text = re.sub(r"#.*", "", read(REPO + "/CMakeLists.txt"))
    out = []
    for src in re.findall(r"\bsrc/edyn/[\w./-]+\.cpp\b", text):
        p = os.path.join(REPO, src)
        if "/windows/" not in src and os.path.isfile(p) and p not in out:
            out.append(p)
    return out


def settings_header(dst, double):
    text = open(REPO + "/cmake/in/build_settings.h.in").read()
    on = {"EDYN_DISABLE_PROFILING"} | ({"EDYN_DOUBLE_PRECISION"} if double else set())
    text = re.sub(r"#cmakedefine\s+(\w+)",
                  lambda m: "#define " + m.group(1) if m.group(1) in on else "/* #undef %s */" % m.group(1), text)
    os.makedirs(dst + "/edyn", exist_ok=True)
    open(dst + "/edyn/build_settings.h", "w").write(text)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


_objects = {}


def compile_plan(cfg, work):
    """The compile commands of one part: [(command without output, object, must succeed)]."""
    inc = work + ("/inc_double" if cfg.get("double") else "/inc")
    settings_header(inc, cfg.get("double", False))
    flags = BASE + (SAN if cfg.get("san") else []) + cfg.get("flags", [])
    incs = ["-I" + inc, "-I" + REPO + "/include", "-I" + VERIF + "/lib"]
    if cfg.get("entt", False):
        incs.append("-isystem" + VERIF + "/entt_shim")
    lib = cfg.get("lib", "free")
    if lib == "none":
        sources = []
    elif lib == "all":
        sources = repo_sources()
    else:
        sources = [s for s in repo_sources() if not needs_entt(s)]
    for s in cfg.get("sources", []):
        p = os.path.join(REPO, "src/edyn", s)
        if p not in sources and os.path.isfile(p):
            sources.append(p)
    skip = cfg.get("skip", [])
    sources = [s for s in sources if not any(s.endswith(k) for k in skip)]
    libflags = flags + cfg.get("libflags", [])
    plan = [([CXX] + libflags + incs + ["-c", s], s, False) for s in sources]
    for h in cfg["harness"]:
        s = h if os.path.isabs(h) else os.path.join(VERIF, "harness", h)
        plan.append(([CXX] + flags + incs + ["-I" + VERIF + "/harness", "-c", s], s, True))
    for h in cfg.get("plain", []):
        s = os.path.join(VERIF, h)
        plan.append(([CXX, "-std=c++17", "-O2", "-g0", "-w", "-I" + VERIF + "/lib", "-c", s], s, True))
    out = []
    for cmd, src, must in plan:
        key = " ".join(cmd)
        if key not in _objects:
            _objects[key] = "%s/o%d_%s.o" % (work, len(_objects), os.path.basename(src))
        out.append((cmd, src, _objects[key], must))
    return out


def build_all(cfgs, work):
    """Compiles the library part and the harness of every part. Returns the binaries or raises."""
    plans = [compile_plan(c, work) for c in cfgs]
    jobs = {}
    for plan in plans:
        for cmd, src, o, must in plan:
            jobs[o] = (cmd + ["-o", o], src, must)
    # Harnesses first, then the largest, for a better spread.
    order = sorted(jobs, key=lambda o: (not jobs[o][2], -os.path.getsize(jobs[o][1])))
    failed = {}
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for o, r in zip(order, ex.map(lambda o: sh(jobs[o][0]), order)):
            if r.returncode != 0:
                failed[o] = "$ %s\n%s" % (" ".join(jobs[o][0]), r.stdout)
                if jobs[o][2]:
                    raise RuntimeError(failed[o][-6000:])
    def link(n):
        cfg, plan = cfgs[n], plans[n]
        objs = [o for _, _, o, must in plan if must]
        libobjs = sorted(o for _, _, o, must in plan if not must and o not in failed)
        if libobjs:
            lib = "%s/libedyn%d.a" % (work, n)
            sh(["ar", "rcs", lib] + libobjs)
            objs.append(lib)
        exe = "%s/check%d" % (work, n)
        r = sh([CXX] + (SAN if cfg.get("san") else []) + ["-pthread", "-o", exe] + objs + cfg.get("ldflags", []))
        if r.returncode != 0:
            raise RuntimeError("\n".join(failed.values())[-6000:] + r.stdout[-4000:])
        return exe

    with cf.ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(link, range(len(cfgs))))


def known_findings(pid):
    p = VERIF + "/known_findings.jsonl"
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                e = json.loads(line)
                if e.get("property") == pid and e.get("status") == "known":
                    out.append(e["key"])
    return out


def main():
    args = sys.argv[1:]
    pid = args.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--replay":
            replay = args.pop(0)
    check = CHECKS[pid]
    t0 = time.time()
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    replay_dir = VERIF + "/evidence/replay"
    os.makedirs(replay_dir, exist_ok=True)
    work = tempfile.mkdtemp(prefix="vp_%s_" % pid)
    code = 0
    stats = []
    try:
        parts = check["parts"]
        parts = [c for c in parts if c.get("tier") != "thorough" or tier == "thorough"]
        try:
            exes = list(zip(parts, build_all(parts, work)))
        except RuntimeError as e:
            print(e)
            print("NO ANSWER: %s: the harness could not be built" % pid)
            return 2
        tb = time.time() - t0
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "abort_on_error=1:handle_segv=0:handle_abort=0:handle_sigfpe=0:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_sigbus=0:handle_sigill=0"
        env["UBSAN_OPTIONS"] = "abort_on_error=1:print_stacktrace=0:halt_on_error=1"
        runs = []
        for n, (cfg, exe) in enumerate(exes):
            shards = 1 if replay else min(cfg.get("shards", JOBS), JOBS)
            for k in range(shards):
                rp = "%s/%s.%d.%d.txt" % (replay_dir, pid, n, k)
                if os.path.exists(rp):
                    os.remove(rp)
                sp = "%s/stats.%d.%d.json" % (work, n, k)
                cmd = [exe, "--property", pid, "--tier", tier, "--shard", "%d/%d" % (k, shards),
                       "--replay-out", rp, "--stats", sp]
                for name in cfg.get("select", []):
                    cmd += ["--select", name]
                for key in known_findings(pid):
                    cmd += ["--known", key]
                if replay:
                    rd = dict(l.split(" ", 1) for l in open(replay).read().split("\n") if " " in l)
                    cmd += ["--scenario", rd["scenario"], "--case", rd["case"]]
                    if rd.get("thorough") == "1":
                        cmd[4] = "thorough"
                runs.append((cmd, rp, sp))
        known_lines = []

        def go(r):
            cwd = tempfile.mkdtemp(prefix="cwd", dir=work)
            limit = 840 if tier == "quick" else 6 * 3600
            try:
                p = subprocess.run(r[0], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                                   env=env, cwd=cwd, timeout=limit)
                return p.returncode, p.stdout
            except subprocess.TimeoutExpired as e:
                return "timeout", str(e.stdout)[-2000:]

        with cf.ThreadPoolExecutor(JOBS) as ex:
            results = list(ex.map(go, runs))
        done_violation = False
        for (cmd, rp, sp), (rc, out) in zip(runs, results):
            for l in out.split("\n"):
                if l.startswith("KNOWN-FINDING:") and l not in known_lines:
                    known_lines.append(l)
            if rc == 0 and os.path.exists(sp):
                stats.append(json.load(open(sp)))
                continue
            if rc == "timeout":
                print("NO ANSWER: exploration did not finish in its time limit")
                code = max(code, 2) if code != 1 else 1
                continue
            code = 1
            if not done_violation:
                done_violation = True
                vl = [l for l in out.split("\n") if l.startswith("VIOLATION property=")]
                print(out[-6000:].rstrip())
                if not vl:
                    # Died without reaching the handler.
                    with open(rp, "w") as f:
                        f.write("property %s\nwhat the checked code ended the process (status %s)\n%s\n" % (pid, rc, out[-2000:]))
                    print("VIOLATION property=%s replay=%s" % (pid, rp))
        for l in known_lines:
            print(l)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    if replay:
        return code

    def tot(k):
        return sum(s.get(k, 0) for s in stats)

    per = {}
    for s in stats:
        for k, v in s["per_scenario"].items():
            per[k] = per.get(k, 0) + v
    samples = []
    for s in stats:
        for x in s["samples"]:
            if len(samples) < 16:
                samples.append(x)
    notes = sorted({n for s in stats for n in s["notes"]})
    if not samples:
        samples = ["%s: %d cases" % kv for kv in sorted(per.items())][:10]
    wall = time.time() - t0
    if check["level"] == "model_checking":
        cov = {"states": tot("states"), "transitions": tot("transitions"),
               "traces_validated_against_impl": tot("validated") or tot("cases"),
               "trace_validation": "every explored execution is an execution of the real code compiled from /repo",
               "property_evaluations": tot("evals")}
    else:
        cov = {"evaluations": tot("cases"), "distinct_nontrivial": tot("nontrivial"), "property_evaluations": tot("evals")}
    cov.update({"per_scenario_cases": per, "samples": samples, "rule": check["rule"],
                "bounds": check["bounds_" + tier], "exhaustive": code == 0 and not any("capped" in n for n in notes),
                "notes": notes})
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": check["level"], "coverage": cov,
        "wall_s": round(wall, 2), "violations": 1 if code == 1 else 0,
        "assumptions": check.get("assumptions", []),
    }
    json.dump(ev, open("%s/evidence/%s.json" % (VERIF, pid), "w"), indent=1)
    print("%s %s: %s; %d cases, %d states, %d transitions, %d property evaluations, build %.1f s, total %.1f s" % (
        pid, tier, {0: "held", 1: "violated"}.get(code, "no answer"), tot("cases"), tot("states"), tot("transitions"), tot("evals"), tb, wall))
    return code


if __name__ == "__main__":
    sys.exit(main())
