#!/usr/bin/env python3
"""Driver: build everything from /repo's working tree, let the symbolic executor decide the
harnesses of one property, replay what it reports against the real crate, write the evidence."""
import concurrent.futures as cf
import fcntl, glob, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(HERE, ".build")
SRC = os.path.join(HERE, "harness", "src")
T0 = time.time()
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", RUSTFLAGS="--cap-lints allow")
for k in ("CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS", "RUSTDOCFLAGS"):
    ENV.pop(k, None)

from checks import CHECKS  # noqa: E402


def die(msg, code=2):
    print("ERROR: " + msg, flush=True)
    sys.exit(code)


def sh(args, cwd, env=ENV):
    p = subprocess.run(args, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise RuntimeError("%s failed:\n%s" % (" ".join(args[:4]), p.stdout[-6000:]))
    return p.stdout


def build():
    """engine, whole-program IR of harness + crate, and two native builds of the same harnesses"""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    har = os.path.join(HERE, "harness")
    t = lambda n: os.path.join(BUILD, n)

    def ir():
        for f in glob.glob(t("ir") + "/release/deps/vh-*.ll"):
            os.unlink(f)
        # cargo does not know about the emitted file: make it relink
        os.utime(os.path.join(SRC, "main.rs"))
        sh(["cargo", "rustc", "-q", "--release", "--offline", "--target-dir", t("ir"), "--",
            "--emit=llvm-ir", "-C", "debuginfo=1", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp",
            "-C", "link-arg=-Wl,--unresolved-symbols=ignore-all"], har)

    jobs = [
        lambda: sh(["cargo", "build", "-q", "--release", "--offline", "--target-dir", t("engine")], os.path.join(HERE, "engine")),
        ir,
        lambda: sh(["cargo", "build", "-q", "--features", "native", "--offline", "--target-dir", t("nat")], har),
        lambda: sh(["cargo", "build", "-q", "--profile", "plain", "--features", "native", "--offline", "--target-dir", t("nat2")], har),
    ]
    with cf.ThreadPoolExecutor(4) as ex:
        for f in [ex.submit(j) for j in jobs]:
            f.result()
    lls = glob.glob(t("ir") + "/release/deps/vh-*.ll")
    if len(lls) != 1:
        raise RuntimeError("expected one IR file, found %r" % lls)
    # work on private copies, so that a concurrent check may rebuild
    d = tempfile.mkdtemp(prefix="run.", dir=BUILD)
    shutil.copy(lls[0], d + "/vh.ll")
    shutil.copy(t("engine") + "/release/symx", d + "/symx")
    shutil.copy(t("nat") + "/debug/vh", d + "/vh-dev")
    shutil.copy(t("nat2") + "/plain/vh", d + "/vh-plain")
    fcntl.flock(lock, fcntl.LOCK_UN)
    return d


# ------------------------------------------------------------------ harness sources
MODS = {}


def scan():
    """message of every check!, and the reached!() lines of every harness function"""
    msgs, reach = {}, {}
    for f in sorted(glob.glob(SRC + "/*.rs")):
        text = open(f).read()
        m = re.search(r"^(?:pub )?const M: u64 = (\d+);", text, re.M)
        if not m:
            continue
        mod = int(m.group(1))
        MODS[mod] = os.path.basename(f)
        # check!( … , "message") possibly over several lines
        for c in re.finditer(r"check!\(", text):
            line = text.count("\n", 0, c.start()) + 1
            depth, i, instr = 1, c.end(), False
            while depth and i < len(text):
                ch = text[i]
                if instr:
                    if ch == "\\":
                        i += 1
                    elif ch == '"':
                        instr = False
                elif ch == '"':
                    instr = True
                elif ch in "([{":
                    depth += 1
                elif ch in ")]}":
                    depth -= 1
                i += 1
            body = text[c.end():i]
            s = re.findall(r'"((?:[^"\\]|\\.)*)"', body)
            msgs[(mod << 20) | line] = s[-1] if s else "assertion"
        # functions of the file: their witnesses and whom they call
        cur, fns = None, {}
        for n, l in enumerate(text.split("\n"), 1):
            h = re.match(r"(?:pub )?(?:unsafe )?(?:extern \"C\" )?fn (\w+)", l)
            if h:
                cur = h.group(1)
                fns[cur] = (set(), set())
            elif l.startswith("}"):
                cur = None
            if cur:
                if "reached!()" in l:
                    fns[cur][0].add((mod << 20) | n)
                fns[cur][1].update(re.findall(r"(?<![.\w])(\w+)\(", l))
        for h in fns:
            if h.startswith("h_"):
                todo, seen = [h], set()
                while todo:
                    g = todo.pop()
                    if g in fns and g not in seen:
                        seen.add(g)
                        todo += fns[g][1]
                reach[h] = set().union(*(fns[g][0] for g in seen))
    return msgs, reach


# ------------------------------------------------------------------ jobs
def engine_job(d, job, tier, deadline):
    h, part, opts = job
    out = "%s/%s.%d.json" % (d, h, part)
    left = max(5, int(deadline - time.time()))
    args = [d + "/symx", d + "/vh.ll", h, "--part=%d" % part, "--tier=%d" % tier, "--time=%d" % left, "--out=" + out]
    args += ["--%s=%s" % kv for kv in opts.items()]
    t = time.time()
    try:
        p = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=left + 30)
        o = json.load(open(out)) if p.returncode == 0 else {"errors": ["engine ended with %d: %s" % (p.returncode, p.stdout[-1500:])]}
    except subprocess.TimeoutExpired:
        o = {"errors": ["engine did not finish in time"]}
    o["job"] = [h, part]
    o["opts"] = opts
    o["secs"] = round(time.time() - t, 2)
    return o


def native(exe, h, part, tier, data, timeout):
    """run one harness on concrete input; outcome string, bytes used, trace"""
    s = tempfile.mkdtemp(prefix="sx.")
    try:
        with open(s + "/in", "wb") as f:
            f.write(data)
        os.mkdir(s + "/w")
        try:
            p = subprocess.run([exe, h, s + "/in", s + "/w", str(part), str(tier)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            return "hang", 0, []
        out = p.stdout.decode("utf-8", "replace")
        tr = [int(x, 16) for x in re.findall(r"^SX-TRACE ([0-9a-f]+)$", out, re.M)]
        u = re.search(r"^SX-USED (\d+)$", out, re.M)
        rc = p.returncode
        if rc == 0 and "SX-DONE" in out:
            r = "ok"
        elif rc == 101:
            r = "assert " + re.search(r"SX-ASSERT (\d+)", out).group(1)
        elif rc == 102:
            r = "panic " + re.search(r"SX-PANIC (.*)", out).group(1)
        elif rc == 42:
            r = "alloc"
        elif rc == 43:
            r = "sparse"
        elif rc == 77:
            r = "assume"
        elif rc < 0:
            r = "signal %d" % -rc
        else:
            r = "exit %d %s" % (rc, out[-300:])
        return r, int(u.group(1)) if u else 0, tr
    finally:
        shutil.rmtree(s, ignore_errors=True)


def replayed(d, o, tier, msgs):
    """counterexamples which the real crate confirms, disagreements with it, sampled paths on which it does the same"""
    h, part = o["job"]
    cexs, mism, vals = [], [], []
    for v in o.get("violations", []):
        title = msgs.get(int(v["what"]), v["what"]) if v["kind"] == "assert" else v["what"]
        res = {e: native(d + "/" + e, h, part, tier, bytes.fromhex(v["input"]), 20)[0] for e in ("vh-dev", "vh-plain")}
        if any(r not in ("ok", "assume") and not r.startswith("exit ") for r in res.values()):
            cexs.append((v, title, res))
        else:
            mism.append("counterexample does not reproduce natively: %s:%d %s: %s (%s) input %s" % (h, part, v["kind"], title, res, v["input"][:400]))
    if not o.get("violations"):
        def one(s):
            return s, [native(d + "/" + e, h, part, tier, bytes.fromhex(s["input"]), 60) for e in ("vh-dev", "vh-plain")]
        with cf.ThreadPoolExecutor(4) as ex:
            for s, rs in ex.map(one, o.get("samples", [])):
                bad = [r for r, used, tr in rs if r != "ok" or tr != s["trace"]]
                if bad:
                    mism.append("sampled path of %s:%d differs from native execution: %s input %s" % (h, part, bad[0], s["input"][:200]))
                else:
                    vals.append(s)
    return cexs, mism, vals


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in CHECKS:
        die("usage: run.py PROPERTY|--setup [quick|thorough]") if sys.argv[1:2] != ["--setup"] else None
    if sys.argv[1] == "--setup":
        shutil.rmtree(build(), ignore_errors=True)
        print("built")
        return 0
    prop = sys.argv[1]
    tiername = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    tier = 1 if tiername == "thorough" else 0
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = CHECKS[prop]
    limit = float(os.environ.get("VERIF_TIME", "800" if tier == 0 else "6600"))
    deadline = T0 + limit
    try:
        d = build()
    except RuntimeError as e:
        die(str(e))
    tb = time.time() - T0
    try:
        return decide(prop, spec, d, tier, tiername, seed, deadline, tb)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def decide(prop, spec, d, tier, tiername, seed, deadline, tb):
    msgs, reach = scan()
    jobs = []
    for h in spec["harnesses"]:
        parts = h.get("thorough", h["parts"]) if tier else h["parts"]
        for p in parts:
            jobs.append((h["name"], p, dict(h.get("opts", {}), **(h.get("thorough_opts", {}) if tier else {}))))
    heavy = {(h["name"], p): i for h in spec["harnesses"] for i, p in enumerate(h.get("heavy", []))}
    jobs.sort(key=lambda j: heavy.get((j[0], j[1]), 99))
    only = os.environ.get("VERIF_ONLY")  # development: HARNESS or HARNESS:PART
    if only:
        jobs = [j for j in jobs if only in (j[0], "%s:%d" % (j[0], j[1]))]
    outs, found, errors, seen = [], [], [], set()
    known, _fixed = load_known(prop)
    knownhits = {}
    nrep = 0
    replays = os.path.join(HERE, "replay", prop)
    shutil.rmtree(replays, ignore_errors=True)
    samples, validated, mismatch = [], 0, []
    ex = cf.ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8")))
    futs = [ex.submit(engine_job, d, j, tier, deadline) for j in jobs]
    stop = False
    for f in cf.as_completed(futs):
        if f.cancelled():
            continue
        o = f.result()
        h, part = o["job"]
        cexs, mism, vals = replayed(d, o, tier, msgs)
        if mism and o.get("fmt_stub_calls") and "stub-fmt" not in o["opts"] and time.time() < deadline - 20:
            # the result of some formatting may matter here: once more with all of it executed
            o2 = engine_job(d, (h, part, dict(o["opts"], **{"stub-fmt": 0})), tier, deadline)
            c2, m2, v2 = replayed(d, o2, tier, msgs)
            if not m2 and not o2.get("errors"):
                o, cexs, mism, vals = o2, c2, m2, v2
        outs.append(o)
        mismatch += mism
        for e in o.get("errors", []):
            errors.append("%s:%d %s" % (h, part, e))
        if o.get("z3_unknown"):
            errors.append("%s:%d %d solver queries undecided" % (h, part, o["z3_unknown"]))
        if os.environ.get("VERIF_VERBOSE"):
            print("%6.1fs %-14s %3d paths %7d instr %9dk z3 %6d %6.1fs %s" % (
                o["secs"], h, part, o.get("paths", -1), o.get("instructions", 0) // 1000, o.get("z3_calls", 0), o.get("z3_seconds", 0),
                " ".join(v["kind"] for v in o.get("violations", []))), flush=True)
        for v, title, res in cexs:
            inp = bytes.fromhex(v["input"])
            desc = "%s:%d %s: %s" % (h, part, v["kind"], title)
            k = next((k for k in known if k["harness"] == h and k["kind"] == v["kind"] and re.fullmatch(k["what"], title) and
                      (not k.get("input") or re.fullmatch(k["input"], v["input"]))), None)
            if k:
                knownhits[k["id"]] = k
                continue
            if desc in seen:
                continue
            seen.add(desc)
            nrep += 1
            rd = os.path.join(replays, str(nrep))
            os.makedirs(rd, exist_ok=True)
            with open(rd + "/input.bin", "wb") as fh:
                fh.write(inp)
            with open(rd + "/info.json", "w") as fh:
                json.dump({"property": prop, "harness": h, "part": part, "tier": tier, "kind": v["kind"], "what": title, "stack": v["stack"], "input": v["input"], "native": res,
                           "replay": "run.py --setup; in an empty directory: .build/nat/debug/vh %s input.bin . %d %d" % (h, part, tier)}, fh, indent=1)
            found.append((desc, rd))
            print("VIOLATION property=%s replay=%s" % (prop, rd))
            print("  %s\n  dev build: %s; release build: %s" % (desc, res["vh-dev"], res["vh-plain"]), flush=True)
        validated += len(vals)
        for s in vals:
            if len(samples) < 6 and len(s["input"]) < 4000:
                samples.append({"harness": h, "part": part, "path": s["path"], "input_hex": s["input"][:400], "observed": [hex(x) for x in s["trace"][:24]]})
        if len(found) >= 3 and not stop and tier == 0:
            stop = True
            for g in futs:
                g.cancel()
            # running engines are ended; what was found stands
            subprocess.run(["pkill", "-f", d + "/symx"], check=False)
    ex.shutdown()
    # vacuity: every reached!() of every harness that ran
    got = {}
    for o in outs:
        for k, n in o.get("reach", {}).items():
            got[int(k)] = got.get(int(k), 0) + n
    if not found and not only:
        for h in {j[0] for j in jobs}:
            for r in sorted(reach.get(h, [])):
                if not got.get(r):
                    errors.append("%s never reached its witness at line %d: vacuous" % (h, r & 0xfffff))
            if not reach.get(h):
                errors.append("%s has no reachability witness" % h)
    for k in knownhits.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
    total = lambda k: sum(o.get(k, 0) for o in outs)
    funcs, sfuncs, ext, lines = set(), set(), set(), {}
    for o in outs:
        funcs |= set(o.get("functions", []))
        sfuncs |= set(o.get("source_functions", []))
        ext |= set(o.get("externs", []))
        for f_, l in o.get("lines", {}).items():
            lines.setdefault(f_, set()).update(l)
    paths, forks = total("paths"), total("forks")
    ev = {
        "property": prop, "tier": tiername, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": paths + forks,
            "transitions": total("branches"),
            "traces_validated_against_impl": validated,
            "samples": samples or [{"note": "no sample kept"}],
            "symbolic_paths": paths, "forks": forks, "paths_pruned_by_assumptions": total("assumed_away"),
            "instructions_executed": total("instructions"),
            "assertions_decided": total("asserts"), "assertion_queries": total("assert_queries"),
            "feasibility_and_assertion_queries": total("queries"),
            "queries_decided_by": {"byte_domains": total("queries_by_domain"), "earlier_model": total("queries_by_model"), "cache": total("queries_by_cache"), "z3": total("z3_calls")},
            "z3": {"sat": total("z3_sat"), "unsat": total("z3_unsat"), "unknown": total("z3_unknown"), "seconds": round(total("z3_seconds"), 2),
                   "longest_query_seconds": max([o.get("z3_max_seconds", 0) for o in outs] or [0])},
            "concretizations": total("concretizations"),
            "max_symbolic_input_bytes": max([o.get("max_input_bytes", 0) for o in outs] or [0]),
            "formatting_calls_stubbed": total("fmt_stub_calls"),
            "jobs": [{"harness": o["job"][0], "part": o["job"][1], "paths": o.get("paths", 0), "queries": o.get("queries", 0), "z3_calls": o.get("z3_calls", 0), "z3_seconds": o.get("z3_seconds", 0),
                      "instructions": o.get("instructions", 0), "wall_s": o["secs"]} for o in sorted(outs, key=lambda o: o["job"])],
            "functions_encoded": sorted(sfuncs), "ir_functions_executed": sorted(funcs),
            "source_lines_executed": {k: len(v) for k, v in sorted(lines.items())},
            "runtime_functions_modelled": sorted(ext),
            "bounds": spec["bounds"],
            "build_seconds": round(tb, 1),
            "errors": errors + mismatch,
            "known_findings_seen": sorted(knownhits),
        },
        "assumptions": spec.get("assumptions", []) + COMMON,
        "wall_s": round(time.time() - T0, 2),
        "violations": len(found),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    if os.environ.get("VERIF_VERBOSE"):
        json.dump({k: sorted(v) for k, v in lines.items()}, open(os.path.join(HERE, "evidence", prop + ".lines"), "w"))
    print("%s %s: %d jobs, %d paths, %d queries (%d by z3, %.1f s), %d assertions, %d traces validated, %.1f s" % (
        prop, tiername, len(outs), paths, total("queries"), total("z3_calls"), total("z3_seconds"), total("asserts"), validated, time.time() - T0))
    if found:
        return 1
    for e in errors[:20] + mismatch[:20]:
        print("ERROR: " + e)
    return 2 if errors or mismatch else 0


COMMON = [
    "The code checked is the whole-program LLVM IR which rustc makes of the harness and the crate (opt-level 2, fat LTO, overflow checks on, panics abort); the native replays use the dev profile and a plain release profile of the same sources.",
    "Trusted: rustc and LLVM up to the IR, the symbolic executor in /verif/engine (its semantics of the IR, its memory model, its models of memory, file and allocation functions), and z3; sampled paths are replayed natively and their observations compared on every run.",
    "Text formatting (core::fmt) writes nothing unless the harness says otherwise; error messages are therefore not compared.",
    "Memory is sequentially consistent and single threaded, allocation succeeds unless above the stated limit, the file is not changed by others during a call.",
]


def load_known(prop):
    """known_findings.txt: '{json}' lines suppress one finding each, 'fixed: …' lines document repairs"""
    known, fixed = [], []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                k = json.loads(l)
                if k["property"] == prop:
                    known.append(k)
            elif l.startswith("fixed:"):
                fixed.append(l)
    return known, fixed


if __name__ == "__main__":
    sys.exit(main())
