#!/usr/bin/env python3
"""Runs `vh run ID`, turns a crash of the process (signal) into a replayable violation, applies the known-findings
file and writes evidence/ID.json."""
import glob, json, os, shutil, struct, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
VH = os.path.join(HERE, "target", "debug", "vh")


def run(id, tier, seed, secs, vh=VH, env=None, tag=""):
    """-> (exit code, output, part evidence or None)"""
    dir = os.path.join(HERE, "target", "runs", id + tag)
    shutil.rmtree(dir, ignore_errors=True)
    journal = os.path.join(dir, "journal")
    os.makedirs(journal)
    cmd = [vh, "run", id, "--tier", tier, "--seed", str(seed), "--secs", str(secs), "--dir", dir, "--journal", journal]
    e = dict(os.environ)
    e.update(env or {})
    log = open(os.path.join(dir, "log"), "w+", errors="replace")
    p = subprocess.run(cmd, stdout=log, stderr=subprocess.STDOUT, env=e)
    log.seek(0)
    out = log.read()
    part = None
    f = os.path.join(dir, "part-%s.json" % id)
    if os.path.exists(f):
        part = json.load(open(f))
    code = p.returncode
    if "ERROR: AddressSanitizer" in out:
        rp = os.path.join(dir, "asan.log")
        open(rp, "w").write("command: %s\nenvironment: %r\n%s" % (" ".join(cmd), env, out))
        i = out.index("ERROR: AddressSanitizer")
        return 1, "%s\nVIOLATION property=%s replay=%s\n" % (out[i : i + 3000], id, rp), part
    if "ERROR: LeakSanitizer: detected memory leaks" in out:
        rp = os.path.join(dir, "leaks.log")
        open(rp, "w").write("command: %s\nenvironment: %r\n%s" % (" ".join(cmd), env, out))
        i = out.index("ERROR: LeakSanitizer")
        return 1, "%s\nVIOLATION property=%s replay=%s\n" % (out[i : i + 3000], id, rp), part
    if code < 0 or code in (134, 139):
        # the process died: find the case that kills it
        cases = set()
        for j in glob.glob(journal + "/*"):
            b = open(j, "rb").read()
            if len(b) >= 8:
                cases.add(struct.unpack("<Q", b[:8])[0])
        for c in sorted(cases):
            try:
                q = subprocess.run([vh, "one", id, str(seed), str(c)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, timeout=150)
            except subprocess.TimeoutExpired:
                continue
            if q.returncode < 0 or q.returncode in (134, 139):
                rp = os.path.join(dir, "crash-%d.json" % c)
                tail = q.stdout.decode(errors="replace")[-3000:]
                json.dump(dict(property=id, by_seed=True, seed=seed, case=c, sub="", message="process died with %d: %s" % (q.returncode, tail)), open(rp, "w"), indent=1)
                out += "\n%s: the process died (status %d) while running case %d\n%s\nVIOLATION property=%s replay=%s\n" % (id, q.returncode, c, tail, id, rp)
                return 1, out, part
        if -code not in (2, 9, 15):
            rp = os.path.join(dir, "died.log")
            open(rp, "w").write("command: %s\nenvironment: %r\nstatus: %d\ncases running: %r\n%s" % (" ".join(cmd), env, code, sorted(cases), out[-20000:]))
            out += "\n%s: the process died with status %d; no single case reproduces it\nVIOLATION property=%s replay=%s\n" % (id, code, id, rp)
            return 1, out, part
        out += "\nINCONCLUSIVE property=%s: the process died with status %d and no single case reproduces it\n" % (id, code)
        return 2, out, part
    return code, out, part


def write_evidence(id, ev):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = dict(ev, violations=len(ev["violations"]), violation_details=ev["violations"])
    tmp = os.path.join(HERE, "evidence", id + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", id + ".json"))


def merge(a, b):
    """Evidence of two parts of one check."""
    if a is None or b is None:
        return a or b
    ca, cb = a["coverage"], b["coverage"]
    for k in ("evaluations", "cases", "distinct_nontrivial", "events_observed"):
        ca[k] = ca.get(k, 0) + cb.get(k, 0)
    ca["samples"] = ca["samples"][:6] + cb["samples"][:4]
    for k, v in cb["counters"].items():
        ca["counters"][k] = ca["counters"].get(k, 0) + v
    ca["monitors"] += [m for m in cb["monitors"] if m not in ca["monitors"]]
    if cb["rule"] not in ca["rule"]:
        ca["rule"] += "; " + cb["rule"]
    a["assumptions"] += [x for x in b["assumptions"] if x not in a["assumptions"]]
    a["violations"] += b["violations"]
    return a


def dgen(id, tier, seed, secs):
    """Batches of generated type definitions, each compiled against the tree and run."""
    batches, count, each = (1, 700, min(secs, 10)) if tier == "quick" else (int(max(1, secs // 30)), 1200, 12)
    for b in range(batches):
        dir = os.path.join(HERE, "target", "dgen%d" % b)
        shutil.rmtree(dir, ignore_errors=True)
        os.makedirs(dir)
        types = os.path.join(dir, "types.rs")
        subprocess.check_call([sys.executable, os.path.join(HERE, "dgen", "gen.py"), str(seed * 1000 + b), str(count), types])
        env = dict(os.environ, VH_DGEN=dir, CARGO_TARGET_DIR=os.path.join(HERE, "target"))
        p = subprocess.run(["cargo", "build", "--offline", "--bin", "vhd"], cwd=os.path.join(HERE, "dgen"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            out = p.stdout.decode(errors="replace")
            log = os.path.join(dir, "build.log")
            open(log, "w").write(out)
            # `vh` was built from the same tree: only what the macro makes of the generated types can be at fault
            if "dgen%d/types.rs" % b in out or "proc-macro derive" in out:
                yield 1, "D01: definitions the macro has to accept do not compile (see %s)\n%s\nVIOLATION property=%s replay=%s\n" % (log, out[-2500:], id, types), None
            else:
                yield 2, "INCONCLUSIVE property=%s: the generated types do not build\n%s\n" % (id, out[-2500:]), None
            return
        c, out, part = run(id, tier, seed, each, vh=VH + "d", tag="-%d" % b)
        if part:
            part["coverage"]["counters"]["type_definitions"] = count
        yield c, out, part
        if c:
            return


def reject(id, tier, seed, secs):
    """Definitions the macro has to refuse, each beside the same definition without the fault, put through the
    compiler: what it accepts in the end is compared with what it may accept."""
    sys.path.insert(0, os.path.join(HERE, "dgen"))
    import rej

    t0 = time.time()
    runs = [("flatten", "dgen", "vhr", "1", 4000), ("no-flatten", "noflat", "vhn", "0", 1000)]
    if tier != "quick":
        runs = [(n + "-%d" % b, c, x, f, 6000) for b in range(40) for n, c, x, f, _ in runs]
    part = None
    for b, (name, crate, binary, flatten, count) in enumerate(runs):
        if part and tier != "quick" and b >= 2 and time.time() - t0 > secs:
            break
        dir = os.path.join(HERE, "target", "rej-" + name)
        shutil.rmtree(dir, ignore_errors=True)
        os.makedirs(dir)
        meta, src = os.path.join(dir, "defs.json"), os.path.join(dir, "defs.rs")
        subprocess.check_call([sys.executable, os.path.join(HERE, "dgen", "rej.py"), str(seed * 1000 + b), str(count), src, meta, flatten])
        defs = json.load(open(meta))
        alive, refused, rounds = list(range(len(defs))), {}, 0
        env = dict(os.environ, VH_REJ=dir, CARGO_TARGET_DIR=os.path.join(HERE, "target"))
        while True:
            # the compiler stops after the first stage with errors: take out what it refused and go on
            rounds += 1
            rej.write(defs, alive, src)
            p = subprocess.run(["cargo", "rustc", "--offline", "--bin", binary, "--message-format=json", "--profile", "check"], cwd=os.path.join(HERE, crate), env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            if p.returncode == 0:
                break
            now = {}
            for line in p.stdout.decode(errors="replace").splitlines():
                try:
                    m = json.loads(line)
                except ValueError:
                    continue
                if m.get("reason") != "compiler-message" or m["message"]["level"] != "error" or m["target"]["name"] != binary:
                    continue
                m = m["message"]
                text = m["message"] + "".join(": " + c["message"] for c in m["children"][:1])
                for s in m["spans"]:
                    while s:
                        if s["file_name"].endswith("defs.rs") and s["is_primary"]:
                            now.setdefault(s["line_start"] - 1, text)
                            break
                        s = (s.get("expansion") or {}).get("span")
            if not now or rounds > 50:
                yield 2, "INCONCLUSIVE property=%s: the definitions do not build\n%s\n" % (id, p.stderr.decode(errors="replace")[-2500:]), None
                return
            for k, text in now.items():
                refused[alive[k]] = text
            alive = [d for k, d in enumerate(alive) if k not in now]
        bad = [i for i in alive if defs[i]["bad"]] + [i for i in refused if not defs[i]["bad"]]
        out, code = "", 0
        if bad:
            code = 1
            for i in bad[:5]:
                rp = os.path.join(dir, "definition-%d.rs" % i)
                what = "accepted although it has to be refused (%s)" % defs[i]["bad"] if defs[i]["bad"] else "refused (%s) although there is nothing wrong with it" % refused[i]
                open(rp, "w").write("// %s\n#[derive(sval_derive::Value)]\n%s\n" % (what, defs[i]["text"]))
                out += "D02: %s: %s\nVIOLATION property=%s replay=%s\n" % (what, defs[i]["text"], id, rp)
        counters = {}
        for i, d in enumerate(defs):
            k = "refused_" + d["bad"].split(":")[0].split(" ")[0] if d["bad"] else "accepted_control"
            if (i in refused) == bool(d["bad"]):
                counters[k] = counters.get(k, 0) + 1
        new = dict(property=id, tier=tier, seed=seed, level="exploration",
                   coverage=dict(evaluations=len(defs), cases=len(defs), events_observed=len(refused), distinct_nontrivial=len({d["text"] for d in defs}),
                                 rule="distinct definitions put through the macro and the compiler", samples=[d["text"][:200] for d in defs if d["bad"]][:6],
                                 counters=dict(counters, distinct_faults=len({d["bad"] for d in defs if d["bad"]}), distinct_messages=len(set(refused.values()))),
                                 monitors=["the compiler's diagnostics by definition: faulty definitions have one, sound ones have none"]),
                   assumptions=["attributes on variants of dynamic enums, and labels and indexes on variants of enums without them, are not judged",
                                "a skipped field's other attributes are not judged beyond their names"],
                   violations=[dict(message=o) for o in out.splitlines() if o.startswith("D02")], wall_s=0)
        part = new
        yield code, out, new
        if code:
            return


def miri(id, tier, seed, secs):
    """The M01 workloads under Miri, several processes with different cases and schedules."""
    base = dict(os.environ, CARGO_TARGET_DIR=os.path.join(HERE, "target", "miri"))
    base.pop("MIRIFLAGS", None)
    flags = "-Zmiri-disable-isolation -Zmiri-preemption-rate=0.03 -Zmiri-seed=%d"
    dir = os.path.join(HERE, "target", "runs", id + "-miri")
    shutil.rmtree(dir, ignore_errors=True)
    os.makedirs(dir)
    cargo = ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--"]
    for crate in ("harness", "noalloc"):
        p = subprocess.run(cargo + ["list"], cwd=os.path.join(HERE, crate), env=dict(base, MIRIFLAGS=flags % 0), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            return 2, "INCONCLUSIVE property=%s: the harness does not build or start under Miri\n%s\n" % (id, p.stdout.decode(errors="replace")[-3000:]), None
    jobs = []
    n = 8
    for i in range(n):
        crate, prop = ("noalloc", "B02") if i == n - 1 else ("harness", "M01")
        cmd = cargo + ["plain", prop, str(seed), str(secs), str(i), str(n if crate == "harness" else 1)]
        env = dict(base, MIRIFLAGS=flags % (seed * 64 + i))
        log = os.path.join(dir, "log%d" % i)
        jobs.append((crate, cmd, env, log, subprocess.Popen(cmd, cwd=os.path.join(HERE, crate), env=env, stdout=open(log, "w"), stderr=subprocess.STDOUT, start_new_session=True)))
    end = time.time() + secs + 150
    code, text = 0, ""
    cov = dict(evaluations=0, cases=0, distinct_nontrivial=0, events_observed=0, rule="", samples=[], counters={}, monitors=["miri"])
    for crate, cmd, env, log, p in jobs:
        late = False
        try:
            p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            late = True
            os.killpg(p.pid, 9)
            p.wait()
        out = open(log, errors="replace").read()
        cases = out.count("\nDONE ")
        cov["counters"]["miri_cases"] = cov["counters"].get("miri_cases", 0) + cases
        if late:
            cov["counters"]["miri_cut_short"] = cov["counters"].get("miri_cut_short", 0) + 1
        cov["evaluations"] += cases
        cov["cases"] += cases
        for l in out.splitlines():
            if l.startswith("STATS "):
                j = json.loads(l[6:])
                cov["distinct_nontrivial"] += j["distinct"]
                cov["events_observed"] += j["events"]
                for k, v in j["counters"].items():
                    cov["counters"]["miri_" + k] = cov["counters"].get("miri_" + k, 0) + v
        bad = [k for k in ("error: Undefined Behavior", "memory leaked", "\nFAIL ") if k in out]
        if bad == ["\nFAIL "] and crate == "noalloc":
            bad = []
        if bad:
            i = out.index(bad[0])
            last = [l for l in out.splitlines() if l.startswith("CASE ")]
            rp = log + ".replay"
            open(rp, "w").write("cd %s && CARGO_TARGET_DIR=%s MIRIFLAGS='%s' %s\nlast: %s\n\n%s" % (os.path.join(HERE, crate), env["CARGO_TARGET_DIR"], env["MIRIFLAGS"], " ".join(cmd), last[-1:], out))
            text += "M01 under Miri, %s:\n%s\nVIOLATION property=%s replay=%s\n" % (last[-1:], out[i : i + 2500], id, rp)
            code = 1
        elif not late and "\nSTATS " not in out and "\nFAIL " not in out and code == 0:
            text += "INCONCLUSIVE property=%s: Miri stopped: %s\n" % (id, out[-2500:])
            code = 2
    text += "M01 miri: %s\n" % json.dumps(cov["counters"])
    part = dict(property=id, tier=tier, seed=seed, level="exploration", coverage=cov, assumptions=[], wall_s=0, violations=[])
    return code, text, part


def asan(id, tier, seed, secs):
    tgt = os.path.join(HERE, "target", "asan")
    env = dict(os.environ, CARGO_TARGET_DIR=tgt, RUSTFLAGS="-Zsanitizer=address --cap-lints=allow")
    p = subprocess.run(["cargo", "+nightly", "build", "--offline", "-q", "--bin", "vh", "--target", "x86_64-unknown-linux-gnu"], cwd=os.path.join(HERE, "harness"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        return 2, "INCONCLUSIVE property=%s: the harness does not build with AddressSanitizer\n%s\n" % (id, p.stdout.decode(errors="replace")[-3000:]), None
    vh = os.path.join(tgt, "x86_64-unknown-linux-gnu", "debug", "vh")
    # the leak checker stops the process to look at its memory, which not every sandbox allows
    opts = "abort_on_error=1:detect_stack_use_after_return=1:detect_leaks="
    q = subprocess.run([vh, "list"], env=dict(os.environ, ASAN_OPTIONS=opts + "1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    leaks = "0" if q.returncode or b"LeakSanitizer" in q.stdout else "1"
    c, out, part = run(id, tier, seed, secs, vh=vh, env=dict(ASAN_OPTIONS=opts + leaks), tag="-asan")
    if part:
        part["coverage"]["counters"]["leak_check_at_exit"] = int(leaks)
    return c, out, part


def parts(id, tier, seed, secs):
    """-> (exit code, output, evidence) of each part of the check"""
    if id == "D01":
        yield from dgen(id, tier, seed, secs)
    elif id == "D02":
        yield from reject(id, tier, seed, secs)
    elif id == "M01":
        yield asan(id, tier, seed, 15 if tier == "quick" else secs)
        yield miri(id, tier, seed, 60 if tier == "quick" else 2 * secs)
    elif id in ("B02", "S04", "N01", "F01", "E01", "E02"):
        # with an allocator, then built without one
        yield run(id, tier, seed, secs * 0.7)
        if os.environ.get("VH_NO_NOALLOC"):
            return
        yield run(id, tier, seed, secs * 0.3, vh=VH + "0", tag="-noalloc")
    else:
        yield run(id, tier, seed, secs)


def main():
    id, tier, seed, secs = sys.argv[1], sys.argv[2], int(sys.argv[3]), float(sys.argv[4])
    t0 = time.time()
    code, part = 0, None
    for c, out, p in parts(id, tier, seed, secs):
        sys.stdout.write(out)
        sys.stdout.flush()
        part = merge(part, p)
        # a violation anywhere decides; otherwise no answer beats "held"
        code = 1 if 1 in (code, c) else (2 if 0 != (code | c) else 0)
    if part is None:
        part = dict(property=id, tier=tier, seed=seed, level="exploration",
                    coverage=dict(evaluations=0, distinct_nontrivial=0, rule="run ended early", samples=[]),
                    assumptions=[], wall_s=time.time() - t0, violations=[])
    if code == 1 and not part["violations"]:
        part["violations"] = [dict(message="see output")]
    part["wall_s"] = round(time.time() - t0, 2)
    write_evidence(id, part)
    sys.exit(code)


if __name__ == "__main__":
    main()
