#!/usr/bin/env python3
"""Decides one property: check.py C04 [--tier quick|thorough] [--seed N]
   Replays a reported violation: check.py replay FILE
See DESIGN.md. Exit 0: held on everything explored. 1: violated (VIOLATION line). 2: no answer."""
import json, os, re, subprocess, sys, time, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "spec")
WORK = os.path.join(HERE, "work")
EVID = os.path.join(HERE, "evidence")
TLC_WORKERS = "8"


def die(msg):
    print("ERROR:", msg, flush=True)
    sys.exit(2)


def libasan():
    return subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True, text=True).stdout.strip()


def sh(cmd, timeout, env=None, cwd=SPEC, out=None):
    e = dict(os.environ)
    e.update(env or {})
    if "-checked/checked/" in cmd[0]:
        e.update(LD_PRELOAD=libasan(), ASAN_OPTIONS="abort_on_error=1:detect_leaks=0:allocator_may_return_null=1")
    try:
        if out:
            with open(out, "w") as f:
                return subprocess.run(cmd, cwd=cwd, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout).returncode, ""
        r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return None, ""


def tlc(module, cfg, meta, timeout, env, out, extra=()):
    """Runs TLC with its output in a file. Returns (exit code, output)"""
    shutil.rmtree(meta, ignore_errors=True)
    e = dict(env)
    e["JAVA_TOOL_OPTIONS"] = os.environ.get("JAVA_TOOL_OPTIONS", "") + " -Xss64m"
    rc, _ = sh(["tlc", "-workers", TLC_WORKERS, "-metadir", meta, "-config", cfg, *extra, module], timeout, e, out=out)
    shutil.rmtree(meta, ignore_errors=True)
    with open(out, errors="replace") as f:
        return rc, f.read()


def tlc_counts(text):
    text = "\n".join(l for l in text.splitlines() if "states generated" in l)
    m = re.findall(r"([\d,]+) states generated.*?, ([\d,]+) distinct states found", text)
    if not m:
        return 0, 0
    g, d = m[-1]
    return int(g.replace(",", "")), int(d.replace(",", ""))


# ---------------------------------------------------------------------------
# What each property is made of.
#   mc       exhaustive explorations of the specification (JOB, SIZE, ED, MIX) per tier
#   classes  the kinds of disagreement between code and specification that violate the property
R = {"r+", "r-", "rs"}
MON = {"meq", "mkey", "mid"}
KEYEQ = {"key-", "eq-", "eq+"}
PROTO = {
    "C01": dict(mc=[("latke", "2", "0", "all")], classes=R | KEYEQ | {"id", "done", "new", "key+"}),
    "C02": dict(mc=[("latke", "2", "0", "all")], classes={"key+", "eq+", "key-", "eq-", "meq", "mkey", "r-", "new"}),
    "C03": dict(mc=[("latke", "3", "0", "diag")], classes={"key+", "eq+", "id"} | MON),
    "C04": dict(mc=[("latke", "2", "1", "all")], classes={"key+", "eq+"} | MON),
    "C05": dict(mc=[("latke", "2", "1", "all")], classes={"key+", "eq+", "id", "r+"} | MON),
    "C06": dict(mc=[("latke", "2", "1", "diag")], classes=R | {"len", "done", "mode", "key+"} | MON),
    "C07": dict(mc=[("latke", "2", "1", "diag")], classes={"len", "leak", "mask", "fresh", "mode", "eq+", "key+"}),
    "C08": dict(mc=[("ibke", "4", "0", "all")], classes=R | KEYEQ | {"id", "done", "new", "key+", "len"}),
    "C09": dict(mc=[("ibke", "4", "1", "all")], classes={"r+", "eq+", "id", "key+"} | MON),
    "C10": dict(mc=[("ibke", "4", "1", "all")], classes={"r+", "eq+", "key+"} | MON),
    "C11": dict(mc=[("ibke", "3", "0", "all")], classes=R | {"len", "done", "key+", "mode"}),
    "C12": dict(mc=[("pake", "4", "1", "all")], classes={"r-", "r+", "rs", "done", "meq", "mkey", "new"} | KEYEQ),
    "C13": dict(mc=[("pake", "4", "1", "all")], classes={"r+", "key+", "eq+", "done"} | MON),
    "C14": dict(mc=[("pake", "4", "0", "all"), ("ibke", "4", "0", "all"), ("latke", "2", "0", "all")],
                classes={"key+", "stable", "r+", "done"}),
    "C15": dict(mc=[("latke", "3", "0", "diag"), ("pake", "4", "0", "all")],
                classes=R | KEYEQ | {"fresh", "mask", "keynew", "key+", "id", "stable", "done", "new"} | MON),
    "C16": dict(mc=[("chip", "3", "0", "all")], classes={"r-", "rs", "done", "meq", "mkey", "key+", "new"} | KEYEQ),
    "C17": dict(mc=[("latke", "2", "1", "mock")], classes=R | {"mode", "key-", "key+", "len", "fresh", "mask", "eq-", "new"}),
}
THOROUGH_MC = {
    "latke": [("latke", "2", "1", "all"), ("latke", "3", "1", "diag"), ("latke", "2", "2", "diag"), ("latke", "3", "0", "all")],
    "ibke": [("ibke", "4", "1", "all"), ("ibke", "2", "2", "all")],
    "pake": [("pake", "4", "1", "all"), ("pake", "2", "2", "all")],
    "chip": [("chip", "4", "1", "all"), ("chip", "2", "2", "all")],
}
NAMES = {
    "r+": "went on where it must reject", "r-": "rejected what it must accept", "rs": "a message where there is none, or the other way round",
    "key+": "a session key where there must be none", "key-": "no session key where there must be one",
    "eq+": "equal keys that must differ", "eq-": "different keys that must be equal", "id": "wrong peer identity",
    "len": "wrong message length", "leak": "inner plaintext on the wire", "mask": "keystream reused", "fresh": "value not fresh",
    "keynew": "key equals another value", "mode": "real instead of simulated execution or the other way round", "stable": "the result changed",
    "done": "completion wrongly reported", "new": "session could not be made", "skip": "delivery not possible",
    "meq": "equal keys outside a matching conversation", "mkey": "a key without a matching conversation",
    "mid": "a key with an identity that is not the peer's",
}


def known_findings(prop):
    """Signatures listed in known_findings.txt: 'finding: property=<id> match=<regex> <text>' ('fixed:' lines suppress nothing)"""
    res = []
    try:
        for l in open(os.path.join(HERE, "known_findings.txt")):
            m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                res.append((re.compile(m.group(2)), m.group(3).strip()))
    except FileNotFoundError:
        pass
    return res


def build(program="lh"):
    rc, out = sh([os.path.join(HERE, "build.sh"), program], 850, cwd=HERE)
    if rc != 0:
        die("the harness does not build on this tree\n" + out[-3000:])
    return out.strip().splitlines()[-1]


def checked(lh):
    """the same program with overflow checks, assertions and AddressSanitizer (for the C code)"""
    return re.sub(r"/(target[^/]*)/release/", r"/\1-checked/checked/", lh)


def model_check(prop, sets, wdir, tier, budget):
    """Explores the specification. Its own invariants must hold, whatever the code does."""
    res, gen, dis, t0 = [], 0, 0, time.time()
    for n, (job, size, ed, mix) in enumerate(sets):
        left = budget - (time.time() - t0)
        if left < 5:
            break
        rc, text = tlc("MC.tla", "MC.cfg", os.path.join(wdir, "mc.meta"), left,
                       dict(JOB=job, SIZE=size, ED=ed, MIX=mix, TIER=tier), os.path.join(wdir, f"mc{n}.out"))
        g, d = tlc_counts(text)
        gen += g
        dis += d
        m = re.search(r'<<"REACHED", (\d+), (\d+), (\d+), (\d+), (\d+), (\d+)>>', text)
        if re.search(r"is violated|Error: ", text):
            die(f"the specification itself violates an invariant ({job} {size} {ed} {mix}), see {wdir}/mc{n}.out")
        if rc is not None and (rc != 0 or not m):
            die(f"TLC failed on MC ({job} {size} {ed} {mix}), see {wdir}/mc{n}.out")
        r = dict(setup=f"{job}, sessions<={size}, edits<={ed}, {mix}", distinct_states=d, transitions=g, exhaustive=rc is not None)
        if m:
            r.update(states_two_equal_keys=int(m.group(3)), states_simulation_completed=int(m.group(4)),
                     states_key_despite_edit=int(m.group(5)), states_insider_lied=int(m.group(6)))
            if int(m.group(3)) == 0:
                die("vacuous exploration: no state in which two sessions agree")
        res.append(r)
    return res, dis, gen


def literals(root):
    """Numbers and strings in the library's sources, with how often they occur"""
    c = {}
    for top, exts in (("latke/src", (".rs",)), ("saber-rust/src", (".rs",)), ("pqcrypto/pqcrypto-dilithium/src", (".rs",)),
                      ("pqcrypto/pqclean/crypto_sign", (".c", ".h"))):
        for d, _, fs in os.walk(os.path.join(root, top)):
            if "crypto_sign" in d and not re.search(r"dilithium[235]/(clean|avx2)", d):
                continue
            for f in fs:
                if not f.endswith(exts):
                    continue
                text = open(os.path.join(d, f), errors="replace").read()
                text = re.sub(r"//[^\n]*|/\*.*?\*/", " ", text, flags=re.S)
                for s in re.findall(r'"((?:[^"\\\n]|\\.)*)"', text):
                    c["s" + s] = c.get("s" + s, 0) + 1
                for s in re.findall(r"b'([^'\\])'", text):
                    k = f"i{ord(s)}"
                    c[k] = c.get(k, 0) + 1
                text = re.sub(r'"(?:[^"\\\n]|\\.)*"', " ", text)
                for a, b in re.findall(r"\b(\d+)(?:[ui]\d+|usize)?\s*<<\s*(\d+)\b", text):
                    if int(b) < 32:
                        k = f"i{int(a) << int(b)}"
                        c[k] = c.get(k, 0) + 1
                for s in re.findall(r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|\d[\d_]*)(?:[ui]\d+|usize|isize|U|L)*\b", text):
                    try:
                        v = int(s.replace("_", ""), 0 if s[:2] in ("0x", "0b") else 10)
                    except ValueError:
                        continue
                    k = f"i{v}"
                    c[k] = c.get(k, 0) + 1
    return c


def dictionary(wdir):
    """Inputs that the tree under test suggests: numbers and strings that its sources contain more often than those of the pinned
    tree (dict.json). They only steer the choice of inputs, never a verdict. Returns the environment for the specification"""
    base = json.load(open(os.path.join(HERE, "dict.json")))
    now = literals("/repo")
    new = [k for k, n in now.items() if n > base.get(k, 0)]
    ints = sorted(int(k[1:]) for k in new if k[0] == "i")
    strs = sorted(k[1:] for k in new if k[0] == "s" and "{" not in k and 0 < len(k) < 200)
    big = [n for n in ints if 1 < n <= 20000][-3:]
    path = os.path.join(wdir, "dict.json")
    with open(path, "w") as f:
        json.dump(dict(ints=ints[-40:], strs=[list(s.encode().decode("unicode_escape", "replace").encode("latin-1", "replace")) for s in strs[:40]]), f)
    os.environ["LH_DICT"] = path
    big = (big + [0, 0, 0])[:3]
    return dict(DL1=str(big[0]), DL2=str(big[1]), DL3=str(big[2]))


def generate(prop, tier, wdir, budget):
    rc, text = tlc("GenRun.tla", "GenRun.cfg", os.path.join(wdir, "gen.meta"), budget, dict(JOB=prop, TIER=tier, **dictionary(wdir)), os.path.join(wdir, "gen.out"))
    if rc != 0:
        die(f"scenario generation failed, see {wdir}/gen.out")
    lines = [json.loads(l) for l in text.splitlines() if l.startswith('"')]
    lines = sorted(set(lines))      # the order TLC prints in depends on its threads
    with open(os.path.join(wdir, "scen.ndjson"), "w") as f:
        f.write("\n".join(lines) + "\n")
    return len(lines), tlc_counts(text)


class Crash(Exception):
    """The code under test took the process down or hung: (what, scenario line or None)"""


# the harness built with the overflow checks and assertions of a debug build uses other values
SHIFT = 104729


def harness(lh, mode, wdir, seed, secs, hard):
    """Executes scen.ndjson against the code, as a release build and as a checked one. Returns the file of recorded executions, or raises Crash"""
    out = harness1(lh, mode, wdir, "trace.ndjson", seed, 0.75 * secs, hard)
    more = harness1(checked(lh), mode, wdir, "trace-checked.ndjson", seed + SHIFT, 0.25 * secs, hard)
    with open(out) as f:
        hdr, lines = json.loads(f.readline()), f.read().splitlines()
    cut = lambda l: re.sub(r'"(rep|cnt)":\d+,', "", l)
    have = {cut(l) for l in lines}
    with open(more) as f:
        h = json.loads(f.readline())
        for l in f.read().splitlines():
            if cut(l) not in have:
                lines.append('{"chk":1,' + l[1:])
    for k in ("total", "events", "passes"):
        hdr[k] += h[k]
    hdr["distinct"] = len(lines)
    with open(out, "w") as f:
        f.write("\n".join([json.dumps(hdr)] + lines) + "\n")
    os.remove(more)
    return out


def harness1(lh, mode, wdir, name, seed, secs, hard):
    src, out, watch = (os.path.join(wdir, x) for x in ("scen.ndjson", name, "watch"))
    cmd = lambda i, o, w, *more: [lh, mode, "--in", i, "--out", o, "--seed", str(seed), "--secs", str(secs), "--watch", w, *more]
    rc, text = sh(cmd(src, out, watch), hard, cwd=wdir)
    if rc == 0:
        return out
    if rc is None:
        die("executing the scenarios took too long")
    if rc == 4:
        die("the hook is missing: the wide-block cipher cannot be reached on this tree\n" + open(os.path.join(HERE, "work", "build-hook.log")).read()[-2000:])
    if rc in (3, -9) or (rc > 0 and rc != 5):
        die(f"the harness failed ({rc}): " + text[-2000:])
    what = "an execution does not end" if rc == 5 else f"the process died of signal {-rc}"
    lines = open(src).read().splitlines()
    cand = [tuple(map(int, x)) for x in re.findall(r"^HANG (\d+) (\d+)", text, re.M)] if rc == 5 else \
           [tuple(map(int, l.split())) for l in open(watch) if not l.startswith("idle") and len(l.split()) == 2]
    one, o2, w2 = (os.path.join(wdir, x) for x in ("one.ndjson", "one-trace.ndjson", "one-watch"))
    for sc, rep in cand:
        if sc >= len(lines):
            continue
        with open(one, "w") as f:
            f.write(lines[sc] + "\n")
        r1, _ = sh(cmd(one, o2, w2, "--as", str(sc), "--rep", str(rep)), 200, cwd=wdir)
        if r1 is None or r1 == 5 or (r1 < 0 and r1 != -9):
            raise Crash(what + (" (overflow checks and assertions on)" if lh == checked(lh) else ""), json.loads(lines[sc]), sc, rep)
    # not reproduced by one scenario alone
    die(f"{what}, but not again when run alone: {cand}")


def execute(lh, prop, seed, secs, wdir, hard):
    return harness(lh, "run", wdir, seed, secs, hard)


def check_trace(trace, wdir, budget, chunk=40000):
    """Validates the recorded executions against the specification. Returns (mismatches, states, transitions)"""
    with open(trace) as f:
        hdr = f.readline()
        lines = f.readlines()
    mism, states, trans = [], 0, 0
    for a in range(0, len(lines), chunk):
        part = lines[a:a + chunk]
        p = os.path.join(wdir, "part.ndjson")
        with open(p, "w") as f:
            f.write(hdr)
            f.writelines(part)
        rc, text = tlc("Trace.tla", "Trace.cfg", os.path.join(wdir, "trace.meta"), budget, dict(TRACE=p), os.path.join(wdir, "trace.out"))
        m = re.search(r'<<"STATES", (\d+)>>', text)
        if rc != 0 or not m:
            die(f"TLC failed on the recorded executions, see {wdir}/trace.out")
        want = sum(len(json.loads(l)["acts"]) + 1 for l in part)
        if int(m.group(1)) != want:
            die(f"TLC consumed {m.group(1)} of {want} recorded events")
        states += want
        trans += tlc_counts(text)[0]
        mism += [(a + i - 2, ev, c, info) for (i, ev, c, info) in mismatches(text)]
    return mism, states, trans, lines, json.loads(hdr)


def describe(acts, upto):
    out = []
    for k, a in enumerate(acts[:upto]):
        if a["a"] == "new":
            p = a["p"]
            out.append(f"session {k+1}: {p['lay']} {p['pt']} {p['it']} {p['role']} ssid={p['ssid']} pw={p['pw']} id={p['id']} peer={p['peer']} cert(issuer={p['cg']},key={p['cu']},id={p['ci'] or p['id']}) usk={p['us']}")
        elif a["a"] == "run":
            m = a["m"]
            w = {"e": "the empty message", "r": "random bytes"}.get(m["t"]) or f"message {m['n']} of session {m['s']}" + (f" edited {m['ed']}" if m["ed"] else "")
            out.append(f"deliver {w} to session {a['s']}" + (f", whose inner message is edited {a['ev']}" if a["ev"] else ""))
        elif a["a"] == "sim":
            out.append(f"simulate a step of session {a['s']}")
        else:
            out.append(f"ask session {a['s']} for its result")
    return out


def evidence(prop, tier, seed, level, cov, t0, extra=None):
    os.makedirs(EVID, exist_ok=True)
    d = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(time.time() - t0, 2))
    d.update(extra or {})
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(d, f, indent=1)


def report(prop, viols, wdir):
    """viols: list of (signature, record). Prints the lines, returns the exit code"""
    known = known_findings(prop)
    shown, bad = set(), 0
    for n, (sig, rec) in enumerate(viols):
        k = [t for (rx, t) in known if rx.search(sig)]
        if k:
            if k[0] not in shown:
                shown.add(k[0])
                print(f"KNOWN-FINDING: property={prop} {k[0]}")
            continue
        bad += 1
        if bad <= 5:
            path = os.path.join(wdir, f"violation-{bad}.json")
            with open(path, "w") as f:
                json.dump(rec, f, indent=1)
            print(f"VIOLATION property={prop} replay={path}")
            print("  " + sig)
    if bad > 5:
        print(f"  ... and {bad - 5} more")
    return 1 if bad else 0


def protocol_viols(prop, tier, seed, classes, mism, lines):
    viols, other, seen = [], {}, set()
    for (ln, ev, c, info) in sorted(mism):
        if c in classes:
            t = json.loads(lines[ln])
            a = t["acts"]
            P = a[0]["p"]
            sig = f"{c} ({NAMES.get(c, c)}): {P['lay']}/{P['pt']}/{P['it']} scenario {t['sc']} event {ev}: {describe(a, ev)[-1]}: {info}"
            key = (c, P["lay"], P["pt"], P["it"])
            if key in seen:
                continue
            seen.add(key)
            viols.append((sig, dict(property=prop, kind=c, meaning=NAMES.get(c, c), what=info, event=ev, seed=seed, rep=t["rep"], scenario=t["sc"],
                                    steps=describe(a, ev), observed=t["obs"][ev - 1], trace=t, tier=tier)))
        else:
            other[c] = other.get(c, 0) + 1
    return viols, other


def protocol(prop, tier, seed, t0):
    cfg = PROTO[prop]
    wdir = os.path.join(WORK, prop)
    shutil.rmtree(wdir, ignore_errors=True)
    os.makedirs(wdir)
    quick = tier == "quick"
    lh = build()
    sets = cfg["mc"]
    if not quick:
        seen = []
        for s in cfg["mc"]:
            for x in THOROUGH_MC[s[0]]:
                if x not in seen:
                    seen.append(x)
        sets = seen
    mc, mcd, mcg = model_check(prop, sets, wdir, tier, 200 if quick else 2400)
    nscen, (gg, gd) = generate(prop, tier, wdir, 200 if quick else 1200)
    try:
        tr = execute(lh, prop, seed, 20 if quick else 240, wdir, 350 if quick else 1800)
    except Crash as c:
        return crashed(prop, c, cfg["classes"], wdir, tier, seed, t0, "run", mcd, mcg)
    mism, st, tg, lines, hdr = check_trace(tr, wdir, 400 if quick else 3600)
    viols, other = protocol_viols(prop, tier, seed, cfg["classes"], mism, lines)
    samples = []
    for k in sorted({0, len(lines) // 3, 2 * len(lines) // 3, len(lines) - 1}):
        t = json.loads(lines[k])
        samples.append(dict(steps=describe(t["acts"], len(t["acts"])), results=[o["r"] for o in t["obs"]], keys=[o["key"] for o in t["obs"]]))
    cov = dict(states=mcd + st, transitions=mcg + tg, traces_validated_against_impl=len(lines), samples=samples,
               spec_explorations=mc, scenarios_generated=nscen, generator_states=gd,
               executions=hdr["total"], events_executed=hdr["events"], trace_states_checked=st, concrete_passes=hdr["passes"],
               mismatches_of_this_property=len(viols), mismatches_of_other_properties=other,
               explanation="Exhaustive exploration of the TLA+ specification (spec_explorations), every scenario TLC generated from it executed "
                           "against the real code, and every recorded execution validated by TLC against the specification.")
    evidence(prop, tier, seed, "model_checking", cov, t0)
    return report(prop, viols, wdir)


def crashed(prop, c, classes, wdir, tier, seed, t0, mode, states, trans):
    what, scen, sc, rep = c.args
    if not any(x.startswith("r-") for x in classes):
        die(f"{what} (scenario {sc + 1}): this property cannot be decided")
    evidence(prop, tier, seed, "model_checking",
             dict(states=max(states, 1), transitions=max(trans, 1), traces_validated_against_impl=0, samples=[scen], explanation=what), t0)
    return report(prop, [(f"crash: {what}: scenario {sc + 1}", dict(property=prop, kind="crash", what=what, seed=seed, rep=rep, scenario=sc + 1, mode=mode, steps=scen))], wdir)


# ---------------------------------------------------------------------------
# The primitives. jobs: generator jobs of PrimGen.tla; classes: regular expression over the kinds of disagreement
PRIM = {
    "C18": dict(classes=r"r|eq|new|len", proto=dict(classes={"key+", "eq+", "key-", "eq-", "meq", "mkey", "r-", "new"})),
    "C19": dict(classes=r"r-|eq|new|len"),
    "C20": dict(classes=r"r[-+]:(de|bl|rt|fl|pub)|eq\+|eq-:rej|eq-:\w+:rt|len"),
    "C22": dict(classes=r"r|eq|new"),
    "C23": dict(classes=r"r-|r\+:(bl|eq)|eq|new|len"),
}
PNAMES = {"r+": "did not reject", "r-": "rejected", "eq+": "equal values that must differ", "eq-": "different values that must be equal",
          "new": "a value that an earlier execution had", "len": "wrong length"}


def describe_ops(t, upto=None):
    out, h = [], 0
    for k, o in enumerate(t["ops"][:upto]):
        a = " ".join(str(x) for x in (o["o"], o["f"]) if x) + "(" + ", ".join(f"#{o[x]}" for x in "xyz" if o[x]) + f"; {o['n']})"
        if "obs" in t:
            b = t["obs"][k]
            n = len(b["o"])
            a += f" -> {b['r']}" + "".join(f" #{h + i + 1}" for i in range(n))
            h += n
        out.append(a)
    return out


def prim_trace(trace, wdir, budget, chunk=40000):
    with open(trace) as f:
        hdr = f.readline()
        lines = f.readlines()
    mism, states, trans = [], 0, 0
    for a in range(0, len(lines), chunk):
        part = lines[a:a + chunk]
        p = os.path.join(wdir, "part.ndjson")
        with open(p, "w") as f:
            f.write(hdr)
            f.writelines(part)
        rc, text = tlc("PrimTrace.tla", "PrimTrace.cfg", os.path.join(wdir, "trace.meta"), budget, dict(TRACE=p), os.path.join(wdir, "trace.out"))
        m = re.search(r'<<"STATES", (\d+)>>', text)
        if rc != 0 or not m:
            die(f"TLC failed on the recorded executions, see {wdir}/trace.out")
        want = sum(len(json.loads(l)["ops"]) + 1 for l in part)
        if int(m.group(1)) != want:
            die(f"TLC consumed {m.group(1)} of {want} recorded operations")
        states += want
        trans += tlc_counts(text)[0]
        got = mismatches(text)
        mism += [(a + i - 2, ev, c, info) for (i, ev, c, info) in got]
    return mism, states, trans, lines, json.loads(hdr)


def mismatches(text):
    got = [(int(x.group(1)), int(x.group(2)), x.group(3), re.sub(r"\s+", " ", x.group(4))[:300]) for x in
           re.finditer(r'<<\s*"MISMATCH",\s*(\d+),\s*(\d+),\s*"([^"]+)",\s*(.*?)>>\s*(?=\n<<|\n[A-Z]|\Z)', text, re.S)]
    if len(re.findall(r'<<\s*"MISMATCH"', text)) != len(got):
        die("could not read all reports of TLC")
    return got


def prim(prop, tier, seed, t0):
    cfg = PRIM[prop]
    wdir = os.path.join(WORK, prop)
    shutil.rmtree(wdir, ignore_errors=True)
    os.makedirs(wdir)
    quick = tier == "quick"
    lh = build()
    rc, text = tlc("PrimGen.tla", "PrimGen.cfg", os.path.join(wdir, "gen.meta"), 200 if quick else 2400, dict(JOB=prop, TIER=tier), os.path.join(wdir, "gen.out"))
    if rc != 0 or re.search(r"is violated|Error: ", text):
        die(f"the specification fails, see {wdir}/gen.out")
    gg, gd = tlc_counts(text)
    scens = sorted({json.loads(l) for l in text.splitlines() if l.startswith('"')})
    with open(os.path.join(wdir, "scen.ndjson"), "w") as f:
        f.write("\n".join(scens) + "\n")
    mism, st, tg, lines, hdr = [], 0, 0, [], dict(total=0, events=0, passes=0)
    hooked = prop != "C18" or "target-plain" not in lh
    if hooked:
        try:
            tr = harness(lh, "prim", wdir, seed, 15 if quick else 400, 400 if quick else 3000)
        except Crash as c:
            return crashed(prop, c, ["r-"], wdir, tier, seed, t0, "prim", gd, gg)
        mism, st, tg, lines, hdr = prim_trace(tr, wdir, 300 if quick else 3600)
    else:
        # the cipher itself cannot be reached: what the protocol does with it still can
        print("C18: the hook does not build on this tree, only the protocol is checked")
    rx = re.compile(cfg["classes"])
    viols, other, seen = [], {}, set()
    for (ln, ev, c, info) in sorted(mism):
        if not rx.match(c):
            other[c] = other.get(c, 0) + 1
            continue
        t = json.loads(lines[ln])
        if (c, t["set"]) in seen:
            continue
        seen.add((c, t["set"]))
        sig = f"{c} ({PNAMES.get(c.split(':')[0], c)}): {t['p']}/{t['set']} scenario {t['sc']} operation {ev}: {describe_ops(t)[ev - 1]}: {info}"
        viols.append((sig, dict(property=prop, kind=c, what=info, operation=ev, seed=seed, rep=t["rep"], scenario=t["sc"], mode="prim",
                                steps=describe_ops(t), trace=t, tier=tier)))
    samples = [dict(set=t["set"], ops=describe_ops(t)) for t in (json.loads(lines[k]) for k in sorted({0, len(lines) // 3, 2 * len(lines) // 3, len(lines) - 1}) if lines)] or ["none"]
    cov = dict(states=gd + st, transitions=gg + tg, traces_validated_against_impl=len(lines), samples=samples,
               scenarios_generated=len(scens), generator_states=gd, executions=hdr["total"], operations_executed=hdr["events"],
               trace_states_checked=st, concrete_passes=hdr["passes"], mismatches_of_this_property=len(viols), mismatches_of_other_properties=other,
               explanation="TLC explores the TLA+ object machine of the ideal primitive, every behaviour it generates is executed against the real code, "
                           "and every recorded execution is validated by TLC against the machine.")
    if "proto" in cfg:
        n, (pg, pd) = generate(prop, tier, wdir, 200 if quick else 1200)
        try:
            tr = execute(lh, prop, seed, 5 if quick else 120, wdir, 350 if quick else 1800)
        except Crash as c:
            return crashed(prop, c, ["r-"], wdir, tier, seed, t0, "run", gd, gg)
        mism, st, tg, lines, hdr = check_trace(tr, wdir, 400 if quick else 3600)
        more, other = protocol_viols(prop, tier, seed, cfg["proto"]["classes"], mism, lines)
        viols += more
        cov["states"] += pd + st
        cov["transitions"] += pg + tg
        cov["traces_validated_against_impl"] += len(lines)
        cov["protocol"] = dict(scenarios_generated=n, executions=hdr["total"], events_executed=hdr["events"], trace_states_checked=st,
                               mismatches_of_this_property=len(more), mismatches_of_other_properties=other)
    evidence(prop, tier, seed, "model_checking", cov, t0)
    return report(prop, viols, wdir)


def saber_vectors(path, wdir, budget):
    """Recomputes every recorded Saber operation in TLA+. Returns (mismatches, states, transitions, decapsulations accepted, rejected)"""
    rc, text = tlc("SaberTrace.tla", "SaberTrace.cfg", os.path.join(wdir, "trace.meta"), budget, dict(TRACE=path), os.path.join(wdir, "trace.out"))
    m = re.search(r'<<"STATES", (\d+)>>', text)
    n = sum(1 for _ in open(path))
    if rc != 0 or not m or int(m.group(1)) != 2 * n:
        die(f"TLC failed on the recorded operations, see {wdir}/trace.out")
    return mismatches(text), 2 * n, tlc_counts(text)[0], text.count('<<"DEC", TRUE>>'), text.count('<<"DEC", FALSE>>')


def numeric(prop, tier, seed, t0):
    wdir = os.path.join(WORK, prop)
    shutil.rmtree(wdir, ignore_errors=True)
    os.makedirs(wdir)
    quick = tier == "quick"
    lh = build()
    dictionary(wdir)
    n, per = (6, 4) if quick else (120, 10)
    path = os.path.join(wdir, "trace.ndjson")
    rc, text = sh([lh, "vec21", "--out", path, "--n", str(n), "--per", str(per), "--seed", str(seed)], 200, cwd=wdir)
    if rc == 0:
        # a third of them as a debug build computes them
        rc, text = sh([checked(lh), "vec21", "--out", path + "2", "--n", str(n // 3), "--per", str(per), "--seed", str(seed + SHIFT)], 200, cwd=wdir)
        if rc == 0:
            with open(path, "a") as f:
                f.write(open(path + "2").read())
    if rc is None or (rc is not None and rc < 0 and rc != -9):
        evidence(prop, tier, seed, "model_checking", dict(states=1, transitions=1, traces_validated_against_impl=0, samples=["none"], explanation="crash"), t0)
        return report(prop, [(f"crash: Saber does not finish or crashes ({rc})", dict(property=prop, kind="crash", what=text[-500:], seed=seed))], wdir)
    if rc != 0:
        die("the harness failed: " + text[-2000:])
    mism, st, tg, acc, rej = saber_vectors(path, wdir, 600 if quick else 7200)
    lines = open(path).read().splitlines()
    ops = {}
    for l in lines:
        v = json.loads(l)
        k = f"{v['set']} {v['op']} {v['why']}".strip()
        ops[k] = ops.get(k, 0) + 1
    viols, seen = [], set()
    for (i, _, c, info) in sorted(mism):
        v = json.loads(lines[i - 1])
        if (c, v["set"]) in seen:
            continue
        seen.add((c, v["set"]))
        viols.append((f"{c}: {v['set']} {v['op']} ({v['why']}): {info}", dict(property=prop, kind=c, what=info, seed=seed, mode="vec21", vector=v)))
    sample = json.loads(lines[1])
    cov = dict(states=st, transitions=tg, traces_validated_against_impl=len(lines), samples=[{k: (v if not isinstance(v, list) else v[:16]) for k, v in sample.items()}],
               operations=ops, decapsulations_accepted=acc, decapsulations_rejected=rej,
               explanation="Every recorded key generation, encapsulation, decapsulation (honest, altered and crafted) recomputed byte by byte by TLC "
                           "from the published algorithm written in TLA+ (Saber.tla, Keccak.tla).")
    if not viols and (acc == 0 or rej == 0):
        die("no accepted or no rejected decapsulation among the vectors")
    evidence(prop, tier, seed, "model_checking", cov, t0)
    return report(prop, viols, wdir)


def dil_vectors(path, wdir, budget):
    """Recomputes every recorded Dilithium operation in TLA+. Returns (mismatches, states, verifications by verdict and kind)"""
    rc, text = tlc("DilTrace.tla", "DilTrace.cfg", os.path.join(wdir, "trace.meta"), budget, dict(TRACE=path), os.path.join(wdir, "trace.out"))
    m = re.search(r'<<"STATES", (\d+)>>', text)
    n = sum(1 for _ in open(path))
    mism = mismatches(text)
    if (rc != 0 or not m or int(m.group(1)) != 2 * n) and not (rc is None and mism):
        die(f"TLC failed on the recorded operations, see {wdir}/trace.out")
    vers = {}
    for k in re.findall(r'<<"VER", (TRUE, "\w+"|FALSE, "\w+")>>', text):
        k = k.replace("TRUE", "accepted").replace("FALSE", "rejected").replace('"', "")
        vers[k] = vers.get(k, 0) + 1
    return mism, 2 * n, vers


def dilithium(prop, tier, seed, t0):
    wdir = os.path.join(WORK, prop)
    shutil.rmtree(wdir, ignore_errors=True)
    os.makedirs(wdir)
    quick = tier == "quick"
    lh = build()
    dictionary(wdir)
    num, n, per, bulk = (1, 1, 1, 6000) if quick else (20, 24, 4, 1000000)
    rc, text = tlc("DilGen.tla", "DilGen.cfg", os.path.join(wdir, "gen.meta"), 400 if quick else 7200,
                   dict(NUM=str(num), FLAT="100", SEED=str(seed)), os.path.join(wdir, "gen.out"))
    vecs = [json.loads(l) for l in text.splitlines() if l.startswith('"{')]
    if rc != 0 or re.search(r"is violated|Error: ", text) or len(vecs) != 3 * (num + 8):
        die(f"the specification fails, see {wdir}/gen.out")
    gg, gd = tlc_counts(text)
    gen, path = os.path.join(wdir, "gen.ndjson"), os.path.join(wdir, "trace.ndjson")
    with open(gen, "w") as f:
        f.write("\n".join(sorted(vecs)) + "\n")
    rc, text = sh([lh, "dil", "--gen", gen, "--out", path, "--n", str(n), "--per", str(per), "--bulk", str(bulk), "--seed", str(seed)],
                  300 if quick else 3000, cwd=wdir)
    if rc == 0:
        # the same with AddressSanitizer: it must not stop it
        rc, text = sh([checked(lh), "dil", "--gen", gen, "--out", path + "2", "--n", "1", "--per", "2", "--bulk", str(bulk // 10), "--seed", str(seed + SHIFT)],
                      300 if quick else 3000, cwd=wdir)
    if rc is None or (rc < 0 and rc != -9):
        evidence(prop, tier, seed, "model_checking", dict(states=gd, transitions=gg, traces_validated_against_impl=0, samples=["none"], explanation="crash"), t0)
        return report(prop, [(f"crash: Dilithium does not finish or crashes ({rc})", dict(property=prop, kind="crash", what=text[-500:], seed=seed))], wdir)
    if rc != 0:
        die("the harness failed: " + text[-2000:])
    mism, st, vers = dil_vectors(path, wdir, 450 if quick else 10000)
    lines = open(path).read().splitlines()
    ops = {}
    for l in lines:
        v = json.loads(l)
        k = f"{v['set']} {v['op']}"
        ops[k] = ops.get(k, 0) + 1
    viols, seen = [], set()
    for (i, _, c, info) in sorted(mism):
        v = json.loads(lines[i - 1])
        if (c, v["set"]) in seen:
            continue
        seen.add((c, v["set"]))
        viols.append((f"{c}: Dilithium{v['set']} {v['op']}: {info}", dict(property=prop, kind=c, what=info, seed=seed, mode="dil", vector=v)))
    acc = sum(x for k, x in vers.items() if k.startswith("acc"))
    rej = sum(x for k, x in vers.items() if k.startswith("rej"))
    sample = json.loads(lines[0])
    cov = dict(states=gd + st, transitions=gg + st // 2, traces_validated_against_impl=len(lines), samples=[{k: (v if not isinstance(v, list) else v[:16]) for k, v in sample.items()}],
               operations=ops, verifications=vers, signatures_compared_between_implementations=8 * bulk, implementations=["Rust API", "C clean", "C AVX2"],
               explanation="TLC makes keys, signatures and forgeries from the published algorithm written in TLA+ (Dilithium.tla, Keccak.tla), the real code is run on them and on its own, "
                           "and TLC recomputes every recorded key, signature and verdict byte by byte.")
    if not viols and (acc < 60 or rej < 60 or not any("big" in k for k in vers)):
        die(f"too few accepted or rejected signatures: {vers}")
    evidence(prop, tier, seed, "model_checking", cov, t0)
    return report(prop, viols, wdir)


def hash_outputs(path, wdir, budget):
    """Computes every recorded output again in TLA+. Returns (mismatches, states)"""
    rc, text = tlc("HashTrace.tla", "HashTrace.cfg", os.path.join(wdir, "trace.meta"), budget, dict(TRACE=path), os.path.join(wdir, "trace.out"))
    m = re.search(r'<<"STATES", (\d+)>>', text)
    n = sum(1 for _ in open(path))
    if rc != 0 or not m or int(m.group(1)) != 2 * n:
        die(f"TLC failed on the recorded outputs, see {wdir}/trace.out")
    return mismatches(text), 2 * n


def hashes(prop, tier, seed, t0):
    wdir = os.path.join(WORK, prop)
    shutil.rmtree(wdir, ignore_errors=True)
    os.makedirs(wdir)
    quick = tier == "quick"
    lh = build("lhc")
    dictionary(wdir)
    rc, text = tlc("HashApi.tla", "HashApi.cfg" if quick else "HashApiDeep.cfg", os.path.join(wdir, "gen.meta"), 300 if quick else 3000, {}, os.path.join(wdir, "gen.out"))
    hist = sorted(json.loads(l) for l in text.splitlines() if l.startswith('"{'))
    if rc != 0 or re.search(r"is violated|Error: ", text) or len(hist) < 50000:
        die(f"the specification fails, see {wdir}/gen.out")
    gg, gd = tlc_counts(text)
    gen, path = os.path.join(wdir, "gen.ndjson"), os.path.join(wdir, "trace.ndjson")
    with open(gen, "w") as f:
        f.write("\n".join(hist) + "\n")
    par = dict(reps=3, limit=300, step=1, bulk=100000, aes=1500) if quick else dict(reps=6, limit=5000, step=1, bulk=3000000, aes=60000, deep=1)
    rc, text = sh([lh, "hash", "--gen", gen, "--out", path, "--seed", str(seed)] + [x for k, v in par.items() for x in ("--" + k, str(v))], 300 if quick else 5000, cwd=wdir)
    if rc == 0:
        # the same with AddressSanitizer: it must not stop it
        info = json.loads(text.strip().splitlines()[-1])
        par.update(reps=1, aes=par["aes"] // 10, bulk=par["bulk"] // 10)
        rc, text = sh([checked(lh), "hash", "--gen", gen, "--out", path + "2", "--seed", str(seed + SHIFT)] + [x for k, v in par.items() for x in ("--" + k, str(v))],
                      300 if quick else 5000, cwd=wdir)
    if rc is None or (rc < 0 and rc != -9):
        evidence(prop, tier, seed, "model_checking", dict(states=gd, transitions=gg, traces_validated_against_impl=0, samples=["none"], explanation="crash"), t0)
        return report(prop, [(f"crash: a hash function or AES does not finish or crashes ({rc})", dict(property=prop, kind="crash", what=text[-500:], seed=seed))], wdir)
    if rc != 0:
        die("the harness failed: " + text[-2000:])
    mism, st = hash_outputs(path, wdir, 450 if quick else 10000)
    lines = open(path).read().splitlines()
    algs = {}
    for l in lines:
        k = json.loads(l)["alg"]
        algs[k] = algs.get(k, 0) + 1
    viols, seen = [], set()
    for (i, _, c, what) in sorted(mism):
        v = json.loads(lines[i - 1])
        if (c, v["alg"]) in seen:
            continue
        seen.add((c, v["alg"]))
        viols.append((f"{c}: {v['alg']} ({v['why']}): {what}", dict(property=prop, kind=c, what=what, seed=seed, mode="hash", vector=v)))
    if not viols and (info["differences"] or len(algs) < 14 or info["operations"] < 100000):
        die(f"two ways of computing the same differ, but neither from the specification, or too little was recorded: {info}")
    cov = dict(states=gd + st, transitions=gg + st // 2, traces_validated_against_impl=len(lines), samples=[json.loads(hist[len(hist) // 2])],
               histories=len(hist), operations=info["operations"], outputs_recomputed=algs,
               explanation="TLC explores every history of calls of the incremental interfaces up to the bound and checks that a buffering machine refines the plain function; the code runs every history with "
                           "concrete lengths, and TLC computes the recorded outputs again from the published algorithms written in TLA+ (Keccak.tla, Sha2.tla, Aes.tla).")
    evidence(prop, tier, seed, "model_checking", cov, t0)
    return report(prop, viols, wdir)


def replay(path):
    rec = json.load(open(path))
    lh = build("lhc" if rec.get("mode") == "hash" else "lh")
    os.makedirs(WORK, exist_ok=True)
    dictionary(WORK)
    mode = rec.get("mode", "run")
    if rec.get("kind") != "crash" and mode in ("prim", "vec21", "dil", "hash"):
        wdir = os.path.join(WORK, "replay")
        shutil.rmtree(wdir, ignore_errors=True)
        os.makedirs(wdir)
        p = os.path.join(wdir, "trace.ndjson")
        if mode in ("vec21", "dil", "hash"):
            with open(p, "w") as f:
                f.write(json.dumps(rec["vector"]) + "\n")
            got = dict(vec21=saber_vectors, dil=dil_vectors, hash=hash_outputs)[mode](p, wdir, 300)[0]
        else:
            t = rec["trace"]
            with open(os.path.join(wdir, "scen.ndjson"), "w") as f:
                f.write(json.dumps(dict(p=t["p"], set=t["set"], w=1, ops=t["ops"])) + "\n")
            rc, out = sh([checked(lh) if "chk" in t else lh, "prim", "--in", os.path.join(wdir, "scen.ndjson"), "--out", p,
                          "--seed", str(rec["seed"] + (SHIFT if "chk" in t else 0)), "--as", str(t["sc"] - 1), "--rep", str(t["rep"])], 300, cwd=wdir)
            if rc != 0:
                die(out)
            got = prim_trace(p, wdir, 300)[0]
            print("\n".join("  " + s for s in describe_ops(t)))
        for m in got:
            print(f"operation {m[1]}: {m[2]} {m[3]}")
        return 1 if any(m[2] == rec["kind"] for m in got) else 0
    if "trace" not in rec:
        die("this file only describes the violation:\n" + json.dumps(rec, indent=1)[:2000])
    wdir = os.path.join(WORK, "replay")
    shutil.rmtree(wdir, ignore_errors=True)
    os.makedirs(wdir)
    t = rec["trace"]
    acts = [a for a in t["acts"] if a["a"] != "fin"]
    with open(os.path.join(wdir, "scen.ndjson"), "w") as f:
        f.write(json.dumps(dict(x=1, thr=0, ml=t["ml"], acts=acts)) + "\n")
    rc, out = sh([checked(lh) if "chk" in t else lh, "run", "--in", os.path.join(wdir, "scen.ndjson"), "--out", os.path.join(wdir, "trace.ndjson"),
                  "--seed", str(rec["seed"] + (SHIFT if "chk" in t else 0)),
                  "--as", str(t["sc"] - 1), "--rep", str(t["rep"])], 300, cwd=wdir)
    if rc != 0:
        die(out)
    mism, *_ = check_trace(os.path.join(wdir, "trace.ndjson"), wdir, 300)
    for s in describe(t["acts"], len(t["acts"])):
        print("  " + s)
    for m in mism:
        print(f"event {m[1]}: {m[2]} ({NAMES.get(m[2], m[2])}) {m[3]}")
    return 1 if any(m[2] == rec["kind"] for m in mism) else 0


def main():
    a = sys.argv[1:]
    if a and a[0] == "replay":
        sys.exit(replay(a[1]))
    if not a:
        die(__doc__)
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    for i, x in enumerate(a):
        if x == "--tier":
            tier = a[i + 1]
        if x == "--seed":
            seed = int(a[i + 1])
    t0 = time.time()
    if prop in PROTO:
        rc = protocol(prop, tier, seed, t0)
    elif prop in PRIM:
        rc = prim(prop, tier, seed, t0)
    elif prop == "C21":
        rc = numeric(prop, tier, seed, t0)
    elif prop == "C24":
        rc = dilithium(prop, tier, seed, t0)
    elif prop == "C25":
        rc = hashes(prop, tier, seed, t0)
    else:
        die("unknown property " + prop)
    print(f"{prop}: {'held on everything explored' if rc == 0 else 'violated'} ({tier}, {time.time() - t0:.0f} s)")
    sys.exit(rc)


if __name__ == "__main__":
    main()
