#!/usr/bin/env python3
"""Decides one property: check.py <property> [--tier quick|thorough]

1. TLC explores the specification over the property's themes, checking the property on every
   transition and printing the history of every transition.
2. The harness (built from /repo's working tree) replays all those histories, and seeded random
   ones, on the real code and records what it did.
3. TLC checks every recorded transaction against the specification (TraceCheck.tla).
Exit 0: held on everything explored.  Exit 1: VIOLATION line.  Exit 2: no answer (tool failure).
"""
import argparse, concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, threading, time, tomllib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
TARGET = os.path.join(VERIF, "target")
# the controller's specification and harness, and those of the sample owner contract
SUITES = {"controller": {"crate": "harness", "bin": "ica-harness", "mc": "MC", "tc": "TraceCheck"},
          "owner": {"crate": "owner-harness", "bin": "owner-harness", "mc": "OwnerMC", "tc": "OwnerTrace"}}


def suite_of(name):
    """the suite a theme or random profile belongs to"""
    return "owner" if name == "owner" else "controller"


SHARDS = 8

# property: (themes, random profiles [(profile, chains, length)]) ; chains are per quick run
PLAN = {
    "C01": (["auth", "cb"], [("auth", 120, 40)]),
    "C02": (["own", "auth"], [("own", 140, 40)]),
    "C03": (["hand", "life"], [("init", 120, 40)]),
    "C04": (["close", "life"], [("close", 140, 40)]),
    "C05": (["life", "hand"], [("active", 140, 40)]),
    "C06": (["life", "close"], [("status", 160, 40)]),
    "C07": (["meta", "hand"], [("meta", 140, 40)]),
    "C08": (["life", "meta"], [("ica", 140, 40)]),
    "C09": (["hand", "inst"], [("propose", 140, 40)]),
    "C10": (["send", "life"], [("send", 140, 40)]),
    "C11": (["send"], [("msgs", 200, 40)]),
    "C12": (["query", "cb"], [("query", 160, 40)]),
    "C13": (["query"], [("qconv", 200, 40)]),
    "C14": (["cb", "life"], [("cb", 140, 40)]),
    "C15": (["cb"], [("veto", 180, 40)]),
    "C16": (["cb", "query"], [("events", 140, 40)]),
    "C17": (["life", "query"], [("avail", 160, 40)]),
    "C18": (["mig", "life"], [("migrate", 200, 30)]),
    "C19": (["role"], [("role", 160, 40)]),
    "C20": (["inst"], [("inst", 600, 6)]),
    "C21": (["help"], [("help", 200, 40)]),
    "C22": (["owner"], [("owner", 400, 30)]),
    "C23": (["query", "cb", "owner"], [("ctr", 160, 40), ("owner", 60, 30)]),
    "C24": (["send", "query"], [("unsup", 160, 40)]),
    "C25": (["query", "life"], [("store", 40, 60)]),
    "C26": (["form"], [("form", 160, 40)]),
}
ALL_THEMES = ["life", "auth", "own", "hand", "meta", "close", "query", "cb", "send", "inst", "role", "mig", "help", "form"]
# random histories are multiplied by this factor, and histories of the general profile added;
# thorough runs also use larger theme bounds
QUICK_FACTOR = 4
THOROUGH_FACTOR = 100


class NoAnswer(Exception):
    pass


def say(*a):
    print(*a, flush=True)


def run(cmd, timeout, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        raise NoAnswer(f"timeout: {' '.join(cmd)[:200]}")
    return p.returncode, p.stdout, p.stderr


def version_env():
    with open(os.path.join(REPO, "Cargo.toml"), "rb") as f:
        v = tomllib.load(f)["package"]["version"]
    n = re.match(r"(\d+)\.(\d+)\.(\d+)$", v)
    if not n:
        raise NoAnswer(f"version {v} of the crate is not of the form x.y.z")
    return {"VER": v, "VER1": n[1], "VER2": n[2], "VER3": n[3]}


def cargo_env():
    return {"CARGO_TARGET_DIR": TARGET, "CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never", "RUSTUP_TOOLCHAIN": "1.99.1", "RUSTFLAGS": "", "RUSTC_WRAPPER": ""}


def build(crate):
    rc, out, err = run(["cargo", "build", "--offline", "--quiet"], 800, cargo_env(), os.path.join(VERIF, crate))
    if rc != 0:
        raise NoAnswer("the harness does not build against /repo:\n" + err[-3000:])


def tlc(module, cfg, env, work, workers, timeout, heap="3g", extra=()):
    os.makedirs(work, exist_ok=True)
    e = dict(env)
    e["JAVA_TOOL_OPTIONS"] = f"-Xmx{heap} -Xss16m -Dfile.encoding=UTF-8 -Djava.io.tmpdir={work}"
    rc, out, err = run(["tlc", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", os.path.join(work, "md"), "-config", cfg, *extra, module], timeout, e, SPEC)
    return rc, out + "\n" + err


def final_counts(out):
    m = re.findall(r"^(\d+) states generated, (\d+) distinct states found, 0 states left", out, re.M)
    if not m:
        raise NoAnswer("TLC printed no final state count")
    return int(m[-1][0]), int(m[-1][1])


def explore(prop, theme, big, work, ver, pairs=False, timeout=800):
    """step 1; returns (file with scripts, states, transitions)"""
    d = os.path.join(work, f"mc_{theme}")
    os.makedirs(d, exist_ok=True)
    evf = os.path.join(d, "events.json")
    env = dict(ver, THEME=theme, BIG="1" if big else "0", PROP=prop, PAIRS="1" if pairs else "0", EVOUT=evf)
    mc = SUITES[suite_of(theme)]["mc"]
    rc, out = tlc(mc + ".tla", mc + ".cfg", env, d, 1, timeout)
    if "Model checking completed. No error has been found." not in out:
        tail = [l for l in out.splitlines() if not re.match(r"<<\d", l)]
        raise NoAnswer(f"model checking of theme {theme} failed:\n" + "\n".join(tail[-60:])[-4000:])
    trans, states = final_counts(out)
    paths = sorted({tuple(int(x) for x in re.findall(r"\d+", l)) for l in out.splitlines() if re.match(r"<<\d", l)})
    # a path that is a prefix of the next one in order is replayed with it
    keep = [p for i, p in enumerate(paths) if i + 1 == len(paths) or paths[i + 1][: len(p)] != p]
    with open(evf) as f:
        events = json.load(f)
    if not keep:
        raise NoAnswer(f"theme {theme} produced no transitions")
    return {"theme": theme, "events": events, "paths": keep, "states": states, "transitions": trans, "histories": len(paths)}


def harness(prop, su, args, timeout=700):
    env = {"ICA_FOREIGN": "1"} if prop in ("C19", "ALL") else {}
    rc, out, err = run([os.path.join(TARGET, "debug", SUITES[su]["bin"]), *args], timeout, env)
    if rc != 0:
        raise NoAnswer(f"harness failed ({rc}): {err[-1500:]}")
    m = re.search(r"lines=(\d+) own_messages=(\w+) stuck=(\d+)", out)
    if not m:
        raise NoAnswer("harness printed no summary")
    return int(m[1]), m[2] == "true", err[-600:] if int(m[3]) else ''


def validate(prop, su, trace, work, ver, workers, timeout=800):
    """step 3; returns None or a violation {line, detail}"""
    tc = SUITES[su]["tc"]
    rc, out = tlc(tc + ".tla", tc + ".cfg", dict(ver, PROP=prop, TRACE=trace), work, workers, timeout, heap="4g")
    if "Model checking completed. No error has been found." in out:
        return final_counts(out)[1], None
    ns = [int(x) for x in re.findall(r"^/\\ n = (\d+)", out, re.M)]
    ex = re.search(r'<<"EXPLAIN", "(.*)">>', out)
    if "LineOKExplained is violated" in out and ns:
        detail = json.loads(ex[1].replace('\\"', '"')) if ex else {}
        return 0, {"line": ns[-1], "detail": detail}
    # the specification cannot even read what the code did
    evalerr = re.search(r"(evaluating|Attempted to|In evaluation|nested|not a function|applied)", out)
    if ns and evalerr and "OutOfMemory" not in out and "StackOverflow" not in out:
        why = " ".join(l for l in out.splitlines() if l.startswith(("Error", "Attempted", "The ")))[:400]
        return 0, {"line": ns[-1], "detail": {"uninterpretable": why}}
    keep = [l for l in out.splitlines() if not l.startswith(("Semantic", "Parsing", "Linting"))]
    raise NoAnswer("trace validation failed:\n" + "\n".join(keep[-40:])[-3000:])


def history(trace, line):
    """events from the root to the given line"""
    lines = [json.loads(x) for x in open(trace)]
    parent = {}
    for i, l in enumerate(lines, 1):
        for k in l["kids"]:
            parent[k] = i
    path = [line]
    while path[-1] in parent:
        path.append(parent[path[-1]])
    path.reverse()
    return [lines[i - 1] for i in path]


def strip_tok(e):
    e = json.loads(json.dumps(e))
    if isinstance(e.get("a"), dict):
        e["a"].pop("tok", None)
    return e


def write_replay(prop, hist, viol):
    d = os.path.join(VERIF, "work", "replays")
    os.makedirs(d, exist_ok=True)
    evs = [strip_tok(l["e"]) for l in hist]
    h = hashlib.sha256(json.dumps(evs).encode()).hexdigest()[:12]
    p = os.path.join(d, f"{prop}-{h}.json")
    with open(p, "w") as f:
        json.dump(evs, f, indent=1)
    with open(p.replace(".json", ".txt"), "w") as f:
        f.write(f"property {prop}\nexplanation {json.dumps(viol['detail'])}\n\n")
        for l in hist:
            f.write(json.dumps(l["e"]) + "\n   => " + json.dumps({k: l["o"][k] for k in ("ok", "why", "eff")}) + "\n")
        f.write("\nobserved state after the last transaction:\n" + json.dumps(hist[-1]["o"]["st"], indent=1) + "\n")
    return p


def summarise(trace):
    """transactions by kind and outcome, number of histories"""
    ops, leaves = {}, 0
    with open(trace) as f:
        for line in f:
            e = json.loads(line)
            leaves += not e["kids"]
            k = e["e"]["op"]
            if k == "exec":
                k += ":" + e["e"]["m"]["k"]
            if e["e"].get("cbm", "ok") != "ok":
                k += "(callback " + e["e"]["cbm"] + ")"
            ops.setdefault(k, {"accepted": 0, "refused": 0})["accepted" if e["o"]["ok"] == "t" else "refused"] += 1
    return ops, leaves


def pick_sample(trace):
    """one recorded history, written out"""
    lines = [json.loads(x) for x in open(trace)]
    n = len(lines) // 2
    while n < len(lines) - 1 and (lines[n]["kids"] or lines[n]["o"]["ok"] == "f"):
        n += 1
    return [[{"event": l["e"], "accepted": l["o"]["ok"], "effects": l["o"]["eff"]} for l in history(trace, n + 1)[-8:]]]


def write_evidence(a, coverage, wall, violations):
    ev = {"property": a.prop, "tier": a.tier, "seed": a.seed, "level": "model_checking", "coverage": coverage,
          "assumptions": ["the chain stand-in (harness/src/world.rs) behaves as wasmd and IBC core: transactional, synchronous sub-messages",
                          "alphabets and bounds of the themes (spec/Themes.tla); random histories are samples"],
          "wall_s": round(wall, 1), "violations": int(violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{a.prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default="quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    work = os.path.join(VERIF, "work", f"{a.prop}-{a.tier}-{os.getpid()}")
    os.makedirs(work, exist_ok=True)
    try:
        rc = decide(a, work, t0)
    except NoAnswer as e:
        say(f"NO ANSWER property={a.prop}: {e}")
        rc = 2
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
    return rc


def decide(a, work, t0):
    ver = version_env()
    big = a.tier == "thorough"
    if a.prop == "ALL":
        themes, profiles = ALL_THEMES, [("all", 200, 40), ("help", 80, 40)]
    else:
        themes, profiles = PLAN[a.prop]
    if a.prop != "ALL":
        factor = THOROUGH_FACTOR if big else QUICK_FACTOR
        profiles = [(p, n * factor, l) for p, n, l in profiles]
        if a.prop != "C22":
            profiles.append(("all", 40 * factor, 50))
    if a.replay:
        themes, profiles = [], []
    pool = cf.ThreadPoolExecutor(12)
    suites = list(dict.fromkeys(suite_of(x) for x in themes + [p[0] for p in profiles]))
    if a.replay:
        with open(a.replay) as f:
            suites = ["owner" if "code" in json.load(f)[0] else "controller"]
    b = pool.submit(lambda: [build(SUITES[x]["crate"]) for x in suites])
    mcs = [pool.submit(explore, a.prop, t, big, work, ver, False, 3000 if big else 600) for t in themes]
    if big:
        mcs += [pool.submit(explore, a.prop, t, False, os.path.join(work, "pairs"), ver, True, 3000) for t in themes[:1]]
    models = [m.result() for m in mcs]
    b.result()
    say("explored: " + ", ".join(f"{m['theme']} {m['states']} states/{m['transitions']} transitions" for m in models) + f" ({time.time()-t0:.0f}s)")

    # step 2: shards of scripts and random histories
    nsh = SHARDS * (6 if big else 1)
    jobs = [(x, []) for x in suites for _ in range(nsh)]
    at = {x: i * nsh for i, x in enumerate(suites)}
    for m in models:
        step = -(-len(m["paths"]) // nsh)
        for i in range(nsh):
            part = m["paths"][i * step:(i + 1) * step]
            if part:
                f = os.path.join(work, f"s_{m['theme']}_{len(m['paths'])}_{i}.txt")
                with open(f, "w") as h:
                    h.write(json.dumps(m["events"]) + "\n" + "\n".join(" ".join(map(str, p)) for p in part) + "\n")
                jobs[at[suite_of(m["theme"])] + i][1].extend(["--scripts", f])
    for i in range(nsh):
        for p, n, l in profiles:
            if n // nsh:
                jobs[at[suite_of(p)] + i][1].extend(["--random", f"{p}:{n // nsh}:{l}"])
    if a.replay:
        jobs = [(suites[0], ["--replay", a.replay])]
    traces = [os.path.join(work, f"t{i}.ndjson") for i in range(len(jobs))]
    stop = threading.Event()

    def record_and_check(i):
        if stop.is_set():
            return None
        n, own, stuck = harness(a.prop, jobs[i][0], [*jobs[i][1], "--seed", str(a.seed * 1000 + i), "--out", traces[i]], 1500)
        if stop.is_set():
            return None
        cnt, v = validate(a.prop, jobs[i][0], traces[i], os.path.join(work, f"tc{i}"), ver, 1, 1500)
        if v is None and cnt != n:
            raise NoAnswer(f"trace validation visited {cnt} of {n} recorded transactions")
        if v is None and stuck:
            raise NoAnswer(f"the harness could not continue a history: {stuck}")
        ops, leaves = summarise(traces[i])
        r = {"n": n, "own": own, "ops": ops, "leaves": leaves, "violation": v}
        if v:
            stop.set()
            r["history"] = history(traces[i], v["line"])
        elif i == 0:
            r["sample"] = pick_sample(traces[i])
        if not a.keep:
            os.remove(traces[i])
        return r

    res = [r for r in cf.ThreadPoolExecutor(SHARDS).map(record_and_check, range(len(jobs))) if r]
    total = sum(r["n"] for r in res)
    ops = {}
    for r in res:
        for k, v in r["ops"].items():
            o = ops.setdefault(k, {"accepted": 0, "refused": 0})
            o["accepted"] += v["accepted"]
            o["refused"] += v["refused"]
    bad = [r for r in res if r["violation"]]
    own_bad = a.prop in ("C23", "ALL") and not all(r["own"] for r in res)
    if not a.replay:
        write_evidence(a, {
            "states": sum(m["states"] for m in models),
            "transitions": sum(m["transitions"] for m in models),
            "traces_validated_against_impl": sum(r["leaves"] for r in res),
            "transactions_executed_and_checked": total,
            "model_histories_replayed": sum(m["histories"] for m in models),
            "themes": [{"theme": m["theme"], "states": m["states"], "transitions": m["transitions"], "alphabet": len(m["events"])} for m in models],
            "random_profiles": [list(p) for p in profiles],
            "transactions_by_kind": dict(sorted(ops.items())),
            "samples": [s for r in res for s in r.get("sample", [])],
            "explanation": "states, transitions: explored by TLC on the specification, the property checked on each transition. "
                           "traces_validated_against_impl: maximal histories executed by the real code (replayed model histories, those that are "
                           "prefixes of others executed once, and seeded random ones), every transaction of which was checked against the specification.",
        }, time.time() - t0, len(bad) + own_bad)
    say(f"checked {total} transactions of the implementation ({time.time()-t0:.0f}s)")
    if bad:
        r = bad[0]
        p = write_replay(a.prop, r["history"], r["violation"])
        say(json.dumps(r["violation"]["detail"]))
        say(f"VIOLATION property={a.prop} replay={p}")
        return 1
    if own_bad:
        d = os.path.join(VERIF, "work", "replays")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "C23-own-messages.txt")
        with open(p, "w") as f:
            f.write("a contract built with the callback-receiver macro does not handle its own messages: harness/src/receiver.rs own_messages_work\n")
        say(f"VIOLATION property={a.prop} replay={p}")
        return 1
    say(f"property {a.prop} held on everything explored")
    return 0


if __name__ == "__main__":
    sys.exit(main())
