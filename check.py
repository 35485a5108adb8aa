#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--replay FILE]: builds the suites of one property from
/repo's working tree, runs them under their monitors and reports. See DESIGN.md."""
import argparse, concurrent.futures as cf, glob, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "tools"))
from checks import CHECKS, ASSUME   # noqa: E402

COMMON = ["-std=c++20", "-include", "cstdint", "-g1", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern",
          "-D_GLIBCXX_ASSERTIONS", "-w", "-I", os.path.join(REPO, "include"), "-I", os.path.join(HERE, "harness")]
SAN = {
    "ub": ["-O1", "-fsanitize=undefined", "-fno-sanitize-recover=all"],
    "asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
    "tsan": ["-O0", "-fsanitize=thread"],
    "none": ["-O1"],
    # a second compiler, without optimisation, so that nothing is optimised away before it is checked
    "clang": ["-O0", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
    # runs under valgrind memcheck: storage is left as it is
    "memcheck": ["-O0", "-DMEMCHECK", "-ftrivial-auto-var-init=uninitialized"],
}
CXX = {"clang": "clang++", "tsan": "clang++"}
VALGRIND = ["valgrind", "-q", "--error-limit=no", "--track-origins=no", "--log-file=/dev/null"]
ENV = dict(os.environ, ASAN_OPTIONS="abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=1:handle_abort=1",
           UBSAN_OPTIONS="print_stacktrace=1:abort_on_error=1:halt_on_error=1", TSAN_OPTIONS="halt_on_error=1:exitcode=66:report_bugs=1")


class Broken(Exception):
    pass


BUILD_BUDGET = dict(quick=int(os.environ.get("VERIF_BUILD_BUDGET", "480")), thorough=10 ** 6)


def run(cmd, timeout=800, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=ENV, **kw)


def compile_one(args, late=False):
    """returns the object of a suite part that doesn't compile, the command, and the compiler's errors"""
    cmd, what = args
    if late:
        return cmd[-1], cmd, None
    p = run(cmd)
    if p.returncode == 0:
        return None
    err = p.stderr.decode(errors="replace")
    if os.path.dirname(what) in (os.path.join(REPO, "src"), ""):
        raise Broken("cannot build %s:\n%s" % (what, err[:4000]))
    return cmd[-1], cmd, err


CONTROL = """#include "lib.hh"
template <class X> void t(Ctx &c) { X x; load(x, c.in[0]); put(c, x); }
SUITE(control) { Ctx c; t<LW<7>>(c); t<LW<70, true>>(c); t<BW<7, true>>(c); t<BW<70>>(c); }
"""


def rejected(cmd, tmp):
    """g++'s errors for this part, if it accepts the library's headers and what every part has in common"""
    control = os.path.join(tmp, "control.cc")
    open(control, "w").write(CONTROL)
    flags = [x for x in cmd[1:-4] if "-fsanitize" not in x and "-fno-sanitize" not in x]
    if run(["g++"] + flags + ["-fsyntax-only", control]).returncode != 0:
        return None
    p = run(["g++"] + flags + ["-fsyntax-only", cmd[-3]])
    err = p.stderr.decode(errors="replace")
    return err if p.returncode == 1 and re.search(r": error: ", err) else None


def build(spec, tier, tmp, seed):
    """returns [(binary, leg, part)], what does not compile as [(leg, part, errors)], and the number of parts there was no time for"""
    jobs, first = [], []
    for leg in spec["legs"]:
        if not re.search(os.environ.get("VERIF_LEGS", ""), leg["name"]):   # development aid
            continue
        if leg.get("tiers") and tier not in leg["tiers"]:
            continue
        n = leg["parts"][tier] if isinstance(leg["parts"], dict) else leg["parts"]
        pick = leg.get("pick", {}).get(tier)
        jobs += [(CXX.get(leg["san"], "g++"), leg, p, n) for p in range(n) if pick is None or p in pick]
    # a slow machine gets an answer from the parts built in time, rather than none
    limit = time.time() + BUILD_BUDGET[tier]
    out, failed, late = build_jobs(jobs, tier, tmp, seed, limit)
    # the second compiler's opinion of what is C++ doesn't count
    again = [("g++", leg, p, n) for (cc, leg, p, n), _, _ in failed if cc != "g++"]
    failed = [f for f in failed if f[0][0] == "g++"]
    if again:
        o, f, l = build_jobs(again, tier, tmp, seed, limit, first=False)
        out, failed, late = out + o, failed + f, late + l
    if late:
        print("NOTE: %d of %d parts were not built within %d s and are not part of this run" % (late, len(jobs), BUILD_BUDGET[tier]))
    bad = []
    for (cc, leg, p, n), cmd, err in failed:
        bad.append((leg, p, rejected(cmd, tmp), err))
    return out, bad, late


def build_jobs(jobs, tier, tmp, seed, limit, first=True):
    tasks, links, built, objs = [], [], set(), {}
    plain = ["g++", "-std=c++20", "-I", os.path.join(HERE, "harness"), "-w"]
    srcs = sorted(glob.glob(os.path.join(REPO, "src", "*.cc")))
    for job in jobs:
        cc, leg, p, n = job
        san = SAN[leg["san"]]
        libs = []
        for s in srcs:
            o = os.path.join(tmp, "lib_%s_%s_%s.o" % (cc, leg["san"], os.path.basename(s)))
            if o not in built:
                tasks.append((1.2, ([cc] + COMMON + san + ["-c", s, "-o", o], s)))
                built.add(o)
            libs.append(o)
        b = os.path.join(tmp, "%s_%d%s" % (leg["name"], p, "" if first else "_g"))
        o = b + ".o"
        cmd = [cc] + COMMON + san + leg.get("defs", []) + ["-DPART=%d" % p, "-DNPARTS=%d" % n]
        nw = leg.get("words", 66)     # the storage of the neutral values, in words
        cmd += ["-DMV_NW=%d" % nw]
        if tier == "thorough":
            cmd += ["-DTHOROUGH"]
        if "gen" in leg:     # the suite's text is generated
            src = os.path.join(tmp, "%s_%d.cc" % (leg["name"], p))
            g = run([sys.executable, os.path.join(HERE, "tools", leg["gen"]), str(seed), str(p)] + [str(x) for x in leg["gen_args"][tier]])
            if g.returncode != 0:
                raise Broken("generator: " + g.stderr.decode(errors="replace"))
            open(src, "wb").write(g.stdout)
        else:
            src = os.path.join(HERE, "suites", leg["suite"])
        tasks.append((1 - p / 1000, (cmd + ["-c", src, "-o", o], src)))
        objs[o] = job
        eng, mod = os.path.join(tmp, "engine_%d.o" % nw), os.path.join(tmp, "model_%d.o" % nw)
        if first and eng not in built:
            built.add(eng)
            for weight, name, obj in ((2, "model", mod), (1.5, "engine", eng)):
                tasks.append((weight, (plain + ["-O1", "-DMV_NW=%d" % nw, "-c", os.path.join(HERE, "harness", name + ".cc"), "-o", obj], name)))
        main = [o] + libs + ([mod, eng] if leg.get("engine", True) else [mod])
        links.append(([cc] + [f for f in san if f.startswith("-fsanitize")] + main + ["-pthread", "-o", b], b, leg, p))
    tasks.sort(key=lambda t: -t[0])
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        failed = {}
        for r in ex.map(lambda t: compile_one(t[1], t[0] < 1 and time.time() > limit), tasks):
            if r:
                failed[r[0]] = r
        links = [l for l in links if not failed.keys() & set(l[0])]
        for f in [ex.submit(compile_one, (l[0], "link")) for l in links]:
            f.result()
    return ([(b, leg, p) for _, b, leg, p in links], [(objs[o], cmd, err) for o, cmd, err in failed.values() if err is not None],
            sum(1 for r in failed.values() if r[2] is None))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    spec = CHECKS[a.id]
    t0 = time.time()
    only = None
    if a.replay:
        only = json.load(open(a.replay))
        a.tier, a.seed = only["tier"], only["seed"]
    tmp = tempfile.mkdtemp(prefix="logic-verif-%s-" % a.id)
    rc = 2
    try:
        rc = check(a, spec, tmp, t0, only)
    except Broken as e:
        print("ERROR: check %s could not run: %s" % (a.id, e))
    except subprocess.TimeoutExpired as e:
        print("ERROR: check %s timed out: %s" % (a.id, e))
    finally:
        if a.keep:
            print("kept", tmp)
        else:
            shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def leg_args(leg, b):
    return [b] + leg.get("args", [])


def known(prop):
    labels = {}
    for line in open(os.path.join(HERE, "known_findings.txt")):
        if line.startswith("KNOWN-FINDING: property=%s " % prop):
            rest = line.split(" ", 2)[2].strip()
            lab = rest.split(" ", 1)[0]
            assert lab.startswith("label=")
            labels[lab[6:]] = rest
    return labels


def check(a, spec, tmp, t0, only):
    bins, failed, late = build(spec, a.tier, tmp, a.seed)
    t_build = time.time() - t0
    if only is not None:
        for b, leg, part in bins:
            if leg["name"] == only["leg"] and part == only["part"]:
                p = run((VALGRIND if leg["san"] == "memcheck" else []) + leg_args(leg, b) + ["--seed", str(a.seed), "--exh", str(only["exh"]), "--cases", str(leg["cases"][a.tier])] +
                        (["--mixed", str(only["mixed"])] if only.get("mixed") else ["--entry", only["entry"], "--case", str(only["case"])]))
                print(p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace"))
                if p.returncode == 1:
                    print("VIOLATION property=%s replay=%s" % (a.id, a.replay))
                return p.returncode
        for leg, part, err, _ in failed:
            if leg["name"] == only["leg"] and part == only["part"] and err:
                print(err, "\nVIOLATION property=%s replay=%s" % (a.id, a.replay))
                return 1
        raise Broken("no such leg")
    todo = []
    for b, leg, part in bins:
        cases = leg["cases"][a.tier]
        exh = leg.get("exh", {"quick": 12, "thorough": 16})[a.tier]
        out = os.path.join(tmp, "out_%s_%d.json" % (leg["name"], part))
        cmd = (VALGRIND if leg["san"] == "memcheck" else []) + [b, "--seed", str(a.seed), "--cases", str(cases), "--exh", str(exh), "--out", out,
                                     "--err", out + ".err", "--cpu", str(leg.get("cpu", 25))] + leg.get("args", [])
        todo.append((cmd, out, leg, part, exh))

    def go(t):
        p = run(t[0], timeout=850 if a.tier == "quick" else 20000)
        if p.returncode not in (0,) or not os.path.exists(t[1]):
            raise Broken("%s: exit %d: %s" % (" ".join(t[0]), p.returncode, (p.stderr + p.stdout).decode(errors="replace")[-3000:]))
        return json.load(open(t[1]))

    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        results = list(ex.map(go, todo))
    tot = dict(evaluations=0, cases=0, distinct=0, nontrivial=0, xz_cases=0, entries=0, entries_done=0, exhaustive_entries=0)
    per_op, legs, extra = {}, {}, {}
    samples, viol = [], []
    for (cmd, out, leg, part, exh), r in zip(todo, results):
        for k in tot:
            tot[k] += r[k]
        for k, v in r["per_op"].items():
            per_op[k] = per_op.get(k, 0) + v
        for k, v in r.get("extra", {}).items():
            extra[k] = max(extra.get(k, 0), v) if k.startswith("max_") else extra.get(k, 0) + v
        legs[leg["name"] + ":" + leg["san"]] = legs.get(leg["name"] + ":" + leg["san"], 0) + r["evaluations"]
        samples += r["samples"][:3]
        for v in r["violations"]:
            v.update(leg=leg["name"], part=part, exh=exh, mixed=r["extra"]["cases_in_mixed_order"] + 1 if v["kind"] == "mixed" else 0)
            viol.append(v)
    # a use of the library in the property's domain that is refused by the compiler is an observable break
    for leg, part, err, first in failed:
        if a.id in ("C18", "C19", "C20", "C21"):   # that concerns another property
            print("NOTE: %s part %d does not compile and is not part of this run" % (leg["name"], part))
        elif err:
            i = err.find(": error: ")
            viol.append(dict(leg=leg["name"], part=part, exh=0, mixed=0, entry="", case=0, label="", kind="does not compile", detail=err[max(0, i - 200):i + 600]))
    unknown = [first for leg, part, err, first in failed if not err]
    rdir = os.path.join(HERE, "build", "replay")
    kn = known(a.id)
    bad, seen = [], {}
    for v in viol:
        if v["label"] and v["label"] in kn:
            seen.setdefault(v["label"], v)
        else:
            bad.append(v)
    for lab in seen:
        print("KNOWN-FINDING: property=%s %s (this run: %s)" % (a.id, kn[lab], seen[lab]["detail"][:300]))
    if bad:
        os.makedirs(rdir, exist_ok=True)
    for i, v in enumerate(bad[:20]):
        path = os.path.join(rdir, "%s-%d.json" % (a.id, i))
        json.dump(dict(property=a.id, tier=a.tier, seed=a.seed, leg=v["leg"], part=v["part"], exh=v["exh"], entry=v["entry"], case=v["case"],
                       kind=v["kind"], mixed=v["mixed"], detail=v["detail"]), open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (a.id, path))
        print("  %s: %s" % (v["kind"], v["detail"][:900]))
    # whatever compiled has been observed. a violation seen there stands, but nothing else is an answer
    if unknown and not bad:
        raise Broken("cannot build:\n" + unknown[0][:4000])
    if not bad and tot["evaluations"] < spec.get("min_evaluations", 1000):
        raise Broken("only %d evaluations: the workload observed too little" % tot["evaluations"])
    if not bad and tot["entries_done"] < tot["entries"]:
        raise Broken("%d of %d entries finished" % (tot["entries_done"], tot["entries"]))
    ev = dict(property=a.id, tier=a.tier, seed=a.seed, level="exploration",
              coverage=dict(evaluations=tot["evaluations"], distinct_nontrivial=tot["distinct"],
                            rule=spec["rule"], samples=samples[:24],
                            operation_type_combinations=tot["entries"], combinations_enumerated_completely=tot["exhaustive_entries"],
                            cases_with_unknown_bits=tot["xz_cases"], evaluations_per_operation=per_op, evaluations_per_leg=legs, parts_not_built_in_time=late, parts_that_do_not_compile=len(failed), **extra),
              assumptions=ASSUME + spec.get("assume", []), wall_s=round(time.time() - t0, 2), violations=len(bad))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", a.id + ".json"), "w"), indent=1)
    print("%s %s: %d evaluations, %d distinct nontrivial, %d combinations, %d violations, build %.1fs total %.1fs" %
          (a.id, a.tier, tot["evaluations"], tot["distinct"], tot["entries"], len(bad), t_build, time.time() - t0))
    return 1 if bad else 0


if __name__ == "__main__":
    main()
