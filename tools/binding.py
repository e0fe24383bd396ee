#!/usr/bin/env python3
"""What of a recording is the specification bound to?

Scenarios of every kind are executed on the implementation; then, one at a time, every field the
harness recorded is falsified and the specification is asked again.  A field whose falsification is
accepted is one nothing depends on: a change of the code that shows up there only would be missed.

    python3 tools/binding.py [samples per field [episodes per generator [seed]]]

Prints the fields with an accepted falsification; DESIGN.md explains each."""
import copy, importlib.machinery, importlib.util, json, os, random, re, sys, tempfile
from collections import defaultdict
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
loader = importlib.machinery.SourceFileLoader("check", os.path.join(ROOT, "bin", "check"))
check = importlib.util.module_from_spec(importlib.util.spec_from_loader("check", loader))
loader.exec_module(check)
import gen


def leaves(v, path=()):
    if isinstance(v, dict):
        for k in v:
            yield from leaves(v[k], path + (k,))
    elif isinstance(v, list):
        yield path + ("#",), v
        for k, x in enumerate(v):
            yield from leaves(x, path + (k,))
    else:
        yield path, v


def wrong(v, r):
    """another value of the same type"""
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + 1
    if isinstance(v, str):
        try:
            x = float(v)
        except ValueError:
            return {"ok": "err", "err": "ok", "none": "1", "d": "s", "s": "d"}.get(v, "none")
        return repr(x * 1.001 + (0.001 if abs(x) < 1 else 0)) if abs(x) < 1e300 else "1"
    if isinstance(v, list):
        return v[:-1] if v else None
    return None


def put(ev, path, v):
    x = ev
    for k in path[:-1]:
        x = x[k]
    x[path[-1]] = v


def name(ev, path):
    tag = ev["op"]
    if "b" in ev and isinstance(ev["b"], dict):
        tag += ":" + ev["b"]["k"]
    return tag + "." + ".".join("*" if isinstance(k, int) else k for k in path)


def ask(d, cases, live):
    """which of the falsified episodes the specification explains, and how many it cannot even evaluate"""
    live, accepted, senseless, tag = list(live), set(), 0, "binding%d" % live[0]
    trc = os.path.join(d, tag)
    while live:
        at, start = 0, {}
        with open(trc, "w") as f:
            for k in live:
                f.writelines(json.dumps(c) + "\n" for c in cases[k][1])
                at += len(cases[k][1])
                start[at] = k
        rc, out, _, _ = check.tlc(d, tag, "Binding", "Binding.cfg", env={"TRACE": trc}, workers=1)
        accepted |= {start[int(m)] for m in re.findall(r'<<\s*"DONE",\s*(\d+)\s*>>', out)}
        if rc == 0:
            break
        ls = re.findall(r"^(?:/\\ )?l = (\d+)", out, re.M)
        assert ls, out[-3000:]
        k = min((e, k) for e, k in start.items() if e > int(ls[-1]))[1]   # cannot be evaluated: rejected
        senseless += 1
        live.remove(k)
        live = [q for q in live if q not in accepted]
    return accepted, senseless


def main():
    per, eps_n, seed = ([int(a) for a in sys.argv[1:]] + [2, 3, 1][len(sys.argv) - 1:])
    r = random.Random(seed)
    binary = check.build()
    todo = {}
    for prop, gens in gen.QUICK.items():
        for g, _ in gens:
            todo.setdefault(g, prop)
    fields = defaultdict(list)
    with tempfile.TemporaryDirectory(dir=os.path.join(ROOT, "build")) as d:
        scn, trc = os.path.join(d, "scn"), os.path.join(d, "trc")
        for g in todo:
            G = gen.Gen("binding-%s-%d" % (g, seed))
            with open(scn, "w") as f:
                for ep in getattr(G, g)(eps_n):
                    if len(ep) < 60:
                        f.writelines(json.dumps(c) + "\n" for c in ep)
            died = check.execute(binary, scn, trc, 300)
            assert not died, (g, died)
            rec = check.read_jsonl(trc)
            k = 0
            while k < len(rec):
                a, b = check.episode(rec, k)
                for x in range(a, b):
                    for path, v in leaves(rec[x].get("out", {}), ("out",)):
                        w = wrong(v, r)
                        if w is not None:
                            n = name(rec[x], path)
                            if len(fields[n]) < 40:
                                fields[n].append((rec[a:b], x - a, path, v, w))
                            elif r.random() < .1:
                                fields[n][r.randrange(40)] = (rec[a:b], x - a, path, v, w)
                k = b
        cases = []
        for n, c in sorted(fields.items()):
            small = [q for q in c if len(json.dumps(q[0])) < 60000] or c[:1]
            for ep, x, path, v, w in r.sample(small, min(per, len(small))):
                ep = copy.deepcopy(ep)
                p = path[:-1] if path[-1] == "#" else path
                put(ep[x], p, w)
                cases.append((n, ep, x, v, w))
        print("%d fields, %d falsifications" % (len(fields), len(cases)), flush=True)
        accepted, senseless = set(), 0
        with ThreadPoolExecutor(8) as pool:
            for acc, sl in pool.map(lambda k: ask(d, cases, range(k, min(k + 25, len(cases)))), range(0, len(cases), 25)):
                accepted |= acc
                senseless += sl
        print("%d rejected (%d of them because they cannot be evaluated), %d accepted" % (len(cases) - len(accepted), senseless, len(accepted)))
        by = defaultdict(list)
        for k in accepted:
            by[cases[k][0]].append(k)
        for n in sorted(by):
            k = by[n][0]
            print("%-50s %d of %d accepted, e.g. %s -> %s" % (n, len(by[n]), sum(c[0] == n for c in cases), str(cases[k][3])[:40], str(cases[k][4])[:40]))


main()
