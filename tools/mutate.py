#!/usr/bin/env python3
"""mutate.py OUT [file-regex] [-j N]: how many single-token changes of /repo/src do the checks notice?

Not part of any check.  Mutants are made and judged in scratch copies under /tmp/mw.*; a mutant counts when it
compiles and passes the stable tests.  OUT gets one JSON line per such mutant: {file, line, old, new, result}.
"""
import importlib.machinery, importlib.util, json, os, random, re, shutil, subprocess, sys, threading, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ld = importlib.machinery.SourceFileLoader("check", os.path.join(ROOT, "bin", "check"))
check = importlib.util.module_from_spec(importlib.util.spec_from_loader("check", ld))
ld.exec_module(check)
gen, models = check.gen, check.models

SUBS = [(r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / ", " + "]), (r" / ", [" * "]), (r" % ", [" / "]),
        (r" \+= ", [" -= ", " = "]), (r" -= ", [" += ", " = "]), (r" \*= ", [" = "]), (r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > "]),
        (r" == ", [" != "]), (r" != ", [" == "]), (r" && ", [" || "]), (r" \|\| ", [" && "]), (r"\.max\(", [".min("]), (r"\.min\(", [".max("]),
        (r"\.any\(", [".all("]), (r"\.all\(", [".any("]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
        (r"\b1e-(\d)\b", ["1e-2", "1e-12"]), (r"(?<![\w.])(\d+)\.0\b", ["{}+1", "0.0", "-{}"]), (r"(?<![\w.])(\d+)(?![\w.])", ["{}+1i", "0"]),
        (r"\.\.=", [".."]), (r"(?<=[\w)])\.\.(?=[\w(])", ["..="]), (r"\.iter\(\)", [".iter().skip(1)", ".iter().take(7)"]),
        (r"\.into_iter\(\)", [".into_iter().skip(1)", ".into_iter().take(7)"]), (r"\.values\(\)", [".values().take(7)"]), (r"\.abs\(\)", [""]), (r"\.sqrt\(\)", [""]),
        (r"\.powi\(2\)", [".powi(3)", ""]), (r"\.floor\(\)", [".ceil()", ".trunc()", ".round()"]), (r"\.exp\(\)", [".exp2()"]), (r"\.cos\(\)", [".sin()"]),
        (r"div_euclid", ["wrapping_div"]), (r"\bself\.(beta1)\b", ["self.beta2"]), (r"\bself\.(beta2)\b", ["self.beta1"]), (r"-(?=[a-z(])", [""]), (r"!(?=[a-z])", [""]),
        (r"^(\s+)(?!let|return|use|//)(\S.*);$", [r"\1();"]), (r"\.rev\(\)", [""]), (r"\.clone\(\)", [".clone().into()"]), (r" \+ 1\b", [""]), (r" - 1\b", [""])]


def mutants(pattern):
    out = []
    src = os.path.join("/repo", "src")
    for d, _, fs in os.walk(src):
        for f in sorted(fs):
            p = os.path.join(d, f)
            rel = os.path.relpath(p, "/repo")
            if f == "ifdd.rs" or not re.search(pattern, rel):
                continue
            lines = open(p).read().split("\n")
            for k, line in enumerate(lines):
                if "mod tests" in line:
                    break
                if re.match(r"\s*(//|#|use |pub use|extern|\*)", line) or "fn " in line and "=>" not in line and "{" not in line:
                    continue
                code = line.split("//")[0]
                for pat, subs in SUBS:
                    for m in re.finditer(pat, code):
                        for s in subs:
                            if s == r"\1();":
                                new = m.group(1) + "();"
                            elif s == "{}+1":
                                new = "%d.0" % (int(m.group(1)) + 1)
                            elif s == "{}+1i":
                                new = str(int(m.group(1)) + 1)
                            elif s == "-{}":
                                new = "-%s.0" % m.group(1)
                            else:
                                new = s
                            if new != m.group(0):
                                out.append((rel, k, code[:m.start()] + new + code[m.end():], line))
    return sorted(set(out))


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


GROUPS = [(r"src/features", ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C23"]), (r"src/basis", ["C08", "C09", "C10", "C11", "C12", "C13", "C14", "C20"]),
          (r"src/optim", ["C16", "C17", "C22", "C21", "C20", "C15", "C18", "C19"]), (r"src/(lib|error|utils|macros)", ["C15", "C19", "C18", "C20", "C08", "C21"])]


def prepare(work):
    files = {}
    for p in sorted({p for _, ps in GROUPS for p in ps}):
        eps = []
        for m in models.of(p, "quick"):
            if not m.refuted:
                _, out, _, _ = check.tlc(work, m.name + p, m.module, m.cfg)
                eps += check.emitted(out)
        random.Random(1).shuffle(eps)
        eps = eps[:3000] + gen.scenarios(p, 1, "quick")
        files[p] = eps
    return files


class Worker(threading.Thread):
    def __init__(self, k, todo, files, out, lock):
        super().__init__()
        self.k, self.todo, self.files, self.out, self.lock = k, todo, files, out, lock
        self.w = "/tmp/mw.%d" % k
        shutil.rmtree(self.w, ignore_errors=True)
        os.makedirs(self.w)
        sh("cp -a /repo %s/repo" % self.w)
        sh("cp -a %s/harness %s/harness" % (ROOT, self.w))
        sh("sed -i 's#/repo#%s/repo#' %s/harness/Cargo.toml" % (self.w, self.w))

    def judge(self, m):
        rel, k, new, old = m
        p = os.path.join(self.w, "repo", rel)
        src = open(p).read()
        lines = src.split("\n")
        if lines[k] != old:
            return "stale"
        lines[k] = new
        open(p, "w").write("\n".join(lines))
        try:
            env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1")
            r = sh("timeout 120 cargo test --workspace --offline --no-fail-fast -- --test-threads 4 2>&1", cwd=self.w + "/repo", env=env)
            if "error: could not compile" in r.stdout:
                return "build"
            ok = len(re.findall(r" \.\.\. ok", r.stdout))
            if ok < NOK:
                return "tests"
            r = sh("cargo build --offline --locked --quiet", cwd=self.w + "/harness", env=dict(env, CARGO_TARGET_DIR=self.w + "/target"))
            if r.returncode:
                return "harness build"
            binary = self.w + "/target/debug/lfa-conformance"
            for pat, props in GROUPS:
                if re.search(pat, rel):
                    for q in props:
                        v = self.one(q, binary)
                        if v:
                            return q + " " + v
            return "SURVIVED"
        finally:
            open(p, "w").write(src)

    def one(self, q, binary):
        eps = self.files[q]
        scn, trc = self.w + "/s.jsonl", self.w + "/t.jsonl"
        with open(scn, "w") as f:
            for ep in eps:
                f.writelines(json.dumps(c) + "\n" for c in ep)
        try:
            if check.execute(binary, scn, trc, 100):
                return "died"
        except check.Broken:
            return "broken"
        log, meta = self.w + "/v.tlc", self.w + "/meta"
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss64m", "-Xmx5g", "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:lfa.NumOverrides", "-cp", check.CP,
               "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta, "-workers", "2", "-config", "Trace.cfg", "Trace.tla"]
        r = subprocess.run(cmd, cwd=check.SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, TRACE=trc))
        shutil.rmtree(meta, ignore_errors=True)
        if r.returncode == 0:
            return "known" if any(not (a == "C19" or a == "C20") for a, _, _ in check.known_prints(r.stdout)) else None
        return "rejected" if r.returncode == 11 else "tlc %d" % r.returncode

    def run(self):
        while True:
            with self.lock:
                if not self.todo:
                    return
                m = self.todo.pop()
            t = time.time()
            try:
                res = self.judge(m)
            except Exception as e:
                res = "exception %r" % e
            with self.lock:
                self.out.write(json.dumps({"file": m[0], "line": m[1] + 1, "old": m[3].strip(), "new": m[2].strip(), "result": res, "s": round(time.time() - t)}) + "\n")
                self.out.flush()


if __name__ == "__main__":
    pat = sys.argv[2] if len(sys.argv) > 2 else "."
    n = int(sys.argv[sys.argv.index("-j") + 1]) if "-j" in sys.argv else 4
    os.makedirs("/tmp/mw", exist_ok=True)
    check.build()
    files = prepare("/tmp/mw")
    ms = mutants(pat)
    done = set()
    if os.path.exists(sys.argv[1]):
        done = {(e["file"], e["line"], e["new"]) for e in map(json.loads, open(sys.argv[1]))}
    ms = [m for m in ms if (m[0], m[1] + 1, m[2].strip()) not in done]
    random.Random(2).shuffle(ms)
    table = [m for m in ms if "cpfk" in m[0]]
    ms = [m for m in ms if "cpfk" not in m[0]] + table[:25]         # (a table of numbers)
    random.Random(3).shuffle(ms)
    print(len(ms), "mutants", {p: sum(map(len, e)) for p, e in files.items()}, flush=True)
    w0 = "/tmp/mw/base"
    shutil.rmtree(w0, ignore_errors=True)
    sh("cp -a /repo " + w0)
    NOK = len(re.findall(r" \.\.\. ok", sh("cargo test --workspace --offline --no-fail-fast 2>&1", cwd=w0).stdout))
    print("tests that pass:", NOK, flush=True)
    with open(sys.argv[1], "a") as out:
        lock = threading.Lock()
        ws = [Worker(k, ms, files, out, lock) for k in range(n)]
        for w in ws:
            w.start()
        for w in ws:
            w.join()
