"""C32: what stagedpipe-cli writes compiles and runs. Generated package paths and options; the oracle
is the Go toolchain and the output of the program."""
import sys, os, json, random, re, shutil, subprocess, time, hashlib
from concurrent.futures import ThreadPoolExecutor

KEYWORDS = set("break case chan const continue default defer else fallthrough for func go goto if import interface map package range return select struct switch type var".split())
# Names that the generated files use themselves, or that Go knows.
LOADED = ("sm context flag fmt log runtime stagedpipe err error string int any nil true false iota len make new append panic print bool "
          "pipeline rg req out done i ctx reqCtx reqCancel xsm parallelism pipelineErr main_ Data data_ NewSM NewRequest SM Item Start Close "
          "init NumCPU s x X T go1 internal cmd etl sql json http net os io std pipe pipelines v2 b1 mypipeline Pipeline_1 été ünï aVeryLongPackageNameThatIsStillAPackageName "
          "linux amd64 test windows unix cgo race").split()
FIRST = ["example.com", "github.com", "my-host.example.org", "zz.test", "a.b.c", "gopkg.in", "k8s.io", "x.y-z.dev"]
MID = ["johnsiilver", "some-thing", "under_score", "v2", "Upper", "a", "deep", "tools", "go-pipe.v3", "x1", "fmt", "context", "main", "1st", "cmd"]
CONSTRAINT = re.compile(r"_(test|aix|android|darwin|dragonfly|freebsd|hurd|illumos|ios|js|linux|nacl|netbsd|openbsd|plan9|solaris|wasip1|windows|zos|"
                        r"386|amd64|amd64p32|arm|armbe|arm64|arm64be|loong64|mips|mipsle|mips64|mips64le|mips64p32|mips64p32le|ppc|ppc64|ppc64le|"
                        r"riscv|riscv64|s390|s390x|sparc|sparc64|wasm)$")


def usable(n):
    return n.isidentifier() and n.isascii() and not n.startswith("_") and n not in KEYWORDS and n.lower() != "data" and n not in ("main", "vendor", "testdata", "internal") and not CONSTRAINT.search(n)


def generate(seed, n):
    r = random.Random("c32-%d" % seed)
    names = [x for x in dict.fromkeys(LOADED) if usable(x)]
    r.shuffle(names)
    out = []
    while len(out) < n:
        k = r.random()
        if names and k < 0.55:
            base = names.pop()
        else:
            base = "".join(r.choice("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789__") for _ in range(r.randint(1, 14)))
        if not usable(base):
            continue
        mod = [r.choice(FIRST)] + [r.choice(MID) for _ in range(r.randint(0, 3))]
        sub = [r.choice(MID) for _ in range(r.randint(0, 2))]
        if any(m == "main" for m in sub[-1:]):
            sub = []
        out.append({"base": base, "mod": "/".join(mod), "sub": "/".join(sub), "main": r.random() < 0.75,
                    "flags": r.randint(0, 3), "taken": r.choice(["", "", "", "", "dir", "file", "full"]) if r.random() < 0.6 else "",
                    "oldmain": r.random() < 0.3})
    return out


def findings(VERIF, prop):
    """The recorded defects: (package name that shows it, what fails)."""
    with open(os.path.join(VERIF, "known-findings.txt")) as f:
        return re.findall(r"(?m)^known: property=%s case=(\S+) (.*)$" % prop, f.read())


class Env:
    def __init__(self, tmp, VERIF, REPO, GO, goenv):
        self.tmp, self.REPO, self.GO, self.n = tmp, REPO, GO, 0
        self.env = goenv({"HOME": tmp})
        self.cli = os.path.join(tmp, "stagedpipe-cli")
        r = subprocess.run([GO, "build", "-o", self.cli, "./pipelines/stagedpipe/tools/stagedpipe-cli"], cwd=REPO,
                           env={**self.env, "GOFLAGS": "-mod=readonly"}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        self.build_err = r.stdout if r.returncode else None
        mod = open(os.path.join(REPO, "go.mod")).read()
        self.gomod = re.sub(r"(?m)^module .*$", "module @@", mod, count=1) + \
            "\nrequire github.com/gostdlib/concurrency v0.0.0\nreplace github.com/gostdlib/concurrency => %s\n" % REPO
        self.gosum = open(os.path.join(REPO, "go.sum")).read()

    def run(self, cmd, cwd, to=120, **more):
        try:
            r = subprocess.run(cmd, cwd=cwd, env={**self.env, **more}, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=to, stdin=subprocess.DEVNULL)
            return r.returncode, r.stdout, r.stderr
        except subprocess.TimeoutExpired as x:
            return None, "", "no result within %d s" % to


def snap(d):
    res = {}
    for root, dirs, files in os.walk(d):
        for x in dirs:
            res[os.path.relpath(os.path.join(root, x), d) + "/"] = None
        for x in files:
            res[os.path.relpath(os.path.join(root, x), d)] = open(os.path.join(root, x), "rb").read()
    return res


def one(E, c, idx):
    """None if the case holds, otherwise what failed."""
    top = os.path.join(E.tmp, "c%d" % idx)
    d = os.path.join(top, c["sub"]) if c["sub"] else top
    os.makedirs(d)
    try:
        open(os.path.join(top, "go.mod"), "w").write(E.gomod.replace("module @@", "module " + c["mod"], 1))
        open(os.path.join(top, "go.sum"), "w").write(E.gosum)
        full = "/".join(x for x in (c["mod"], c["sub"], c["base"]) if x)
        own = b"// mine\npackage main\n"
        if c["oldmain"] and (not c["main"] or c["taken"]):
            open(os.path.join(d, "main.go"), "wb").write(own)
        p = os.path.join(d, c["base"])
        if c["taken"] in ("dir", "full"):
            os.mkdir(p)
        if c["taken"] == "full":
            open(os.path.join(p, "data.go"), "w").write("// mine\npackage x\n")
            open(os.path.join(p, c["base"] + ".go"), "w").write("// mine too\npackage x\n")
        if c["taken"] == "file":
            open(p, "w").write("mine")
        before = snap(top)
        cmd = [E.cli, "init"]
        pf = (["-p", full], ["--pkg", full], ["--pkg=" + full], ["-p=" + full])[c["flags"]]
        mf = [("-m", "--createMain", "-m=true", "--createMain=true")[c["flags"]]] if c["main"] else []
        cmd += pf + mf if c["flags"] % 2 else mf + pf
        rc, out, err = E.run(cmd, d)
        after = snap(top)
        rel = (c["sub"] + "/" if c["sub"] else "")
        if c["taken"]:
            if rc == 0:
                return "the package's name was taken (%s), and the command did not fail" % c["taken"]
            if after != before:
                return "the command failed and changed files: %s" % sorted(k for k in set(after) | set(before) if after.get(k, 1) != before.get(k, 1))
            return None
        if rc != 0:
            return "the command failed (%s): %s" % (rc, (out + err)[-600:])
        for k in before:
            if after.get(k, 1) != before[k]:
                return "the command changed %s" % k
        want = {rel + c["base"] + "/", rel + c["base"] + "/data.go", rel + c["base"] + "/" + c["base"] + ".go"}
        if c["main"]:
            want.add(rel + "main.go")
        new = set(after) - set(before)
        if new != want:
            return "the command wrote %s, expected %s" % (sorted(new), sorted(want))
        if not c["main"]:
            rc, out, err = E.run([E.GO, "build", "./" + c["base"]], d)
            if rc is None:
                raise RuntimeError(err)
            if rc != 0:
                return "the package does not compile: " + (out + err)[-1200:]
            return None
        binary = os.path.join(top, "zzbin")
        rc, out, err = E.run([E.GO, "build", "-o", binary, "."], d)
        if rc is None:
            raise RuntimeError(err)
        if rc != 0:
            return "the program does not compile: " + (out + err)[-1200:]
        # With as many goroutines at once as there are processors, and with few.
        for procs in (8, 1, 2, 8, 1, 3):
            rc, out, err = E.run([binary], d, GOMAXPROCS=str(procs))
            lines = out.split("\n")
            if rc != 0 or sorted(lines[:10]) != [str(i) for i in range(10)] or lines[10:] != ["pipeline ran successfully", ""]:
                return "the program ended with %s and printed %r %r" % (rc, out[-600:], err[-600:])
        return None
    finally:
        shutil.rmtree(top, ignore_errors=True)


def shrink(E, c, end):
    msg, tried, idx = None, 0, 10 ** 6
    changed = True
    while changed and time.time() < end:
        changed = False
        cands = []
        for k, v in (("sub", ""), ("mod", "a.b"), ("taken", ""), ("oldmain", False), ("main", False), ("flags", 0)):
            if c[k] != v:
                cands.append({**c, k: v})
        b = c["base"]
        for x in ["a"] + [b[:i] + b[i + 1:] for i in range(len(b))]:
            if x != b and len(x) <= len(b) and usable(x):
                cands.append({**c, "base": x})
        for x in cands:
            idx += 1
            tried += 1
            if time.time() > end:
                break
            m = one(E, x, idx)
            if m:
                c, msg, changed = x, m, True
                break
    return c, msg, tried


def main(prop, tier, seed, tmp, rp, VERIF, REPO, GO, goenv):
    t0 = time.time()
    E = Env(tmp, VERIF, REPO, GO, goenv)
    if E.build_err:
        print("check error: cannot build stagedpipe-cli:", E.build_err, file=sys.stderr)
        return 2
    if rp:
        c = json.load(open(rp))["case"]
        m = one(E, c, 0)
        if m:
            print(m)
            print("VIOLATION property=%s replay=%s" % (prop, rp))
            return 1
        print("the recorded case passes")
        return 0
    cases = generate(seed, 160 if tier == "quick" else 1600)
    cap = t0 + (120 if tier == "quick" else 1500)
    first = one(E, cases[0], 0)  # fills the build cache
    fails, done = [], 1
    if first:
        fails.append((0, cases[0], first))

    def work(i):
        if fails or time.time() > cap:
            return False
        m = one(E, cases[i], i)
        if m:
            fails.append((i, cases[i], m))
        return True

    with ThreadPoolExecutor(8) as ex:
        done += sum(ex.map(work, range(1, len(cases))))
    rc, viol = 0, 0
    if fails:
        viol, rc = 1, 1
        i, c, m = min(fails, key=lambda f: f[0])
        c2, m2, tried = shrink(E, c, time.time() + 40)
        m = m2 or m
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s.json" % (prop, hashlib.sha1(json.dumps(c2, sort_keys=True).encode()).hexdigest()[:10]))
        json.dump({"property": prop, "message": m, "case": c2, "original_case": c, "shrink_candidates_tried": tried}, open(path, "w"), indent=1)
        print("case: " + json.dumps(c2))
        print(m)
        print("VIOLATION property=%s replay=%s" % (prop, path))
    known = []
    if not fails:
        for base, what in findings(VERIF, prop):
            c = {"base": base, "mod": "a.b", "sub": "", "main": True, "flags": 0, "taken": "", "oldmain": False}
            if one(E, c, 10 ** 7):
                known.append(what)
                print("KNOWN-FINDING: property=%s %s" % (prop, what))
    cls = {}
    for c in cases[:done]:
        for k in (["with main.go"] if c["main"] else ["package only"]) + (["name taken: " + c["taken"]] if c["taken"] else []) + \
                (["name known to the template or to Go"] if c["base"] in LOADED else ["random name"]):
            cls[k] = cls.get(k, 0) + 1
    nt = {(c["base"], c["main"], c["taken"]) for c in cases[:done]}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": {
        "evaluations": done, "distinct_nontrivial": len(nt),
        "rule": "a package path with a base name that Go accepts as a package name (half of them names that the templates or Go use themselves), options, and what is in the way; non-trivial is every case in which the command was run and its files were built and run or, with the name taken, compared; distinct by base name, -m and what is in the way",
        "samples": cases[:6], "classes": cls, "known_findings_seen": known},
        "assumptions": ["the Go toolchain decides whether the written program compiles"],
        "wall_s": round(time.time() - t0, 2), "violations": viol}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    return rc
