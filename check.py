#!/usr/bin/env python3
"""Runs one property's check against the code in /repo's working tree.

usage: check.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]

Builds the harness together with the repository's packages into a scratch
directory, runs it, and maps its outcome: exit 0 held, exit 1 with a VIOLATION
line, anything else is an error of the check.
"""
import argparse, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
MODULE = "github.com/superwhiskers/crunch"

# build variants each property needs, beyond the plain one
VARIANTS = {
    "P01": ["race"], "P02": ["sched"], "P03": ["sched", "race"], "P04": ["race"],
    "G01": ["regen"], "G02": ["gen"], "G03": ["gen", "shuffled"], "G04": ["gen"],
    "A01": ["asan", "checkptr"], "A02": ["386"],
}
LIMIT = {"quick": 840, "thorough": 6 * 3600}


def env(scratch, **more):
    e = dict(os.environ)
    for k in ("GOFLAGS", "GORACE", "GOOS", "GOARCH", "GOEXPERIMENT", "GODEBUG", "GOTRACEBACK"):
        e.pop(k, None)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOWORK=os.path.join(scratch, "go.work"), GOFLAGS="", GONOSUMDB="*", GONOSUMCHECK="1", GOSUMDB="off")
    e.update(more)
    return e


def die(msg, code=2):
    print(msg)
    sys.exit(code)


def run(cmd, cwd, e, timeout=800):
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
    return p.returncode, p.stdout


def work(scratch, uses):
    with open(os.path.join(scratch, "go.work"), "w") as f:
        f.write("go 1.27\n\nuse (\n" + "".join("\t%s\n" % u for u in uses) + ")\n")


def build(scratch, name, uses, flags=(), **envs):
    d = os.path.join(scratch, "w-" + name)
    os.makedirs(d, exist_ok=True)
    work(d, uses)
    out = os.path.join(scratch, "h-" + name)
    rc, txt = run(["go", "build", "-buildvcs=false", "-o", out, *flags, "."], os.path.join(HERE, "harness"), env(d, **envs))
    if rc != 0:
        return None, txt
    return out, txt


def strict_checkptr(scratch):
    """The runtime's pointer checks, with alignment required of every type and failures that can be caught."""
    root = subprocess.run(["go", "env", "GOROOT"], cwd=scratch, env=env(scratch, GOWORK="off"), stdout=subprocess.PIPE, text=True, check=True).stdout.strip()
    src = os.path.join(root, "src", "runtime", "checkptr.go")
    t = open(src).read()
    t, n = re.subn(r"elem\.Pointers\(\) && ", "", t)
    t, k = re.subn(r'throw\(("checkptr: [^"]*")\)', r"panic(plainError(\1))", t)
    if n != 1 or k != 4:
        die("the runtime's checkptr.go is not as expected")
    out = os.path.join(scratch, "checkptr.go")
    open(out, "w").write(t)
    ov = os.path.join(scratch, "overlay.json")
    json.dump({"Replace": {src: out}}, open(ov, "w"))
    return ov


def build_generator(scratch):
    """The generator has its own module with a dependency of its own."""
    out = os.path.join(scratch, "generation")
    d = os.path.join(scratch, "w-gen")
    os.makedirs(d, exist_ok=True)
    for f in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(REPO, "generation", f), os.path.join(d, f))
    rc, txt = run(["go", "build", "-buildvcs=false", "-modfile", os.path.join(d, "go.mod"), "-o", out, "."], os.path.join(REPO, "generation"), env(d, GOWORK="off", GOFLAGS="-mod=mod"))
    if rc != 0:
        die("the generator does not build:\n" + txt)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--setup", action="store_true", help="only see that the tools are there and warm the build cache")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.tier not in LIMIT:
        a.tier = "quick"
    if not re.fullmatch(r"\d+", a.seed):
        a.seed = str(abs(hash(a.seed)) % (1 << 62))
    if a.setup:
        return setup()
    if not a.property:
        ap.error("no property")
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % a.property)
    code = 2
    try:
        code = check(a, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)


def setup():
    scratch = tempfile.mkdtemp(prefix="verif-setup-")
    try:
        for name, flags, envs in (("plain", [], {}), ("race", ["-race"], {"CGO_ENABLED": "1"})):
            b, txt = build(scratch, name, [os.path.join(HERE, "harness")] + [os.path.join(REPO, v) for v in ("v1", "v2", "v3")], flags, **envs)
            if b is None:
                die("%s build failed:\n%s" % (name, txt))
        build_generator(scratch)
        print("tools present, harness builds")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def check(a, scratch):
    prop = a.property
    harness = os.path.join(HERE, "harness")
    base = [harness] + [os.path.join(REPO, v) for v in ("v1", "v2", "v3")]
    bins = {}
    plain, txt = build(scratch, "plain", base)
    if plain is None:
        die("the harness does not build against the repository:\n" + txt)
    main_bin = plain
    for v in VARIANTS.get(prop, []):
        if v == "race":
            b, txt = build(scratch, v, base, ["-race"], CGO_ENABLED="1")
        elif v == "asan":
            b, txt = build(scratch, v, base, ["-asan"], CGO_ENABLED="1")
        elif v == "checkptr":
            b, txt = build(scratch, v, base, ["-overlay", strict_checkptr(scratch), "-gcflags=%s/...=-d=checkptr=2" % MODULE, "-gcflags=verif.local/...=-d=checkptr=2"])
        elif v == "386":
            b, txt = build(scratch, v, base, [], GOARCH="386", CGO_ENABLED="0")
        elif v == "gen":
            b, txt = build_generator(scratch), ""
        elif v == "regen":
            bins["gen"] = build_generator(scratch)
            bins["regendir"] = os.path.join(scratch, "regen")
            b, txt = regen(scratch, bins["gen"], base)
            if b is None:
                return violation(a, "the regenerated third version does not compile or does not offer the interface the shipped one does\n" + txt)
            main_bin = b
        elif v == "shuffled":
            b, txt = regen(scratch, bins["gen"], base, shuffle=int(a.seed), plain=plain)
            if b is None:
                return violation(a, "expansions of supported directives do not compile when used elsewhere in the templates\n" + txt)
            main_bin = b
        elif v == "sched":
            b, txt = sched(scratch, plain, base)
            if b is None:
                print("controlled scheduling is not available for this tree:", txt.strip()[:2000])
                continue
        else:
            die("no build variant " + v)
        if b is None:
            die("build variant %s failed:\n%s" % (v, txt))
        bins[v] = b
    cmd = [main_bin, "-prop", prop, "-tier", a.tier, "-seed", a.seed, "-repo", REPO, "-scratch", scratch,
           "-evidence", os.path.join(HERE, "evidence", prop + ".json"), "-replays", os.path.join(HERE, "replays"),
           "-known", os.path.join(HERE, "known_findings.txt"), "-bin", ",".join("%s=%s" % kv for kv in bins.items())]
    if a.replay:
        cmd += ["-replay", a.replay]
    out = os.path.join(scratch, "out")
    e = env(scratch)
    e["GOTRACEBACK"] = "all"
    if prop == "M02":
        e["GODEBUG"] = "clobberfree=1"  # memory that is freed is overwritten
    with open(out, "w") as f:
        p = subprocess.Popen(cmd, cwd=scratch, env=e, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            rc = p.wait(timeout=LIMIT[a.tier])
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            print(open(out, errors="replace").read()[-4000:])
            print("inconclusive: the run did not end in time")
            return 2
    txt = open(out, errors="replace").read()
    if rc in (0, 1):
        sys.stdout.write(txt)
        return rc
    crash = crash_in_crunch(txt)
    if crash:
        return violation(a, crash)
    print(txt[:6000])
    print("the check ended with status", rc)
    return 2


def crash_in_crunch(txt):
    """A run that died: was it inside the code under test?"""
    m = re.search(r"^(fatal error: .*|panic: .*|unexpected fault address.*|SIG\w+: .*|.*ERROR: AddressSanitizer.*|runtime: goroutine stack exceeds.*)$", txt, re.M)
    if not m:
        return None
    # the first goroutine printed is the one that died
    rest = txt[m.start():]
    first = re.search(r"^goroutine \d+.*?(?=^\s*$\n^goroutine |\Z)", rest, re.M | re.S)
    trace = first.group(0) if first else rest[:6000]
    if not re.search(re.escape(MODULE) + r"/v\d|regen\.local/crunch|sched\.local/", trace + rest[:1500]):
        return None
    return "the process died inside the code under test: " + m.group(1) + "\n" + trace[:3000]


def violation(a, text):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d.json" % (a.property, os.getpid()))
    with open(path, "w") as f:
        json.dump({"Property": a.property, "Seed": int(a.seed), "Tier": a.tier, "Kind": "run", "Text": text}, f, indent=1)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", a.property + ".json"), "w") as f:
        json.dump({"property": a.property, "tier": a.tier, "seed": int(a.seed), "level": "exploration",
                   "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "the run itself", "samples": [text[:500]]},
                   "assumptions": [], "wall_s": time.process_time(), "violations": 1}, f, indent=1)
    print(text)
    print("VIOLATION property=%s replay=%s" % (a.property, path))
    return 1


def supported():
    return ["//generator:complex %s %s %s %s" % (r, d, y, e) for r in ("Buffer", "MiniBuffer") for d in ("Read", "Write")
            for y in ("U 16", "U 32", "U 64", "I 16", "I 32", "I 64", "F 32", "F 64") for e in ("LE", "BE")]


def shuffle_templates(d, seed):
    """Uses every supported directive once, somewhere else than the shipped templates do."""
    import random
    rnd = random.Random(seed)
    names = sorted(f for f in os.listdir(d) if f.startswith("_") and f.endswith(".go"))
    pkg = None
    sites = 0
    texts = {}
    for f in names:
        t = open(os.path.join(d, f), errors="surrogateescape").read()
        pkg = pkg or re.search(r"^package (\w+)", t, re.M).group(1)
        texts[f] = re.sub(r"^//generator:complex.*$", "//@site@", t, flags=re.M)
        sites += texts[f].count("//@site@")
    # a template of its own, with hand-written code between directives or not
    own = "package %s\n\n//@site@\n" % pkg
    k = 0
    while sites + own.count("//@site@") < len(supported()) + 12:
        if rnd.random() < 0.5:
            own += "func handWritten%d() int { return %d }\n" % (k, k)
        if rnd.random() < 0.5:
            own += "\n"
        own += "//@site@\n"
        k += 1
    texts["_verifown.go"] = own.rstrip("\n") if rnd.random() < 0.5 else own
    todo = supported()
    bad = ["//generator:complex Buffer Write F 16 LE", "//generator:complex Buf Write U 16 LE", "//generator:complex MiniBuffer read U 16 LE",
           "//generator:complex Buffer Read X 16 LE", "//generator:complex Buffer Read U 24 LE", "//generator:complex Buffer Read U 16 XE"]
    total = sum(t.count("//@site@") for t in texts.values())
    todo += [rnd.choice(bad) for _ in range(max(0, total - len(todo)))]
    rnd.shuffle(todo)
    while len(todo) > total:
        texts["_verifown.go"] += "\n//@site@"
        total += 1
    for f in sorted(texts):
        t = re.sub(r"^//@site@$", lambda m: todo.pop(), texts[f], flags=re.M)
        with open(os.path.join(d, f), "w", errors="surrogateescape") as h:
            h.write(t)


def regen(scratch, gen, base, shuffle=None, plain=None):
    """Regenerates the third version from its templates in a scratch copy."""
    d = os.path.join(scratch, "regen")
    os.makedirs(d)
    src = os.path.join(REPO, "v3")
    for f in os.listdir(src):
        if f.endswith(".go") and not f.endswith("_test.go") and not f.endswith(".generated.go"):
            shutil.copy(os.path.join(src, f), os.path.join(d, f))
    mod = open(os.path.join(src, "go.mod")).read()
    mod = re.sub(r"^module .*$", "module regen.local/crunch/v3", mod, flags=re.M)
    open(os.path.join(d, "go.mod"), "w").write(mod)
    if os.path.exists(os.path.join(src, "go.sum")):
        shutil.copy(os.path.join(src, "go.sum"), d)
    if shuffle is not None:
        shuffle_templates(d, shuffle)
    rc, txt = run([gen, "-directory", d, "-generation", "complex"], d, env(scratch))
    if rc != 0:
        return None, "the generator failed:\n" + txt
    if shuffle is not None:  # directives that moved have left imports unused
        run([plain, "-prop", "P02", "-mode", "fiximports", "-arg", d, "-repo", REPO], scratch, env(scratch))
    return build(scratch, "regen", base + [d], ["-tags", "regen"])


def sched(scratch, plain, base):
    """Copies v1 and v2 with scheduling points inserted, for controlled interleaving."""
    d = os.path.join(scratch, "sched")
    os.makedirs(d)
    for mode in ("instrument", "instrument-plain"):
        rc, txt = run([plain, "-prop", "P02", "-mode", mode, "-arg", d, "-repo", REPO], scratch, env(scratch))
        if rc != 0:
            return None, txt
        b, txt = build(scratch, "sched", base + [os.path.join(d, x) for x in ("v1", "v2", "point")], ["-tags", "sched"])
        if b:
            return b, txt
    return None, txt


if __name__ == "__main__":
    main()
