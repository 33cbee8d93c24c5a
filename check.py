#!/usr/bin/env python3
"""Build what one property needs from /repo's working tree, run its parts and
write the evidence.  usage: check.py ID [--tier T] [--seed N] [--replay FILE]"""
import concurrent.futures, glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MFAST_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
JOBS = 8
sys.path.insert(0, os.path.join(VERIF, "tools"))

BASE = ["-std=c++14", "-g1", "-w", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-DSIZEOF_VOID_P=8",
        "-DMFAST_STATIC_DEFINE", "-DMFAST_CODER_STATIC_DEFINE", "-DMFAST_XML_PARSER_STATIC_DEFINE",
        "-DMFAST_JSON_STATIC_DEFINE", "-DMFAST_SQLITE3_STATIC_DEFINE"]
ASAN = ["-fsanitize=address"]

MODULES = {
    "core": ["src/mfast/*.cpp", "src/mfast/instructions/*.cpp"],
    "coder": ["src/mfast/coder/common/*.cpp", "src/mfast/coder/decoder/*.cpp", "src/mfast/coder/encoder/*.cpp"],
    "coder2": ["src/mfast/coder/encoder_v2/*.cpp", "src/mfast/coder/decoder_v2/*.cpp"],
    "xml": ["src/mfast/xml_parser/*.cpp"],
    "json": ["src/mfast/json/*.cpp"],
    "sqlite": ["src/mfast/sqlite3/*.cpp"],
    "gen": ["src/fast_type_gen/*.cpp"],
}

from check_config import EXES, PROPS, ASSUME

QUICK_S = 40      # safety limit per part; the case counts are chosen to stay well below it
THOROUGH_S = 400

class BuildError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


_hdr = {}


def headers(root, exts=(".h", ".inl")):
    if root not in _hdr:
        h = hashlib.sha256()
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(exts):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, root).encode())
                    h.update(read(p))
        _hdr[root] = h.hexdigest()
    return _hdr[root]


class Objs:
    """compiles translation units in parallel, with a content-addressed cache"""

    def __init__(self):
        os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
        self.pool = concurrent.futures.ThreadPoolExecutor(JOBS)
        self.fut = {}
        self.order = []

    def add(self, src, flags, hdrkey, what):
        key = digest(read(src), " ".join(flags), hdrkey, src)
        out = os.path.join(BUILD, "obj", key + ".o")
        if key not in self.fut:
            self.fut[key] = self.pool.submit(self._compile, src, flags, out, what)
        return (out, self.fut[key])

    def _compile(self, src, flags, out, what):
        if os.path.exists(out):
            return None
        tmp = out + ".%d.tmp" % os.getpid()
        r = sh(["g++"] + flags + ["-c", src, "-o", tmp])
        if r.returncode:
            return "%s: cannot compile %s\n%s" % (what, src, r.stdout[-4000:])
        os.rename(tmp, out)
        return None


def wait(items):
    outs = []
    for out, fut in items:
        e = fut.result()
        if e:
            raise BuildError(e)
        outs.append(out)
    return outs


OBJS = None


def objs():
    global OBJS
    if OBJS is None:
        OBJS = Objs()
    return OBJS


def variant_flags(variant):
    f = list(BASE)
    if "xetra" in variant:
        f += ["-DXETRA_FAST_SPECIFICATION"]
    if "noasan" not in variant:
        f += ASAN
    return f


def lib_items(mods, variant=(), opt="-O1"):
    flags = variant_flags(variant) + [opt, "-I" + REPO + "/src"]
    hk = headers(REPO + "/src")
    items = []
    for m in mods:
        for pat in MODULES[m]:
            for src in sorted(glob.glob(os.path.join(REPO, pat))):
                items.append(objs().add(src, flags, hk, "library"))
    return items


def harness_items(srcs, variant=(), opt="-O1", extra=()):
    flags = variant_flags(variant) + [opt, "-I" + REPO + "/src", "-I" + VERIF + "/harness"] + list(extra)
    hk = headers(REPO + "/src") + headers(VERIF + "/harness")
    return [objs().add(os.path.join(VERIF, "harness", s), flags, hk, "harness") for s in srcs]


def link(name, outs, variant=(), libs=("-ltinyxml2", "-lsqlite3")):
    exe = os.path.join(BUILD, "%s-%s" % (name, digest(*outs, *variant)))
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        r = sh(["g++"] + ([] if "noasan" in variant else ASAN) + outs + list(libs) + ["-pthread", "-o", tmp])
        if r.returncode:
            raise BuildError("cannot link %s\n%s" % (name, r.stdout[-4000:]))
        os.rename(tmp, exe)
    return exe


def start_exe(name):
    c = EXES[name]
    v = tuple(c.get("variant", ()))
    return (name, c, v, harness_items(c["src"] + ["pbt.cpp"], v, extra=c.get("flags", ())) + lib_items(c["mod"], v))


def finish_exe(st):
    name, c, v, items = st
    return link(name, wait(items), v)


def load_known():
    kn = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line.strip())
            if m:
                kn[(m.group(1), m.group(2))] = m.group(3)
    return kn


def env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=0:max_allocation_size_mb=3000:" \
                        "detect_stack_use_after_return=0:handle_abort=1:symbolize=1"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1"
    return e


def main():
    args = sys.argv[1:]
    pid = args.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    replay = None
    only = None
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--seed":
            seed = int(args.pop(0))
        elif a == "--replay":
            replay = args.pop(0)
        elif a == "--part":
            only = args.pop(0)
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    parts = PROPS[pid]
    if only:
        parts = [p for p in parts if p[1] == only]
    work = os.path.join(BUILD, "work-%s-%d" % (pid, os.getpid()))
    os.makedirs(work, exist_ok=True)
    code = 2
    try:
        code = run(pid, tier, seed, parts, work, t0, replay)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)


def replay_dir(pid):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    return d


def build_parts(parts, seed, tier):
    """executables for the parts: {name: path or BuildError}"""
    names = []
    for p in parts:
        if p[0] not in names:
            names.append(p[0])
    import v2build
    plain = [n for n in names if "special" not in EXES[n]]
    started = {n: start_exe(n) for n in plain}
    exes = {}
    for n in names:
        if n in started:
            exes[n] = finish_exe(started[n])
        else:
            fn = v2build.build if EXES[n]["special"] == "v2" else v2build.build_docs
            exes[n] = fn(sys.modules[__name__], n, EXES[n], seed, tier)
    return exes


def run(pid, tier, seed, parts, work, t0, replay):
    known = load_known()
    violations = []  # (message, replay path)
    try:
        exes = build_parts(parts, seed, tier)
    except BuildError as e:
        print(str(e))
        print("BUILD-ERROR: the check could not be built")
        return 2
    except Exception as e:
        if e.__class__.__name__ != "GenViolation":
            raise
        # generated code that does not compile, or a generator that crashes
        path = os.path.join(replay_dir(pid), "%s-generated.txt" % pid)
        with open(path, "w") as f:
            f.write(str(e))
        print(str(e)[:3000])
        write_evidence(pid, tier, seed, [], t0, 1, e.samples)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if replay:
        txt = open(replay).read()
        m = re.search(r"^property-part: (\S+)", txt, re.M)
        for exe, part in parts:
            if m and part == m.group(1):
                r = subprocess.run([exes[exe], "--prop", part, "--replay", replay, "--tmp", work], env=env())
                return 1 if r.returncode else 0
        print("no such part")
        return 2
    build_s = time.time() - t0
    stats = []
    errors = []
    for exe, part in parts:
        sf = os.path.join(work, part + ".json")
        rf = os.path.join(replay_dir(pid), "%s-%s-seed%d.txt" % (pid, part, seed))
        if os.path.exists(rf):
            os.unlink(rf)
        lim = QUICK_S if tier == "quick" else THOROUGH_S
        for attempt in range(3):
            cmd = [exes[exe], "--prop", part, "--seed", str(seed), "--tier", tier, "--workers", str(JOBS), "--max-seconds",
                   str(lim), "--stats", sf, "--replay-out", rf, "--tmp", os.path.join(work, "t")]
            r = sh(cmd, env=env())
            if r.returncode != 3:
                break
        print(r.stdout.rstrip()[:6000])
        if r.returncode == 3:
            # fails each time inside a run of many cases, but not on its own
            with open(rf, "w") as f:
                f.write("property-part: %s\nfails in a run of the whole part (seed %d), three times out of three, but not as a "
                        "case of its own\n%s\ncommand: %s\n" % (part, seed, r.stdout, " ".join(cmd)))
            violations.append((r.stdout, rf))
        elif r.returncode == 1:
            violations.append((r.stdout, rf))
        elif r.returncode != 0:
            errors.append("part %s ended with status %d" % (part, r.returncode))
        if os.path.exists(sf):
            stats.append(json.load(open(sf)))
    for s in stats:
        for k in list(s["known"]):
            if (pid, k) in known:
                print("KNOWN-FINDING: property=%s id=%s %s" % (pid, k, known[(pid, k)]))
            else:
                rf = os.path.join(replay_dir(pid), "%s-%s-%s.txt" % (pid, s["part"], k))
                with open(rf, "w") as f:
                    f.write("property-part: %s\nfinding %s is not listed in known_findings.txt\n" % (s["part"], k))
                violations.append(("unlisted finding " + k, rf))
    write_evidence(pid, tier, seed, stats, t0, len(violations), [], build_s)
    for m, p in violations:
        print("VIOLATION property=%s replay=%s" % (pid, p))
    if violations:
        return 1
    if errors:
        print("\n".join(errors))
        return 2
    return 0


def write_evidence(pid, tier, seed, stats, t0, nviol, samples, build_s=0.0):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rules = []
    labels = {}
    known = {}
    for s in stats:
        if s["rule"] not in rules:
            rules.append(s["rule"])
        for k, v in s["labels"].items():
            labels[s["part"] + ": " + k] = v
        known.update(s["known"])
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(s["cases"] for s in stats),
            "distinct_nontrivial": sum(s["distinct_nontrivial"] for s in stats),
            "rule": " || ".join(rules) or "none run",
            "samples": ([x for s in stats for x in s["samples"][:1]] + samples) or ["none"],
            "steps_inside_the_evaluations": sum(s["evaluations"] for s in stats),
            "distribution": labels,
            "parts": [{"part": s["part"], "cases": s["cases"], "planned": s["planned"], "nontrivial": s["nontrivial"],
                       "skipped": s["skipped"], "wall_s": s["wall_s"]} for s in stats],
            "known_findings_seen": known,
        },
        "assumptions": ASSUME.get(pid, []),
        "build_s": round(build_s, 2),
        "wall_s": round(time.time() - t0, 2),
        "violations": nviol,
    }
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
