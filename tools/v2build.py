"""Builds the executables that contain generated types: fast_type_gen is built
from /repo, run on template files that depend on the seed, and its output is
compiled with the instantiation units of the generated codec."""
import os, glob, shutil, subprocess, tempfile

COUNT = {"quick": 12, "thorough": 24}


class GenViolation(Exception):
    def __init__(self, msg, owners, samples=()):
        Exception.__init__(self, msg)
        self.owners = owners
        self.samples = list(samples)


def build(ck, name, conf, seed, tier):
    n = COUNT[tier]
    variant = tuple(conf.get("variant", ()))
    owners = conf.get("owners", ("C18",))
    gen_items = ck.lib_items(["gen", "core", "xml"], variant, "-O1")
    coder = ck.lib_items([m for m in conf["mod"] if m not in ("core", "xml")], variant)
    corexml = ck.lib_items(["core", "xml"], variant)
    sg_items = ck.harness_items(["schemagen.cpp"], variant)
    drv = ck.harness_items(conf["src"] + ["pbt.cpp"], variant,
                           extra=["-DV2_SEED=%dull" % seed, "-DV2_COUNT=%d" % n] + list(conf.get("flags", ())))
    # coder/common is needed by fast_type_gen (template_repo.h)
    common = [i for i in ck.lib_items(["coder"], variant)]
    ftg = ck.link("fast_type_gen", ck.wait(gen_items + common), variant)
    sg = ck.link("schemagen", ck.wait(sg_items), variant, ())
    key = ck.digest(ck.read(__file__), ck.read(ftg), seed, n, ck.read(sg), *[ck.read(f) for f in sorted(glob.glob(conf_xml(ck, conf)))])
    d = os.path.join(ck.BUILD, "gen-" + key)
    if not os.path.exists(os.path.join(d, "done")):
        tmp = d + ".%d" % os.getpid()
        os.makedirs(tmp, exist_ok=True)
        subprocess.run([sg, str(seed), str(n), tmp], check=True)
        e = ck.env()
        for k in range(n):
            r = ck.sh([ftg, "s%d.xml" % k], cwd=tmp, env=e)
            if r.returncode or not os.path.exists(os.path.join(tmp, "s%d.cpp" % k)):
                xml = open(os.path.join(tmp, "s%d.xml" % k)).read()
                shutil.rmtree(tmp)
                raise GenViolation("fast_type_gen fails on\n%s\nstatus %d\n%s" % (xml, r.returncode, r.stdout[-3000:]), owners, [xml])
            with open(os.path.join(tmp, "i%d.cpp" % k), "w") as f:
                f.write('#include "s%d.h"\n#include "v2_inst.h"\nnamespace {\ntypedef s%d::templates_description D;\n'
                        'V2Encoder *enc() { return new V2EncT<D>(s%d::description()); }\n'
                        'V2Decoder *dec(mfast::allocator *a, unsigned n) {\n  if (n == 0) return new V2Dec0<D>(a, s%d::description());\n'
                        '  if (n == 1) return new V2DecN<D, 1>(a, s%d::description());\n'
                        '  return new V2DecN<D, 3>(a, s%d::description());\n}\n'
                        'struct R { R() { v2_add(V2Entry{%du, s%d::description(), enc, dec}); } } r;\n}\n' % ((k,) * 8))
        open(os.path.join(tmp, "done"), "w").close()
        try:
            os.rename(tmp, d)
        except OSError:
            shutil.rmtree(tmp)
    flags = ck.variant_flags(variant) + ["-O0", "-I" + ck.REPO + "/src", "-I" + ck.VERIF + "/harness", "-I" + d]
    hk = ck.headers(ck.REPO + "/src") + ck.headers(ck.VERIF + "/harness") + ck.headers(d)
    items = []
    order = sorted(range(n), key=lambda k: -os.path.getsize(os.path.join(d, "s%d.cpp" % k)))
    for k in order:
        items.append(ck.objs().add(os.path.join(d, "i%d.cpp" % k), flags, hk, "generated code"))
        items.append(ck.objs().add(os.path.join(d, "s%d.cpp" % k), flags, hk, "generated code"))
    try:
        outs = ck.wait(items)
    except ck.BuildError as e:
        raise GenViolation("generated code does not compile\n" + str(e), owners, ["see the replay file"])
    return ck.link(name, outs + ck.wait(drv) + ck.wait(coder) + ck.wait(corexml), variant)


NESTED = """<templates xmlns="http://www.fixprotocol.org/ns/fast/td/1.1"><template name="T" id="1"><sequence name="a"><sequence>
<int32 name="x"/><int32 name="y"/></sequence></sequence></template></templates>
"""


def build_docs(ck, name, conf, seed, tier):
    """The documents of C18 and the code that calls the accessors of their types."""
    variant = tuple(conf.get("variant", ()))
    n = ({"quick": 4, "thorough": 12} if variant else {"quick": 9, "thorough": 30})[tier]
    gen_items = ck.lib_items(["gen", "core", "xml"], variant, "-O1")
    lib = ck.lib_items(conf["mod"], variant)
    dg_items = ck.harness_items(["docgen.cpp", "pbt.cpp"], variant, extra=["-DPBT_NO_MAIN"])
    ftg = ck.link("fast_type_gen", ck.wait(gen_items + ck.lib_items(["coder"], variant)), variant)
    # the known finding: elements of a sequence which are sequences of several fields
    tmp = tempfile.mkdtemp()
    with open(os.path.join(tmp, "n.xml"), "w") as f:
        f.write(NESTED)
    nested = ck.sh([ftg, "n.xml"], cwd=tmp, env=ck.env()).returncode != 0
    shutil.rmtree(tmp)
    drv = ck.harness_items(conf["src"] + ["pbt.cpp"], variant, extra=["-DV2_SEED=%dull" % seed, "-DNESTED_FAILS=%d" % nested])
    dg = ck.link("docgen", ck.wait(dg_items) + ck.wait(lib), variant)
    key = ck.digest(ck.read(__file__), ck.read(ftg), seed, n, ck.read(dg))
    d = os.path.join(ck.BUILD, "gen-" + key)
    if not os.path.exists(os.path.join(d, "done")):
        tmp = d + ".%d" % os.getpid()
        os.makedirs(tmp, exist_ok=True)
        subprocess.run([dg, str(seed), str(n), tmp], check=True, env=ck.env())
        for k in range(n):
            xs = sorted(glob.glob(os.path.join(tmp, "x%d[ab].xml" % k)))
            r = ck.sh([ftg] + [os.path.basename(x) for x in xs], cwd=tmp, env=ck.env())
            if r.returncode or not os.path.exists(xs[-1][:-4] + ".cpp"):
                docs = "\n".join(open(x).read() for x in xs)
                shutil.rmtree(tmp)
                raise GenViolation("fast_type_gen fails on\n%s\nstatus %d\n%s" % (docs, r.returncode, r.stdout[-3000:]), ("C18",), [docs])
        open(os.path.join(tmp, "done"), "w").close()
        try:
            os.rename(tmp, d)
        except OSError:
            shutil.rmtree(tmp)
    flags = ck.variant_flags(variant) + ["-O0", "-I" + ck.REPO + "/src", "-I" + ck.VERIF + "/harness", "-I" + d]
    hk = ck.headers(ck.REPO + "/src") + ck.headers(ck.VERIF + "/harness") + ck.headers(d)
    srcs = sorted(glob.glob(os.path.join(d, "*.cpp")), key=lambda f: (-os.path.getsize(f), f))
    items = [ck.objs().add(f, flags, hk, "generated code") for f in srcs]
    try:
        outs = ck.wait(items)
    except ck.BuildError as e:
        raise GenViolation("generated code does not compile\n" + str(e), ("C18",), ["see the replay file"])
    return ck.link(name, outs + ck.wait(drv) + ck.wait(lib), variant)


def conf_xml(ck, conf):
    return os.path.join(ck.VERIF, "none", "*.xml")
