"""What each check compiles and from where."""
import os
CXX = os.environ.get("VF_CXX", "g++")
CLANG = "clang++"

def cpu_flags():
    try:
        for l in open("/proc/cpuinfo"):
            if l.startswith("flags"):
                return set(l.split(":", 1)[1].split())
    except OSError:
        pass
    return set()

def top_target():
    f = cpu_flags()
    dl = {"avx512_vbmi2", "avx512_bitalg", "avx512_vpopcntdq", "vaes", "vpclmulqdq", "gfni", "avx512_vnni", "avx512vbmi"} <= f
    if dl and "avx512_fp16" in f and "avx512_bf16" in f:
        return "AVX3_SPR"
    if dl and "avx512_bf16" in f:
        return "AVX3_ZEN4"
    if dl:
        return "AVX3_DL"
    return None

BASEFLAGS = ["-std=c++17", "-O1", "-DNDEBUG", "-fPIC", "-ffp-contract=off", "-w", "-fno-strict-aliasing"]
# Same code-generation flags as the repository's own build.
LIBFLAGS = ["-std=c++17", "-O1", "-DNDEBUG", "-fPIC", "-fmerge-all-constants", "-fmath-errno", "-fno-exceptions", "-w",
            "-DHWY_STATIC_DEFINE", "-DTOOLCHAIN_MISS_SYS_AUXV_H"]

def lib_sources(repo, names):
    out = []
    for n in names:
        out.append(dict(src=os.path.join(repo, "hwy", n), name="lib_" + n.replace("/", "_").replace(".cc", ""),
                        shared=True, cmd=[CXX] + LIBFLAGS + ["-I" + repo]))
    return out

CORE = ["abort.cc", "targets.cc", "per_target.cc", "print.cc", "aligned_allocator.cc"]

# family -> (inc file, extra)
OPFAM = {
    "C01": "c01.inc", "C02": "c02.inc", "C03": "c03.inc", "C04": "c04.inc",
    "C05": "c05.inc", "C06": "c06.inc", "C07": "c07.inc", "C08": ["c08.inc", "c08b.inc"],
    "C09": "c09.inc", "C10": "c10.inc", "C11": "c11.inc", "C12": "c12.inc",
}

def op_check(cid, incs, tier, repo, verif):
    srcs = []
    if isinstance(incs, str):
        incs = [incs]
    inc_flags = ["-I" + repo, "-I" + os.path.join(verif, "engine"), "-I" + os.path.join(verif, "ops")]
    targets = [("AVX3", CXX), ("AVX2", CXX), ("SSE2", CXX), ("SSSE3", CXX), ("SSE4", CXX), ("SCALAR", CXX), ("EMU128", CLANG)]
    t = top_target()
    if t:
        targets.insert(0, (t, CXX))
    if tier == "thorough" and t and t != "AVX3_DL":
        targets.insert(0, ("AVX3_DL", CXX))
        if t == "AVX3_SPR":
            targets.insert(0, ("AVX3_ZEN4", CXX))
    for n, inc in enumerate(incs):
        fam = '-DVF_FAMILY="%s"' % os.path.join(verif, "ops", inc)
        for t, cxx in targets:
            cmd = [cxx] + BASEFLAGS + inc_flags + [fam, "-DVF_TARGET=HWY_" + t]
            if t in ("SCALAR", "EMU128"):
                cmd += ["-DHWY_COMPILE_ONLY_" + t, "-DVF_STATIC"]
            else:
                cmd += ["-DHWY_COMPILE_ALL_ATTAINABLE"]
            srcs.append(dict(src=os.path.join(verif, "engine", "opkernel.cc"), name="k%d_%s" % (n, t), cmd=cmd))
        srcs.append(dict(src=os.path.join(verif, "engine", "oporacle.cc"), name="oracle%d" % n, cmd=[CXX] + BASEFLAGS + inc_flags + [fam]))
    srcs.append(dict(src=os.path.join(verif, "engine", "opdriver.cc"), name="opdriver", shared=True,
                     cmd=[CXX] + BASEFLAGS + ["-O2"] + inc_flags))
    srcs += lib_sources(repo, CORE)
    return dict(sources=srcs)

def get(cid, tier, repo, verif):
    if cid in OPFAM:
        return op_check(cid, OPFAM[cid], tier, repo, verif)
    import contrib_checks
    return contrib_checks.get(cid, tier, repo, verif)
