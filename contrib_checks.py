"""Sources, flags and manifest notes of the library checks C13..C34."""
import os
from checks import CXX, CLANG, BASEFLAGS, LIBFLAGS, CORE, lib_sources, top_target

ENG = ["-O2"]

def main_src(verif, repo, inc):
    return dict(src=os.path.join(verif, "engine", "vf_main.cc"), name="vf_main", shared=True, cmd=[CXX] + BASEFLAGS + inc)

def unit(verif, f, name, flags, cxx=CXX):
    return dict(src=os.path.join(verif, "contrib", f), name=name, cmd=[cxx] + BASEFLAGS + flags)

TP = ["contrib/thread_pool/topology.cc", "timer.cc", "-lpthread"]

ALL_TARGETS = ["AVX3", "AVX2", "SSE4", "SSSE3", "SSE2", "SCALAR", "EMU128"]

def targets(tier):
    t = top_target()
    l = ([t] if t else []) + ALL_TARGETS
    if tier == "thorough" and t and t != "AVX3_DL":
        l = ["AVX3_DL"] + l
        if t == "AVX3_SPR":
            l = ["AVX3_ZEN4"] + l
    return l

def per_target(verif, f, inc, tier, extra=(), only=None, suffix=""):
    out = []
    for t in targets(tier):
        if only and t not in only:
            continue
        cxx = CLANG if t == "EMU128" else CXX
        fl = list(inc) + list(extra) + ["-DVF_TARGET=HWY_" + t, '-DVF_PREFIX="%s:"' % t]
        if t in ("SCALAR", "EMU128"):
            fl += ["-DHWY_COMPILE_ONLY_" + t, "-DVF_STATIC"]
        else:
            fl += ["-DHWY_COMPILE_ALL_ATTAINABLE"]
        out.append(unit(verif, f, os.path.splitext(f)[0] + suffix + "_" + t, fl, cxx))
    return out

def base_variants(verif, f, inc):
    """base.h helpers in native and fallback configurations (renamed namespace
    so that the inline functions do not collide)."""
    stem = os.path.splitext(f)[0]
    return [
        unit(verif, f, stem + "_gcc", inc + ["-std=c++20", '-DVF_PREFIX="gcc:"']),
        unit(verif, f, stem + "_fb", inc + ["-std=c++20", "-Dhwy=hwy_fb", "-DHWY_HAVE_SCALAR_F16_OPERATORS=0",
             "-DHWY_HAVE_SCALAR_BF16_OPERATORS=0", "-DHWY_HAVE_DIV128=0", "-U__SIZEOF_INT128__", '-DVF_PREFIX="fallback:"']),
        unit(verif, f, stem + "_clang", inc + ["-std=c++20", "-Dhwy=hwy_cl", '-DVF_PREFIX="clang:"'], CLANG),
        unit(verif, f, stem + "_fb17", inc + ["-Dhwy=hwy_fb17", "-DHWY_HAVE_SCALAR_F16_TYPE=0", "-DHWY_SSE2_HAVE_SCALAR_BF16_TYPE=0",
             '-DVF_PREFIX="notype:"'], CLANG),
    ]

CONTRIB = {}
def C(cid):
    def deco(f):
        CONTRIB[cid] = f
        return f
    return deco

@C("C13")
def c13(tier, repo, verif, inc):
    return base_variants(verif, "c13.cc", inc)

@C("C14")
def c14(tier, repo, verif, inc):
    return base_variants(verif, "c14.cc", inc)

@C("C15")
def c15(tier, repo, verif, inc):
    ava = "-DHWY_COMPILE_ALL_ATTAINABLE"
    v = {"vall": [ava, "-std=c++17"], "vmap": [ava, "-std=c++14"],
         "vfew": ["-std=c++17", "-DHWY_DISABLED_TARGETS=(HWY_AVX3|HWY_AVX3_DL|HWY_AVX3_ZEN4|HWY_AVX3_SPR|HWY_AVX10_2|HWY_AVX10_2_512|HWY_SSE4)"],
         "vfew2": ["-std=c++14", "-DHWY_DISABLED_TARGETS=(HWY_AVX3_SPR|HWY_AVX2|HWY_SSSE3|HWY_AVX10_2|HWY_AVX10_2_512)"],
         "vdef": ["-std=c++17"], "vstatic": ["-DHWY_COMPILE_ONLY_STATIC"], "vemu": ["-DHWY_COMPILE_ONLY_EMU128"],
         "vscalar": ["-DHWY_COMPILE_ONLY_SCALAR"], "vavx2": ["-std=c++17", ava, "-mssse3"]}
    out = [unit(verif, "c15_disp.cc", "c15_" + k, inc + ["-DVF_NS=" + k, '-DVF_NAME="%s"' % k] + f) for k, f in v.items()]
    out.append(unit(verif, "c15_mock.cc", "c15_mock", inc + ["-Dhwy=hwy_mock"]))
    out.append(unit(verif, "c15.cc", "c15", inc))
    return out

@C("C16")
def c16(tier, repo, verif, inc):
    return [unit(verif, "c16.cc", "c16", inc + ["-std=c++17"])], ["-Wl,--wrap=malloc,--wrap=free"]

@C("C17")
def c17(tier, repo, verif, inc):
    return [unit(verif, "c17.cc", "c17", inc)]

@C("C18")
def c18(tier, repo, verif, inc):
    return [unit(verif, "c18.cc", "c18", inc)], ["stats.cc"]

VQLIBS = ["contrib/sort/vqsort.cc", "contrib/sort/vqsort_f64a.cc"]

@C("C19")
def c19(tier, repo, verif, inc):
    # vqsort.cc refers to all key types, only f64 is linked
    return [unit(verif, "c19.cc", "c19", inc)], VQLIBS + ["-Wl,--unresolved-symbols=ignore-all"]

@C("C20")
def c20(tier, repo, verif, inc):
    return [unit(verif, "c20.cc", "c20", inc)] + per_target(verif, "c20_vec.cc", inc, tier)

def vqsort(tier, repo, verif, inc, extra):
    """Dynamic dispatch to all attainable targets (sources of /repo) plus the
    static interface on the targets that are not attainable dynamically."""
    d = os.path.join(repo, "hwy/contrib/sort")
    out = []
    for f in sorted(os.listdir(d)):
        if f.startswith("vqsort") and f.endswith(".cc"):
            out.append(dict(src=os.path.join(d, f), name="r_" + f[:-3], cmd=[CXX] + BASEFLAGS + inc + ["-DHWY_COMPILE_ALL_ATTAINABLE"]))
    out.append(unit(verif, "c21_dyn.cc", "c21_dyn", inc + extra + ["-DHWY_COMPILE_ALL_ATTAINABLE"]))
    return out + per_target(verif, "c21_static.cc", inc, tier, extra, only=["SCALAR", "EMU128"])

@C("C21")
def c21(tier, repo, verif, inc):
    return vqsort(tier, repo, verif, inc, [])

@C("C22")
def c22(tier, repo, verif, inc):
    return vqsort(tier, repo, verif, inc, ["-DVF_C22"])

@C("C23")
def c23(tier, repo, verif, inc):
    return per_target(verif, "c23.cc", inc, tier)

@C("C24")
def c24(tier, repo, verif, inc):
    return per_target(verif, "c24.cc", inc, tier)

@C("C25")
def c25(tier, repo, verif, inc):
    return per_target(verif, "c25.cc", inc, tier)

@C("C26")
def c26(tier, repo, verif, inc):
    return (per_target(verif, "c26.cc", inc, tier, ["-DVF_THOROUGH"] if tier == "thorough" else [])
            + [unit(verif, "vqsort_stub.cc", "vqsort_stub", inc)], TP)

@C("C27")
def c27(tier, repo, verif, inc):
    return [unit(verif, "c27_ref.cc", "c27_ref", inc)] + per_target(verif, "c27.cc", inc, tier)

@C("C28")
def c28(tier, repo, verif, inc):
    # The stack protector detects overruns of the fixed-size batches.
    return [unit(verif, "c28_ref.cc", "c28_ref", inc)] + per_target(verif, "c28.cc", inc, tier, ["-fstack-protector-all"]), ["-Wl,--wrap=malloc"]

@C("C29")
def c29(tier, repo, verif, inc):
    only = [t for t in targets(tier) if t != "SCALAR"]
    out = []
    for part in (3, 2, 1, 0):
        out += per_target(verif, "c29.cc", inc, tier, ["-DVF_PART=%d" % part], only=only, suffix="_%d" % part)
    return out

@C("C30")
def c30(tier, repo, verif, inc):
    msan = ["-Dhwy=hwy_msan", "-DMEMORY_SANITIZER", "-I" + os.path.join(verif, "contrib", "msanstub")]
    out = [unit(verif, "c30_alloc.cc", "c30_alloc", inc), unit(verif, "c30.cc", "c30", inc + ['-DVF_PREFIX=""']),
           unit(verif, "c30.cc", "c30_msan", inc + msan + ['-DVF_PREFIX="msan:"'])]
    for n in CORE + ["contrib/image/image.cc"]:
        out.append(dict(src=os.path.join(repo, "hwy", n), name="msan_" + os.path.basename(n)[:-3], cmd=[CXX] + LIBFLAGS + ["-I" + repo] + msan))
    return out, ["contrib/image/image.cc", "-Wl,--wrap=malloc,--wrap=free"]

def copies(repo, names, flags):
    """Library sources in a renamed namespace."""
    return [dict(src=os.path.join(repo, "hwy", n), name="ns_" + os.path.basename(n)[:-3], cmd=[CXX] + LIBFLAGS + ["-I" + repo] + flags) for n in names]

@C("C31")
def c31(tier, repo, verif, inc):
    ns = ["-Dhwy=hwy_sched"]
    out = [unit(verif, "c31.cc", "c31", inc + ns + ["-std=c++17", '-DVF_PREFIX=""'])]
    out.append(unit(verif, "vqsort_stub.cc", "vqsort_stub", inc + ns))
    out += [unit(verif, "c31_real.cc", "c31_real", inc), unit(verif, "vqsort_stub.cc", "vqsort_stub_real", inc)]
    return out + copies(repo, CORE + [x for x in TP if x.endswith(".cc")], ns), TP

@C("C32")
def c32(tier, repo, verif, inc):
    ns = ["-Dhwy=hwy_sched"]
    out = [unit(verif, "c32_topo.cc", "c32_topo", inc), unit(verif, "c32_real.cc", "c32_real", inc)]
    out.append(unit(verif, "c32.cc", "c32", inc + ns + ["-std=c++17"]))
    wrap = ["open", "open64", "read", "close", "sysconf", "sched_getaffinity", "sched_setaffinity"]
    return out + copies(repo, CORE + [x for x in TP if x.endswith(".cc")], ns), TP + ["-Wl," + ",".join("--wrap=" + w for w in wrap)]

@C("C33")
def c33(tier, repo, verif, inc):
    # print_results sorts u128 keys; the other key types are not linked
    return ([unit(verif, "c33.cc", "c33", inc)],
            ["timer.cc", "contrib/sort/vqsort.cc", "contrib/sort/vqsort_128d.cc", "-lpthread", "-Wl,--unresolved-symbols=ignore-all"])

@C("C34")
def c34(tier, repo, verif, inc):
    clock = ["-include", os.path.join(verif, "contrib", "c34_clock.h")]
    out = [unit(verif, "c34.cc", "c34", inc)]
    for n in ("timer.cc", "nanobenchmark.cc"):
        out.append(dict(src=os.path.join(repo, "hwy", n), name="virt_" + n[:-3], cmd=[CXX] + LIBFLAGS + inc + clock))
    return out

@C("C35")
def c35(tier, repo, verif, inc):
    wrap = ["syscall", "read", "__read_chk", "ioctl", "prctl", "stat", "uname"]
    return [unit(verif, "c35.cc", "c35", inc)], ["perf_counters.cc", "timer.cc", "-Wl," + ",".join("--wrap=" + w for w in wrap)]

@C("C36")
def c36(tier, repo, verif, inc):
    return per_target(verif, "c36.cc", inc, tier)

def get(cid, tier, repo, verif):
    inc = ["-I" + repo, "-I" + os.path.join(verif, "engine"), "-I" + os.path.join(verif, "contrib")]
    r = CONTRIB[cid](tier, repo, verif, inc)
    link = []
    libs = list(CORE)
    if isinstance(r, tuple):
        r, more = r
        libs += [x for x in more if not x.startswith("-")]
        link += [x for x in more if x.startswith("-")]
    r = list(r)
    r.append(unit(verif, cid.lower() + "_info.cc", "info", inc))
    r.append(main_src(verif, repo, inc))
    r += lib_sources(repo, libs)
    return dict(sources=r, link=link)

_V = "choice-sequence generator with shrinking"
TECH = {
 "C13": ("property-based testing against 128-bit arithmetic and bit loops (%s)" % _V,
         "Random and boundary inputs over all helper/type combinations in native, fallback (no __int128 / DIV128), gcc and clang configurations; not exhaustive."),
 "C14": ("property-based testing against exact rational rounding of half/bfloat16; 16-bit unary inputs enumerated (%s)" % _V,
         "All 65536 half and bfloat16 values for unary conversions; f32/f64 inputs and binary operators sampled around ties, limits and denormals, in four compiler configurations."),
 "C15": ("stateful property-based testing: histories of target disabling, forcing and mocking against a model of dispatch (%s)" % _V,
         "Nine compile configurations (attainable/limited target sets, C++14/17, static, scalar, emulated), detected CPU features mocked through a second copy of targets.cc."),
 "C16": ("stateful property-based testing of allocation histories with wrapped malloc/free and canaries (%s)" % _V,
         "Sizes from 0 to overflow, injected allocation failure, arrays of every dimension; not exhaustive."),
 "C17": ("model-based testing of operation histories against std::set (%s)" % _V, "Nine capacities, histories up to 60 operations."),
 "C18": ("property-based testing against long double / exact recomputation, merge histories (%s)" % _V,
         "Sample sets up to 300 (large ones to 400k with few distinct values); numeric results within derived error bounds."),
 "C19": ("stateful property-based testing: simulated cost models drive the tuner until it finishes (%s)" % _V,
         "Up to 32 candidates, noise and tie patterns; bound on the number of rounds."),
 "C20": ("property-based testing: printed text is parsed back and compared; abort and warn handlers run in child processes and threads (%s)" % _V,
         "Every lane type and vector length for printing, message lengths around the buffer limit, concurrent handler exchange."),
 "C21": ("property-based testing against std::stable_sort-like multiset and order oracles; adversarial patterns (%s)" % _V,
         "All key types, both orders, sizes to 100k, guarded arrays, every dynamic target plus the static interface."),
 "C22": ("property-based testing: selected prefix compared with the sorted reference, multiset preserved (%s)" % _V,
         "All key types, both orders, every k class (0, 1, boundary, n), guarded arrays."),
 "C23": ("differential property-based testing against the scalar loop in guard-paged arrays (%s)" % _V, "All lane types, targets, sizes and misalignments up to several vectors."),
 "C24": ("property-based testing with recording units against the scalar loop, guarded arrays (%s)" % _V, "Unit kinds x unroll factors x sizes; find with n=0 is unspecified."),
 "C25": ("property-based testing against exact integer / double-double sums with derived error bounds (%s)" % _V, "All assumption flags, lengths to several unrolled blocks, guarded arrays."),
 "C26": ("property-based testing against exact / long double products; pools of generated size (%s)" % _V, "A grid of compile-time shapes, output vector-aligned (streaming stores)."),
 "C27": ("property-based testing against long double libm with ulp bounds from the documentation (%s)" % _V, "Specials and sampled magnitudes over the documented domain, every target."),
 "C28": ("differential property-based testing against an independent scalar implementation of the generators (%s)" % _V, "Seeds, thread ids, stream positions and batch sizes; every target."),
 "C29": ("round-trip property-based testing at every width (%s)" % _V, "All widths for 8..64-bit packing, guard pages, every vector target."),
 "C30": ("stateful property-based testing of image lifecycles with wrapped malloc and canaries (%s)" % _V, "All pixel types and sizes to 10k, with and without the MemorySanitizer padding configuration."),
 "C31": ("randomised schedule exploration: the thread pool is compiled onto a deterministic scheduler (generated interleavings), plus real-thread runs (%s)" % _V,
         "Random and priority-based schedules with preemption at every atomic, futex and yield operation; weak memory is only covered by the real-thread runs."),
 "C32": ("randomised schedule exploration of waiters and wakers, generated /sys trees for topology parsing, real futex runs (%s)" % _V, "Not exhaustive over schedules; topology trees model up to hundreds of CPUs."),
 "C35": ("stateful property-based testing on a simulated kernel (generated capabilities, multiplexing, interrupted calls) against a model (%s)" % _V, "System calls are replaced by link-time wrapping; real hardware counters are not exercised."),
 "C36": ("model-based testing: random walks over the graph of tag types (all documented aliases and transformations) against a model of (lane type, lane count) (%s)" % _V,
         "Every tag type reachable within one register and kPow2 in [-8, 3] on every x86 target; scalable targets are not available here."),
 "C33": ("property-based testing of generated zone trees on a virtual clock against a model (%s)" % _V, "Real threads; the clock is substituted at compile time so durations are exact."),
 "C34": ("property-based testing on a virtual clock with exact costs and generated outliers (%s)" % _V, "Library sources compiled onto the virtual clock; the real counter is compared with rdtsc."),
}
