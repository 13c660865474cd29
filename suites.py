"""What each check builds and runs."""

UB = "bounds,signed-integer-overflow,shift,integer-divide-by-zero,bool,enum,return,unreachable,float-cast-overflow,vla-bound"
COMMON = "-std=c++14 -g1 -fno-omit-frame-pointer -pthread"

MODES = {
    # the build most monitors use: assertions on, memory errors and cheap UB checks abort
    "asan": {"cxx": "clang++ %s -O1 -fsanitize=address,%s -fno-sanitize-recover=all" % (COMMON, UB)},
    # every UB check there is (slow to compile)
    "ubsan": {"cxx": "clang++ %s -O1 -fsanitize=undefined,float-divide-by-zero -fno-sanitize=vptr -fno-sanitize-recover=all" % COMMON},
    # the kernel polynomial code on emulated vector registers, and its generic (no vectors) code
    "kvec": {"cxx": "clang++ %s -O1 -fsanitize=address,%s -fno-sanitize-recover=all -DEIGEN_MAX_ALIGN_BYTES=32" % (COMMON, UB), "shim": True},
    "knull": {"cxx": "clang++ %s -O1 -fsanitize=address,%s -fno-sanitize-recover=all -DEIGEN_MAX_ALIGN_BYTES=32 -DVP_SIMD_NULL" % (COMMON, UB), "shim": True,
              "base": "kvec", "differs": r"/src/kpm/(Bounds|default/)"},
    # every UB check together with the address sanitizer
    "full": {"cxx": "clang++ %s -O1 -fsanitize=address,undefined,float-cast-overflow -fno-sanitize=vptr -fno-sanitize-recover=all -DEIGEN_MAX_ALIGN_BYTES=32" % COMMON, "shim": True},
    "vg": {"cxx": "g++ %s -O1 -DEIGEN_MAX_ALIGN_BYTES=32" % COMMON, "shim": True},
    "ktsan": {"cxx": "clang++ %s -O1 -fsanitize=thread -DEIGEN_MAX_ALIGN_BYTES=32" % COMMON, "shim": True},
    # one thread at a time, chosen by the monitors' scheduler; preemption at function calls
    "sched": {"cxx": "g++ %s -O1 -D_GLIBCXX_ASSERTIONS -DVP_SCHED -rdynamic -finstrument-functions" % COMMON},
    "ksched": {"cxx": "g++ %s -O1 -D_GLIBCXX_ASSERTIONS -DVP_SCHED -rdynamic -DEIGEN_MAX_ALIGN_BYTES=32" % COMMON, "shim": True},
    "tsan": {"cxx": "clang++ %s -O1 -fsanitize=thread" % COMMON},
    # the extension module with the whole library, for the monitors which use the Python package
    "py": {"cxx": "clang++ %s -O1 -fPIC -fvisibility=hidden -shared-libasan -fsanitize=address,%s -fno-sanitize-recover=all -DEIGEN_MAX_ALIGN_BYTES=32" % (COMMON.replace("c++14", "c++17"), UB),
           "shim": True, "python": True, "preload": "libclang_rt.asan-x86_64.so"},
    # as shipped: optimised, assertions off
    "opt": {"cxx": "g++ %s -O2 -DNDEBUG" % COMMON},
    "kopt": {"cxx": "g++ %s -O2 -DNDEBUG -DEIGEN_MAX_ALIGN_BYTES=32" % COMMON, "shim": True},
}

SUITES = {}


def suite(prop, parts, **kw):
    SUITES[prop] = dict(parts=parts, **kw)


def part(name, lib, mode, quick, thorough, src=None, **kw):
    return dict(name=name, src=src or [name + ".cpp"], lib=lib, mode=mode, quick=quick, thorough=thorough, **kw)


def optpart(name, lib, quick, thorough):
    """Many more cases, and other ones, on the library as it is shipped"""
    return part(name, lib, "kopt" if lib == "kpm" else "opt", quick, thorough, first=1000000)


def pypart(name, quick, thorough, **kw):
    return dict(name=name, src=[], lib="python", mode="py", quick=quick, thorough=thorough, script=name + ".py", **kw)


suite("C02", [part("c02", "model", "asan", 30000, 600000), optpart("c02", "model", 400000, 6000000)])
suite("C03", [part("c03", "model", "asan", 30000, 600000), optpart("c03", "model", 250000, 3750000)])
suite("C04", [part("c04", "model", "asan", 20000, 600000), optpart("c04", "model", 220000, 3300000)])
suite("C05", [part("c05", "model", "asan", 40000, 1000000), optpart("c05", "model", 400000, 6000000)])
suite("C06", [part("c06", "model", "asan", 10000, 300000), optpart("c06", "model", 120000, 1800000)])
suite("C07", [part("c07", "model", "asan", 15000, 300000), optpart("c07", "model", 80000, 1200000)])
suite("C08", [part("c08", "model", "asan", 20000, 300000), optpart("c08", "model", 30000, 450000)])
suite("C09", [part("c09", "model", "asan", 10000, 300000), optpart("c09", "model", 60000, 900000)])
suite("C10", [part("c10", "model", "asan", 50000, 400000), optpart("c10", "model", 120000, 1800000)])
suite("C11", [part("c11", "model", "asan", 25000, 300000), optpart("c11", "model", 100000, 1500000)])
suite("C12", [part("c12", "model", "asan", 20000, 300000), optpart("c12", "model", 60000, 900000)])
suite("C13", [part("c13", "model", "asan", 10000, 300000), optpart("c13", "model", 70000, 1050000)])
suite("C14", [part("c14", "model", "asan", 10000, 300000), optpart("c14", "model", 90000, 1350000)])
suite("C01", [part("c01", "model", "asan", 20000, 400000), optpart("c01", "model", 200000, 3000000)])
suite("C15", [part("c15", "model", "asan", 60000, 2000000), optpart("c15", "model", 180000, 2700000)])
suite("C16", [part("c16", "none", "asan", 60000, 2000000), optpart("c16", "none", 250000, 3750000)])
suite("C17", [part("c17", "kpm", "kvec", 40000, 800000), part("c17", "kpm", "knull", 20000, 400000), optpart("c17", "kpm", 50000, 750000)])
suite("C18", [part("c18", "kpm", "kvec", 24000, 300000), part("c18", "kpm", "knull", 12000, 150000), optpart("c18", "kpm", 50000, 750000)])
suite("C19", [part("c19", "kpm", "kvec", 16000, 300000), part("c19", "kpm", "knull", 8000, 150000), optpart("c19", "kpm", 60000, 900000)])
suite("C20", [part("c20", "kpm", "kvec", 20000, 300000), part("c20", "kpm", "knull", 10000, 150000), optpart("c20", "kpm", 40000, 600000)])
suite("C21", [part("c21", "solver", "asan", 15000, 200000), optpart("c21", "solver", 60000, 900000)])
suite("C22", [part("c22", "none", "sched", 14000, 400000, stall=60), part("c22", "none", "tsan", 6000, 150000, stall=60)])
suite("C23", [part("c23", "kpm", "ksched", 24000, 400000, stall=90), part("c23", "kpm", "ktsan", 8000, 150000, stall=90)])
suite("C24", [part("c24", "all", "full", 16000, 400000), part("c24", "all", "vg", 1000, 12000, wrap=["valgrind", "-q", "--vgdb=no", "--error-exitcode=9", "--exit-on-first-error=yes", "--undef-value-errors=yes"])])
suite("C25", [pypart("c25", 1600, 30000)])
suite("C26", [pypart("c26", 6000, 100000)])
suite("C27", [pypart("c27", 16000, 300000)])
suite("C28", [pypart("c28", 12000, 200000)])
suite("C29", [pypart("c29", 12000, 200000)])
suite("C30", [pypart("c30", 1000, 16000, stall=90)])
suite("C31", [pypart("c31", 8000, 120000, stall=90)])
suite("C32", [pypart("c32", 8000, 150000)])
suite("C33", [pypart("c33", 16000, 300000)])
suite("C34", [pypart("c34", 10000, 180000)])
suite("C35", [pypart("c35", 10000, 180000)])
suite("C36", [pypart("c36", 12000, 200000)])
