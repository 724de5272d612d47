"""Builds checkers: instruments Lace (from /repo's working tree) and a harness and links them with the explorer."""
import os, re, subprocess, hashlib, shutil

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LACE_REPO", "/repo")


class BuildError(Exception):
    pass


class LibraryBuildError(BuildError):
    """Lace itself does not compile in this variant."""


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout)
    return r.stdout


def lib_sh(cmd):
    try:
        return sh(cmd)
    except BuildError as e:
        raise LibraryBuildError(str(e))


def build_engine(bdir):
    out = os.path.join(bdir, "engine.o")
    sh(["g++", "-O2", "-g", "-fno-pie", "-std=c++17", "-w", "-c", os.path.join(ROOT, "mc/engine.cc"), "-o", out])
    names = set()
    for line in sh(["nm", "--defined-only", out]).splitlines():
        m = re.match(r"\S+ [TW] (mc_\w+)$", line)
        if m:
            names.add(m.group(1)[3:])
    with open(os.path.join(bdir, "intercept.txt"), "w") as f:
        f.write("\n".join(sorted(names)))
    return out


# harness interface functions are called under their own names
API = {"mc_" + n for n in ("assert_ choose obs explore quiesce others_running others_live threads_unreclaimed live_blocks "
       "threads_created expect_exit tid bounded file capture fail_alloc fail_thread allocs_seen threads_seen "
       "last_stacksize param main blocks block_size private clock_step clock_add stderr_bytes capture_stdout rlimit_stack").split()}


def config_header(path, config):
    """lace_config.h as CMake would generate it from /repo/src/lace_config.h.in with the given options ON."""
    text = open(os.path.join(REPO, "src/lace_config.h.in")).read()
    seen = []

    def sub(m):
        seen.append(m.group(1))
        return "#define %s %d" % (m.group(1), 1 if m.group(1) in config else 0)
    text = re.sub(r"#cmakedefine01[ \t]+(\w+)", sub, text)
    text = re.sub(r"#cmakedefine[ \t]+(\w+)", lambda m: ("#define %s 1" if m.group(1) in config else "/* #undef %s */") % m.group(1), text)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)
    # options that the header does not mention are passed on the command line
    return ["-D%s=1" % c for c in sorted(config) if c not in seen]


def key_of(spec):
    return hashlib.sha1(repr(sorted((k, str(v)) for k, v in spec.items())).encode()).hexdigest()[:16]


DEFAULTS = dict(edition="lace", lang="c", config=(), defs=(), hooks=True, opt="-O2")


def full_key(spec):
    return key_of(dict(DEFAULTS, **spec))


def build_sut(bdir, spec):
    """spec: harness, edition (lace|lace14|gen<N>), lang (c|c++), config (tuple of options), defs (tuple), hooks (bool), opt."""
    spec = dict(DEFAULTS, **spec)
    d = os.path.join(bdir, key_of(spec))
    exe = os.path.join(d, "mc")
    if os.path.exists(exe):
        return exe
    os.makedirs(d, exist_ok=True)
    inc = os.path.join(d, "inc")
    extra = config_header(os.path.join(inc, "lace_config.h"), spec["config"])
    ed = spec["edition"]
    src = os.path.join(REPO, "src")
    if ed == "lace":
        lib, hdr, hdir = os.path.join(src, "lace.c"), "lace.h", src
    elif ed == "lace14":
        lib, hdr, hdir = os.path.join(src, "lace14.c"), "lace14.h", src
    else:
        n = int(ed[3:])
        g = os.path.join(d, "gen")
        os.makedirs(g, exist_ok=True)
        text = subprocess.run(["bash", "lace.sh", str(n)], cwd=src, stdout=subprocess.PIPE, check=True).stdout
        with open(os.path.join(g, "lace.h"), "wb") as f:
            f.write(text)
        shutil.copy(os.path.join(src, "lace.c"), os.path.join(g, "lace.c"))
        lib, hdr, hdir = os.path.join(g, "lace.c"), "lace.h", g
    common = ["-g", "-fno-pie", "-fsanitize=thread", "-w", "-fno-stack-protector", "-U_FORTIFY_SOURCE",
              "-fno-builtin-memcpy", "-fno-builtin-memmove", "-fno-builtin-memset", "-fstack-reuse=none", "-I" + inc, "-I" + hdir, "-I" + os.path.join(ROOT, "mc"), "-I" + os.path.join(ROOT, "harness")]
    common += extra + ["-D" + x for x in spec["defs"]]
    if spec["hooks"]:
        common.append("-DLACE_VERIFY")
    lo, ho = os.path.join(d, "lib.o"), os.path.join(d, "h.o")
    lib_sh(["gcc", spec["opt"], "-std=gnu11"] + common + ["-c", lib, "-o", lo])
    lib_sh((["gcc", "-std=gnu11", "-x", "c"] if spec["lang"] == "c" else ["g++", "-std=gnu++17", "-x", "c++"]) + common + ["-fsyntax-only", "-include", hdr, os.devnull])
    h = os.path.join(ROOT, "harness", spec["harness"])
    if spec["lang"] == "c":
        cc = ["gcc", spec["opt"], "-std=gnu11"]
    else:
        cc = ["g++", spec["opt"], "-std=gnu++17", "-x", "c++", "-fno-exceptions", "-fno-rtti"]
    cc += common + ["-DLACE_HEADER=\"%s\"" % hdr]
    try:
        sh(cc + ["-c", h, "-o", ho])
    except BuildError:
        # either Lace's macros do not compile when they are used, or the harness looks at something internal that is gone
        n = next((x.split("=")[1] for x in spec["defs"] if x.startswith("MAX_ARITY=")), {"lace": "6", "lace14": "14"}.get(ed, ed[3:]))
        lib_sh(cc + ["-UMAX_ARITY", "-DMAX_ARITY=" + n, "-fsyntax-only", os.path.join(ROOT, "harness", "usage.c")])
        sh(cc + ["-DMC_PLAIN=1", "-c", h, "-o", ho])
    sut = os.path.join(d, "sut.o")
    sh(["ld", "-r", "-o", sut, lo, ho])
    inter = set(open(os.path.join(bdir, "intercept.txt")).read().split())
    und = [l.split()[-1] for l in sh(["nm", "-u", sut]).splitlines() if l.strip()]
    args = ["--rename-section", ".data=sut_data", "--rename-section", ".bss=sut_bss"]
    secs = sh(["objdump", "-h", "-w", sut])
    for m in re.finditer(r"^\s*\d+ (\.(?:data|bss|lbss|ldata)\.\S+)", secs, re.M):
        n = m.group(1)
        if ".rel.ro" in n:
            continue
        args += ["--rename-section", "%s=%s" % (n, "sut_bss" if n.startswith((".bss", ".lbss")) else "sut_data")]
    for u in und:
        if u in API:
            continue
        if u in inter:
            args += ["--redefine-sym", "%s=mc_%s" % (u, u)]
    sh(["objcopy"] + args + [sut])
    sh(["g++", "-no-pie", "-o", exe, os.path.join(bdir, "engine.o"), sut])
    return exe


if __name__ == "__main__":
    import sys, ast
    bdir = sys.argv[1]
    os.makedirs(bdir, exist_ok=True)
    if not os.path.exists(os.path.join(bdir, "engine.o")) or os.path.getmtime(os.path.join(bdir, "engine.o")) < os.path.getmtime(os.path.join(ROOT, "mc/engine.cc")):
        build_engine(bdir)
    spec = dict(a.split("=", 1) for a in sys.argv[2:])
    for k in ("config", "defs"):
        if k in spec:
            spec[k] = tuple(spec[k].split(","))
    shutil.rmtree(os.path.join(bdir, full_key(spec)), ignore_errors=True)
    print(build_sut(bdir, spec))
