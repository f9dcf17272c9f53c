#!/usr/bin/env python3
"""Builds one check from /repo's working tree and runs it.

usage: check.py <id> [--thorough] [harness arguments]

All objects go to /verif/build and are keyed by the contents of everything they
are compiled from, so nothing stale is ever linked.
"""
import hashlib, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CXX = "g++"
COMMON = ["-g1", "-fno-omit-frame-pointer", "-D__forceinline=inline", "-include", "cstring", "-w"]
SAN = ["-fsanitize=address,bounds,signed-integer-overflow", "-fno-sanitize-recover=all", "-ftrivial-auto-var-init=pattern", "-D_GLIBCXX_ASSERTIONS"]


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "big"))
        h.update(p)
    return h.hexdigest()[:24]


def read(path):
    with open(path, "rb") as f:
        return f.read()


def tree(root, exts, skip=()):
    out = []
    for d, dirs, files in os.walk(root):
        dirs[:] = sorted(x for x in dirs if not x.startswith(".") and x not in skip)
        for f in sorted(files):
            if f.endswith(exts):
                out.append(os.path.join(d, f))
    return out


def compile_one(src, flags, key):
    obj = os.path.join(BUILD, "obj", key + ".o")
    if not os.path.exists(obj):
        os.makedirs(os.path.dirname(obj), exist_ok=True)
        tmp = "%s.%d.tmp" % (obj, os.getpid())
        r = subprocess.run([CXX] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            return None, "%s:\n%s" % (src, r.stdout.decode(errors="replace"))
        os.replace(tmp, obj)
    return obj, None


def build(check, libflags, harnessflags, extra_harness=(), link=(), tag=""):
    headers = b"".join(p.encode() + read(p) for p in tree(REPO, (".h", ".hpp", ".inl"), skip=("_build", "test", "build")))
    mch = b"".join(read(p) for p in tree(os.path.join(VERIF, "mc"), (".h",)))
    jobs = []
    for s in tree(os.path.join(REPO, "src"), (".cpp", ".cc", ".c")):
        jobs.append((s, libflags, digest(" ".join(libflags), s, read(s), headers)))
    for s in list(extra_harness) + [os.path.join(VERIF, "checks", check + ".cpp")]:
        jobs.append((s, harnessflags, digest(" ".join(harnessflags), s, read(s), headers, mch)))
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        res = list(ex.map(lambda j: compile_one(*j), reversed(jobs)))
    errors = [e for _, e in res if e]
    if errors:
        sys.stdout.write("BUILD ERROR\n" + "\n".join(errors) + "\n")
        sys.exit(2)
    objs = [o for o, _ in res]
    exe = os.path.join(BUILD, "bin", "%s%s-%s" % (check, tag, digest(" ".join(objs), " ".join(link))))
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = "%s.%d.tmp" % (exe, os.getpid())
        r = subprocess.run([CXX] + list(link) + objs + ["-o", tmp, "-lpthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            sys.stdout.write("LINK ERROR\n" + r.stdout.decode(errors="replace"))
            sys.exit(2)
        os.replace(tmp, exe)
    return exe


def flags_for(check):
    """compile flags may be extended by a line '// build: ...' in the harness"""
    lib, har, link, san = [], [], ["-fsanitize=address,bounds,signed-integer-overflow"], SAN
    for line in read(os.path.join(VERIF, "checks", check + ".cpp")).decode().splitlines()[:40]:
        if line.startswith("// build-lib:"):
            lib += line.split(":", 1)[1].split()
        elif line.startswith("// build-harness:"):
            har += line.split(":", 1)[1].split()
        elif line.startswith("// build-link:"):
            link += line.split(":", 1)[1].split()
        elif line.startswith("// build-san: none"):
            san, link = [], link[1:]
    return lib, har, link, san


def main():
    if len(sys.argv) < 2:
        sys.exit("usage: check.py <id> [arguments]")
    check, args = sys.argv[1], sys.argv[2:]
    env = dict(os.environ, VERIF_ROOT=VERIF)
    if "--thorough" in args:
        env["VERIF_TIER"] = "thorough"
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "mc")]
    lib, har, link, san = flags_for(check)
    libflags = ["-std=gnu++11", "-O1"] + COMMON + san + inc[:1] + lib
    harflags = ["-std=gnu++17", "-O1"] + COMMON + san + inc + har
    exe = build(check, libflags, harflags, [os.path.join(VERIF, "mc", "mc.cpp")], link)
    sys.stdout.flush()
    sys.exit(subprocess.run([exe] + args, env=env, cwd=VERIF).returncode)


if __name__ == "__main__":
    main()
