"""Shared by all checks: building, worker pool, minimising, reporting, evidence."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time, zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CACHE = os.path.join(BUILD, "cache")
EVID = os.path.join(VERIF, "evidence")
SIM = os.path.join(VERIF, "sim")
JOBS = os.cpu_count() or 4
CXX = "clang++"
T0 = time.time()


class CheckError(Exception):
    """anything that is not an answer"""


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def run(cmd, timeout=None, cwd=None, env=None, stdin=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=cwd, env=env, input=stdin)
    return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")


# ------------------------------------------------------------------ building
STD = ["-std=c++17", "-stdlib=libc++"]


def compile_cached(src, flags, label):
    """object file for src; reused only when the preprocessed text and the flags are the same"""
    os.makedirs(CACHE, exist_ok=True)
    rc, out, err = run([CXX] + flags + ["-E", "-P", src], timeout=300)
    if rc != 0:
        raise CheckError("preprocessing %s failed:\n%s" % (label, err[-3000:]))
    key = hashlib.sha256((out + "\0" + " ".join(flags)).encode()).hexdigest()[:32]
    obj = os.path.join(CACHE, label + "-" + key + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
        rc, out, err = run([CXX] + flags + ["-c", src, "-o", tmp], timeout=800)
        if rc != 0:
            raise CheckError("compiling %s failed:\n%s" % (label, err[-3000:]))
        os.rename(tmp, obj)
    return obj


def link_cached(objs, flags, label):
    key = hashlib.sha256("\0".join(objs + flags).encode()).hexdigest()[:32]
    exe = os.path.join(CACHE, label + "-" + key)
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        rc, out, err = run([CXX, "-stdlib=libc++"] + objs + ["-o", tmp] + flags, timeout=300)
        if rc != 0:
            raise CheckError("linking %s failed:\n%s" % (label, err[-3000:]))
        os.rename(tmp, exe)
    return exe


def prune_cache(keep_mb=600):
    try:
        fs = [os.path.join(CACHE, f) for f in os.listdir(CACHE)]
        fs = sorted((os.path.getmtime(f), os.path.getsize(f), f) for f in fs)
        tot = sum(f[1] for f in fs)
        for _, sz, f in fs:
            if tot <= keep_mb << 20:
                break
            os.remove(f)
            tot -= sz
    except OSError:
        pass


# ------------------------------------------------------------------ known findings
def known_findings(prop):
    """lines  'known: property=<id> class=<class> match=<regex> :: <what fails>'  of known-findings.txt"""
    res = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            m = re.match(r"known:\s+property=(\S+)\s+class=(\S+)\s+match=(.*?)\s+::\s+(.*)", line)
            if m and m.group(1) == prop:
                res.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return res


# ------------------------------------------------------------------ minimising
def ddmin(items, test, deadline, pool):
    """smallest sublist found for which test holds; test is called in parallel"""
    n = 2
    # everything at once first
    if items and time.time() < deadline and test([]):
        return []
    while len(items) >= 2 and time.time() < deadline:
        size = (len(items) + n - 1) // n
        cands = [items[:i] + items[i + size:] for i in range(0, len(items), size)]
        hit = None
        for k in range(0, len(cands), JOBS):
            if time.time() > deadline:
                break
            res = list(pool.map(test, cands[k:k + JOBS]))
            ok = [c for c, r in zip(cands[k:k + JOBS], res) if r]
            if ok:
                hit = ok[0]
                break
        if hit is not None:
            items = hit
            n = max(n - 1, 2)
        elif size == 1:
            break
        else:
            n = min(len(items), n * 2)
    if len(items) == 1 and time.time() < deadline and test([]):
        return []
    return items


# ------------------------------------------------------------------ evidence
def write_evidence(prop, tier, seed, level, coverage, assumptions, violations):
    os.makedirs(EVID, exist_ok=True)
    d = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": coverage,
         "assumptions": assumptions, "wall_s": round(time.time() - T0, 1), "violations": violations}
    tmp = os.path.join(EVID, prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(d, f, indent=1)
    os.rename(tmp, os.path.join(EVID, prop + ".json"))


def replay_path(prop, seed, ext):
    d = os.path.join(EVID, "replays")
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, "%s-%s.%s" % (prop, seed, ext))


def crc(s):
    return zlib.crc32(s.encode())
