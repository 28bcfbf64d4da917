"""Checks of the simulation engine (Computer, Grid, Environment) under the deterministic OpenMP runtime."""
from .common import *

KNOB = ["-include", SIM + "/knob.hpp", "-DSIM_VCL_KNOB", "-DVIENNACL_OPENMP_VECTOR_MIN_SIZE=sim_vcl_min"]
OMP = ["-fopenmp=libomp"]


def pre(name):
    return ["-include", "%s/variants/%s.hpp" % (SIM, name)]


VARIANTS = {
    "base": OMP + KNOB,
    "serial": KNOB,
    "ublas": OMP + pre("ublas"),
    "ublas_serial": pre("ublas"),
    "gc": OMP + KNOB + ["-DMPS_GC"],
    "pexp": OMP + KNOB + ["-DPRESSURE_EXPLICIT"],
    "plain": OMP + KNOB + pre("plain"),
    "nospp": OMP + KNOB + pre("nospp"),
    "nohs": OMP + KNOB + pre("nohs"),
    "nohl": OMP + KNOB + pre("nohl"),
    "noecs": OMP + KNOB + pre("noecs"),
    "nods": OMP + KNOB + pre("nods"),
    "omp2": OMP + KNOB + ["-DSIGNED_LOOP_COUNTER", "-DATOMIC_LOCK"],  # the branches for OpenMP 2.0 compilers
    "plain_gc": OMP + KNOB + pre("plain") + ["-DMPS_GC"],
    "central": OMP + KNOB + ["-DCENTRAL_GRAVITY"],
    "dim3": OMP + KNOB + ["-DDIM3"],
    "dim3_plain": OMP + KNOB + ["-DDIM3"] + pre("plain"),
    "dim3_gc": OMP + KNOB + ["-DDIM3", "-DMPS_GC"],
}
# C14: a second engine in the same executable, from another build of the same sources
ALT = {
    "base~serial": ("base", KNOB),
    "base~ublas": ("base", OMP + pre("ublas")),
    "base~ublas_serial": ("base", pre("ublas")),
    "plain~serial": ("plain", KNOB + pre("plain")),
    "plain~ublas": ("plain", OMP + pre("plain") + pre("ublas")),
    "nospp~ublas_serial": ("nospp", pre("nospp") + pre("ublas")),
    "gc~serial": ("gc", KNOB + ["-DMPS_GC"]),
    "pexp~serial": ("pexp", KNOB + ["-DPRESSURE_EXPLICIT"]),
    "dim3~serial": ("dim3", KNOB + ["-DDIM3"]),
    "dim3~ublas": ("dim3", OMP + ["-DDIM3"] + pre("ublas")),
}
# the whole program on the simulated operating system (sim/app.cpp): extra flags of the program, engine variant of the reference
APP = {
    "app": ("base", OMP + KNOB),
    "app_plain": ("plain", OMP + KNOB + pre("plain")),
    "app_dim3": ("dim3", OMP + KNOB + ["-DDIM3"]),
    "app_pexp": ("pexp", OMP + KNOB + ["-DPRESSURE_EXPLICIT"]),
}
ASAN = {"app_asan": [], "app_asan_dim3": ["-DDIM3"]}
ASAN_FLAGS = ["-O1", "-g1", "-fsanitize=address", "-D_LIBCPP_HARDENING_MODE=_LIBCPP_HARDENING_MODE_EXTENSIVE", "-DOPENMPS_SIM"]
ENGINE_FLAGS = ["-O1", "-g1", "-DOPENMPS_SIM", "-ftrivial-auto-var-init=pattern", "-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0", "-femulated-tls"]


NOT_BUILT = {}


def build(variants, prop=None):
    """{variant: executable}; an alternative build whose sources do not compile is left out, the main one must be there"""
    inc = ["-I" + REPO + "/src", "-I" + SIM]
    with cf.ThreadPoolExecutor(JOBS) as ex:
        parts, jobs = {}, {}

        def obj(src, flags, label):
            if label not in jobs:
                jobs[label] = ex.submit(compile_cached, SIM + "/" + src, STD + flags, label)
            return jobs[label]

        def rt():
            if "rt" not in jobs:
                jobs["rt"] = ex.submit(own_templates)
            return jobs["rt"]

        def engine_object(v):
            fl = STD + inc + ENGINE_FLAGS + VARIANTS[v] + ['-DSIM_VARIANT="%s"' % v]
            try:
                return compile_cached(SIM + "/engine.cpp", fl + ["-DSIM_GRID"], "engine_" + v)
            except CheckError:
                if prop in (None, "C13"):
                    raise
                return compile_cached(SIM + "/engine.cpp", fl, "engine_" + v)  # the interface of Grid is needed by C13 only

        def eng(v):
            if "engine_" + v not in jobs:
                jobs["engine_" + v] = ex.submit(engine_object, v)
            return jobs["engine_" + v]

        for v in variants:
            if v in ALT:
                fl = STD + inc + ENGINE_FLAGS + ALT[v][1] + ['-DSIM_VARIANT="%s"' % v, "-Dmake_engine=make_engine_alt", "-Dengine_flags=engine_flags_alt", "-Dmake_grid=make_grid_alt"]
                second = ex.submit(localised, fl, v.replace("~", "_"))
                parts[v] = ([eng(ALT[v][0]), second, obj("sim.cpp", ["-O1", "-g1", "-I" + SIM], "sim"), rt()], ["-lpthread"])
            elif v in APP:
                ref, fl = APP[v]
                prog = obj("app_main.cpp", inc + ENGINE_FLAGS + fl, "prog_" + v)
                parts[v] = ([prog, eng(ref), obj("app.cpp", ["-O1", "-g1", "-I" + SIM], "app"), rt()], ["-lpthread", "-ldl"])
            elif v in ASAN:
                prog = obj("app_main.cpp", inc + ASAN_FLAGS + ASAN[v], "prog_" + v)
                parts[v] = ([prog, obj("app.cpp", ["-O1", "-g1", "-I" + SIM, "-DAPP_ASAN"] + ASAN_FLAGS + ASAN[v], v)], ["-fsanitize=address", "-lpthread", "-ldl"])
            else:
                parts[v] = ([eng(v), obj("sim.cpp", ["-O1", "-g1", "-I" + SIM], "sim"), rt()], ["-lpthread"])
        exes, err = {}, None
        for v, (objs, fl) in parts.items():
            try:
                exes[v] = link_cached([o.result() for o in objs], fl, "sim_" + v.replace("~", "_"))
            except CheckError as e:
                err = err or e
                if v == variants[0] and v not in ALT:
                    raise
                NOT_BUILT[v] = str(e)
                log("not built and not explored: %s: %s" % (v, str(e).strip().split("\n")[-1][:300]))
        if not exes:
            raise err
        return exes


def own_templates():
    """the simulator itself: its instances of library templates stay its own, so that it never executes the instrumented ones of the engine"""
    obj = compile_cached(SIM + "/rt.cpp", STD + ["-O2", "-g1", "-I" + SIM], "rt")
    loc = obj[:-2] + "-local.o"
    if not os.path.exists(loc):
        tmp = loc + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
        rc, out, err = run(["ld", "-r", "--force-group-allocation", "-o", tmp, obj])
        if rc == 0:
            rc, out, err = run(["objcopy", "--wildcard", "--localize-symbol=_ZNSt*", "--localize-symbol=_ZNKSt*", "--localize-symbol=_ZSt*", tmp])
        if rc != 0:
            raise CheckError("localising the simulator failed:\n%s" % err[-2000:])
        os.rename(tmp, loc)
    return loc


def localised(flags, label):
    """the second engine of an executable: everything but its factory is made local to it, templates and inline functions included"""
    obj = compile_cached(SIM + "/engine.cpp", flags, "alt_" + label)
    loc = obj[:-2] + "-local.o"
    if not os.path.exists(loc):
        tmp = loc + ".%d.tmp" % os.getpid()
        rc, out, err = run(["ld", "-r", "--force-group-allocation", "-o", tmp, obj])
        if rc == 0:
            rc, out, err = run(["objcopy", "--keep-global-symbol=_Z15make_engine_altRK9EnvParamsP6WallCb", "--keep-global-symbol=_Z16engine_flags_altv", tmp])
        if rc != 0:
            raise CheckError("localising %s failed:\n%s" % (label, err[-2000:]))
        os.rename(tmp, loc)
    return loc


class Rec:
    __slots__ = ("variant", "index", "seed", "viol", "info", "probe", "raw")

    def __init__(self, variant, index, seed):
        self.variant, self.index, self.seed = variant, index, seed
        self.viol, self.info, self.probe, self.raw = [], None, {}, ""


def parse_report(lines, rec):
    for l in lines:
        f = l.split("\t")
        if f[0] == "V":
            rec.viol.append((f[1], f[2] if len(f) > 2 else ""))
        elif f[0] == "I":
            rec.info = f[1:]
        elif f[0] == "P":
            for q in f[1:]:
                if "=" in q:
                    k, v = q.split("=")
                    rec.probe[k] = rec.probe.get(k, 0) + int(v)
    rec.raw = "\n".join(lines)


def batch(exe, variant, prop, base, start, end, thorough):
    cmd = [exe, "batch", prop, str(base), str(start), str(end), "1"] + (["--thorough"] if thorough else [])
    rc, out, err = run(cmd, timeout=600)
    if rc != 0:
        raise CheckError("batch failed: %s %s" % (rc, err[-500:]))
    recs, cur = [], None
    for l in out.split("\n"):
        if l.startswith("N\t"):
            f = l.split("\t")
            cur = Rec(variant, int(f[1]), int(f[2]))
            recs.append(cur)
            buf = []
        elif cur is not None:
            if l == "E":
                parse_report(buf, cur)
            buf.append(l)
    if len(recs) != end - start and not (recs and recs[-1].viol and recs[-1].viol[0][0].endswith(":hang")):
        raise CheckError("batch reported %d of %d runs" % (len(recs), end - start))
    return recs


def one(exe, path, record=None, slow=1):
    cmd = [exe, "run", path] + (["--record", record] if record else [])
    rc, out, err = run(cmd, timeout=120 * slow, env=dict(os.environ, SIM_CPU=str(slow)))
    if rc != 0:
        raise CheckError("run failed: %s %s" % (rc, err[-500:]))
    r = Rec("", 0, 0)
    parse_report([l for l in out.split("\n") if l and l != "E"], r)
    return r


def gen(exe, prop, seed, thorough):
    rc, out, err = run([exe, "gen", prop, str(seed)] + (["--thorough"] if thorough else []), timeout=60)
    if rc != 0:
        raise CheckError("gen failed")
    return out


def plan_head(prop, variant, cls, seed, path):
    return "# property %s\n# variant %s\n# violation %s\n# seed %d\n# replay: python3 check.py replay %s\n" % (prop, variant, cls, seed, path)


def confirm_and_minimise(exe, variant, prop, rec, thorough, tmp, budget):
    """violation gate: same seed again, replay in a fresh process, then a smaller plan with the same violation"""
    cls = rec.viol[0][0]
    text = gen(exe, prop, rec.seed, thorough)
    pl = os.path.join(tmp, "v.plan")
    open(pl, "w").write(text)
    trace = os.path.join(tmp, "v.trace")
    if cls.endswith(":hang"):
        # only slow, or without end: judged again with five times the processor time, and not made smaller (each trial would take as long)
        a = one(exe, pl, None, 5)
        if not a.viol:
            raise CheckError("violation %s of seed %d does not reproduce with more processor time" % (cls, rec.seed))
        if a.viol[0][0] == cls:
            path = replay_path(prop, rec.seed, "plan")
            open(path, "w").write(plan_head(prop, variant, cls, rec.seed, path) + text)
            return path, a.viol[0]
        cls = a.viol[0][0]
    a = one(exe, pl, trace)
    b = one(exe, pl)
    if not a.viol or not b.viol or a.viol[0][0] != cls or b.viol[0][0] != cls:
        raise CheckError("violation %s of seed %d does not reproduce: %r / %r" % (cls, rec.seed, a.viol, b.viol))
    if a.raw != b.raw:
        log("two runs of the seed differ beyond the violation: the code under test depends on something outside the simulation")
    best = text
    if os.path.exists(trace):
        r = one(exe, trace)
        if r.viol and r.viol[0][0] == cls:
            best = open(trace).read()
        else:
            raise CheckError("replay of the recorded schedule does not reproduce %s of seed %d: %r" % (cls, rec.seed, r.viol))
    deadline = time.time() + budget
    cnt = [0]

    def holds(text_):
        cnt[0] += 1
        f = os.path.join(tmp, "m%d-%d.plan" % (threading.get_ident(), cnt[0]))
        open(f, "w").write(text_)
        try:
            r = one(exe, f)
        except Exception:
            return False
        finally:
            try:
                os.remove(f)
            except OSError:
                pass
        return bool(r.viol) and r.viol[0][0] == cls

    def parts(t):
        ls = t.split("\n")
        return [l for l in ls if l and not l.startswith(("p ", "op ", "ev "))], [l for l in ls if l.startswith("p ")], [l for l in ls if l.startswith("op ")], [l for l in ls if l.startswith("ev ")]

    with cf.ThreadPoolExecutor(JOBS) as pool:
        head, ps, ops, ev = parts(best)
        join = lambda p, o, e: "\n".join(head + p + o + e) + "\n"
        for _ in range(2):
            ev = ddmin(ev, lambda e: holds(join(ps, ops, e)), deadline, pool)
            ops = ddmin(ops, lambda o: holds(join(ps, o, ev)), deadline, pool)
            ps = ddmin(ps, lambda p: holds(join(p, ops, ev)), deadline, pool)
    final = join(ps, ops, ev)
    path = replay_path(prop, rec.seed, "plan")
    open(path, "w").write(plan_head(prop, variant, cls, rec.seed, path) + final)
    r = one(exe, path)
    if not r.viol or r.viol[0][0] != cls:
        raise CheckError("the minimised plan does not reproduce %s: %r" % (cls, r.viol))
    log("minimised to %d particles, %d operations, %d scheduling events in %d runs" % (len(ps), len(ops), len(ev), cnt[0]))
    return path, r.viol[0]


# property -> quick runs and relative weight in the thorough tier, per variant
PLAN = {
    "C01": [("base", 3000), ("gc", 300), ("plain", 400), ("pexp", 300), ("ublas", 300), ("dim3", 200), ("omp2", 200)],
    "C02": [("base", 6000), ("gc", 600), ("plain", 800), ("pexp", 600), ("ublas", 600), ("dim3", 400), ("omp2", 400), ("nods", 200), ("central", 200)],
    "C03": [("base", 1700), ("plain", 400), ("nospp", 300), ("dim3", 550)],
    "C04": [("base", 2400), ("plain", 400), ("gc", 150), ("dim3", 200)],
    "C05": [("base", 3000), ("plain", 500), ("pexp", 750), ("dim3", 400)],
    "C06": [("base", 4500), ("plain", 600), ("pexp", 600), ("dim3", 450)],
    "C07": [("base", 3000), ("plain", 600), ("nospp", 500), ("ublas", 400), ("pexp", 400), ("dim3", 300), ("nohs", 200), ("nohl", 200), ("noecs", 200), ("nods", 200)],
    "C08": [("base", 2400), ("plain", 600), ("central", 400), ("dim3", 400), ("pexp", 200)],
    "C09": [("base", 2250), ("plain", 450), ("gc", 600), ("nospp", 300), ("pexp", 200), ("dim3", 200), ("dim3_gc", 150), ("nods", 300), ("nohl", 150), ("noecs", 150), ("plain_gc", 150)],
    "C10": [("base", 2400), ("plain", 400), ("ublas", 300), ("pexp", 200), ("dim3", 150)],
    "C11": [("base", 2700), ("plain", 400), ("ublas", 300), ("pexp", 200), ("dim3", 150)],
    "C12": [("base", 3000), ("plain", 400), ("ublas", 400), ("pexp", 200), ("dim3", 150)],
    "C13": [("base", 15000), ("dim3", 7500), ("omp2", 1000)],
    "C14": [("base~serial", 500), ("base~ublas", 500), ("base~ublas_serial", 500), ("plain~serial", 150), ("plain~ublas", 250), ("nospp~ublas_serial", 200), ("gc~serial", 100), ("pexp~serial", 150), ("dim3~serial", 80), ("dim3~ublas", 80)],
    "C15": [("app", 1200), ("app_plain", 150), ("app_pexp", 150), ("app_dim3", 100)],
    "C16": [("app", 1000), ("app_plain", 150), ("app_pexp", 150), ("app_dim3", 200)],
    "C17": [("app", 700), ("app_plain", 100), ("app_pexp", 100), ("app_dim3", 100)],
    "C18": [("app", 800), ("app_dim3", 100)],
    "C19": [("app_asan", 4000), ("app_asan_dim3", 1000)],
    "C20": [("app", 700), ("app_dim3", 100)],
    "C21": [("app", 1200), ("app_plain", 150), ("app_dim3", 100)],
    "C24": [("base", 500), ("plain", 100), ("gc", 60), ("ublas", 450), ("ublas_serial", 100), ("pexp", 150), ("omp2", 60), ("dim3", 50)],
    "C25": [("base", 1000), ("plain", 200), ("gc", 100), ("ublas", 300), ("pexp", 150), ("omp2", 100), ("nods", 60), ("dim3", 80)],
}
# further builds of the thorough tier
MORE = {
    "C01": [("omp2", 100), ("central", 60), ("nods", 60)],
    "C06": [("omp2", 60), ("nospp", 60)],
    "C13": [("omp2", 600)],
    "C02": [("omp2", 150), ("nohs", 60), ("nohl", 60), ("noecs", 60), ("nods", 60), ("central", 60), ("dim3_gc", 60)],
    "C03": [("omp2", 60), ("ublas", 60), ("gc", 60), ("nods", 60)],
    "C07": [("nohs", 150), ("nohl", 150), ("noecs", 150), ("nods", 60), ("gc", 60)],
    "C08": [("nohl", 150), ("gc", 60), ("pexp", 100)],
    "C09": [("nohs", 60), ("nohl", 60), ("noecs", 60), ("nods", 200), ("plain_gc", 150), ("ublas", 60), ("central", 60)],
    "C10": [("omp2", 60), ("gc", 60), ("nods", 60), ("noecs", 60), ("nospp", 60)],
    "C12": [("omp2", 100), ("gc", 60), ("nods", 60), ("noecs", 60), ("nospp", 60)],
}
NONTRIVIAL = {
    "C01": "ran on more than one virtual thread with at least one preemption and was compared with the one-thread run",
    "C02": "ran on more than one virtual thread with at least one preemption",
    "C03": "evaluated at least one density against the all-pairs reference",
    "C04": "had a particle leaving the domain or disabled",
    "C05": "completed at least one step",
    "C06": "moved at least one wall particle",
    "C07": "had a pressure solution, residual or failure judged",
    "C08": "had at least one fluid update of the explicit phase judged",
    "C09": "had at least one fluid update of the pressure phase judged",
    "C10": "compared at least one step with a replaced computer",
    "C11": "compared at least one step after additions",
    "C12": "had a step that failed (injected allocation failure, throwing callback, unsolvable pressure or full cell)",
    "C13": "enumerated at least one registered particle",
    "C14": "compared at least one step of the two builds", "C24": "repeated its history three times with a failed step, addition or construction, or with a scene at rest",
    "C25": "ran two computers at the same time with at least one preemption and compared at least one step",
    "C15": "judged at least two snapshots against the direct run", "C16": "judged at least one snapshot against the direct run", "C17": "resumed at least one run from a snapshot",
    "C18": "had at least one injected fault that fired", "C19": "judged at least one damaged input", "C20": "compared the files of a disturbed run in which a disturbance took place", "C21": "failed and was judged",
}


def nontrivial(prop, r):
    if r.info is None:
        return False
    p, sw = r.probe, int(r.info[6])
    return {
        "C01": sw > 0 and p.get("steps", 0) > 0, "C02": sw > 0, "C03": p.get("densities", 0) > 0,
        "C04": p.get("left_domain", 0) + p.get("disabled_steps", 0) > 0, "C05": p.get("cfl_limited", 0) + p.get("dt_maximum", 0) > 0,
        "C06": p.get("wall_moves", 0) > 0, "C07": p.get("residuals", 0) + p.get("solutions", 0) + p.get("solver_failures", 0) + p.get("pressures", 0) > 0,
        "C08": p.get("explicit_updates", 0) > 0, "C09": p.get("gradients", 0) > 0, "C10": p.get("compared_steps", 0) > 0,
        "C11": p.get("compared_steps", 0) > 0, "C12": p.get("failed_steps", 0) > 0, "C13": p.get("enumerated", 0) > 0, "C24": p.get("cycles", 0) > 0 and p.get("failed_steps", 0) + p.get("failed_additions", 0) + p.get("failed_constructions", 0) + p.get("still_steps", 0) > 0, "C14": p.get("compared_steps", 0) > 0,
        "C25": sw > 0 and p.get("compared_steps", 0) > 0,
        "C15": p.get("judged_snapshots", 0) > 1, "C16": p.get("judged_snapshots", 0) > 0, "C17": p.get("resumed", 0) > 0,
        "C18": any(k.startswith("fault:") for k in p), "C19": p.get("judged_damages", 0) + p.get("judged_random_damages", 0) > 0,
        "C20": p.get("compared_files", 0) > 0, "C21": p.get("judged_failures", 0) > 0,
    }[prop]


FAULTS = {"alloc_fault_fired": "failed allocation", "pre_throw_fired": "wall pre-processing throws", "solver_failures": "pressure solver failure",
          "ended_an exception": "step ended by the engine's own exception (solver failure or full cell)", "cell_full": "full search cell", "failed_additions": "addition failed for lack of memory",
          "left_domain": "particle outside the domain", "blown_up": "diverging scene"}

REAL = ["Computer.hpp, Grid.hpp, Environment.hpp, Particle.hpp, Vector.hpp of /repo (whole time step, search grid, pressure equation, conjugate gradients)", "ViennaCL (host backend) or boost uBLAS", "code generated by clang for the OpenMP pragmas"]
APP_REAL = ["Main.cpp of /repo, entry point renamed, with everything it includes (input parsing, time loop, snapshots, console)", "boost property_tree, format, algorithm; libc++ streams down to fopen/fread/fwrite"] + REAL
APP_STUB = ["files and folders: in memory (sim/apprun.hpp), with errors, short transfers, full disk, process kill at any operation", "console, wall clock, system(\"mkdir\")", "OpenMP runtime library: deterministic fibers with a seeded scheduler (C19: no OpenMP, AddressSanitizer)", "operator new: seeded failures, patterned fresh memory"]
STUB = ["OpenMP runtime library: deterministic fibers with a seeded scheduler (sim/rt.cpp)", "operator new: seeded failures, patterned fresh memory", "wall callbacks: generated wall motion"]


def check(prop, tier, seed):
    thorough = tier == "thorough"
    plan = PLAN[prop] + (MORE.get(prop, []) if thorough else [])
    exes = build([v for v, _ in plan], prop)
    plan = [(v, n) for v, n in plan if v in exes]
    log("built", ", ".join(exes))
    budget = float(os.environ.get("VERIF_BUDGET", "660" if thorough else "75"))
    stop_at = time.time() + budget
    known = known_findings(prop)
    tmp = tempfile.mkdtemp(prefix="verif-")
    try:
        # determinism: the same seeds twice, at two different groupings
        for v, _ in plan[:2]:
            base = seed * 1000003 + crc(prop + v)
            with cf.ThreadPoolExecutor(JOBS) as pool:
                fx = [pool.submit(batch, exes[v], v, prop, base, k, k + 6, thorough) for k in (0, 6)]
                fy = [pool.submit(batch, exes[v], v, prop, base, k, k + 3, thorough) for k in range(0, 12, 3)]
                x, y = [r for q in fx for r in q.result()], [r for q in fy for r in q.result()]
            for a, b in zip(x, y):
                if a.raw != b.raw and not (a.viol or b.viol):  # a violation is judged below
                    raise CheckError("not deterministic: seed %d of %s\n%s\n---\n%s" % (a.seed, v, a.raw, b.raw))
        t_run = time.time()
        chunk = 8 if plan[0][0].startswith("app") else 20
        tasks = []
        for v, n in plan:
            base = seed * 1000003 + crc(prop + v)
            tasks.append([(v, base, s, min(s + chunk, n)) for s in range(0, n, chunk)])
        # interleave the variants so that a cut-off run has covered all of them
        order = sorted(((k + 0.5) / len(t), i, x) for i, t in enumerate(tasks) for k, x in enumerate(t))
        queue = [x for _, _, x in order]
        rounds = 0
        recs, viols, lock = [], [], threading.Lock()
        qi = [0]
        stop = threading.Event()
        errors = []

        def only_slow(r):
            """it ends when it gets five times the processor time"""
            f = os.path.join(tmp, "slow%d.plan" % threading.get_ident())
            open(f, "w").write(gen(exes[r.variant], prop, r.seed, thorough))
            q = one(exes[r.variant], f, None, 5)
            if not q.viol:
                log("seed %d of %s is only slow" % (r.seed, r.variant))
            return not q.viol

        def worker():
            while not stop.is_set():
                with lock:
                    if time.time() > stop_at:
                        return
                    k = qi[0]
                    qi[0] += 1
                    if k >= len(queue) and not thorough:
                        return
                    v, base, s, e = queue[k % len(queue)]
                    if k >= len(queue):  # thorough: go on with fresh seeds until the time is used
                        off = k // len(queue) * 1000000
                        s, e = s + off, e + off
                try:
                    rs = batch(exes[v], v, prop, base, s, e, thorough)
                except Exception as ex:
                    errors.append(ex)
                    stop.set()
                    return
                slow_runs = [r for r in rs if r.viol and r.viol[0][0].endswith(":hang") and only_slow(r)]
                with lock:
                    recs.extend(rs)
                    for r in rs:
                        if not r.viol:
                            continue
                        hit = [kn for kn in known if kn[0] == r.viol[0][0] and kn[1].search(r.viol[0][1])]
                        if hit:
                            r.probe["known_finding"] = 1
                            continue
                        if r in slow_runs:
                            r.probe["slow"] = 1
                            continue
                        viols.append(r)
                    if viols:
                        stop.set()

        ths = [threading.Thread(target=worker) for _ in range(JOBS)]
        [t.start() for t in ths]
        [t.join() for t in ths]
        wall = time.time() - t_run
        if errors:
            raise errors[0]
        log("%d runs in %.1f s" % (len(recs), wall))
        result = None
        if viols:
            viols.sort(key=lambda q: (q.viol[0][0].endswith(":hang"), len(q.viol[0][0]), q.index))
            for k, r in enumerate(viols[:6]):
                log("violation %s (%s, seed %d): %s" % (r.viol[0][0], r.variant, r.seed, r.viol[0][1]))
                try:
                    result = confirm_and_minimise(exes[r.variant], r.variant, prop, r, thorough, tmp, 60)
                    break
                except CheckError as e:  # not repeatable: perhaps another one is
                    if k + 1 == min(len(viols), 6):
                        raise
                    log("not confirmed: %s" % e)
        # evidence
        distinct, inter, states = set(), set(), set()
        faults, probes, per, fam = {}, {}, {}, {}
        simt = steps = acc = sw = par = 0
        maxteam = 0
        for r in recs:
            per[r.variant] = per.get(r.variant, 0) + 1
            for k, v in r.probe.items():
                probes[k] = probes.get(k, 0) + v
            if r.info:
                i = r.info
                steps += int(i[2]); simt += float(i[3]); par += int(i[4]); acc += int(i[5]); sw += int(i[6])
                maxteam = max(maxteam, int(i[9])); fam[i[10]] = fam.get(i[10], 0) + 1
                if int(i[6]) > 0:
                    inter.add(i[1])
                states.add(i[0])
                if nontrivial(prop, r):
                    distinct.add((r.variant, i[0], i[1]))
        for k, what in FAULTS.items():
            if probes.get(k):
                faults[what] = probes[k]
        for k, n in probes.items():
            if k.startswith("fault:"):
                faults[k[6:]] = n
        app = plan[0][0].startswith("app")
        samples = [{"variant": r.variant, "seed": r.seed, "family": r.info[10], "particles": int(r.info[11]), "steps": int(r.info[2]), "state_hash": r.info[0], "interleaving_hash": r.info[1], "preemptions": int(r.info[6]), "reached": r.probe} for r in recs[:3] if r.info]
        if recs:
            first = [r for r in recs if r.variant == plan[0][0]]
            if first:
                s = gen(exes[plan[0][0]], prop, first[0].seed, thorough).strip().split("\n")
                samples.append({"plan_of_seed": first[0].seed, "text": s[:12] + (["... %d more lines" % (len(s) - 12)] if len(s) > 12 else [])})
        cov = {"evaluations": len(recs), "distinct_nontrivial": len(distinct),
               "rule": "One evaluation is one simulated run of the real engine generated from one seed (scene family, parameters, operations, faults and schedule are all drawn from it); a run counts as non-trivial when it %s; distinct by build variant, state history hash and interleaving hash." % NONTRIVIAL[prop],
               "samples": samples, "runs_per_hour": int(len(recs) / max(wall, 1e-3) * 3600), "simulated_time_s": simt, "steps": steps,
               "parallel_regions": par, "instrumented_accesses": acc, "preemptions": sw, "max_virtual_threads": maxteam,
               "distinct_interleavings": len(inter), "distinct_state_histories": len(states), "runs_per_variant": per, "variants_not_built": sorted(NOT_BUILT), "scene_families": fam,
               "faults_fired": faults, "probes": probes, "real_components": APP_REAL if app else REAL, "stub_components": APP_STUB if app else STUB}
        write_evidence(prop, tier, seed, "exploration", cov, ["sequentially consistent interleavings at instrumented memory accesses; weak-memory effects only through the race detector", "the direct run of the engine and the operating system model in sim/apprun.hpp" if app else "the reference model in sim/ref.hpp"], 1 if result else 0)
        for cls, rx, what in known:
            n = sum(1 for r in recs if r.viol and cls == r.viol[0][0] and rx.search(r.viol[0][1]))
            print("KNOWN-FINDING: property=%s %s (%d runs)" % (prop, what, n))
        if result:
            print("%s: %s" % (result[1][0], result[1][1]))
            print("VIOLATION property=%s replay=%s" % (prop, result[0]))
            return 1
        if len(distinct) < 2:
            raise CheckError("nothing was explored: %d runs, %d distinct non-trivial" % (len(recs), len(distinct)))
        log("%s held in %d runs (%d distinct non-trivial)" % (prop, len(recs), len(distinct)))
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def replay(path):
    head = open(path).read(2000)
    v = re.search(r"^# variant (\S+)", head, re.M).group(1)
    prop = re.search(r"^prop (\S+)", head, re.M).group(1)
    exe = build([v], prop)[v]
    r = one(exe, path)
    for c, m in r.viol:
        print("%s: %s" % (c, m))
    if r.viol:
        print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1 if r.viol else 0
