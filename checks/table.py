"""Which harnesses decide which property."""
CHECKS = {}
def parts(name, src, k, **kw):
    r = []
    for i in range(k):
        d = dict(kw); d["name"] = "%s%d" % (name, i); d["src"] = src; d["flags"] = list(kw.get("flags", [])) + ["-DPART=%d" % i]
        r.append(d)
    return r
def prop(pid, title_rule, units, technique, note, **kw):
    CHECKS[pid] = dict(rule=title_rule, units=units, technique=technique, note=note, **kw)

import re
FASTFLAGS = ["-march=x86-64-v2", "-DALIGN_BLOCKED", "-include", "fastlib.hpp"]
def fast(units, ids=None, **kw):
    """The same harnesses, the library compiled with the options of the project's own CMake files (-O3 -ffast-math)."""
    r = []
    for u in units:
        if ids is not None and int(u["name"][-1]) not in ids: continue
        s = u["src"]
        lib = 1 if re.match("rad|rod|iso|lapack", s) else 2 if s.startswith("rock") else 3 if s.startswith("sdirk") else 4 if s.startswith("gauss") else 5
        r.append(dict(u, name=u["name"] + "-fast", san=False, opt="-O3", seedx=500, flags=u["flags"] + FASTFLAGS + ["-DFASTLIB=%d" % lib], **kw))
    return r
def withfast(units, ids=None, **kw): return units + fast(units, ids, **kw)

prop("R01", "One case = one random problem, layout, option set and integration, seeded by (seed, group, number); every accepted step it makes is one comparison. Distinct: step buckets (layout, step size times Lipschitz constant, direction, tolerance decade).",
     withfast(parts("rad_step", "rad_step.cpp", 4, need=["accepted steps compared"])),
     "runtime monitor: each accepted step replayed against a long double Radau IIA collocation solver",
     "Observed executions only; trusts the reference model in harness/implicit.hpp and the hook's step records. The Newton stopping test is heuristic, so a single step may deviate up to a calibrated multiple of the stopping tolerance; medians and 90% quantiles are held much tighter.")

CALIB = "Observed executions only. Bounds were calibrated over several seeds with a wide margin; the oracle trusts the hook's record of attempted steps (cross-checked against the calls seen at the user's functions)."
WRAPF = ["-Wl,--wrap=dgetrf_,--wrap=zgetrf_,--wrap=dgbtrf_,--wrap=zgbtrf_"]
def ro(m, auto, dt): return ["-DRODAS", "-DRMETH=%d" % m, "-DRAUTO=%s" % ("true" if auto else "false"), "-DRUSEDT=%s" % ("true" if dt else "false")]
def pick(name, src, combos, **kw):
    r = []
    for (m, a, d, ps) in combos:
        for p in ps:
            u = dict(kw); u["name"] = "%s-m%d%s%s-%d" % (name, m, "a" if a else "", "" if d else "n", p); u["src"] = src
            u["flags"] = list(kw.get("flags", [])) + ro(m, a, d) + ["-DPART=%d" % p]; r.append(u)
    return r

prop("R02", "One case = one random problem, layout, option set and interval; the time of every user call, attempted step and return is one observation. Distinct: (layout, mode, direction, decades of interval length and initial step).",
     withfast(parts("rad_time", "rad_time.cpp", 3, need=["right-hand side times", "accepted steps", "normal returns"])),
     "runtime monitor: online check of the times of all user calls and of the trace of attempted steps; exact quadratures at the end", CALIB)
prop("R03", "One case = one integration; each attempted step gives a decision, an error estimate and a step ratio compared with a long double model. Distinct: (layout, accepted?, error decade, step size times Lipschitz constant).",
     withfast(parts("rad_err", "rad_err.cpp", 5, need=["error estimates compared", "global errors"])) + withfast(parts("rad_fault", "rad_fault.cpp", 1, args=["--keys", "accepted-with-bad-error,accepted-with-bad-evaluation"], need=["attempts using a value that is not finite"])),
     "runtime monitor: trace of attempts checked against a long double error estimate; global error against a long double solution", CALIB + " The estimate is compared when the Newton tolerance set makes it resolvable.")
prop("R04", "One case = one problem and option set; every call of the right-hand side and of the Jacobian is in turn made to throw or to return NaN or infinities (once, or from then on). Distinct: (layout, fault kind, call index, accepted steps, outcome).",
     withfast(parts("rad_fault", "rad_fault.cpp", 5, need=["fault points: exception in f", "fault points: lasting NaN in f", "reuse after failure"])),
     "fault injection at every user call under ASan/UBSan, with a trace monitor and work limits", CALIB)
prop("R05", "One case = one integration (also on a shared object, interrupted, limited, one-step). Distinct: (layout, outcome, accepted, rejected, Newton failures).",
     withfast(parts("rad_stats", "rad_stats.cpp", 5, flags=WRAPF, need=["normal returns", "error test rejections", "Newton failures"])),
     "runtime monitor: counters reported against calls counted at the user's functions and, by link-time wrapping, at LAPACK", CALIB)
prop("R06", "One case = one problem and one option (one-step mode, step limit, Newton limit, safety factor and step ratio bounds, Jacobian threshold, stopping tolerance, per-component tolerances). Distinct: (option, layout, effect).",
     withfast(parts("rad_opts", "rad_opts.cpp", 5, need=["one-step calls", "step limits tried", "stopping tolerances refused", "permutations of relative tolerances"])),
     "runtime monitor: effects of options on the trace of attempts and user calls, differential runs", CALIB)
prop("R07", "One case = one history of calls (repeated, interleaved, failed, nested in another's right-hand side, in parallel threads), compared bit for bit with a new object. Distinct: (layout, history).",
     parts("iso", "iso.cpp", 5, need=["calls compared", "thread runs"]) +
     [dict(name="iso-tsan", src="iso.cpp", san=False, flags=["-fsanitize=thread", "-DPART=1"], need=["thread runs"])],
     "differential runtime monitor over call histories, and ThreadSanitizer for the threaded ones", CALIB)
prop("R08", "One case = one problem integrated in ten layouts/sources, or the Jacobian at a random point. Distinct: (layout, attempts) or Jacobian point.",
     withfast(parts("rad_layout", "rad_layout.cpp", 5, need=["integrations", "numerical Jacobian elements", "calls with the caller's array watched"])),
     "runtime monitor: differential over layouts, long double solution, numerical Jacobian against the exact one, caller's array watched during calls", CALIB)

prop("S01", "One case = one random problem, layout, options and integration; each accepted step is compared with the formula. Distinct: (method, layout, step size times Lipschitz constant, direction).",
     withfast(pick("rod_step", "rod_step.cpp", [(1, 0, 1, (0, 1, 2)), (2, 0, 1, (0, 1, 2)), (3, 0, 1, (0, 1, 2)), (2, 0, 0, (0,)), (3, 1, 1, (1,)), (1, 1, 1, (2,))], need=["accepted steps compared", "orders observed"]), ids=(0, 2)),
     "runtime monitor: each accepted step replayed in a long double Rosenbrock model; observed local order", CALIB)
prop("S02", "As R02, for the three methods, autonomous or not, with given or numerical time derivative.",
     withfast(pick("rod_time", "rad_time.cpp", [(1, 0, 1, (0, 1)), (2, 0, 0, (1, 2)), (3, 0, 1, (0, 2)), (1, 1, 1, (1,)), (2, 1, 1, (0,))], need=["right-hand side times", "accepted steps", "normal returns"])),
     "runtime monitor: online check of the times of all user calls and of the trace of attempted steps; exact quadratures at the end", CALIB)
prop("S03", "One case = one integration; each attempt gives a decision, an error estimate and a step ratio compared with the model. Distinct: (method, layout, accepted?, error decade, step size).",
     withfast(pick("rod_err", "rod_err.cpp", [(1, 0, 1, (0, 1)), (2, 0, 1, (2, 3)), (3, 0, 1, (0, 2)), (2, 0, 0, (1,)), (3, 1, 1, (3,))], need=["error estimates compared", "global errors", "rejections confirmed"])) +
     withfast(pick("rod_fault", "rad_fault.cpp", [(1, 0, 1, (0,)), (3, 0, 1, (4,))], args=["--keys", "accepted-with-bad-error,accepted-with-bad-evaluation"], need=["attempts using a value that is not finite"])),
     "runtime monitor: trace of attempts checked against a long double error estimate and the documented step size formula; global error against a long double solution", CALIB)
prop("S04", "As R04, for Rodas, with faults of the time derivative too.",
     withfast(pick("rod_fault", "rad_fault.cpp", [(1, 0, 1, (0, 1)), (2, 0, 0, (2, 3)), (3, 0, 1, (4,)), (3, 1, 1, (1,))], need=["fault points: exception in f", "fault points: lasting NaN in f", "reuse after failure"])),
     "fault injection at every user call under ASan/UBSan, with a trace monitor and work limits", CALIB)
prop("S05", "One case = one integration or one option. Distinct: (method, layout, outcome, accepted, rejected) or (option, effect).",
     withfast(pick("rod_stats", "rod_stats.cpp", [(1, 0, 1, (0, 1)), (2, 0, 0, (2, 3)), (3, 0, 1, (1,)), (3, 1, 1, (2,))], flags=["-Wl,--wrap=dgetrf_,--wrap=dgbtrf_"], need=["normal returns", "rejections", "step limits tried"])),
     "runtime monitor: counters against calls counted at the user's functions and at LAPACK (link-time wrapping); effects of options on the trace", CALIB)
prop("S06", "As R07, for Rodas.",
     pick("rod_iso", "iso.cpp", [(1, 0, 1, (0, 1)), (2, 0, 0, (2, 3)), (3, 1, 1, (4,))], need=["calls compared", "thread runs"]) +
     [dict(name="rod_iso-tsan", src="iso.cpp", san=False, flags=["-fsanitize=thread", "-DPART=1"] + ro(2, 0, 0), need=["thread runs"])],
     "differential runtime monitor over call histories, and ThreadSanitizer for the threaded ones", CALIB)
prop("S07", "As R08, for Rodas, also over the source of the time derivative.",
     withfast(pick("rod_layout", "rad_layout.cpp", [(1, 0, 1, (0, 1)), (2, 0, 1, (2,)), (3, 0, 1, (3,)), (1, 1, 1, (4,))], need=["integrations", "numerical Jacobian elements"])),
     "runtime monitor: differential over layouts and derivative sources, long double solution, numerical Jacobian against the exact one", CALIB)

prop("K01", "One case = one problem and degree (single steps, all 50 tabulated degrees) or one integration; each accepted step is compared with the formula. Distinct: (degree, size, decade of step size times Lipschitz constant).",
     withfast(parts("rock_step", "rock_step.cpp", 3)),
     "runtime monitor: each accepted step replayed in a long double model of ROCK4 with stochastic rounding; observed local order", CALIB + " The tables of coefficients are compared, through the steps, with a golden copy taken at the pinned commit; the observed orders do not depend on that copy.", need=["accepted steps compared", "orders observed"])
prop("K02", "One case = one integration of decoupled modes or of modes whose rates move with time; each attempt is one observation of stages, each mode of each accepted step one of amplification. Distinct: (stages, decade of step times spectral radius).",
     withfast(parts("rock_stab", "rock_stab.cpp", 2, need=["stage numbers checked"])),
     "runtime monitor: number of user calls per attempt against the spectral radius reported; amplification of every mode in every accepted step", CALIB)
prop("K03", "One case = one integration (with a clock among the unknowns), or successive exact solutions, or a call with nothing to do. Distinct: (size, decades of interval and initial step, accepted steps).",
     withfast(parts("rock_time", "rock_time.cpp", 2)),
     "runtime monitor: trace of attempts, clock variable and exact solutions", CALIB, need=["accepted steps", "exact solutions compared", "calls with nothing to do", "short intervals"])
prop("K04", "One case = one integration; each attempt gives a decision, an error estimate and the next step size compared with the model. Distinct: (size, accepted?, error decade, degree).",
     withfast(parts("rock_err", "rock_err.cpp", 3)) + withfast(parts("rock_fault", "rock_fault.cpp", 1, args=["--keys", "accepted-with-bad-error,accepted-with-bad-evaluation"], need=["attempts using a value that is not finite"])),
     "runtime monitor: trace of attempts checked against a long double error estimate and the step size controller; global error against a long double solution", CALIB, need=["error estimates compared", "rejections confirmed", "retries", "global errors"])
prop("K05", "One case = one problem; every call of the right-hand side and of the spectral radius in turn throws, returns NaN or infinities (once or from then on); also hostile arguments. Distinct: (size, fault, call index, outcome, accepted steps).",
     withfast(parts("rock_fault", "rock_fault.cpp", 2, need=["fault points: exception in f", "reuse after failure", "hostile: refused"])),
     "fault injection at every user call under ASan/UBSan, with a trace monitor, ownership checks and work limits", CALIB)
prop("K06", "One case = one or more integrations, alone, in histories with failures and nesting, or in threads. Distinct: (size, accepted, rejected, stages) or (size, kind of call, position).",
     parts("rock_stats", "rock_stats.cpp", 3) + [dict(name="rock_stats-tsan", src="rock_stats.cpp", san=False, flags=["-fsanitize=thread", "-DPART=2"], need=["thread runs"])],
     "runtime monitor: counters against the calls seen by the user's functions; differential over histories, bit for bit; ThreadSanitizer", CALIB)
OMPF = ["-fopenmp", "-DROCK4_OMP"]
prop("K07", "One case = one problem, size, tolerance and number of threads, run in parallel (twice or more) and sequentially. Distinct: (size, threads, parallel right-hand side, steps).",
     [dict(name="omp-tsan", src="rock_omp.cpp", more=["rock_seq.cpp"], san=False, flags=OMPF + ["-DSHIM", "-fsanitize=thread"], need=["runs compared", "parallel regions"]),
      dict(name="omp-tsan-O3", src="rock_omp.cpp", more=["rock_seq.cpp"], san=False, opt="-O3", flags=OMPF + ["-DSHIM", "-fsanitize=thread", "-DALIGN_BLOCKED"], need=["runs compared", "parallel regions"]),
      dict(name="omp-asan", src="rock_omp.cpp", more=["rock_seq.cpp"], flags=OMPF, omp=True, need=["runs compared"]),
      dict(name="omp-O3", src="rock_omp.cpp", more=["rock_seq.cpp"], san=False, opt="-O3", flags=OMPF + ["-DALIGN_BLOCKED", "-march=native"], omp=True, need=["runs compared"])],
     "ThreadSanitizer on the OpenMP build (with a run time library on plain threads it understands), differential monitor against the sequential build", "Observed executions and thread numbers only. g++'s own libgomp is not understood by ThreadSanitizer, so for race detection harness/omp_shim.hpp implements the same interface on threads.")

prop("L01", "One case = one problem and degree (one step, all 50 tabulated degrees), one run, or modes over the whole spectral interval. Distinct: (size, steps, degree).",
     withfast([dict(u, rock4l=True) for u in parts("rockl_step", "rockl_step.cpp", 3) if not u["name"].endswith("1")]),
     "runtime monitor: result of every run against a long double model of ROCK4 with stochastic rounding; amplification of modes", CALIB, need=["results compared", "modes observed"])
prop("L02", "One case = one affine problem (all degrees, runs), a steady state with deviations from it, or a problem with forcing only. Distinct: (size, steps, degree).",
     withfast([dict(u, rock4l=True) for u in parts("rockl_step", "rockl_step.cpp", 4) if u["name"][-1] in "13"]),
     "runtime monitor: affine runs against the long double model, against linear runs on deviations, and exact solutions; forcing vector watched", CALIB, need=["results compared", "steady states", "forcing only"])
prop("L03", "One case = one call, a refused or faulty call with the one after it, or a history of calls. Distinct: (kind, size, steps).",
     withfast([dict(u, rock4l=True) for u in parts("rockl_misc", "rockl_misc.cpp", 2)]),
     "runtime monitor: clocks and counters against observed calls; fault injection at every operator call under ASan/UBSan; differential over histories", CALIB, need=["clocks", "refusals", "fault points", "calls compared"])

def some(name, src, ids, **kw): return [u for u in parts(name, src, max(ids) + 1, **kw) if int(u["name"][len(name):]) in ids]
prop("D01", "One case = one method, matrix, step size and start (1-4 steps), one mode, or one observation of the order. Distinct: (method, size, kind of matrix, decade of step times matrix) or (method, decade, phase).",
     withfast(some("sdirk", "sdirk.cpp", (0, 1))),
     "runtime monitor: each step against the tableau in long double with stochastic rounding; observed orders; amplification of modes", CALIB, need=["steps compared", "orders observed", "modes observed"])
prop("D02", "As D01, with a constant term; steady states with deviations from them, zero forcing, forcing only.",
     withfast(some("sdirk", "sdirk.cpp", (2, 3))),
     "runtime monitor: each step against the tableau in long double with stochastic rounding; steady states, exact solutions; forcing vector watched", CALIB, need=["steps compared", "steady states", "zero forcing", "forcing only"])
prop("D03", "One case = one object (misused, with a failing solve or set-up) or a set of interleaved objects, also in threads. Distinct: (method, case, size, failing solve).",
     some("sdirk", "sdirk.cpp", (4,)),
     "runtime monitor: calls of the operator counted, exceptions injected at every solve under ASan/UBSan, differential over histories bit for bit", CALIB, need=["misuse", "failed solves", "objects compared", "thread runs"])

QL = ["-llapack", "-lblas", "-lquadmath"]
def prec(name, src, ids): return [dict(u, name=u["name"] + "-" + t, flags=u["flags"] + ["-DONLY_" + t.upper()], libs=QL) for t in ("double", "long") for u in some(name, src, ids)]
GB = CALIB + " Newton on the collocation equations in __float128 gives the reference; the allowance follows from the conditioning of the system of stages."
prop("G01", "One case = one problem, number of stages, precision and step (or one observation of the order). Distinct: (stages, problem, size, decade of step times Lipschitz constant).",
     withfast(prec("gauss_step", "gauss_step.cpp", (0, 1))),
     "runtime monitor: each step against the collocation equations solved in quadruple precision; observed orders", GB, need=["steps compared", "orders observed"])
prop("G02", "One case = one problem, number of stages and precision: a run whose quadratic integral is followed, a way forth and back, a step map and its derivative, or a long run whose energy is followed. Distinct: (kind, stages, size, problem).",
     withfast(prec("gauss_cons", "gauss_cons.cpp", (0, 1))),
     "runtime monitor: online check of the invariants along runs; symplectic form of the observed step map; energy over long runs", CALIB, need=["invariants observed", "round trips", "step maps", "long runs"])
prop("G03", "One case = one step with a fault injected in the right-hand side, a step too large, or a limit of iterations. Distinct: (fault, stages, precision, outcome).",
     withfast(prec("gauss_cons", "gauss_cons.cpp", (2,))),
     "fault injection at the user calls under ASan/UBSan, iterations counted from outside, differential against an object without failure", CALIB, need=["steps after a failure", "limit: not converged"])
prop("G04", "One case = one history of steps, starting values and step sizes. Distinct: (stages, problem, history).",
     withfast(prec("gauss_step", "gauss_step.cpp", (2,))),
     "runtime monitor: differential over histories and starting values; number of iterations with and without extrapolation", GB, need=["trajectories compared", "steps of nearly the same size", "changes of step size"])
prop("G05", "One case = one long run. Distinct: (kind, stages, size).",
     withfast(prec("gauss_cons", "gauss_cons.cpp", (3,))),
     "runtime monitor: accumulated rounding errors of long runs with known exact results", CALIB, need=["long sums", "long rotations", "objects compared"])
prop("G06", "One case = one number of stages and precision. Distinct: (stages, precision, property).",
     withfast(prec("gauss_step", "gauss_step.cpp", (3,))),
     "runtime monitor: coefficients inferred from observed stages checked against the defining conditions; construction for numbers of stages inside and outside the range", CALIB, need=["conditions checked", "stage numbers accepted", "stage numbers refused", "changes of step size"])

LPW = ["-Wl," + ",".join("--wrap=" + f for f in "dgetrf_ zgetrf_ dgetrs_ zgetrs_ dgbtrf_ zgbtrf_ dgbtrs_ zgbtrs_ dgehrd_".split())]
T5 = {"quick": 2, "thorough": 5}
prop("C01", "One case = one matrix class object taken through several Jacobians, shifts and right-hand sides; each solve gives a residual. Distinct: (layout, size, bandwidths, kind of matrix, number of shifts).",
     withfast(parts("lin", "lin.cpp", 4, scale=T5, need=["real systems", "complex systems"])),
     "runtime monitor: residual in long double of every system solved, Jacobian watched across factorizations and solves, under ASan/UBSan", CALIB + " Entries whose squares overflow or underflow are not generated.")
prop("C02", "One case = one exactly singular (or not finite) matrix, or one integration in which each linear algebra library call in turn reports failure, or whose first iteration matrix is exactly singular. Distinct: (layout, kind, call index).",
     withfast(parts("sing", "lin.cpp", 4, flags=["-DSINGULAR"], scale=T5, need=["zero pivot", "regular systems after singular ones", "Jacobians not finite"])) +
     withfast(parts("lapf", "lapack_fault.cpp", 2, flags=LPW, need=["library failures", "reuse after failure", "real singular systems"])) +
     withfast(pick("rod_lapf", "lapack_fault.cpp", [(1, 0, 1, (0,)), (2, 0, 0, (1,)), (3, 1, 1, (0,))], flags=LPW, need=["library failures", "reuse after failure", "real singular systems"])),
     "fault injection at every linear algebra library call (link-time wrapping) and exactly singular systems, with a trace monitor under ASan/UBSan", CALIB)
CN = ["elements written and read", "copies", "negations and shifts", "prints"]
VN = ["lc5", "x_lc4", "switchadr", "copies", "print"]
def containers(ids, need): return some("cont", "containers.cpp", ids, need=need, scale=T5) + [dict(u, name=u["name"] + "-debug", flags=u["flags"] + ["-DALIGN_BLOCKED", "-DDEBUG"]) for u in some("cont", "containers.cpp", ids, need=need + ["bad indices refused"])] + \
     [dict(u, name=u["name"] + "-O3", san=False, opt="-O3", flags=u["flags"] + ["-DALIGN_BLOCKED", "-march=native"]) for u in some("cont", "containers.cpp", ids, need=need)]
prop("C03", "One case = one matrix of random contents taken through all operations. Distinct: (class, size, bandwidths, operation).",
     containers((0, 1), CN), "runtime monitor: every operation against a shadow matrix and the documented raw storage, three build configurations, ASan/UBSan", "Observed executions only.")
prop("C04", "One case = one set of vectors (random values, infinities, signed zeros) taken through an operation, with and without aliasing. Distinct: (operation, size, aliasing).",
     containers((2, 3), VN), "runtime monitor: every operation against an element-wise shadow model, three build configurations, ASan/UBSan", "Observed executions only.")

QM = ["-llapack", "-lblas", "-lquadmath", "-L/usr/lib/gcc/x86_64-linux-gnu/13"]
def comps(name, src, which=(0, 1, 2, 3, 4, 5, 6), rodas=((2, 0, 0),), **kw):
    r = []
    for c in which:
        for v in (rodas if c == 2 else (None,)):
            u = dict(kw); u["src"] = src; u["name"] = "%s-%d%s" % (name, c, "m%d" % v[0] if v else ""); u["libs"] = QM
            u["flags"] = list(kw.get("flags", [])) + ["-DCOMP=%d" % c] + (ro(*v) if v else [])
            if c == 4: u["rock4l"] = True
            r.append(u)
    return r
ROD3 = ((1, 1, 1), (2, 0, 0), (3, 0, 1))
LN = ["scenarios", "failed calls", "successful calls"]
STK = {"ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1:strict_init_order=1"}
FCO = ["-fsanitize=float-cast-overflow"]
def guarded(us):
    for u in us:
        if "-DCOMP=0" in u["flags"] or "-DCOMP=1" in u["flags"] or "-DCOMP=2" in u["flags"]:
            u["flags"] = u["flags"] + LPW + ["-DLAPG"]; u["need"] = list(u["need"]) + ["library calls guarded", "harnesses with blocked factorizations"]
    return us
prop("C05", "One case = one scenario (1-2 objects of a component made, asked, used 1-8 times with right-hand sides that throw, return NaN, are singular or grow, hostile arguments, arrays of exact size at any address; destroyed in any order), run twice or three times. Distinct: (component, size or layout, length).",
     guarded(comps("life", "life.cpp", rodas=ROD3, env=STK, flags=FCO, need=LN) +
     comps("life-aligned-debug", "life.cpp", env=STK, flags=FCO + ["-DALIGN_BLOCKED", "-DDEBUG"], need=LN) +
     comps("life-clang", "life.cpp", env=STK, cc="clang++", opt="-O2", flags=FCO + ["-DALIGN_BLOCKED"], need=LN)) +
     comps("life-O3", "life.cpp", san=False, opt="-O3", flags=["-DALIGN_BLOCKED", "-march=native"], need=LN) +
     comps("life-log", "life.cpp", which=(0, 1, 2, 3), env=STK, flags=["-D_GLIBCXX_ASSERTIONS", "-DLOGRADAU5", "-DLOGRODAS", "-DLOGROCK4"], need=LN) +
     comps("life-omp", "life.cpp", which=(3,), env=STK, omp=True, flags=["-DROCK4_OMP", "-fopenmp", "-DALIGN_BLOCKED"], need=LN),
     "AddressSanitizer and UBSan (gcc and clang, with overflow of conversions) under scenarios with fault injection, in six build configurations; online check that storage in equals storage out",
     "Observed executions only. The balance of storage is exact (bytes in use before and after a scenario, second run of the same scenario). Failure of memory allocation itself is not injected.")
FW = ["-fno-builtin-malloc", "-Wl,--wrap=malloc,--wrap=posix_memalign,--wrap=aligned_alloc"]
prop("C06", "One case = one scenario as in C05, run with seven different contents of fresh heap blocks and of the unused stack, or once under memcheck; every argument given to the user's functions, result and counter is one observation. Distinct: (component, size or layout, length).",
     comps("fill", "fill.cpp", rodas=ROD3, san=False, flags=FW, need=["comparisons", "blocks filled", "failed calls"]) +
     comps("fill-O3", "fill.cpp", san=False, opt="-O3", flags=FW + ["-DALIGN_BLOCKED", "-march=native"], need=["comparisons", "blocks filled"]) +
     comps("memcheck", "fill.cpp", rodas=ROD3, san=False, flags=["-DMEMCHECK", "-fno-inline-small-functions"], wrap=["valgrind", "-q", "--error-exitcode=97"], scale={"quick": 4, "thorough": 5}, need=["scenarios under memcheck"]),
     "differential runtime monitor over contents of uninitialised heap and stack, bit for bit; valgrind memcheck with every observable checked for definedness",
     "Observed executions only. Under valgrind, SymplecticRK is run in double precision only (valgrind computes long double in 64 bits).")
prop("C07", "One case = one history of one to four calls of one object (including failing ones), run in a build with the log and in one without. Distinct: (component, outcome, number of steps, number of events).",
     comps("log", "log.cpp", which=(0, 1), more=["log_plain.cpp"], flags=["-DLOGRADAU5"], scale=T5, need=["rejectedStep events", "NewtonFailed events", "NewtonWillNotConverge events", "step sizes matched", "failed calls after another", "calls compared"]) +
     comps("log", "log.cpp", which=(2,), rodas=ROD3, more=["log_plain.cpp"], flags=["-DLOGRODAS"], scale=T5, need=["rejectedStep events", "step sizes matched", "failed calls after another", "calls compared"]) +
     comps("log", "log.cpp", which=(3,), more=["log_plain.cpp"], flags=["-DLOGROCK4"], scale=T5, need=["rejectedStep events", "success events", "failed calls after another", "calls compared"]),
     "runtime monitor: the log parsed and compared with the steps seen through the hook, differential against the build without the log, under ASan/UBSan",
     "Observed executions only. The log prints six decimals: problems with slow time scales are generated so that these are significant.")


prop("C08", "One case = one configuration constructed (and, if supported, integrated), or one exception and its message. Distinct: (integrator, configuration) or number of data.",
     some("refuse", "refuse.cpp", (0,), need=["configurations refused", "messages", "refused when compiled"]) + some("refuse", "refuse.cpp", (1, 2), need=["configurations accepted"]),
     "runtime monitor: outcome of constructing and integrating in every small configuration, under ASan/UBSan; messages of exceptions captured",
     "The configurations named in the harness. The refusal of Radau5 happens when it is compiled: there the compiler is run on a small program.")
prop("C09", "One case = one program of several source files, linked in one order. Distinct: (order, scenario class) or (object, source file it is made, used and destroyed in).",
     [dict(name="tu", src="tu_link.cpp", san=False, need=["programs linked", "objects shared by source files", "scenarios compared with the component alone"]),
      dict(name="tu-align", src="tu_link.cpp", san=False, flags=["-DTUALIGN"], need=["programs linked", "objects shared by source files"]),
      dict(name="tu-clang", src="tu_link.cpp", san=False, flags=["-DTUCLANG"], need=["programs linked", "objects shared by source files"])],
     "differential runtime monitor: traces of scenarios in programs of several source files against the same scenarios in programs of one",
     "Seven source files with one component each and two which include everything, in eight link orders; the linker of this system.")

prop("U01", "One case = one problem and options integrated twice: as it is, and with time and unknowns (tolerances, spectral radius, forcing) in other units, powers of two from 2^-60 to 2^90; every attempted step of the one is compared with that of the other. Distinct: (integrator, layout or size, decades of the units).",
     ([dict(name="units-radau", src="units.cpp", flags=["-DPART=0"], weight=2)] + pick("units-rodas", "units.cpp", [(1, 0, 1, (0,)), (2, 1, 1, (0,)), (3, 0, 0, (0,))]) +
     [dict(name="units-rock4", src="units.cpp", flags=["-DPART=1"]), dict(name="units-rock4l", src="units.cpp", flags=["-DPART=2"], rock4l=True), dict(name="units-gauss", src="units.cpp", flags=["-DPART=3"], libs=QL)]),
     "metamorphic runtime monitor: two runs of one problem in different units, traces of attempted steps compared step by step", CALIB + " The two runs are the same arithmetic up to powers of two, hence equal; differences of 1e-9 are tolerated.", need=["pairs of runs", "attempts compared"])
