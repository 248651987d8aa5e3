#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit titles/statements/anchors)."""
import json,os
R="Radau5-NG/include/Radau5cc.hpp"; S="Rodas-NG/include/Rodascc.hpp"; K="Rock4-NG/include/Rock4.hpp"
T="Rock4-NG/include/ToolOMP.hpp"; L="Rock4-L/include/Rock4L.hpp"; D="SDIRKL/include/Sdirkl.hpp"
G="SymplecticRK/include/SymplecticRK.hpp"; GM="SymplecticRK/include/GaussianMethod.hpp"; GE="SymplecticRK/include/Extrap.hpp"
GC="SymplecticRK/sage/generated_coeffs.hpp"; GX="SymplecticRK/sage/generated_coeffs_co.hpp"
M="common/include/Matrices.hpp"; H="common/include/Hessenberg.hpp"; V="common/include/fortranVector.hpp"
FA="common/include/fortranArray.hpp"; FC="common/include/fortranComplexArray.hpp"
RA="common/include/fortranRectangularArray.hpp"; RC="common/include/fortranRectangularComplexArray.hpp"
AL="common/include/AllocateDestroyVector.hpp"; LG="common/include/logger.hpp"
HOOK="Radau5cc/Rodascc/Rock4 report each attempted step (t,h,err,accepted,y) under ODES_MONITOR"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    assert len(title)<=80,(id,len(title)); assert statement.count('. ')<=2,(id,)
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

# ---------------------------------------------------------------- common
p("C01","Linear systems are solved accurately in every Jacobian layout",
"For every supported Jacobian layout (full, full with Hessenberg reduction, band with any number of sub- and super-diagonals) and every size n>=1, the factored real system (shift*I-J) and complex system ((alpha+i*beta)*I-J) give solutions whose residual is at rounding level for any matrix and right-hand side (whose entries neither overflow nor underflow when squared). This still holds for repeated solves with the same factors, for new shifts on the same Jacobian, and for a new Jacobian afterwards. The Jacobian itself is left intact by factoring and solving (except that the Hessenberg option may replace it by its reduced form).",
["inputs","configurations","histories"],"all n, bandwidths, matrix entries (badly scaled, needing pivoting, nearly singular), shifts, right-hand sides, sequences of factor/solve calls",
"The tests integrate a few fixed problems in which a slightly wrong linear solve only costs iterations; they never solve with pivoting, n=1, extreme bandwidths or reuse a layout after a new Jacobian.",
[M,H,RA,RC,FA,FC],[("decomr/decomc/solvereal/solvecomplex",M),("dech/solh/dechc/solhc/householder",H)],["values returned by solves"])
p("C02","A singular or failed factorization is never silently used",
"Whenever a real or complex factorization or solve reports failure (exactly singular matrix, or an error status from the linear algebra library), the library raises its exception at that point, in every Jacobian layout. An integrator never continues with the broken factors, and the time and solution it leaves behind are those of the last accepted step.",
["inputs","fault_sequences"],"singular matrices of every rank deficiency position; every call position k at which the linear algebra library reports an error",
"No test has a singular iteration matrix or a failing LAPACK call.",
[M,H,R,S],[("info checks",M),("return codes of dech/dechc",H)],["exception at the call","x and y after the exception"])
p("C03","Matrix containers address every element correctly",
"Matrix containers use Fortran indexing over column-major storage (LAPACK band layout for band matrices, interleaved real/imaginary parts for complex ones): writing element (i,j) changes exactly that element and every element can be read back. Copies and assignments are independent of the original, and negation, diagonal shift and printing act on exactly the elements of the matrix.",
["inputs","configurations"],"all sizes n, all bandwidths, all element positions, all operations",
"The tests only use the containers through one or two integrations with one bandwidth each.",
[FA,FC,RA,RC],[("operator()/set/Re/Im index arithmetic",RA)],["raw storage through operator&"])
p("C04","Vector operations compute what they are documented to compute",
"Every vector operation (assignments, sums, scaled sums, linear combinations of up to five vectors, address exchange, copy to and from plain arrays, printing) gives the documented element-wise result at every index from 1 to n, whatever the values and including the aliasing patterns the integrators use. Operands that are only inputs are unchanged, and copies own their data.",
["inputs","configurations"],"all sizes, values (including infinities and signed zeros), aliasing of result with an operand",
"No test exercises the vector class by itself; a wrong element can hide below the integration tolerances.",
[V,AL],[("fortranVector, fortranVectorF",V)],["vector contents"])
p("C05","No integrator run corrupts, leaks or misuses memory",
"No construction, copy (of a vector or matrix), integration, failed integration or destruction of any component, in the plain, aligned-allocation and debug build configurations and for any problem size n>=1, reads or writes outside its storage, uses freed storage, releases storage twice or with the wrong allocator, leaks storage, or executes an operation with undefined behaviour. Caller arrays are never written beyond their declared length.",
["inputs","configurations","histories","fault_sequences"],"all components, sizes, build configurations, and interruption of an integration by an exception at any call of the right-hand side",
"The tests run one size per component without instrumentation and never throw from a right-hand side.",
[AL,V,FA,RA,RC,M,R,S,K,L,D,G],[("allocDoubleArray/destroyDoubleArray",AL),("destructors",V)],["sanitizer reports","allocation balance"])
p("C06","Results do not depend on uninitialised memory",
"The result of an integration is a function of its inputs only: no component lets a value read from memory it has not written influence its results, its counters (also before the first call), its control flow, or what it passes to the user's functions. In particular, results are bit-for-bit the same whatever the contents of freshly allocated memory.",
["inputs","configurations"],"all components, layouts and options; all initial contents of stack and heap memory",
"Fresh memory is usually zero in the tests, so a read of unwritten memory goes unnoticed.",
[R,S,K,L,D,G,M],[("initialisation in constructors and at the start of each call",R)],["results under different heap fill patterns","memcheck reports"])
p("C07","The event log is faithful and logging has no effect on results",
"When logging is compiled in, the log holds, in order, the events of the last call: each rejected step, each accepted step (explicit stabilised integrator), each Newton failure and each change of step size, with time, step number and new step size; filtering by event type returns exactly the events of that type, numbered from one. Compiling logging in changes neither results nor counters.",
["inputs","configurations","histories"],"all integrations, including those with rejections and failures; all filters",
"Logging is compiled in some tests but what it records is never checked.",
[LG,R,S,K],[("logger::put/clear/tostring",LG),("seth and put calls",R)],["tostring()"])
# ---------------------------------------------------------------- Radau
p("R01","Each accepted Radau5 step satisfies the Radau IIA equations",
"Every accepted step of the Radau5 integrator, from (x,y) with step h, gives the value that solves the three-stage order-5 Radau IIA collocation equations for the user's right-hand side at the nodes x+c1*h, x+c2*h, x+h, up to the accuracy of the Newton stopping test (a small multiple of the stopping tolerance, measured against the error tolerances). This holds whatever the Jacobian (exact, numerical, kept from an earlier step), starting values, number of Newton iterations, or history of rejections.",
["inputs","histories","configurations"],"all right-hand sides (linear, nonlinear, stiff, non-autonomous), states, step sizes of either sign, Newton settings, layouts",
"Tests compare nothing or only eyeball a final value; a step accepted with an unconverged Newton iteration or a wrong coefficient still yields plausible output.",
[R],[("Newton, slvrad, T/TI transformation",R),("acceptance of a step",R)],["solution after each accepted step"],HOOK)
p("R02","Radau5 covers exactly the requested interval, in either direction",
"A call that returns normally in full-interval mode ends with the time equal to the requested end (to rounding) and the solution there; accepted steps are contiguous, all go from the start towards the end, and each changes the time by its step size. The right-hand side and Jacobian are never evaluated at a time outside the interval between start and end (beyond rounding), in particular never past the end.",
["inputs","configurations","histories"],"all intervals (forward, backward, far from zero, shorter or longer than the initial step), initial steps of any sign and size",
"All tests integrate forward from 0.",
[R],[("posneg, last, end-of-interval logic",R)],["times of right-hand side calls","x and y on return"],HOOK)
p("R03","Radau5 only accepts steps whose error estimate meets the tolerances",
"A Radau5 step is accepted only if the weighted root-mean-square norm over all components of the embedded error estimate, with the user's absolute and relative tolerances (scalar or per component) evaluated at the start of the step, is below one; a step whose estimate exceeds one is retried from the same point with a smaller step, and step size ratios respect the configured bounds. As a consequence, the global error at the end decreases with the tolerance and stays within a moderate multiple of it on well-conditioned problems.",
["inputs","configurations","histories"],"all problems, tolerances, initial steps",
"Tests use one tolerance and do not compare with a reference solution.",
[R],[("estrad, doScal, step size selection",R)],["error estimates and decisions per attempt","final error"],HOOK)
p("R04","Radau5 fails in bounded time and leaves the last accepted point",
"Whatever the right-hand side or Jacobian does (NaN, infinities, exceptions at any call, singular iteration matrices), a Radau5 call ends after a bounded number of evaluations, at most about the configured maximum number of steps times the work per step, by returning or by an exception; it never loops forever and never returns normally with a solution that is not finite. After an exception the caller's time and solution are those of the last accepted step (or the initial ones), and the same integrator object gives correct results on the next call.",
["fault_sequences","inputs","crash_points"],"every call index k at which the right-hand side or the Jacobian starts failing or throws; every maximum number of steps",
"No test has a failing right-hand side or reaches the step limit.",
[R],[("nmax test in the retry loop",R),("y written only on acceptance",R)],["number of evaluations","exception","x,y after the exception"],HOOK)
p("R05","Radau5 statistics tell the truth",
"After a Radau5 call the reported numbers agree with what actually happened: right-hand side calls (including those of a numerical Jacobian), Jacobian computations, matrix decompositions, accepted steps, attempted steps, and error-test rejections after the first accepted step; the first accepted step size is the one actually taken. Counters start afresh at each call.",
["inputs","histories","configurations"],"all integrations, including rejections, Newton failures, one-step mode and repeated calls",
"Tests print the counters but compare them with nothing.",
[R],[("counters",R)],["counters against the calls observed at the user's functions and at LAPACK"],HOOK)
p("R06","Radau5 options have their documented effect",
"Options set on a Radau5 object act as documented and persist over calls until changed: one-step mode returns after exactly one accepted step; the step limit, the Newton iteration limit, the step ratio bounds, the safety factor, the Jacobian recomputation threshold and the Newton stopping tolerance are respected; an inadmissible stopping tolerance is refused with an exception. Per-component tolerances use exactly the i-th entries for component i, and equal per-component and scalar tolerances give identical results.",
["configurations","inputs"],"all option values and sequences of option changes and calls",
"Tests keep the default options, apart from the tolerances.",
[R],[("setters, setTestPolicy",R)],["effects on attempts, calls and results"],HOOK)
p("R07","Radau5 runs are reproducible and isolated",
"The result of a Radau5 call depends only on its arguments and options: calling again on the same object, on a new object, after an unrelated integration, after a failed one, or while other objects run in other threads gives bit-for-bit the same solution and counters. Objects share no state.",
["histories","schedules"],"all sequences of calls on one object; all interleavings of calls on distinct objects in several threads",
"Each test program makes one call on one object in one thread.",
[R,M],[("state reset at the start of operator()",R)],["solutions and counters","race reports"])
p("R08","Radau5 gives the same solution in every Jacobian layout and source",
"For one and the same problem, the full, Hessenberg and band layouts (band layouts being wide enough for the Jacobian) and the analytical or numerical Jacobian lead to the same solution within a moderate multiple of the tolerances. A numerically computed Jacobian approximates the exact one to finite-difference accuracy on every element of the band, writes nothing outside it, and leaves the caller's solution unperturbed.",
["configurations","inputs"],"all layouts, bandwidths, problem sizes, states (zero, huge, tiny components)",
"Each test uses a single layout and Jacobian source.",
[R,M,RA],[("Jacobian (numerical)",R),("Ibegin/Iend",M)],["final solutions","Jacobian matrix","arguments of right-hand side calls"])
# ---------------------------------------------------------------- Rodas
p("S01","Each accepted Rodas step satisfies the selected Rosenbrock formula",
"Every accepted Rodas step equals the result of the selected six-stage order-4 Rosenbrock method (three coefficient sets) applied to the user's right-hand side, Jacobian and, for non-autonomous problems, time derivative (user-supplied or numerical), up to rounding and the accuracy of the numerical derivatives. The observed local error is of fifth order in the step for each method, for autonomous and non-autonomous problems.",
["inputs","configurations","histories"],"all right-hand sides, states, step sizes of either sign, methods, layouts and derivative sources",
"Tests only run method 1 on fixed problems and compare nothing per step.",
[S],[("stages in operator()",S),("rocoe coefficient sets",S)],["solution after each accepted step"],HOOK)
p("S02","Rodas covers exactly the requested interval, in either direction",
"A Rodas call that returns normally in full-interval mode ends with the time equal to the requested end (to rounding) and delivers the solution there in the caller's array; accepted steps are contiguous, go from start towards end, and the right-hand side and Jacobian are evaluated within the interval only, except for the tiny forward difference used for a numerical time derivative.",
["inputs","configurations","histories"],"all intervals (forward, backward, far from zero, short), initial steps of any sign and size",
"All tests integrate forward from 0.",
[S],[("end-of-interval logic",S)],["times of right-hand side calls","x and y on return"],HOOK)
p("S03","Rodas only accepts steps whose error estimate meets the tolerances",
"A Rodas step is accepted only if the weighted root-mean-square norm over all components of the embedded error estimate, weighted with the user's tolerances (scalar or per component) at the larger of the old and new solution, does not exceed one; otherwise it is retried from the same point with a smaller step; step ratios stay between 1/5 and 6. As a consequence, the global error decreases with the tolerance and stays within a moderate multiple of it on well-conditioned problems.",
["inputs","configurations","histories"],"all problems, tolerances, initial steps",
"Tests use one tolerance and do not compare with a reference solution.",
[S],[("error estimation and step size selection",S)],["error estimates and decisions per attempt","final error"],HOOK)
p("S04","Rodas fails in bounded time and leaves the last accepted point",
"Whatever the right-hand side, Jacobian or time derivative does (NaN, infinities, exceptions at any call, singular matrices), a Rodas call ends after a number of attempts bounded by the configured maximum, by returning or by an exception, and never returns normally with a solution that is not finite. After an exception the caller's time and solution are those of the last accepted step (or the initial ones), and the object gives correct results on the next call.",
["fault_sequences","inputs","crash_points"],"every call index at which a user function starts failing or throws; every step limit",
"No test has a failing right-hand side or reaches the step limit.",
[S],[("nmax test",S),("y written on acceptance",S)],["number of evaluations","exception","x,y after the exception"],HOOK)
p("S05","Rodas statistics and options tell and do what they say",
"After a Rodas call the numbers of attempted and accepted steps, Jacobians and decompositions and the first accepted step are those observed from outside, and counters start afresh at each call. The step limit, one-step mode, safety factor and per-component tolerances act as documented, and equal scalar and per-component tolerances give identical results.",
["inputs","histories","configurations"],"all integrations, option values and sequences of calls",
"Tests print counters but compare them with nothing and keep default options.",
[S],[("counters and setters",S)],["counters against calls observed at the user's functions and at LAPACK"],HOOK)
p("S06","Rodas runs are reproducible and isolated",
"The result of a Rodas call depends only on its arguments and options: calling again on the same object, on a new one, after an unrelated or failed integration, or while other objects run in other threads gives bit-for-bit the same solution and counters.",
["histories","schedules"],"all sequences of calls on one object; all interleavings of calls on distinct objects in several threads",
"Each test program makes one call on one object in one thread.",
[S,M],[("state reset at the start of operator()",S)],["solutions and counters","race reports"])
p("S07","Rodas gives the same solution in every Jacobian layout and source",
"For one problem, the full, Hessenberg and band layouts, the analytical or numerical Jacobian, and the analytical or numerical time derivative lead to the same Rodas solution within a moderate multiple of the tolerances. A numerical Jacobian approximates the exact one on every element of the band.",
["configurations","inputs"],"all layouts, bandwidths, derivative sources, states",
"Each test uses a single layout and derivative source.",
[S,M],[("Jacobian, DF_X",S)],["final solutions","Jacobian matrix"])
# ---------------------------------------------------------------- Rock4
p("K01","Each accepted Rock4 step is the ROCK4 formula of the chosen degree",
"Every accepted step of the explicit stabilised integrator equals the ROCK4 formula (Chebyshev-like recurrence followed by the four-stage finishing procedure) for the chosen number of stages, for every tabulated degree and for linear and nonlinear right-hand sides, up to rounding. The observed local error is of fifth order in the step.",
["inputs","configurations"],"all right-hand sides, sizes, step sizes and all 50 tabulated degrees",
"The single test uses one problem, meets few of the degrees and compares with nothing.",
[K,T,"Rock4-NG/include/coeffs-rock4","Rock4-NG/include/Rock4Coeffs.hpp"],[("kernel",K),("apply/cl/ct",T),("coefficient tables","Rock4-NG/include/coeffs-rock4")],["solution after each accepted step"],HOOK)
p("K02","Rock4 always uses enough stages for stability",
"The number of stages used in a Rock4 step covers the spectral interval: with the spectral radius reported by the user, no mode of a dissipative linear problem with eigenvalues in [-rho,0] is amplified by a step (by more than the 2 percent inherent in the tabulated polynomials), whatever the step size; if the maximal degree does not suffice, the step is reduced until it does. The user is asked for the spectral radius again at least every ten accepted steps and after rejections, and the number of stages is never wastefully larger than the next tabulated degree.",
["inputs","histories"],"all spectral radii (0 to huge), step sizes and their evolution, including a spectral radius that changes with time",
"The single test has one spectral radius.",
[K],[("mdegre, degree selection",K)],["right-hand side calls per attempt","amplification of modes"],HOOK)
p("K03","Rock4 ends exactly at the requested time with the solution delivered",
"A Rock4 call that returns normally has advanced the solution exactly from the start to the end time: accepted step sizes are positive, contiguous, and sum to the interval, and the caller's pointer then designates the solution at the end. Nothing is done when the end is not after the start.",
["inputs","histories"],"all intervals, initial steps, also when the last step is tiny or rejected",
"The single test integrates one interval and does not check the time reached.",
[K],[("last step logic",K),("switchAdr(temp,y)",K)],["per step hook","solution against a reference"],HOOK)
p("K04","Rock4 only accepts steps whose error estimate meets the tolerances",
"A Rock4 step is accepted only if the root-mean-square norm over all unknowns of its embedded error estimate, weighted with the tolerances at the new solution, is below one; a rejected step is retried from the same, unchanged solution with a smaller step, and the step after a rejection does not grow. The next step follows the error estimate (growing by at most 5 at the first step, 2 later, shrinking by at most 10 before the safety factor), and the global error decreases with the tolerance.",
["inputs","configurations","histories"],"all problems, tolerances, initial steps, sequential and OpenMP builds",
"The single test uses one tolerance and no reference solution.",
[K,T],[("error estimator rpp2",T),("step size selection",K)],["error estimates and decisions per attempt"],HOOK)
p("K05","Rock4 fails in bounded time, keeps its buffers and stays usable",
"Whatever the right-hand side or spectral radius does (NaN, infinities, exceptions at any call), a Rock4 call ends after a bounded number of evaluations by returning or by an exception, and never returns normally with a solution that is not finite; steps too small to be resolved in time are refused. After an exception at any call, the caller's pointer still designates a valid array of its own, distinct from the integrator's working arrays, holding the last accepted solution, and both can be destroyed or reused safely.",
["fault_sequences","crash_points"],"every call index at which the right-hand side or the spectral radius fails or throws",
"No test has a failing right-hand side.",
[K],[("buffer exchange by address",K),("step too small test",K)],["pointer and contents after the exception","number of evaluations","sanitizer reports"],HOOK)
p("K06","Rock4 statistics are true and runs reproducible",
"After a Rock4 call the numbers of right-hand side evaluations, steps, accepted and rejected steps, the largest number of stages and the last accepted step size are those observed from outside. Calling again on the same or another object gives bit-for-bit the same results, and the tolerances set persist over calls.",
["inputs","histories"],"all integrations and sequences of calls, including failed ones",
"The test prints some counters and compares nothing.",
[K],[("counters",K)],["counters against observed calls"],HOOK)
p("K07","Rock4 with OpenMP is race-free and equals the sequential version",
"In the OpenMP build, no two threads access the same memory without synchronisation when at least one writes, for any number of threads and any problem size. Results agree with the sequential build up to the rounding of the error norm's summation order.",
["schedules","configurations","inputs"],"all interleavings of the threads of the parallel loops, numbers of threads, sizes smaller and larger than the number of threads",
"The test runs the OpenMP code without a race detector and does not compare it with the sequential version.",
[T],[("omp parallel for, reduction",T)],["race reports","results against sequential"])
# ---------------------------------------------------------------- Rock4L
p("L01","Rock4L applies the ROCK4 stability polynomial of the chosen degree",
"A step of the linear stabilised integrator multiplies each mode of y'=Ay by the ROCK4 stability polynomial of the chosen degree, which agrees with the exponential to fourth order, for every tabulated degree, any matrix and size. Over the interval, modes with eigenvalues in [-rho,0] are not amplified (beyond what is inherent in the tabulated polynomials), since the number of stages always covers the spectral interval.",
["inputs","configurations"],"all matrices (through modes and random operators), sizes, step sizes and all tabulated degrees",
"The test runs one Laplacian with a few step sizes.",
[L,"Rock4-L/include/coeffs-rock4","Rock4-L/include/Rock4Coeffs.hpp"],[("kernel1, makeHornerCoeffs",L)],["solution after each call"])
p("L02","Rock4L solves affine problems consistently with linear ones",
"In the affine case y'=Ay+b, the result equals the one obtained by applying the linear scheme to the deviation from a steady state (and equals the exact truncated expansion when A is singular or zero): a steady state is preserved, and b=0 reproduces the linear result up to rounding. The forcing vector is never modified.",
["inputs","configurations"],"all matrices including singular ones, forcing terms, steps and degrees",
"The test runs one affine problem and only prints an error.",
[L],[("kernel2",L)],["solution after each call"])
p("L03","Rock4L covers the interval, counts truly and refuses what it cannot do",
"A Rock4L call advances exactly from start to end with steps not longer (up to one percent) than the proposed one, reports the end time and the true numbers of steps and operator evaluations, and calls with the linear or affine interface not matching the class, steps that need more stages than available, and steps too small or not finite are refused with an exception instead of a wrong result. Runs are reproducible on the same object, and a call always ends.",
["inputs","histories","configurations","fault_sequences"],"all intervals, proposed steps, spectral radii, sequences of calls including failed ones",
"The test uses one interval and never a refusal.",
[L],[("operator()",L)],["counters, time, exceptions"])
# ---------------------------------------------------------------- SDIRKL
p("D01","A linear SDIRK step is the method's rational function of A",
"One step of the singly diagonally implicit Runge-Kutta integrator multiplies each mode of u'=Au by the stability function of the selected tableau (implicit Euler, Crank-Nicolson, and the 2-, 3- and 5-stage methods) for any matrix, step size and size. Errors decrease with the order of the method (1, 2, 2, 4, 4), and the L- or A-stable methods never amplify dissipative modes.",
["inputs","configurations","histories"],"all operators, sizes, step sizes, all five methods, sequences of steps",
"The test measures the error of one method on one operator and checks nothing.",
[D,"SDIRKL/include/RKMethod1.hpp","SDIRKL/include/RKMethod2.hpp","SDIRKL/include/RKRS.hpp","SDIRKL/include/CrN.hpp","SDIRKL/include/EulerImp.hpp"],[("step(inout)",D),("tableaux","SDIRKL/include/RKMethod1.hpp")],["solution after each step"])
p("D02","A forced SDIRK step handles the constant term exactly like the tableau",
"In the affine case u'=Au+phi, each step equals the tableau applied to the forced problem, including singular A; steady states are preserved, phi=0 gives the linear step up to rounding, and the forcing vector is not modified.",
["inputs","configurations","histories"],"all operators including singular ones, forcing terms, step sizes, methods",
"The test runs one method with one forcing term and checks nothing.",
[D],[("step(inout,phi)",D)],["solution after each step"])
p("D03","SDIRK protocol: one set-up, one solve per stage, misuse refused",
"The operator is initialised once, at construction, with the problem size and the step times the diagonal coefficient, and each step applies it exactly once per stage; steps depend on nothing but the current solution and forcing, so repeated and interleaved objects do not influence each other. Calling the linear step in the affine case or the forced step in the linear case raises the library's exception and leaves the solution unchanged; so does a solve that fails, and a set-up that fails leaks nothing.",
["histories","configurations"],"all methods, sizes, sequences of steps on several objects",
"The test never misuses the interface or interleaves objects.",
[D],[("constructor, step",D)],["calls seen by the operator"])
# ---------------------------------------------------------------- Symplectic
p("G01","Each Gauss step solves the Gauss collocation equations",
"For every number of stages from 2 to 16 and both precisions, a step of the symplectic integrator that reports convergence advances the solution by the Gauss collocation method of that number of stages, to rounding accuracy of the chosen precision, for any right-hand side. The step has order twice the number of stages.",
["inputs","configurations"],"all right-hand sides, step sizes of either sign, numbers of stages, precisions",
"Tests run one or two stage numbers on planetary problems without checking the result.",
[G,GM,GC],[("fixed point iteration",G),("coefficient tables",GC)],["solution after each step"])
p("G02","The Gauss integrator preserves what symplectic integrators preserve",
"For every number of stages and both precisions: quadratic first integrals are conserved to rounding, the step map of a Hamiltonian system is symplectic, a step forward followed by a step of opposite sign returns to the start to rounding, and the energy of a Hamiltonian system shows no drift beyond rounding over long runs.",
["inputs","histories","configurations"],"all Hamiltonian systems and systems with quadratic invariants, step sizes within convergence, long runs",
"Tests run one planetary problem and do not assert conservation.",
[G,GM,GC],[("coefficients satisfying the symplecticity condition",GC),("compensated summation",G)],["invariants along runs"])
p("G03","A Gauss step that does not converge is reported and changes nothing",
"A step returns true only if the fixed point iteration converged; when it does not converge within the allowed iterations (step too large, NaN, stage values diverging), it returns false and the solution is left exactly as it was. The number of iterations reported is the one done and never exceeds the limit given, and a later step, e.g. with a smaller step size, gives the same result as if the failed one had not been tried.",
["fault_sequences","inputs","histories"],"all points at which the iteration fails; all iteration limits; sequences mixing failing and succeeding steps",
"No test has a failing step.",
[G,"SymplecticRK/include/Ftest.hpp"],[("iteration loop and success test",G)],["return value, solution, iteration count"])
p("G04","Starting values and step history do not influence Gauss results",
"Whether the iteration starts from the previous step's extrapolation or from the current solution, and whatever steps or step sizes were used before, the accepted solution is the same up to rounding, and extrapolation saves iterations on smooth solutions. Changing the step size between steps takes full effect on the next step, and objects do not influence each other.",
["histories","configurations"],"all sequences of steps with varying step sizes and first-step flags",
"Tests use a fixed step size and a fixed flag.",
[G,GE,GX],[("do_extrap, change_h",G)],["solution after each step"])
p("G05","Compensated summation keeps the rounding error of long Gauss runs small",
"Over long runs with a fixed step the accumulated rounding error of the solution stays of the order of the machine precision, growing much more slowly than the number of steps that plain summation would give. The compensation belongs to the object and is used at every step.",
["histories","inputs"],"all long sequences of steps",
"No test measures rounding error.",
[G],[("compensated summation",G)],["difference from a higher precision run"])
p("G06","Unsupported numbers of Gauss stages are refused",
"For both precisions, constructing an integrator with a number of stages outside 2 to 16 raises the library's exception, and every number inside that range is accepted. The Gauss coefficients used inside the range satisfy the defining conditions (row sums, quadrature, symplecticity) to the rounding of the chosen precision.",
["configurations"],"all numbers of stages, both precisions",
"Tests use two stage numbers.",
[GM,"SymplecticRK/include/icoeffs.hpp","SymplecticRK/include/extrapcoeffs.hpp",GC],[("icoeffs default template","SymplecticRK/include/icoeffs.hpp")],["exceptions, coefficients"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for q in P: f.write(json.dumps(q)+"\n")
print(len(P))
