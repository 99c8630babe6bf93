"""One entry per property: what is model checked, generated, executed and validated."""
import engine
import json, os
from engine import Check, TIER, log

TABLE = {}


def check(pid):
    def deco(f):
        TABLE[pid] = f
        return f
    return deco


def run(pid):
    if pid not in TABLE:
        raise engine.CheckError("no check for " + pid)
    return TABLE[pid](pid)


def simple(pid, rule, assumptions=(), exhaustive=None, models=(), **kw):
    c = Check(pid)
    for m in models:
        c.model(*m[0:2], **(m[2] if len(m) > 2 else {}))
    c.conform(c.generate(), **kw)
    return c.finish(rule, assumptions, exhaustive)


@check("K01")
def k01(pid):
    return simple(pid, "all matrices of the listed small shapes over F_2, F_3, F_5 plus pseudo-random low-rank and sparse matrices over eight primes, each "
                  "through both implementations; a trace is accepted when B, U satisfy the contract")


@check("K02")
def k02(pid):
    nl = "SPECIFICATION Spec\nINVARIANT Lifted\nCHECK_DEADLOCK FALSE\nCONSTANTS P = %d K = %d M = %d N = %d\n"
    big = [(2, 5, 1, 2), (3, 3, 1, 2), (2, 2, 2, 2), (2, 3, 1, 3)]
    if TIER == "thorough":
        big += [(2, 2, 2, 3), (2, 3, 2, 2), (5, 3, 1, 2), (3, 2, 2, 2)]
    return simple(pid, "design model: the Newton iteration keeps a right inverse to doubled precision from every right inverse mod p of every small matrix; "
                  "conformance: pseudo-random matrices (free cokernel or not, sparse, empty, rank dropping mod p) over 30 moduli around the word-size borders, all five entry points",
                  models=[("NewtonLift", nl % b) for b in big])


@check("K03")
def k03(pid):
    return simple(pid, "all 2x2 matrices over -1..1, all 3x3 over 0..1, pseudo-random matrices of several structures with entries up to 300 bits, against principal minors / Faddeev-LeVerrier",
                  models=[("K03", engine.TRACE_CFG, {"expect_states": 0})])


@check("K04")
def k04(pid):
    return simple(pid, "pseudo-random Weil polynomials (weights 1..4, degree up to 21, extreme traces, both signs), random sufficient precisions, perturbed conjugated companion matrices; "
                  "all elliptic traces of ten primes and all products of two for small primes")


@check("K05")
def k05(pid):
    return simple(pid, "each scaled cyclotomic polynomial of 30 indices, all quadratic factors for five primes, pseudo-random products with multiplicities")


@check("K06")
def k06(pid):
    return simple(pid, "every supported (n,d) with 32 primes and sixteen unsupported pairs; sufficiency is decided exactly (Weil bound, functional equation, Hodge polygon, loss formula)",
                  models=[("K06", engine.TRACE_CFG, {"expect_states": 0})])


@check("K07")
def k07(pid):
    return simple(pid, "28 enumerations, the order on all pairs of short vectors, tweak/diff on all vectors of 0..3^3, pseudo-random vectors",
                  models=[("K07", engine.TRACE_CFG, {"expect_states": 0})])


@check("K08")
def k08(pid):
    return simple(pid, "all binomials of n up to 70 (thorough 139), values beyond 64 bits, factorials and their p-adic parts over eleven moduli, valuations for all n up to a bound",
                  models=[("K08", engine.TRACE_CFG, {"expect_states": 0})])


@check("K09")
def k09(pid):
    return simple(pid, "pseudo-random polynomials and matrices (dense, sparse, diagonal, permutation, singular) over F_p, Z/p^k and Z in 1..5 variables, expanded exactly by the specification",
                  models=[("K09", engine.TRACE_CFG, {"expect_states": 0})])


@check("K10")
def k10(pid):
    c = Check(pid)
    ss = c.generate()
    c.conform(ss)
    c.conform([s for s in ss if len(s["cmds"]) < 60][:24 if TIER == "quick" else 400], flavour="asan", name="asan")
    return c.finish("edge values around every word size, all shapes up to 4x4, pseudo-random matrices over ten moduli; a part of the sessions also under AddressSanitizer/UBSan")


@check("K11")
def k11(pid):
    c = Check(pid)
    ss = c.generate()
    c.conform(ss)
    c.conform(ss[:20 if TIER == "quick" else 400], flavour="asan", name="asan")
    return c.finish("pseudo-random operands of all shapes up to 6x6 and up to 300 bits, word-size moduli up to 2^64-1; a part of the sessions also under AddressSanitizer/UBSan")


@check("K12")
def k12(pid):
    return simple(pid, "pseudo-random maps over four coefficient rings with 0..40 terms, written, read back and printed; specification-made texts with shuffled terms and white space; lists of different lengths")


@check("K13")
def k13(pid):
    return simple(pid, "draws of size 1..6 over eight primes, determinant by Laplace expansion; for six small groups every element of SL_n(F_p) must be reached",
                  models=[("K13", engine.TRACE_CFG, {"expect_states": 0})])


@check("D01")
def d01(pid):
    return simple(pid, "all forms of pole order up to 4..7 for 19 (thorough 36) equations, against the class function the specification computes; relations at pole orders up to 45")


@check("D03")
def d03(pid):
    return simple(pid, "all or many steps from the smallest spaces and pseudo-random far steps for every equation of the family, k steps at once for k up to 40; class preserved, all routines equal")


@check("D02")
def d02(pid):
    return simple(pid, "all forms of pole order up to 5..6 of every non-degenerate equation of the family against the class function of the specification; large pole orders against the general method; all maps to the basis")


@check("D04")
def d04(pid):
    return simple(pid, "many steps of every non-degenerate equation of the family, near and far, k = 0..33 steps, against the class function and the composition of single steps")


@check("D05")
def d05(pid):
    c = Check(pid)
    ss = c.generate()
    c.conform(ss)
    c.conform([s for s in ss if s["n"] < 3][:30 if TIER == "quick" else 200], flavour="asan", name="asan")
    return c.finish("every non-degenerate equation of the family and further sparse ones, k = 0..64, plus polynomials chosen by the specification over fifteen moduli up to and beyond one word; a part also under AddressSanitizer/UBSan")


@check("D08")
def d08(pid):
    c = Check(pid)
    inv = "SPECIFICATION Spec\nINVARIANTS TypeOK Visible TrueMeansComplete\nPROPERTY Terminates\nCHECK_DEADLOCK FALSE\nCONSTANTS Chunks = 5 ChecksWrites = %s ChecksMarker = %s\n"
    c.model("SaveProtocol", inv % ("TRUE", "TRUE"), expect_states=100)
    c.refute("SaveProtocol", inv % ("FALSE", "TRUE"))
    c.refute("SaveProtocol", inv % ("TRUE", "FALSE"))
    ss = c.generate()
    c.conform(ss)
    c.conform([s for s in ss if s["n"] < 3][:16 if TIER == "quick" else 120], flavour="asan", name="asan")
    return c.finish("SaveProtocol model with every fault position; round trips of every kind of object under names of length 1..200; faults at 18 byte limits (killed, full disk), unopenable files and markers")


@check("D06")
def d06(pid):
    return simple(pid, "every kind of object of every equation of the family through every constructor (map, vector, over Z/p^k and over F_p, random with several seeds), with all tables dumped")


@check("D07")
def d07(pid):
    c = Check(pid)
    cfg = "SPECIFICATION Spec\nINVARIANTS AnswersRight EntriesRight TypeOK\nVIEW View\nCHECK_DEADLOCK FALSE\nCONSTANTS N = %d Group = \"%s\" SaveMemory = %s FillsBelow = %s CopiesFirst = %s Emit = %s\n"
    T, F = "TRUE", "FALSE"
    bs = []
    for fam, n, group, sm in [(1, 2, "J", True), (1, 2, "J", False), (1, 2, "ND", True), (1, 2, "ND", False), (2, 1, "ND", True), (3, 2, "ND", True)][:4 if TIER == "quick" else 6]:
        hs = c.behaviours("LazyTables", cfg % (n, group, T if sm else F, T, T, T), expect_states=8)
        bs.append({"fam": fam, "group": group, "sm": sm, "hists": hs})
    c.model("LazyTables", cfg % (3, "J", T, T, T, F), expect_states=30)
    c.refute("LazyTables", cfg % (3, "J", F, F, T, F))
    c.refute("LazyTables", cfg % (2, "ND", T, T, F, F))
    f = os.path.join(c.dir, "behav.ndjson")
    with open(f, "w") as h:
        for b in bs:
            h.write(json.dumps(b) + "\n")
    ss = c.generate(env={"BEHAV": f})
    c.conform(ss)
    c.conform([s for s in ss if s["part"] == 3], flavour="asan", name="asan")
    return c.finish("references handed out looked at again after every table has been filled (also under AddressSanitizer); every transition of the model of the memo tables, with a shortest history, replayed on real objects and compared with fresh ones; pseudo-random histories over five objects of the same f (save memory or not, copied, loaded) for every equation and kind; objects of five shapes and moduli interleaved in one process against fresh processes")


def smooth_models(c, inv):
    cfg = "SPECIFICATION Spec\nINVARIANTS " + inv + "\nCHECK_DEADLOCK FALSE\nCONSTANTS NN = %d DD = %d PP = %d RR = %d\n"
    for x in [(1, 3, 2, 1), (1, 3, 5, 1), (1, 4, 3, 2), (1, 5, 2, 2), (2, 2, 3, 2), (2, 3, 2, 3)] + ([(1, 3, 7, 1), (1, 5, 3, 2), (1, 7, 2, 3), (1, 4, 5, 2)] if TIER == "thorough" else []):
        c.model("SmoothCriterion", cfg % x, expect_states=16)


@check("D09")
def d09(pid):
    c = Check(pid)
    smooth_models(c, "SmoothOk")
    c.conform(c.generate(shards=8))
    return c.finish("criterion: all forms of six small spaces against their singular points over extension fields; isSmooth on all forms of eight small spaces, eleven constructions (known smooth or singular) in thirteen degrees and dimensions over eleven primes")


@check("D10")
def d10(pid):
    c = Check(pid)
    smooth_models(c, "NDOk")
    c.conform(c.generate(shards=8))
    return c.finish("criterion: all forms of six small spaces against the singular points of all strata over extension fields; isND on all forms of eight small spaces and eleven constructions; find_change_of_variables on pseudo-random forms with 0..200 tries")


@check("F02")
def f02(pid):
    c = Check(pid)
    c.conform(c.generate(shards=8))
    return c.finish("every equation of the family: all or several coordinates, N = 1..4 terms, all routines and loop variants, against the formula evaluated by the specification; matrices with random N per pole order")


@check("F01")
def f01(pid):
    c = Check(pid)
    cfg = "SPECIFICATION Spec\nINVARIANTS TypeOK SumOk CanGo PathJ PathND Shifted\nPROPERTY AllEnd\nCHECK_DEADLOCK FALSE\nCONSTANTS NN = %d DD = %d PP = %d Terms = %d Rule = \"%s\" Guard = %s\n"
    for n, d, p, t in [(2, 3, 2, 3), (2, 3, 7, 3), (2, 4, 3, 2), (1, 3, 5, 4), (3, 4, 3, 1)] + ([(2, 4, 11, 3), (3, 4, 2, 2), (2, 5, 13, 3), (3, 4, 13, 2)] if TIER == "thorough" else []):
        for rule in ("J", "ND", "NDshift"):
            c.model("FrobPaths", cfg % (n, d, p, t, rule, "TRUE"), expect_states=10)
    c.refute("FrobPaths", cfg % (2, 3, 5, 2, "ND", "FALSE"))
    c.conform(c.generate(shards=8))
    return c.finish("FrobPaths model: every start of the reduction paths for small n, d, p and all three rules; conformance: non-degenerate equations of 22 shapes, all routines and loop variants on the same column, matrices of both methods")


@check("F03")
def f03(pid):
    c = Check(pid)
    cfg = "SPECIFICATION Spec\nINVARIANTS NoRace HasContext RowsRight NothingAdded\nPROPERTY AllDone\nCHECK_DEADLOCK FALSE\nCONSTANTS Threads = %d Cols = %d Precompute = %s Restore = %s OwnRow = %s\n"
    T, F = "TRUE", "FALSE"
    for th, co in [(1, 3), (2, 3), (3, 2), (3, 4)]:
        c.model("ParallelFrobenius", cfg % (th, co, T, T, T), expect_states=10)
    for v in [(2, 3, F, T, T), (2, 3, T, F, T), (2, 3, T, T, F)]:
        c.refute("ParallelFrobenius", cfg % v)
    c.conform(c.generate(shards=8), shards=4, confirm="schedule")
    return c.finish("ParallelFrobenius model: all schedules of up to 3 threads and 4 columns, three wrong variants refuted; conformance: both methods with 2..24 threads on fresh objects, twice each, moduli of one to three words, tables compared with the precomputation")


@check("Z01")
def z01(pid):
    c = Check(pid)
    c.model("ZetaSelf", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n")
    c.conform(c.generate(shards=8))
    return c.finish("plane curves of degree 3..6 and quartic surfaces of six styles over 30 primes against point counts over as many extensions as can be counted (for genus <= 3 they determine the polynomial); diagonal equations and their images under changes of variables against Jacobi sums")


@check("Z02")
def z02(pid):
    c = Check(pid)
    c.conform(c.generate(shards=8))
    return c.finish("plane curves of degree 3..6 and quartic surfaces of six styles over 25 primes: every entry, column and coefficient of every returned matrix and polynomial")


@check("Z03")
def z03(pid):
    c = Check(pid)
    c.conform(c.generate(shards=8))
    return c.finish("one session per equation: default call, then threads 1..24, verbose, model search on and off and requested precisions 1..30 with and without the zeta polynomial; plane curves of degree 3..5 and quartic surfaces, degenerate and non-degenerate")


@check("Z04")
def z04(pid):
    c = Check(pid)
    c.conform(c.generate(shards=8))
    return c.finish("one session per equation: map, lists with machine and big integers, text, and the frob program (generic and K3 form); terms shuffled, coefficients changed by multiples of p up to 2^80, zero terms added")


@check("Z05")
def z05(pid):
    c = Check(pid)
    c.conform(c.generate(shards=8))
    return c.finish("orbits of plane curves of degree 3..5 and quartic surfaces under permutations, diagonal and elementary matrices and their products, scalars, other lifts; general and non-degenerate method on the same orbit")


@check("Z06")
def z06(pid):
    c = Check(pid)
    c.conform(c.generate(shards=8))
    return c.finish("requests through every entry point (zeta_function in its four forms, the frob program, the constructors of the four classes): equations of eleven kinds (singular at rational and at conjugate points, reducible, non-reduced, cones, zero modulo p, smooth), p dividing d, d <= n, unsupported degrees, wrong numbers of coefficients, precision options for small primes")
