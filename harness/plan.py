"""Per property: specification module, recording deadlines (s, quick/thorough), assumptions."""

RUN_ASSUME = ['scenarios are sampled from the generator in harness/gen.py (n <= 4, maxfun <= 150 in the quick tier)',
              'the residual function seen by the solver is the recording wrapper; its log is read through the logging module']


def run(extra=None, **kw):
    d = {'spec': 'RunTrace', 'deadline': (70, 3000), 'assumptions': RUN_ASSUME}
    d.update(kw)
    return d


PLAN = {p: run(words=True) for p in ['C01', 'C02', 'C03', 'C04', 'C08', 'C10', 'C11', 'C18']}
PLAN['C12'] = run(spec='BoxTR', technique='TLA+ contract: subproblems and answers of the real solver are recorded and checked by TLC against spec/BoxTR.tla with exact arithmetic', assumptions=['subproblems are sampled (n <= 8) and recorded from real runs',
                                             'the pure Python subproblem solver is used (trustregion is not installed)'])
PLAN['C13'] = run(spec='Steps', technique='TLA+ contract: subproblems and answers of the real step solvers are recorded and checked by TLC against spec/Steps.tla with exact arithmetic', assumptions=['subproblems are sampled (n <= 8) and recorded from real runs', 'pure Python step solvers (trustregion is not installed)'])
PLAN['C14'] = run(spec='InitSet', technique='TLA+ contract: the initial evaluations of real runs and the calls of the direction generators are recorded and checked by TLC against spec/InitSet.tla with exact arithmetic', assumptions=['placements of x0, boxes and radii are sampled (n <= 8, npt in [n+1, 2n+1])'])
PLAN['C15'] = run(spec='Dykstra', technique='TLA+ contract: calls of the real projection routine, seen through its projectors are recorded and checked by TLC against spec/Dykstra.tla with exact arithmetic', assumptions=['intersections are sampled (dimension <= 6, up to 4 sets with margins of at least 1e-5)'])
PLAN['C09'] = run()
PLAN['C17'] = run(spec='ModelStore', technique='TLA+ trace validation: operation sequences on the real Model class are recorded with the full contents after every operation and checked by TLC against the store specification spec/ModelStore.tla',
                  assumptions=['operation sequences of length up to 30 are sampled; points handed to the store are inside the bounds, as the solver does'])
PLAN['C16'] = run(spec='ModelInterp', technique='TLA+ trace validation: operation histories on the real Model class are recorded and every fit, Lagrange basis, base shift and assembled quadratic is checked by TLC against spec/ModelInterp.tla with exact arithmetic',
                  assumptions=['operation histories of up to 40 operations are sampled (n, m <= 6, 2 to 2n+1 points)', 'condition numbers above 1e8 are not judged'])
PLAN['C05'] = run(spec='LinearLS', technique='TLA+ contract: whole runs of the real solver on linear least-squares problems are recorded and their answers checked by TLC against spec/LinearLS.tla (exact objective and feasibility, certified witness of the minimum)',
                  assumptions=['problems are sampled (n <= 8, m <= n + 7, cond(A) <= 1e3)', 'the witness is an upper bound of the minimum; how tight it is, is decided exactly and counted as C05.witness.tight'])
PLAN['C06'] = run(spec='RegLS', deadline=(150, 3000), technique='TLA+ contract: whole runs of the real solver on regularised linear least-squares problems are recorded and their answers and argument passing checked by TLC against spec/RegLS.tla (exact objective and feasibility, dual-certified witness of the minimum)',
                  assumptions=['problems are sampled (n <= 5, cond(A) <= 10, lambda over 4.5 decades)', 'the witness is an upper bound of the minimum; how tight it is, is decided exactly and counted as C06.witness.tight'])
PLAN['C07'] = run(spec='Inputs', deadline=(90, 3000), technique='TLA+ decision table: calls of the real solve, covering every parameter with every class of values and combinations of invalid arguments, are recorded and judged by TLC against spec/Inputs.tla',
                  assumptions=['argument combinations beyond one parameter are sampled', 'wrong types of the positional arguments themselves (strings for npt and the like) are not covered'])
PLAN['C19'] = run(spec='Repro', deadline=(75, 3000), technique='TLA+ self-composition: the same call of the real solver is run under different global random states, histories and processes, and TLC follows every later run along the first one (spec/Repro.tla), with the caller-side data observed at every residual call',
                  assumptions=['calls are sampled (n <= 8, maxfun <= 150)', 'random directions are taken to be enabled by: random initial directions, npt above (n+1)(n+2)/2, growing, increasing npt, momentum regression steps'])
PLAN['C20'] = run(spec='RoundTrip', deadline=(75, 3000), technique='TLA+ contract: results of the real solver (every exit, and the same results with unusual field values) are carried through to_dict, JSON text, from_dict and str, and TLC compares the typed values before and after against spec/RoundTrip.tla',
                  assumptions=['results are sampled from runs of the generator and edits of their fields (NaN, infinities, None, sizes around the printing thresholds)'])
