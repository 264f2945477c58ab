"""Properties decided on recorded whole runs."""
import rec
import gen


def record_run(scn):
    ev, soln, P = rec.run(scn)
    return ev


def stream(prop, tier, seed, quick, thorough, **prof):
    n = quick if tier == 'quick' else thorough
    for i in range(n):
        yield gen.run_scenario(prop, seed, i, **prof)
