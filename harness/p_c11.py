from runprop import stream, record_run as record


def scenarios(tier, seed):
    return stream('C11', tier, seed, 8000, 200000, scaling=0.4, npt=0.5, restarts=0.5, h=0.05, proj=0.0, nsamp=0.2, script=0.15, big=0.1)
