from runprop import stream, record_run as record


def scenarios(tier, seed):
    return stream('C01', tier, seed, 8000, 200000, bkind=None, nolog=0.05, big=0.15, h=0.06, proj=0.0, growing=0.25, randinit=0.2)
