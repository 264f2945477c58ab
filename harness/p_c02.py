from runprop import stream, record_run as record


def scenarios(tier, seed):
    return stream('C02', tier, seed, 8000, 200000, nsamp=0.6, restarts=0.6, h=0.05, proj=0.04, randinit=0.2)
