from runprop import stream, record_run as record


def scenarios(tier, seed):
    return stream('C18', tier, seed, 4000, 120000, diag=1.0, restarts=0.6, growing=0.3, h=0.1, proj=0.06, nsamp=0.15)
