from runprop import stream, record_run as record


def scenarios(tier, seed):
    return stream('C08', tier, seed, 8000, 200000, fault=0.9, nsamp=0.15, restarts=0.6, h=0.08, proj=0.05, script=0.2,
                  words=('nan', 'inf', 'over'))
