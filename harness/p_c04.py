from runprop import stream, record_run as record


def scenarios(tier, seed):
    return stream('C04', tier, seed, 8000, 200000, nsamp=0.0, noisefn=0.0, script=0.6, restarts=0.7, h=0.08, proj=0.05, diag=0.3,
                  words=('nan', 'inf', 'huge', 'over'))
