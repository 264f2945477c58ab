from runprop import stream, record_run as record


def scenarios(tier, seed):
    return stream('C10', tier, seed, 8000, 200000, diag=0.6, restarts=0.7, tols=0.35, quitnoise=0.15, h=0.06, proj=0.03, slow=0.35,
                  words=('tiny', 'zero', 'nan', 'huge'), nsamp=0.2)
