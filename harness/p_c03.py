from runprop import stream, record_run as record


def scenarios(tier, seed):
    return stream('C03', tier, seed, 8000, 200000, nsamp=0.35, restarts=0.65, h=0.1, proj=0.06, scaling=0.3, big=0.1, words=('tiny', 'nan', 'huge'))
