prop='C13'
needs='a regularised problem whose current point is (nearly) optimal for the model'
breaks='a regularised step with a small negative predicted reduction is not replaced by the zero step'
edits=[('dfols/controller.py','''            if pred_reduction < 0.0:
                d = np.zeros(d.shape)
''','''            if pred_reduction < -1e-8 * max(self.model.objopt(), 1.0):
                d = np.zeros(d.shape)
''')]
demo='''
from dfols.controller import Controller
from dfols.util import model_value
worst = [0.0]
orig = Controller.trust_region_step
def step(self, *a, **k):
    out = orig(self, *a, **k)
    d, g, H = out[0], out[1], out[2]
    x = self.model.xopt(abs_coordinates=True)
    if self.h is not None and self.scaling_changes is None:
        pr = self.h(x) - (g.dot(d) + 0.5 * d.dot(H.dot(d)) + self.h(x + d))
        worst[0] = min(worst[0], pr / max(1.0, self.model.objopt()))
    return out
Controller.trust_region_step = step
for seed in range(10):
    rng = np.random.RandomState(seed)
    n, lam = 3, 2.0
    A = rng.normal(size=(5, n)); b = rng.normal(size=5)
    h = lambda x: lam * np.linalg.norm(x, 1)
    prox = lambda x, u: np.sign(x) * np.maximum(np.abs(x) - lam * u, 0.0)
    rec, s = solve(lambda x: A.dot(x) - b, 0.5 * np.ones(n), h=h, lh=lam * n ** 0.5, prox_uh=prox, maxfun=60)
expect(worst[0] >= -1e-13, worst[0])
'''
