PROPERTY = "C04"
NEEDS = "tiny p (about 1e-10 or smaller) with xi != 0"
BREAKS = "genpareto.invcdf forms 1 - p, so the quantile of a tiny p loses its digits"
EDITS = [("mpsci/distributions/genpareto.py", "        return mu + (sigma/xi)*pow1pm1(-p, -xi)\n", "        return mu + (sigma/xi)*((1 - p)**(-xi) - 1)\n")]
DEMO = '''
import sys
from mpmath import mp
from mpsci.distributions import genpareto
mp.dps = 20
p = mp.mpf(10)**-18
x = genpareto.invcdf(p, 0.5, 0, 1)
with mp.workdps(60):
    c = 1 - (1 + mp.mpf(0.5)*x)**-2
    bad = abs(c/p - 1) > mp.mpf(10)**-15
print(x, c)
sys.exit(1 if bad else 0)
'''
