PROPERTY = "C02"
NEEDS = "xi < -1/2 approached from a short-tailed shape, and x in the last part of the support, with sigma != 1"
BREAKS = "genpareto.pdf compares z with the unscaled end point when xi < 0 and sigma != 1, so the density is 0 inside the support (or complex beyond it)"
EDITS = [("mpsci/distributions/genpareto.py", """    if (xi >= 0 and z < 0) or (xi < 0 and (z < 0 or z > -1/xi)):
        p = 0
""", """    if (xi >= 0 and z < 0) or (xi < 0 and (z < 0 or z > -sigma/xi)):
        p = 0
""")]
DEMO = '''
import sys
from mpmath import mp
from mpsci.distributions import genpareto
mp.dps = 20
# support of xi=-1/2, mu=0, sigma=1/4 is [0, 1/2]
got = genpareto.pdf(0.25, -0.5, 0, 0.25)
want = (1 - mp.mpf(0.5))**(1)/mp.mpf(0.25)
print(got, want)
sys.exit(0 if abs(got - want) < mp.mpf(10)**-18 else 1)
'''
