PROPERTY = "C01"
NEEDS = "x just below loc (or small k-th power): the survival probability is tiny"
BREAKS = "weibull_max.sf computes 1 - cdf and loses all significant digits next to the upper end of the support"
EDITS = [("mpsci/distributions/weibull_max.py", "    return -mp.expm1(-(-z)**k)\n", "    return mp.one - mp.exp(-(-z)**k)\n")]
DEMO = '''
import sys
from mpmath import mp
from mpsci.distributions import weibull_max
mp.dps = 30
x = mp.mpf(2) - mp.mpf(10)**-20
got = weibull_max.sf(x, 2, 2, 1)
with mp.workdps(80):
    want = -mp.expm1(-(2 - x)**2)
    bad = abs(got - want) > mp.mpf(10)**-25*want
print(got, want)
sys.exit(1 if bad else 0)
'''
