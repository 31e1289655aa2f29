"""Setup: nothing is built ahead of time; check that the pieces are there."""
import sys
import mpmath
from . import instr
instr.install()
import mpsci  # noqa: E402
print("python", sys.version.split()[0], "mpmath", mpmath.__version__, "mpsci from", mpsci.__file__)
