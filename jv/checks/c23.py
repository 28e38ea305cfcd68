"""C23: synchronous composition of PCTMCs."""
from ..core import Check
from .c22 import pctmcs, agree

CHECK = Check("C23", "two to four PCTMCs with synchronous transitions and parameter values", [pctmcs, agree], quick=25, thorough=300)
