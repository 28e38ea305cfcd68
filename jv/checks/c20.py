"""C20: IOAlergia learns the MDP its definition gives."""
from ..core import Check
from .c19 import make

CHECK = Check("C20", "a training set and a significance level", make(True), quick=25, thorough=400)
