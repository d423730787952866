import sys
from .core import main
from . import core
import phenlint.core as c
sys.exit(c.main(sys.argv[1:]))
