"""setup_cmd: nothing has to be built; make sure the interpreter sees what the checks need."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import vp  # noqa: F401,E402
import hypothesis, numpy, scipy, numba  # noqa: E402
print("python", sys.version.split()[0], "hypothesis", hypothesis.__version__, "numpy", numpy.__version__,
      "scipy", scipy.__version__, "numba", numba.__version__)
