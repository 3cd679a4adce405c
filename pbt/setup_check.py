"""setup_cmd: nothing to build (pure Python); verify that the interpreter and Hypothesis are there."""
import hypothesis
import numpy

print("hypothesis", hypothesis.__version__, "numpy", numpy.__version__)
