#!/bin/bash
# Nothing has to be built: the framework is Python run by the interpreter of the
# repository's environment. This only verifies that it is there.
/opt/venv/bin/python -c "import numpy, numba, sys; assert sys.version_info >= (3, 12)"
