#!/usr/bin/env python3
"""offline sanity check of the tools the checks need; builds nothing"""
import os
import subprocess
import sys

code = ("import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages');"
        "import numpy, scipy, pandas, sklearn, statsmodels, z3, mpmath; print('ok', z3.get_version_string())")
sys.exit(subprocess.call(["/opt/venv/bin/python", "-c", code]))
