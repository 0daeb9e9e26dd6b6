"""setup_cmd: nothing to build; checks that the interpreter and the libraries are there."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check  # noqa: E402

os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
py = check.interpreter()
sys.exit(subprocess.call([py, '-B', '-c', 'import numpy, scipy, PIL, lxml, jinja2, matplotlib; print("ready", numpy.__version__)']))
