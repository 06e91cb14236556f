#!/bin/sh
# Nothing to build: the code under test and the harness are Python.  Make sure the interpreter and the imports are there.
here=$(cd "$(dirname "$0")" && pwd)
PYTHONPATH="/repo/src:$here/lib" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import vz.core, _zkapauthorizer.model"
