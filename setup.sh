#!/bin/bash
# nothing to build: the checks are Python and run the modules of /repo in place
set -e
cd "$(dirname "$(readlink -f "$0")")"
test -x check || chmod +x check
mkdir -p evidence replays
/opt/venv/bin/python -B -c "import sys; print('python', sys.version.split()[0])"
jython -B -c "import sys; print('jython', sys.version.split()[0])"
