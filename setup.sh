#!/bin/sh
# Nothing to build: the checks load /repo's source afresh on every run.
set -e
test -x /opt/veriftools/pyvenv/bin/python
test -x /opt/jy/bin/jython
chmod +x /verif/check.py 2>/dev/null || true
exit 0
