#!/bin/bash
# Nothing to compile: the specification is run by the installed TLC, the drivers import /repo.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
chmod +x check
java -version >/dev/null 2>&1
PYTHONPATH=/repo /opt/venv/bin/python -c 'import PyAnEn, numpy, scipy, pandas'
cd spec && for m in MCScores PyAnEnTrace; do java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY $m.tla >/dev/null; done
echo setup ok
