#!/bin/bash
# Nothing is compiled: check that the interpreter and the code under test are usable.
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 1
export PYTHONDONTWRITEBYTECODE=1
mkdir -p evidence replays
exec /opt/venv/bin/python -c "
import sys; sys.path[:0] = ['.', '/repo']
import hyperreal, pyroaring, cherrypy, requests, lxml, networkx
import hv.core, hv.gen, hv.lib, hv.pools, hv.ref
print('ready', hyperreal.__file__)
"
