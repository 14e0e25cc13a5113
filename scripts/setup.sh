#!/bin/bash
# builds the front end (clang tooling) and extracts the current sources; the checks do the same when they find nothing built
cd "$(dirname "$0")/.." && python3 -c "
import sys; sys.path.insert(0, 'analysis')
import loader
loader.build_tool(); loader.load(loader.PLAN_UNITS); print('ready')"
