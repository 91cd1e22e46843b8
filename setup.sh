#!/bin/bash
# nothing to install: build the compiled extensions of /repo once and see that the harness imports
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
/opt/venv/bin/python -c "
import vp.boot as b
b.build(); b.setup()
import hypothesis, pymoo
print('hypothesis', hypothesis.__version__, 'pymoo', pymoo.__version__)
"
