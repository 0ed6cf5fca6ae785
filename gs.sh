#!/bin/bash
# developer shortcut: build the engine and run it verbosely
source /opt/vp/env.sh
cd /verif/gosym && go build -o /tmp/gosym . && cd /verif && exec /tmp/gosym -v "$@"
