#!/bin/bash
# dev helper: rebuild and run one property
. /opt/vp/env.sh
cd /verif/engine && go build -o ../bin/verif . && exec ../bin/verif -prop "$@"
