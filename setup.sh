#!/bin/bash
# Nothing a check relies on: each builds from /repo's current tree. Built here once, the parts that
# haven't changed needn't be built again.
cd /verif && mkdir -p evidence replays && bash /verif/build.sh && bash /verif/san.sh build
