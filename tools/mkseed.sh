#!/bin/bash
# mkseed.sh ID: completes seeded/ID (which has patch.diff, meta.json, demo.cpp) with the demo kit
H=$(cd "$(dirname "$0")/.." && pwd); S=$H/seeded/$1
mkdir -p $S/kit && cp -r $H/stubs/* $H/variants/defines.hpp $H/src/hlib.hpp $S/kit/
cp $H/tools/seedkit/demo.sh $S/demo.sh; chmod +x $S/demo.sh
