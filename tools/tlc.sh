#!/bin/bash
# Runs TLC on a module of spec/: tlc.sh MODULE [args]
cd /verif/spec && m=$1; shift
exec java -Xmx12g -Xss16m -XX:+UseParallelGC -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -noGenerateSpecTE -metadir /tmp/tlcmeta -workers 8 -config $m.cfg "$@" $m.tla
