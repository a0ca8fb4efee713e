#!/bin/sh
# run.sh MODULE CFG: TLC on a model, by hand
cd "$(dirname "$0")/../spec" && java -XX:+UseParallelGC -Xss64m -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -workers 8 -metadir /tmp/tlcmeta_$$ -config "$2" "$1.tla"; rm -rf /tmp/tlcmeta_$$
