#!/bin/bash
# Builds what the checks share; every check rebuilds from /repo's working tree anyway.
set -e
cd "$(dirname "$0")/../harness"
export CARGO_TARGET_DIR=${VERIF_BUILD_DIR:-$(cd ..; pwd)/.build} RUSTFLAGS= CARGO_NET_OFFLINE=true
python3 -c 'import os, sys; sys.path.insert(0, "../tools"); import driver; [driver.fresh(os.environ["CARGO_TARGET_DIR"], p, dict(os.environ)) for p in ("checked", "release")]'
b() { cargo build -q --offline --no-default-features --profile "$1" --features "$2" $(printf -- '--bin %s ' $3); }
for p in checked release; do
b $p trees,wrappers,more "maps record bulk"
b $p cols "cols bulkcols"
for x in clones keyfacts spies costs threads; do b $p $x $x; done
b $p costs,trees,wrappers space
b $p parts "lists leaf handles"
b $p owned maps
b $p bytes "maps record bulk"
done
