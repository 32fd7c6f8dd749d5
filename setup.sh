#!/bin/sh
# Offline sanity of the toolchain: the specification parses, the package under test imports from /repo.
set -e
cd "$(dirname "$0")"
d=$(mktemp -d); cp spec/*.tla "$d"
(cd "$d" && for f in *.tla; do java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" >sany.log 2>&1 || { cat sany.log; exit 1; }; done)
rm -rf "$d"
JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import feax; assert feax.__file__.startswith('/repo')"
mkdir -p evidence out
