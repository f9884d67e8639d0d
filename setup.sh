#!/bin/sh
# Nothing to build: check that the tools are there and that every specification parses.
cd "$(dirname "$0")" || exit 1
T=$(mktemp -d) || exit 1
CP=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
cp spec/*.tla "$T"/ && cd "$T" && java -Djava.io.tmpdir="$T" -cp $CP tla2sany.SANY *.tla > sany.log 2>&1
rc=$?
[ $rc = 0 ] || cat sany.log
rm -rf "$T"
exit $rc
