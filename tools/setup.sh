#!/bin/bash
# Nothing to install: checks that the tools are there and the specification parses.
set -e
cd "$(dirname "$0")/../spec"
java -version 2>/dev/null
for m in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" > /tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
go version
