#!/bin/bash
# Nothing is compiled: verify that the tools are there and that the specifications parse.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
command -v java >/dev/null
for m in spec/*.tla; do
  (cd spec && java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$(basename "$m")" >/tmp/sany.$$ 2>&1) || { cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; }
  rm -f /tmp/sany.$$
done
echo "setup ok"
