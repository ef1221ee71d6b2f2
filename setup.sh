#!/bin/bash
# The checks build what they need; this only verifies that the tools are there and the specifications parse.
cd "$(dirname "$0")/spec" || exit 1
command -v g++ cmake java python3 >/dev/null || exit 1
CP=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
for m in *.tla; do
    java -cp $CP tla2sany.SANY "$m" >/tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; /bin/rm -f /tmp/sany.$$; exit 1; }
done
/bin/rm -f /tmp/sany.$$
exit 0
