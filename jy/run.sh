#!/bin/bash
# The same Jython as /opt/vp/jy.sh, with the stand-ins of /verif first on the path
D=$(cd "$(dirname "$0")" && pwd)
J=/usr/share/java
export JYTHONPATH=$D/shim:/opt/jysite:${VERIF_REPO:-/repo} PYTHONDONTWRITEBYTECODE=1 PRIVCOUNT_DIRECTORY=${VERIF_REPO:-/repo} LC_ALL=C.UTF-8
unset PYTHONPATH PYTHONHOME
exec /usr/bin/java -XX:+UseSerialGC -Xss16m -XX:TieredStopAtLevel=${VERIF_TIERED:-1} -Djava.net.preferIPv4Stack=true -cp $J/jython.jar:$J/bcprov.jar:$J/bcpkix.jar:$J/bcutil.jar \
    -Dpython.home=/usr/share/jython -Dpython.executable=/usr/bin/jython -Dpython.cachedir.skip=true \
    org.python.util.jython -B "$D/worker.py" "$@"
