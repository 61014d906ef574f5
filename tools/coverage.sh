#!/bin/bash
# Which lines of the package do the checks execute?  tools/coverage.sh [Cxx...]  -> report on stdout.
here=$(cd "$(dirname "$0")/.." && pwd)
. /opt/vp/env.sh
export COVDIR=$(mktemp -d); trap 'rm -rf "$COVDIR"' EXIT
cat > $COVDIR/rc <<E
[run]
branch=True
parallel=True
concurrency=multiprocessing,thread
sigterm=True
data_file=$COVDIR/data
source=starwinds_magnetogram
E
mkdir $COVDIR/site; echo 'import coverage; coverage.process_startup()' > $COVDIR/site/sitecustomize.py
export COVERAGE_PROCESS_START=$COVDIR/rc
cat > $COVDIR/py <<E
#!/bin/bash
export PYTHONPATH=$COVDIR/site:\$PYTHONPATH
exec $PY "\$@"
E
chmod +x $COVDIR/py
sed "s#\. /opt/vp/env.sh#. /opt/vp/env.sh; PY=$COVDIR/py#;s#^here=.*#here=$here#" $here/check > $COVDIR/check; chmod +x $COVDIR/check
ids=${@:-$(cd $here; python3 -c "import json;[print(json.loads(l)['id']) for l in open('properties.jsonl')]")}
for i in $ids; do $COVDIR/check $i > $COVDIR/$i.log 2>&1; echo "$i exit $?"; done
cd /repo; $PY -m coverage combine --rcfile=$COVDIR/rc -q $COVDIR; $PY -m coverage report --rcfile=$COVDIR/rc -m
