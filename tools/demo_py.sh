#!/bin/bash
# run with cwd = the repository, after its build; exit 0: the property holds here, nonzero: it does not
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/fisxdemo.XXXXXX) || exit 2
trap 'rm -rf -- "$t"' EXIT
# a small complete set of the library data files, EPDL97 cross sections included
python3 "$here/gen_dataset.py" fisx_data "$t/data" > /dev/null || exit 2
export PYTHONPATH=$PWD/_build/lib PYTHONDONTWRITEBYTECODE=1
timeout 240 /opt/fisx/venv/bin/python "$here/demo.py" "$t/data" "$t" > "$t/out" 2>&1
rc=$?
tail -5 "$t/out"
exit $rc
