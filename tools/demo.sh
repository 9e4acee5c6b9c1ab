#!/bin/bash
# run with cwd = the repository; exit 0: the property holds here, nonzero: it does not
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/fisxdemo.XXXXXX) || exit 2
trap 'rm -rf -- "$t"' EXIT
ls src/*.cpp | xargs -P 8 -I{} sh -c 'g++ -O1 -w -Isrc -c "$1" -o "$2/$(basename "$1").o"' _ {} "$t" || exit 2
g++ -O1 -w -pthread -Isrc "$here/demo.cpp" "$t"/*.o -o "$t/demo" || exit 2
data=fisx_data
if [ -f "$here/gen_dataset.py" ]; then
    # a small complete set of the library data files, EPDL97 cross sections included
    python3 "$here/gen_dataset.py" fisx_data "$t/data" > /dev/null || exit 2
    data=$t/data
fi
timeout 240 "$t/demo" "$data" "$t" > "$t/out" 2>&1
rc=$?
tail -5 "$t/out"
exit $rc
