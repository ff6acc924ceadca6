# sourced by demo.sh: builds demo.cpp beside it against ./include (cwd = repository) and runs it in a scratch directory
set -e
H=$(cd "$(dirname "$0")" && pwd); R=$PWD; S=$(mktemp -d); trap 'rm -rf "$S"' EXIT
g++ -std=c++17 -O1 -g -w -I"$R/include" -I"$R/lib" $CXXX "$H/demo.cpp" "$R/src/settings.cpp" -o "$S/demo" -lpthread
cd "$S"
timeout -k 5 ${LIMIT:-200} ./demo
