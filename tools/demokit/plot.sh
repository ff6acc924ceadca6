# sourced by demo.sh: builds the whole plotter from ./src and ./include (cwd = repository) with stand-ins for the
# absent libraries (kit/) and the fault injection of inject.cpp; run it in the scratch directory $S
set -e
H=$(cd "$(dirname "$0")" && pwd); R=$PWD; K=$H/kit; S=$(mktemp -d); trap 'rm -rf "$S"' EXIT
W=""; for f in fopen fclose rename remove nanosleep fwrite pthread_mutex_lock; do grep -q "__wrap_$f" "$H/inject.cpp" && W="$W -Wl,--wrap=$f"; done
(g++ -std=c++17 -O1 -w -I"$K" -I"$R/include" -I"$R/lib" -I"$R/include/chia" '-DGIT_COMMIT_HASH="x"' -c "$R/src/chia_plot.cpp" -o "$S/main.o") &
P=$!
g++ -std=c++17 -O1 -w -I"$R/include" -c "$H/inject.cpp" -o "$S/inject.o"
[ -e "$K/ref.cpp" ] && { gcc -O2 -w -c "$K/blake3.c" -o "$S/b3"; g++ -std=c++17 -O2 -w "$K/ref.cpp" "$K/ckplot.cpp" "$S/b3" -o "$S/ckplot"; }
for f in "$K/blake3.c" "$R/lib/chacha8.c" "$R"/lib/FSE/lib/{fse_compress,fse_decompress,entropy_common,hist}.c; do gcc -O2 -w -I"$K" -I"$R/include" -I"$R/lib" -c "$f" -o "$S/$(basename "$f").o"; done
wait $P
for f in "$R"/src/*.cpp; do [ "$(basename "$f")" = chia_plot.cpp ] || g++ -std=c++17 -O1 -w -I"$R/include" -c "$f" -o "$S/x-$(basename "$f").o"; done
g++ -o "$S/plot" "$S"/*.o $W -lpthread
KEY=$(printf '%096d' 7)
mkdir -p "$S/a" "$S/b" "$S/d"
plot() { timeout -k 5 ${LIMIT:-150} "$S/plot" -k 16 -x 9699 -u 16 -p "$KEY" -f "$KEY" -t "$S/a/" -2 "$S/b/" "$@" > "$S/log" 2>&1; }
