# developer helper: build one driver against /tmp/b1
set -e
cd /verif/harness
L=${LIBDIR:-/tmp/b1/src}
for f in core engine main; do [ /tmp/o_$f.o -nt $f.cpp -a /tmp/o_$f.o -nt core.h -a /tmp/o_$f.o -nt value.h ] || g++ -O2 -std=c++17 -Wall -I. -I/repo/include -c $f.cpp -o /tmp/o_$f.o & done; wait
g++ -O2 -std=c++17 -Wall -I. -I/repo/include -c drv/$1.cpp -o /tmp/o_$1.o
g++ /tmp/o_core.o /tmp/o_engine.o /tmp/o_main.o /tmp/o_$1.o $L/libtsym.a -o /tmp/mc_$1
