# cc MAXV HYBRID OUT DEMO.c : compiles the solver of the current directory (a checkout) with a demonstration
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
M=$PWD/src/HybridSolver/main
cc1() { clang -g -O1 -w -DMAX_VERTEX_NUM=$1 -DHYBRID=$2 $5 -I"$M" -I"$M/algorithms" -I"$M/data_structures" -I"$M/data_structures/doubly_linked_list" -o "$T/$3" "$(dirname "$0")/$4" $(find "$M" -name '*.c' ! -path "$M/main.c") -lm || exit 3; }
