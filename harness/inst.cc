// Reads an instance of grid path finding from standard input with the
// repository's reader and writes what it holds: size, number of moves, whether
// each cell is blocked, and the numbers that follow the map.
#include "gridnav/gridmap.hpp"
#include <cstdio>

int main() {
	GridMap m(stdin);
	printf("%u %u %u\n", m.w - 2, m.h - 2, m.nmvs);
	for (unsigned int y = 1; y < m.h - 1; y++) {
		for (unsigned int x = 1; x < m.w - 1; x++)
			putchar(m.blkd(m.index(x, y)) ? '0' : '1');
		putchar('\n');
	}
	unsigned int x;
	while (scanf("%u", &x) == 1)
		printf("%u ", x);
	putchar('\n');
	return 0;
}
