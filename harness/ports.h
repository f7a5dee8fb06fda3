// The system keeps the ports of closed connections for a minute.  The checks must not run out of them.
#pragma once
#include <cstdio>
#include <sys/socket.h>
#include <unistd.h>

// This connection is over: nothing of it has to be kept.
inline void forget(int fd) {
	linger l{ 1, 0 };
	::setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
}

inline int waiting_ports() {
	int tw = 0;
	FILE* f = fopen("/proc/net/sockstat", "r");
	if (f != nullptr) {
		char line[300];
		while (fgets(line, sizeof line, f) != nullptr) {
			if (sscanf(line, "TCP: inuse %*d orphan %*d tw %d", &tw) == 1) {
				break;
			}
		}
		fclose(f);
	}
	return tw;
}

inline void calm_ports(int most = 24000) {
	static int n = 0;
	if (n++ % 20 != 0) {
		return;
	}
	for (int i = 0; i < 300 && waiting_ports() > most; i++) {
		usleep(100000);
	}
}
