/* Stand-in for the server process of P23: connects to the checker, reports the signals it
 * receives and ends when it is told to.  First message: "pid\0argv...\0\n". */
#define _GNU_SOURCE
#include <errno.h>
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/signalfd.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>
int main(int argc, char **argv) {
	const char *ctl = getenv("FE_CTL");
	struct sockaddr_un a; sigset_t m; char buf[4096]; int s, sf, n = 0, i;
	if (!ctl) return 3;
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	alarm(120);
	signal(SIGPIPE, SIG_IGN);
	sigemptyset(&m); sigaddset(&m, SIGTERM); sigaddset(&m, SIGINT); sigaddset(&m, SIGHUP); sigaddset(&m, SIGQUIT); sigaddset(&m, SIGUSR1); sigaddset(&m, SIGUSR2);
	sigprocmask(SIG_BLOCK, &m, 0);
	sf = signalfd(-1, &m, SFD_NONBLOCK);
	fprintf(stderr, "daemon says hello\n"); fflush(stderr);
	s = socket(AF_UNIX, SOCK_STREAM, 0);
	memset(&a, 0, sizeof a); a.sun_family = AF_UNIX; strncpy(a.sun_path, ctl, sizeof a.sun_path - 1);
	if (connect(s, (void *)&a, sizeof a)) return 4;
	n = snprintf(buf, sizeof buf, "%d", (int)getpid()) + 1;
	for (i = 0; i < argc; i++) { strcpy(buf + n, argv[i]); n += strlen(argv[i]) + 1; }
	buf[n++] = '\n';
	if (write(s, buf, n) != n) return 5;
	for (;;) {
		unsigned char c[2];
		n = read(s, c, 1);
		if (n < 0 && errno == EINTR) continue;
		if (n <= 0) return 6;
		if (c[0] == 'q') {
			struct signalfd_siginfo si; int k = 0;
			while (read(sf, &si, sizeof si) == sizeof si) k += snprintf(buf + k, sizeof buf - k, "%d ", (int)si.ssi_signo);
			buf[k++] = '\n';
			if (write(s, buf, k) != k) return 5;
		} else if (c[0] == 'x') {
			while ((n = read(s, c, 1)) < 0 && errno == EINTR);
			_exit(n == 1 ? c[0] : 7);
		}
	}
}
