/* The command of every generated test.
 *
 *   testcmd LOG ID OPTS OUTFILE [ARG]...
 *
 * Appends "S ID ms cwd env args" to LOG (the last three in hex; env: the
 * variables whose name starts with VF_), prints OUTFILE (unless "-"), sleeps
 * and ends as OPTS says, appending "E ID ms".  On SIGTERM: "T ID ms".
 * OPTS: comma separated: x=N exit status, k=N kill yourself, s=MS sleep,
 * i ignore SIGTERM.
 */
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>

extern char **environ;
static const char *logf_, *id;
static int ign;

static long now(void)
{
	struct timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec * 1000 + t.tv_nsec / 1000000;
}

static void put(const char *b, size_t n)
{
	int fd = open(logf_, O_WRONLY | O_APPEND | O_CREAT, 0666);
	if (fd < 0 || write(fd, b, n) != (ssize_t)n) _exit(98);
	close(fd);
}

static void say(const char *k)
{
	char b[256];
	put(b, snprintf(b, sizeof b, "%s %s %ld\n", k, id, now()));
}

static void term(int s)
{
	(void)s;
	say("T");
	if (!ign) _exit(1);
}

static char buf[1 << 16];
static size_t n;

static void hex(const char *s)
{
	for (; *s; ++s) n += sprintf(buf + n, "%02x", (unsigned char)*s);
}

static int cmp(const void *a, const void *b)
{
	return strcmp(*(char *const *)a, *(char *const *)b);
}

int main(int argc, char **argv)
{
	logf_ = argv[1];
	id = argv[2];
	char *opts = strdup(argv[3]), *o;
	int rc = 0, sig = 0, i;
	long ms = 0;
	for (o = strtok(opts, ","); o; o = strtok(0, ",")) {
		if (*o == 'x') rc = atoi(o + 2);
		else if (*o == 'k') sig = atoi(o + 2);
		else if (*o == 's') ms = atol(o + 2);
		else if (*o == 'i') ign = 1;
	}
	struct sigaction sa = { .sa_handler = term };
	sigaction(SIGTERM, &sa, 0);
	n += sprintf(buf, "S %s %ld c", id, now());
	char cwd[4096];
	hex(getcwd(cwd, sizeof cwd) ? cwd : "?");
	n += sprintf(buf + n, " e");
	char *vars[256];
	int nv = 0;
	for (char **e = environ; *e && nv < 256; ++e)
		if (!strncmp(*e, "VF_", 3)) vars[nv++] = *e;
	qsort(vars, nv, sizeof *vars, cmp);
	for (i = 0; i < nv; ++i) {
		if (i) buf[n++] = ',';
		hex(vars[i]);
	}
	n += sprintf(buf + n, " a");
	for (i = 5; i < argc; ++i) {
		buf[n++] = ',';
		hex(argv[i]);
	}
	buf[n++] = '\n';
	put(buf, n);
	if (strcmp(argv[4], "-")) {
		FILE *f = fopen(argv[4], "r");
		int c;
		if (!f) _exit(97);
		while ((c = getc(f)) != EOF) putchar(c);
		fflush(stdout);
	}
	long end = now() + ms;
	while (now() < end) {
		struct timespec t = { (end - now()) / 1000, ((end - now()) % 1000) * 1000000 };
		nanosleep(&t, 0);
	}
	say("E");
	if (sig) {
		signal(sig, SIG_DFL);
		kill(getpid(), sig);
		pause();
	}
	_exit(rc);
}
