/* Stands in for the compilers, the archiver, the linker and the generating
 * commands of a generated project: appends what it was run with to $FAKE_LOG
 * (one write per record, fields separated by \x1f, records ended by \n) and
 * makes its output.  argv[0] says which it is. */
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static char rec[1 << 18];
static size_t len;

static void add(const char *s)
{
	if (len) {
		rec[len++] = '\x1f';
	}
	size_t n = strlen(s);
	if (len + n + 8 > sizeof(rec)) {
		_exit(99);
	}
	memcpy(rec + len, s, n);
	len += n;
}

static void flush(void)
{
	int fd = open(getenv("FAKE_LOG"), O_WRONLY | O_APPEND | O_CREAT, 0644);
	rec[len++] = '\n';
	if (fd < 0 || write(fd, rec, len) != (ssize_t)len) {
		_exit(98);
	}
	close(fd);
	len = 0;
}

static void make(const char *path, const char *text)
{
	FILE *f = fopen(path, "w");
	if (!f) {
		perror(path);
		_exit(97);
	}
	fputs(text, f);
	fclose(f);
}

int main(int argc, char **argv)
{
	const char *me = strrchr(argv[0], '/');
	me = me ? me + 1 : argv[0];
	int i;

	if (argc > 1 && !strcmp(argv[1], "--version")) {
		puts("cc (GCC) 13.3.0\nCopyright (C) 2023 Free Software Foundation, Inc.");
		return 0;
	}
	if (argc > 1 && !strcmp(argv[1], "--print-search-dirs")) {
		puts("install: /usr/lib/\nprograms: =/usr/bin\nlibraries: =/usr/lib/");
		return 0;
	}

	if (!strcmp(me, "fakegen")) {		/* fakegen OUT... */
		for (i = 1; i < argc; ++i) {
			make(argv[i], "generated\n");
		}
		add("gen");
		for (i = 1; i < argc; ++i) {
			add(argv[i]);
		}
		flush();
		return 0;
	}

	/* inputs which are not there */
	char miss[4096] = "";
	const char *out = NULL, *dep = NULL, *in = NULL;
	int compile = 0;
	if (!strcmp(me, "fakear")) {		/* fakear csr OUT IN... */
		out = argv[2];
		for (i = 3; i < argc; ++i) {
			if (access(argv[i], F_OK)) {
				strncat(miss, argv[i], 1000);
				break;
			}
		}
	} else {
		for (i = 1; i < argc; ++i) {
			if (!strcmp(argv[i], "-o")) {
				out = argv[++i];
			} else if (!strcmp(argv[i], "-MF")) {
				dep = argv[++i];
			} else if (!strcmp(argv[i], "-MQ") || !strcmp(argv[i], "-I") || !strcmp(argv[i], "-isystem") || !strcmp(argv[i], "-D")) {
				++i;
			} else if (!strcmp(argv[i], "-c")) {
				compile = 1;
			} else if (argv[i][0] != '-') {
				in = argv[i];
				if (access(in, F_OK)) {
					strncat(miss, in, 1000);
				}
			}
		}
	}
	add(compile ? "cc" : !strcmp(me, "fakear") ? "ar" : "ld");
	add(me);
	add(miss);
	for (i = 1; i < argc; ++i) {
		add(argv[i]);
	}
	flush();
	if (!out || *miss) {
		fprintf(stderr, "%s: nothing to make, or missing: %s\n", me, miss);
		return 1;
	}
	make(out, compile ? "object\n" : "linked\n");
	if (dep) {
		char b[8192];
		snprintf(b, sizeof(b), "%s: %s\n", out, in ? in : "");
		make(dep, b);
	}
	return 0;
}
