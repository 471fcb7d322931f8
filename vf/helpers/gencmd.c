/* The command of every custom target in generated projects.
 *
 *   gencmd ID ARG...
 *
 * What it does is in the file <dir of this program>/../cfg/ID, a directive a
 * line: L log, r file to read, w output to write, k output to write if it
 * differs, x output to write as a script which runs this program, D depfile,
 * T target in the depfile, d name in the depfile, e environment variable to
 * record, I read standard input, O write the result to standard output,
 * F fail.  One record is appended to the log: fields separated by \037,
 * counted lists, \036 at the end.  The result is a hash of all it saw.
 */
#include <fcntl.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

static char rec[1 << 20];
static size_t rn;
static void put(const char *s)
{
	size_t n = strlen(s);
	if (rn + n + 2 < sizeof rec) {
		memcpy(rec + rn, s, n);
		rn += n;
		rec[rn++] = '\037';
	}
}
static void num(int n)
{
	char b[32];
	snprintf(b, sizeof b, "%d", n);
	put(b);
}
/* the token of a file: its last line */
static int slurp(int fd, char *b, size_t cap)
{
	size_t n = 0;
	ssize_t r;
	while (n + 1 < cap && (r = read(fd, b + n, cap - n - 1)) > 0) n += r;
	b[n] = 0;
	while (n && b[n - 1] == '\n') b[--n] = 0;
	char *nl = strrchr(b, '\n');
	if (nl) memmove(b, nl + 1, strlen(nl + 1) + 1);
	return 0;
}
static void token(const char *p, char *b, size_t cap)
{
	int fd = open(p, O_RDONLY);
	if (fd < 0) {
		snprintf(b, cap, "<none>");
		return;
	}
	slurp(fd, b, cap);
	close(fd);
}
static int writef(const char *p, const char *s, int mode)
{
	unlink(p);
	FILE *f = fopen(p, "w");
	if (!f || fputs(s, f) < 0 || fclose(f)) return 1;
	return mode ? chmod(p, mode) : 0;
}

int main(int argc, char **argv)
{
	char self[4096], path[8192], line[8192], tok[65536], res[64];
	ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1);
	if (n < 0 || argc < 2) return 90;
	self[n] = 0;
	*strrchr(self, '/') = 0;
	snprintf(path, sizeof path, "%s/../cfg/%s", self, argv[1]);
	char *key = strdup(argv[1]);
	char *log = NULL, *w[64], wk[64], *rd[64], *en[64], *dep = NULL, *tgt = NULL, *dd[64];
	int nw = 0, nr = 0, ne = 0, nd = 0, in = 0, out = 0, fail = 0, i;
	FILE *f = fopen(path, "r");
	if (!f) {
		snprintf(path, sizeof path, "%s/../cfg/unknown", self);
		f = fopen(path, "r");
		if (!f) return 91;
	}
	while (fgets(line, sizeof line, f)) {
		line[strcspn(line, "\n")] = 0;
		char *a = strdup(line[0] ? line + 2 : line);
		switch (line[0]) {
		case 'L': log = a; break;
		case 'r': rd[nr++] = a; break;
		case 'w': case 'k': case 'x': wk[nw] = line[0]; w[nw++] = a; break;
		case 'e': en[ne++] = a; break;
		case 'D': dep = a; break;
		case 'T': tgt = a; break;
		case 'd': dd[nd++] = a; break;
		case 'I': in = 1; break;
		case 'O': out = 1; break;
		case 'F': fail = 1; break;
		}
	}
	fclose(f);
	put(key);
	if (!getcwd(line, sizeof line)) return 92;
	put(line);
	put(getenv("GENCMD_VIA") ? getenv("GENCMD_VIA") : "");
	num(argc - 2);
	for (i = 2; i < argc; ++i) put(argv[i]);
	int have = 0;
	for (i = 0; i < ne; ++i) have += getenv(en[i]) != NULL;
	num(have);
	for (i = 0; i < ne; ++i)
		if (getenv(en[i])) {
			put(en[i]);
			put(getenv(en[i]));
		}
	num(nr);
	for (i = 0; i < nr; ++i) {
		token(rd[i], tok, sizeof tok);
		put(tok);
	}
	if (in) {
		slurp(0, tok, sizeof tok);
		put(tok);
	} else {
		put("-");
	}
	uint64_t h = 14695981039346656037u;
	for (i = 0; i < (int)rn; ++i) h = (h ^ (unsigned char)rec[i]) * 1099511628211u;
	snprintf(res, sizeof res, "c%016llx", (unsigned long long)h);
	put(res);
	num(fail);
	int rc = fail ? 3 : 0;
	if (out) {
		printf("%s\n", res);
		fflush(stdout);
	}
	if (!fail) {
		for (i = 0; i < nw; ++i) {
			if (wk[i] == 'k') {
				token(w[i], tok, sizeof tok);
				if (!strcmp(tok, res)) continue;
			}
			if (wk[i] == 'x') {
				snprintf(tok, sizeof tok, "#!/bin/sh\nGENCMD_VIA=%s exec %s/gencmd \"$@\"\n%s\n", res, self, res);
				if (writef(w[i], tok, 0755)) rc = 93;
			} else {
				snprintf(tok, sizeof tok, "%s\n", res);
				if (writef(w[i], tok, 0)) rc = 94;
			}
		}
		if (dep) {
			f = fopen(dep, "w");
			if (!f) {
				rc = 95;
			} else {
				fprintf(f, "%s:", tgt);
				for (i = 0; i < nd; ++i) fprintf(f, "%s%s", i % 2 ? " \\\n  " : " ", dd[i]);
				fputs("\n", f);
				fclose(f);
			}
		}
	}
	rec[rn++] = '\036';
	rec[rn] = 0;
	int fd = open(log, O_WRONLY | O_APPEND | O_CREAT, 0666);
	if (fd < 0 || write(fd, rec, rn) != (ssize_t)rn) return 96;
	close(fd);
	return rc;
}
