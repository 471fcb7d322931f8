/* The command of every edge in generated manifests.
 *
 *   edgecmd LOG ID VER OPTS [-o OUT]... [-r READ]... [-d DEPFILE]
 *
 * Appends "S ID" to LOG, reads its inputs, sleeps, writes
 * ID.VER#k(content,content,...) to each output and appends "E ID rc".
 * OPTS: r restat (leave unchanged outputs alone), c coarse (only the coarse
 * part of source files matters), i follow the include list on the second line
 * of the first input, and write it to DEPFILE, s name the first
 * input itself there, b blind (what is included is
 * read but does not matter).
 * EDGE_FAIL: ",id,id," edges which must fail.  EDGE_SLEEP: ",id=ms,...".
 */
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>

static const char *logf_, *id;

static void say(const char *k, int rc)
{
	char b[256];
	int n = rc < 0 ? snprintf(b, sizeof b, "%s %s\n", k, id)
		       : snprintf(b, sizeof b, "%s %s %d\n", k, id, rc);
	int fd = open(logf_, O_WRONLY | O_APPEND | O_CREAT, 0666);
	if (fd < 0 || write(fd, b, n) != n) {
		perror("edgecmd log");
		_exit(99);
	}
	close(fd);
}

static void fin(int rc)
{
	say("E", rc);
	_exit(rc);
}

static char *slurp(const char *p)
{
	FILE *f = fopen(p, "r");
	if (!f) return NULL;
	size_t cap = 1 << 16, n = 0;
	char *b = malloc(cap);
	size_t r;
	while ((r = fread(b + n, 1, cap - n - 1, f)) > 0) {
		n += r;
		if (n + 1 >= cap) b = realloc(b, cap *= 2);
	}
	b[n] = 0;
	fclose(f);
	return b;
}

int main(int argc, char **argv)
{
	logf_ = argv[1];
	id = argv[2];
	const char *ver = argv[3], *opts = argv[4];
	char *outs[32], *reads[64], *dep = NULL;
	int no = 0, nr = 0, i;
	for (i = 5; i + 1 < argc; i += 2) {
		if (!strcmp(argv[i], "-o")) outs[no++] = argv[i + 1];
		else if (!strcmp(argv[i], "-r")) reads[nr++] = argv[i + 1];
		else if (!strcmp(argv[i], "-d")) dep = argv[i + 1];
	}
	say("S", -1);
	char key[128];
	const char *s = getenv("EDGE_SLEEP"), *p;
	snprintf(key, sizeof key, ",%s=", id);
	if (s && (p = strstr(s, key))) {
		long ms = atol(p + strlen(key));
		struct timespec ts = { ms / 1000, (ms % 1000) * 1000000 };
		nanosleep(&ts, NULL);
	}
	s = getenv("EDGE_FAIL");
	snprintf(key, sizeof key, ",%s,", id);
	if (s && strstr(s, key)) fin(1);

	char *incs = NULL;
	size_t cap = 1 << 20, n = 0;
	char *body = malloc(cap);
	body[0] = 0;
	int first = 1;
	char *inclist[64];
	int ninc = 0;
	for (i = 0; i < nr + ninc; ++i) {
		char *t = slurp(i < nr ? reads[i] : inclist[i - nr]);
		if (!t) fin(1);
		char *nl = strchr(t, '\n');
		if (nl) {
			*nl = 0;
			if (i == 0 && strchr(opts, 'i') && strncmp(nl + 1, "inc ", 4) == 0) {
				incs = strdup(nl + 5);
				char *e = strchr(incs, '\n');
				if (e) *e = 0;
				for (char *q = strtok(incs, " "); q; q = strtok(NULL, " "))
					inclist[ninc++] = q;
			}
		}
		int issrc = nl && strncmp(nl + 1, "src", 3) == 0;
		if (nl && strncmp(nl + 1, "inc", 3) == 0) issrc = 1;
		if (strchr(opts, 'c') && issrc) {
			char *c = strrchr(t, ':');
			if (c) *c = 0;
		}
		if (i >= nr && strchr(opts, 'b')) continue;
		n += snprintf(body + n, cap - n, "%s%s", first ? "" : ",", t);
		first = 0;
	}
	char *full = malloc(cap + 256), tmp[4096];
	for (i = 0; i < no; ++i) {
		snprintf(full, cap + 256, "%s.%s#%d(%s)\n", id, ver, i + 1, body);
		if (strchr(opts, 'r')) {
			char *old = slurp(outs[i]);
			if (old && !strcmp(old, full)) continue;
		}
		snprintf(tmp, sizeof tmp, "%s.tmp", outs[i]);
		FILE *f = fopen(tmp, "w");
		if (!f || fputs(full, f) < 0 || fclose(f) || rename(tmp, outs[i])) fin(98);
	}
	if (dep) {
		FILE *f = fopen(dep, "w");
		if (!f) fin(97);
		fprintf(f, "%s:", outs[0]);
		if (strchr(opts, 's')) fprintf(f, " %s", reads[0]);
		for (i = 0; i < ninc; ++i) fprintf(f, "%s%s", i % 2 ? " \\\n  " : " ", inclist[i]);
		fputs("\n", f);
		fclose(f);
	}
	fin(0);
}
