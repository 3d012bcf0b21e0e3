// Stand-in for an H3 command line tool. It records its arguments in <argv[0]>.args, one per line, and
// behaves as <argv[0]>.spec says: first line "exit status, signal, bytes for stdout, bytes for stderr",
// the call from which on it fails (0: never)", then those bytes. It counts its calls in <argv[0]>.calls.
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
int main(int argc, char **argv) {
    char path[4096], buf[65536];
    struct rlimit none = {0, 0};
    setrlimit(RLIMIT_CORE, &none);
    snprintf(path, sizeof path, "%s.args", argv[0]);
    FILE *f = fopen(path, "w");
    for (int i = 1; i < argc; i++) fprintf(f, "%s\n", argv[i]);
    fclose(f);
    snprintf(path, sizeof path, "%s.calls", argv[0]);
    long calls = 0;
    if ((f = fopen(path, "a"))) {
        fputc('.', f);
        calls = ftell(f);
        fclose(f);
    }
    snprintf(path, sizeof path, "%s.spec", argv[0]);
    if (!(f = fopen(path, "r"))) return 120;
    int rc, sig;
    unsigned n, m;
    long from;
    if (fscanf(f, "%d %d %u %u %ld", &rc, &sig, &n, &m, &from) != 5 || n > sizeof buf || m > sizeof buf) return 121;
    fgetc(f);
    if (from && calls >= from) return 1;
    if (fread(buf, 1, n, f) != n) return 122;
    fwrite(buf, 1, n, stdout);
    fflush(stdout);
    if (fread(buf, 1, m, f) != m) return 123;
    fwrite(buf, 1, m, stderr);
    fflush(stderr);
    if (sig) raise(sig);
    return rc;
}
