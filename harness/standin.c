// Stands in for every tool the scripts call: records its name, arguments and environment under $SI_DIR, prints
// what the scripts ask of the real one, and fails when it is the call number $SI_FAIL.
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

extern char **environ;

int main(int argc, char **argv) {
    const char *d = getenv("SI_DIR"), *f = getenv("SI_FAIL"), *c = getenv("SI_CODE");
    const char *b = strrchr(argv[0], '/') ? strrchr(argv[0], '/') + 1 : argv[0];
    char p[4096];
    if (!d) return 125;
    snprintf(p, sizeof p, "%s/count", d);
    int fd = open(p, O_WRONLY | O_APPEND | O_CREAT, 0666);
    struct stat st;
    if (fd < 0 || write(fd, "x", 1) != 1 || fstat(fd, &st)) return 125;
    long n = st.st_size - 1;
    snprintf(p, sizeof p, "%s/call-%ld", d, n);
    FILE *o = fopen(p, "w");
    if (!o) return 125;
    fprintf(o, "%d%c%s%c", argc, 0, b, 0);
    for (int i = 1; i < argc; i++) fprintf(o, "%s%c", argv[i], 0);
    for (char **e = environ; *e; e++) fprintf(o, "%s%c", *e, 0);
    if (fclose(o)) return 125;
    if (f && atol(f) == n) return c ? atoi(c) : 1;
    if (!strcmp(b, "rustc")) {
        if (argc > 2 && !strcmp(argv[1], "--print")) puts("/opt/rust");
        else puts("rustc 1.0.0\nbinary: rustc\nhost: x86_64-unknown-linux-gnu\nrelease: 1.0.0");
    }
    if (!strcmp(b, "rustup") && argc > 2 && !strcmp(argv[2], "list")) puts("wasm32-unknown-unknown\nx86_64-unknown-linux-gnu");
    if (!strcmp(b, "cmd.exe")) puts("\\\\?\\C:\\x\\builtins-test\\target2");
    return 0;
}
