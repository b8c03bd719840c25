/* Runs entry points of the natively compiled harness library, each in a forked child.
   usage: runner LIB [INIT...] ; stdin lines: FN NOUT HEXINPUT -> "ok HEX" | "signal N" | "timeout" */
#include <dlfcn.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

typedef void (*fn)(const unsigned char *, unsigned char *);
static char line[1 << 22];
static unsigned char in[1 << 20];

int main(int argc, char **argv) {
    void *lib = dlopen(argv[1], RTLD_NOW);
    if (!lib) {
        fprintf(stderr, "%s\n", dlerror());
        return 3;
    }
    unsigned char *out = mmap(0, 1 << 20, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (int i = 2; i < argc; i++) {
        fn f = (fn)dlsym(lib, argv[i]);
        if (f) f(in, out);
    }
    while (fgets(line, sizeof line, stdin)) {
        char name[128], *p = line;
        int n = 0, nout = 0;
        if (sscanf(p, "%127s %d %n", name, &nout, &n) < 2) continue;
        p += n;
        size_t k = 0;
        unsigned v;
        while (p[0] && p[1] && sscanf(p, "%2x", &v) == 1) {
            in[k++] = (unsigned char)v;
            p += 2;
        }
        fn f = (fn)dlsym(lib, name);
        if (!f) {
            printf("missing\n");
            fflush(stdout);
            continue;
        }
        memset(out, 0xEE, nout + 64);
        pid_t c = fork();
        if (c == 0) {
            int d = open("/dev/null", O_WRONLY);
            dup2(d, 2);
            dup2(d, 1);
            alarm(30);
            f(in, out);
            _exit(0);
        }
        int st = 0;
        waitpid(c, &st, 0);
        if (WIFSIGNALED(st)) {
            printf("signal %d\n", WTERMSIG(st));
        } else if (WEXITSTATUS(st)) {
            printf("exit %d\n", WEXITSTATUS(st));
        } else {
            printf("ok ");
            for (int i = 0; i < nout; i++) printf("%02x", out[i]);
            printf("\n");
        }
        fflush(stdout);
    }
    return 0;
}
