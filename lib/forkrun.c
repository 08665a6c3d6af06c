/* Runs umlcc's main() (renamed) on many files, one contained child process per file.
 * stdin: one path per line; stdout: "<status> <cpu ms> <hex of the first bytes of stderr>" per line. */
#define _GNU_SOURCE
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

int umlcc_main(int argc, char** argv);

int main(int argc, char** argv) {
    int limit_ms = argc > 1 ? atoi(argv[1]) : 10000;
    static char path[4200];
    int efd = memfd_create("err", 0);
    if (efd < 0) return 3;
    struct rlimit z = {0, 0};
    setrlimit(RLIMIT_CORE, &z);
    struct rlimit fs = {1 << 28, 1 << 28};
    setrlimit(RLIMIT_FSIZE, &fs);
    /* warm up the allocator before forking */
    free(malloc(100));
    /* a runaway compiler must not take the machine's memory: 3 GB more than the (sanitizer's) address space of now */
    unsigned long pages = 0;
    FILE* sm = fopen("/proc/self/statm", "r");
    if (sm) {
        if (fscanf(sm, "%lu", &pages) != 1) pages = 0;
        fclose(sm);
    }
    struct rlimit as = {pages * 4096 + (3UL << 30), pages * 4096 + (3UL << 30)};
    while (fgets(path, sizeof path, stdin)) {
        path[strcspn(path, "\n")] = 0;
        if (ftruncate(efd, 0)) return 3;
        fflush(stdout);
        pid_t p = fork();
        if (p == 0) {
            struct itimerval it = {{0, 0}, {limit_ms / 1000, limit_ms % 1000 * 1000}};
            setitimer(ITIMER_PROF, &it, 0);
            if (pages) setrlimit(RLIMIT_AS, &as);
            int n = open("/dev/null", O_RDWR);
            dup2(n, 0);
            lseek(efd, 0, SEEK_SET);
            dup2(efd, 1);
            dup2(efd, 2);
            char* av[] = {"umlcc", path, 0};
            int rc = umlcc_main(2, av);
            exit(rc);
        }
        int st = 0;
        struct rusage ru;
        if (p < 0 || wait4(p, &st, 0, &ru) < 0) return 3;
        long ms = ru.ru_utime.tv_sec * 1000 + ru.ru_utime.tv_usec / 1000 + ru.ru_stime.tv_sec * 1000 + ru.ru_stime.tv_usec / 1000;
        static unsigned char b[6000];
        lseek(efd, 0, SEEK_SET);
        int k = (int)read(efd, b, sizeof b);
        if (WIFEXITED(st)) printf("%d", WEXITSTATUS(st));
        else if (WTERMSIG(st) == SIGPROF) printf("timeout");
        else printf("signal%d", WTERMSIG(st));
        printf(" %ld ", ms);
        if (k <= 0) printf("-");
        for (int i = 0; i < k; i++) printf("%02x", b[i]);
        printf("\n");
    }
    return 0;
}
