/* Preloaded into the server: how many processors it may use. */
#define _GNU_SOURCE
#include <sched.h>
#include <stdlib.h>
#include <string.h>

int sched_getaffinity(pid_t pid, size_t size, cpu_set_t *set) {
    const char *e = getenv("MC_CPUS");
    int n = e ? atoi(e) : 1;
    (void)pid;
    memset(set, 0, size);
    for (int i = 0; i < n && i < 8 * (int)size; i++)
        CPU_SET_S(i, size, set);
    return 0;
}
