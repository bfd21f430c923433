/*
 * LD_PRELOAD library: every process has the process ID IDSHIM_PID, as programs in different containers or on different hosts which
 * share a directory may have.
 */
#define _GNU_SOURCE
#include <stdlib.h>
#include <sys/syscall.h>
#include <unistd.h>

pid_t getpid(void)
{
    const char *p = getenv("IDSHIM_PID");
    return p ? atoi(p) : (pid_t)syscall(SYS_getpid);
}
