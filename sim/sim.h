#ifndef SIM_H
#define SIM_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>
#include <errno.h>
#include <limits.h>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <dlfcn.h>
#include <poll.h>
#include <signal.h>
#include <spawn.h>
#include <termios.h>
#include <time.h>
#include <pthread.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
void *s_alloc(size_t n);
char *s_dup(const char *s);
uint64_t s_mix(uint64_t z);
uint64_t s_rnd(uint64_t *st);
void s_log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void s_logHex(const char *tag, const void *p, size_t n);
void s_step(void);
void s_die(int code) __attribute__((noreturn));
extern int simActive;
extern int schedMode, schedRate, schedAlloc; void schedSleep(void); void schedHold(int d); void schedReport(void);
extern uint64_t schedSeed; extern int schedOn; extern long *schedList; extern int nSched;
void schedInit(void);
#endif
