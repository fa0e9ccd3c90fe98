#ifndef _SYS_SELECT_H
#define _SYS_SELECT_H 1
#include <bits/types/struct_timeval.h>
typedef struct { int _set; } fd_set;
#define FD_SETSIZE 1024
extern void FD_ZERO(fd_set *s);
extern void FD_SET(int fd, fd_set *s);
extern void FD_CLR(int fd, fd_set *s);
extern int FD_ISSET(int fd, fd_set *s);
extern int select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t);
#endif
