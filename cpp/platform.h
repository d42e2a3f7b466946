// Stand-in for the header of the Thrift 0.9.0 compiler.
#ifndef T_PLATFORM_H
#define T_PLATFORM_H
#include <sys/stat.h>
#include <sys/types.h>
#define MKDIR(x) mkdir(x, S_IRWXU | S_IRWXG | S_IRWXO)
#endif
