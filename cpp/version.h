#ifndef T_VERSION_H
#define T_VERSION_H
#define THRIFT_VERSION "0.9.0"
#endif
