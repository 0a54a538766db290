#ifndef DECODE_H
#define DECODE_H
#include "mc.h"
void dec_check (PedDisk *d, const char *(*K) (const char *));
#endif
