// Shared between the ctl world and the stand-ins for the four phases.
#pragma once
#include <stdint.h>
struct CtlRec { char name[160]; char t[40], t2[40], out[40], path[240], dst[240]; uint64_t size; double start, finish, delivered; int inc, finished, begun; int k, threads, lu, lv, K, nmemo; uint8_t id[32], memo[256]; int64_t wall; };
struct Ctl { int n; CtlRec rec[64]; int64_t dur; int64_t psize; int seq; };
extern Ctl* g_ctl;
uint8_t ctl_byte(const char* name, uint64_t size, uint64_t i);   // content of a plot is a function of its name
uint64_t ctl_size(int64_t base, int idx);
