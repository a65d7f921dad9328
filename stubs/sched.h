#ifndef V_SCHED_H
#define V_SCHED_H
#ifndef V_NODES
static inline int sched_getcpu() { return 0; }
#else
int sched_getcpu();
#endif
#ifndef V_NOCPUSET
typedef struct { unsigned long bits[2]; } cpu_set_t;
#define CPU_ZERO(s) ((s)->bits[0] = 0, (s)->bits[1] = 0)
#define CPU_SET(c, s) ((s)->bits[(c) / 64] |= 1ul << ((c) % 64))
#define CPU_ISSET(c, s) (((s)->bits[(c) / 64] >> ((c) % 64)) & 1)
#endif
#endif
