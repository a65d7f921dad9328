/* Model of libnuma: the node of a cpu is an input of the harness */
#ifndef V_NUMA_H
#define V_NUMA_H
#ifndef V_NODES
static inline int numa_node_of_cpu(int cpu) { return 0; }
#else
int numa_node_of_cpu(int cpu);
#endif
static inline int numa_available() { return 0; }
#endif
