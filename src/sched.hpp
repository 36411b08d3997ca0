#pragma once
struct sched_policy { int team = 1; long perm = 0; int npre = 0; struct { long at; int to; } pre[4]; };
struct sched_stat { long regions, accesses, syncs, conflicts, preemptions; };
extern sched_policy sched_pol; extern sched_stat sched_st; extern char sched_msg[1024];
void sched_begin(int team, long perm);
