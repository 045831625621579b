#pragma once
#include <stdint.h>
#include <stdio.h>
namespace sim {
struct RunStats {
  uint64_t ops = 0, switches = 0, yields = 0, simtime = 0;
  uint64_t faults[32] = {};
  uint64_t last_faults = 0, last_switches = 0, last_ops = 0;
};
extern RunStats g_stats;
extern FILE * g_evlog;
extern uint64_t g_steps;
uint64_t run_hash();
void collect_run_stats(RunStats &);
void record_violation(const char * cls, const char * detail, uint64_t hash);
void stat_probe(const char *);
void stat_known(const char * id, const char * text);
bool known_listed(const char * id);
[[noreturn]] void end_run_early(uint64_t hash);
void step_tick();
void restore_globals();
}
