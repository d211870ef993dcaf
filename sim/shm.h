// Result area shared between the run (forked child) and the driver process.
#pragma once
#include <cstdint>
#include <cstddef>
struct ShmViolation { char prop[8]; char cls[48]; char msg[600]; uint64_t step; int64_t time; };
struct ShmNote { char key[40]; uint64_t n; };
struct ShmDec { uint32_t kind, ctr; uint64_t ent; uint32_t val, pad; };
struct Shm {
    int nviol; ShmViolation viol[24];
    int err; char errmsg[400];
    int finished;
    uint64_t hash, steps, switches; int64_t vtime;
    int nnotes; ShmNote notes[160];
    uint32_t nstates; uint64_t states[60000];
    uint32_t ndecs; uint32_t decs_overflow; ShmDec decs[400000];
};
extern Shm* shm;
