// Simulated file system: everything below /sim/ lives in memory; the process of a node can be
// killed without losing what write() accepted, and single operations can be made to fail.
#pragma once
#include "rt.h"
#include <string>
namespace simfs {
extern rt::u32 p_fail_ppm;       // any operation fails with an error
extern rt::u32 p_short_ppm;      // a read or write moves fewer bytes than asked
extern rt::u32 p_tear_ppm;       // a write is applied in two parts with a scheduling (crash) point between them
extern rt::i64 space_left;       // bytes that can still be written, negative: unlimited
extern bool faults_on;
bool exists(const std::string& path);
std::string content(const std::string& path);
void put(const std::string& path, const std::string& bytes);
void remove_all(const std::string& prefix);
void close_all(int node);        // the process of the node died: its descriptors are gone
rt::u64 faults();                // faults injected so far
}
