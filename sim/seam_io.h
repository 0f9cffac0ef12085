// Simulated storage: paths under /simfs/ live in memory; opens, reads and stats of them fail, stall or come short as armed.
#pragma once
#include <string>

namespace sim
{
namespace io
{
enum Kind
{
  None = 0,
  ENoEnt,     // open: no such file
  EAcces,     // open: permission denied
  EMFile,     // open: too many open files
  EIORead,    // reading fails from some offset on
  EIntr,      // reads are interrupted (to be retried)
  Short,      // reads return fewer bytes than asked (to be continued)
  Truncated,  // the file lost its end
  StatFails,  // stat fails with EIO
};
Kind kind_from(const std::string& s);
void reset();
void put(const std::string& path, const std::string& content);
void rm(const std::string& path);
// The fault hits the nth (1-based) operation of its class (open or stat) on paths ending with suffix; param: byte offset
void arm(Kind k, const std::string& suffix, int nth, size_t param);
bool disarm();            // true if the fault fired
long opens(const std::string& suffix);  // opens since reset()
int open_files();         // simulated files currently open
}  // namespace io
}  // namespace sim
