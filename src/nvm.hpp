// Model of non-volatile memory for files mapped by the code under test: the file system calls on a
// path prefix are redirected into a scratch directory, and per cache line the model knows what has been
// flushed and fenced. A power failure keeps, per line, the persisted content, the latest content, or any
// content in between.
#pragma once
#include "engine.hpp"
#include <string>
#include <vector>
namespace nvm
{
// redirect `prefix` (absolute path) to directory `dir`
void redirect(const std::string &prefix, const std::string &dir);
void on_write(void *addr, size_t n); // to be installed as vrt::on_write
extern "C" void vnvm_flush(const void *p);
extern "C" void vnvm_fence(void);
// power failure: decide the content of all tracked files now
// policy: 0 only persisted lines, 1 everything, 2 random per line
struct CrashStats { unsigned dirty_lines, lost_lines, partial_lines; };
CrashStats power_failure(int policy, eng::Src &s);
// forget the mappings of a session (after a power failure or an orderly end)
void end_session();
void reset();
// faults
enum Sys { SYS_OPEN, SYS_TRUNC, SYS_MMAP, SYS_FSTAT, SYS_RENAME, SYS_UNLINK, SYS_N };
struct Fault { int sys; int nth; int err; int count; }; // the nth.. (1-based) redirected call fails, `count` times
void arm(const Fault &f);
void disarm();
unsigned faults_hit();
unsigned calls(int sys);
bool tracked(const void *addr);
// number of lines of tracked files whose latest content is not persisted
unsigned unpersisted_lines();
int open_fds(); // redirected descriptors not yet closed
}
