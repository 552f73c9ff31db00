// Harness API. Implemented by the symbolic engine (intrinsics) and by replay.cpp (native replay of a model).
#ifndef FS_H
#define FS_H
#include <string>
#include <stdint.h>
#include <stddef.h>
extern "C" {
// A fresh symbolic value of the given width (1..64 bits).
uint64_t fs_sym(const char *name, int bits);
// A value in 0..n-1, one execution path for each.
int fs_choice(const char *name, int n);
// Restrict the inputs (recorded in the evidence as a bound of the harness).
void fs_assume_(int cond);
// The property: must hold for every value of the symbolic inputs on this path.
void fs_assert_(int cond, const char *id);
// Reachability witness.
void fs_reach(const char *id);
// Free text attached to the path (shown in counterexamples).
void fs_note(const char *p, size_t n);
// End this path silently (outside the bounds of the harness).
void fs_stop() __attribute__((noreturn));
// is the expression concrete on this path?  (native: always 1)
int fs_is_concrete(uint64_t v);
// force one concrete value per path (all feasible values are explored)
uint64_t fs_concretize(uint64_t v);
// set to 1 to make the harness' scenario say: from here on an std::exception / crash etc. is a violation of `id`
void fs_guard(const char *id);
// time value for the clock stub
void fs_fmt_double_c(char *buf, int size, double d, int prec, int mode);
}
inline int fs_b(bool b) { return b ? 1 : 0; }
#define FS_ASSUME(c) fs_assume_((c)?1:0)
#define FS_ASSERT(c, id) fs_assert_((c)?1:0, id)
inline void FS_NOTE(const std::string &s) { fs_note(s.data(), s.size()); }

// standard output / input and files of the program under test
void fs_out_clear();
std::string fs_out_take();
void fs_stdin_set(const std::string &s);
// a scratch file; returns the path to use
std::string fs_path(const std::string &name);
void fs_file_put(const std::string &name, const std::string &content);
bool fs_file_get(const std::string &name, std::string &content);
void fs_file_remove(const std::string &name);
// environment variable seen by the program under test
void fs_setenv(const char *name, const char *value);
#endif
