// Native counterpart of the harness API: replays the inputs of one model file against the real code.
#include "fs.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <sstream>
#include <fstream>
#include <vector>
#include <string>
#include <unistd.h>
#include <sys/stat.h>
#include <dirent.h>
#include <exception>
extern "C" void fs_main();
static std::vector<std::pair<std::string, uint64_t>> inputs; static size_t nextIn = 0; static int fails = 0; static bool mismatch = false;
static std::string scratch; static std::stringbuf *outBuf = nullptr; static std::streambuf *realOut = nullptr; static std::stringbuf inBuf;
static void msg(const std::string &s) { fflush(stdout); std::string t = s + "\n"; if (write(1, t.data(), t.size())) {} }
static std::string esc(const std::string &s) { std::string o; for (unsigned char c : s) { if (c == '\n') o += "\\n"; else if (c == '\\') o += "\\\\"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; } else o += c; } return o; }
static void wipe(const std::string &d) { DIR *p = opendir(d.c_str()); if (p) { while (dirent *e = readdir(p)) { std::string n = e->d_name; if (n != "." && n != "..") { struct stat st; if (lstat((d + "/" + n).c_str(), &st) == 0 && S_ISDIR(st.st_mode)) wipe(d + "/" + n); else unlink((d + "/" + n).c_str()); } } closedir(p); } rmdir(d.c_str()); }
static void finish(int code) { if (!scratch.empty()) wipe(scratch); fflush(stdout); _exit(code); }
static uint64_t take(const char *name) {
  if (nextIn >= inputs.size()) { if (!mismatch) msg("MISMATCH inputs exhausted at " + std::string(name)); mismatch = true; finish(30); }
  if (inputs[nextIn].first != name) { msg("MISMATCH expected " + inputs[nextIn].first + " got " + name); mismatch = true; finish(30); }
  return inputs[nextIn++].second; }
extern "C" {
uint64_t fs_sym(const char *name, int bits) { uint64_t v = take(name); return bits >= 64 ? v : v & ((1ull << bits) - 1); }
int fs_choice(const char *name, int n) { return (int)take(name); }
void fs_assume_(int c) { if (!c) { msg("ASSUME violated"); finish(20); } }
void fs_assert_(int c, const char *id) { if (!c) { msg(std::string("FAIL ") + id); fails++; finish(10); } }
void fs_reach(const char *id) { msg(std::string("REACH ") + id); }
void fs_note(const char *p, size_t n) { msg("NOTE " + esc(std::string(p, n))); }
void fs_stop() { msg("STOP"); finish(fails ? 10 : 0); }
int fs_is_concrete(uint64_t) { return 1; }
uint64_t fs_concretize(uint64_t v) { return v; }
void fs_guard(const char *) {}
}
void fs_out_clear() { outBuf->str(""); }
std::string fs_out_take() { std::string s = outBuf->str(); outBuf->str(""); return s; }
void fs_stdin_set(const std::string &s) { inBuf.str(s); std::cin.rdbuf(&inBuf); std::cin.clear(); }
std::string fs_path(const std::string &n) { return scratch + "/" + n; }
void fs_file_put(const std::string &n, const std::string &c) { for (size_t i = 0; i < n.size(); i++) if (n[i] == '/') mkdir(fs_path(n.substr(0, i)).c_str(), 0755); std::ofstream f(fs_path(n).c_str(), std::ios::binary); f << c; }
bool fs_file_get(const std::string &n, std::string &c) { std::ifstream f(fs_path(n).c_str(), std::ios::binary); if (!f) return false; std::stringstream s; s << f.rdbuf(); c = s.str(); return true; }
void fs_file_remove(const std::string &n) { unlink(fs_path(n).c_str()); }
void fs_setenv(const char *n, const char *v) { setenv(n, v, 1); }
int main(int argc, char **argv) {
  if (argc < 2) return 2;
  FILE *f = fopen(argv[1], "r"); if (!f) return 2; char line[65536];
  while (fgets(line, sizeof line, f)) { if (!strncmp(line, "in ", 3)) { char nm[512]; unsigned long long v; if (sscanf(line + 3, "%511s %llu", nm, &v) == 2) inputs.push_back({nm, v}); } }
  fclose(f);
  char tmpl[600]; snprintf(tmpl, sizeof tmpl, "%s/fsreplayXXXXXX", getenv("FV_SCRATCH") ? getenv("FV_SCRATCH") : "/tmp"); scratch = mkdtemp(tmpl); if (chdir(scratch.c_str())) {}
  outBuf = new std::stringbuf(); realOut = std::cout.rdbuf(outBuf);
  std::set_terminate([] { msg("CRASH uncaught exception or terminate"); finish(11); });
  fs_main();
  if (nextIn != inputs.size()) { msg("MISMATCH inputs left over"); finish(30); }
  msg("DONE"); finish(fails ? 10 : 0); }
