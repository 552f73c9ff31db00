static void onSegv(int s) { const char m[] = "fsym: engine crash\n"; if (write(2, m, sizeof m - 1)) {} if (sh) { if (myToken) sh->tokens++; sh->liveproc--; } _exit(99); }
int main(int argc, char **argv) {
  std::string bc, entry = "fs_main", statsFile; double timeLimit = 600; unsigned rl = 400000000u, rlfp = 1500000000u;
  for (int i = 1; i < argc; i++) { std::string s = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (s == "-o") outDir = nx(); else if (s == "-e") entry = nx(); else if (s == "-j") g_workers = atoi(nx().c_str()); else if (s == "-t") timeLimit = atof(nx().c_str()); else if (s == "-v") verbose++; else if (s == "-i") g_instLimit = strtoull(nx().c_str(), 0, 10); else if (s == "-stats") statsFile = nx(); else if (s == "-maxviol") g_maxViol = atoi(nx().c_str()); else if (s == "-samples") g_maxSamples = atoi(nx().c_str()); else if (s == "-every") g_sampleEvery = atoi(nx().c_str()); else if (s == "-rl") rl = strtoul(nx().c_str(), 0, 10); else if (s == "-rlfp") rlfp = strtoul(nx().c_str(), 0, 10); else bc = s; }
  struct rlimit r; if (!getenv("FSYM_STACK")) { getrlimit(RLIMIT_STACK, &r); r.rlim_cur = std::min<rlim_t>(r.rlim_max, 1ull << 29); setrlimit(RLIMIT_STACK, &r); setenv("FSYM_STACK", "1", 1); execv("/proc/self/exe", argv); }
  stack_t ss; ss.ss_sp = malloc(1 << 16); ss.ss_size = 1 << 16; ss.ss_flags = 0; sigaltstack(&ss, 0); struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onSegv; sa.sa_flags = SA_ONSTACK; sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGABRT, &sa, 0);
  size_t shsz = sizeof(Shared) + 4 * 2000000; sh = (Shared *)mmap(0, shsz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (sh == MAP_FAILED) { perror("mmap"); return 3; }
  double t0 = now(); sh->deadline = t0 + timeLimit;
  Engine e; e.loadModule(bc);
  if (e.funcs.size() + e.nblocks > 1900000) { fprintf(stderr, "module too big\n"); return 3; }
  e.X.z3init(); e.X.setRlimit(rl, rlfp);
  double t1 = now();
  for (CFunc *f : e.ctors()) { e.pushFrame(f, nullptr, 0, -1, nullptr); e.run(0); }
  auto it = e.funcByName.find(entry); if (it == e.funcByName.end() || it->second->F->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
  if (verbose) fprintf(stderr, "fsym: load %.2f s, constructors %.2f s, %llu branches\n", t1 - t0, now() - t1, (unsigned long long)e.insts);
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  sh->tokens = g_workers - 1; sh->liveproc = 1; fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p == 0) { setpgid(0, 0); struct rlimit m; getrlimit(RLIMIT_AS, &m); m.rlim_cur = 8ull << 30; setrlimit(RLIMIT_AS, &m);
    e.inPath = true; e.insts = 0; e.tickNext = 0; e.pushFrame(it->second, nullptr, 0, -1, nullptr); e.run(0); e.endPath(0); }
  setpgid(p, p);
  double grace = sh->deadline + 20; bool killed = false;
  for (;;) { int st; pid_t q = waitpid(-1, &st, WNOHANG); if (q < 0 && errno == ECHILD) break; if (q > 0 && !killed) Engine::bad(st); if (q <= 0) { usleep(5000); if (now() > grace && !killed) { sh->incomplete++; killed = true; kill(-p, SIGKILL); } } }
  double t2 = now();
  if (sh->paths != sh->procs + 1) sh->incomplete++;
  FILE *f = statsFile.empty() ? stdout : fopen(statsFile.c_str(), "w");
  auto js = [](const std::string &s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; } return o + "\""; };
#define LL(x) (unsigned long long)(u64)(sh->x)
  fprintf(f, "{\"paths\": %llu, \"completed\": %llu, \"assumed_away\": %llu, \"stopped\": %llu, \"violating\": %llu, \"forks\": %llu, \"choices\": %llu, \"queries\": %llu, \"sat\": %llu, \"unsat\": %llu, \"unknown\": %llu, \"query_cache_hits\": %llu, \"solver_s\": %.3f, \"branches_executed\": %llu, \"concretized\": %llu, \"crashes\": %llu, \"unsupported\": %llu, \"incomplete\": %llu, \"instlimit\": %llu, \"symbolic_variables\": %llu, \"finite_domain_branches\": %llu, \"max_path_condition\": %llu, \"assert_queries\": %llu, \"violations\": %llu, \"time_limit_s\": %.0f, \"wall_s\": %.2f,\n",
    LL(paths), LL(pathsDone), LL(pathsAssumed), LL(pathsStopped), LL(pathsViol), LL(forks), LL(choices), LL(queries), LL(qsat), LL(qunsat), LL(qunknown), LL(qcache), (double)sh->qns * 1e-9, LL(insts), LL(concretized), LL(crashes), LL(unsupported), LL(incomplete), LL(instlimit), LL(symvars), LL(tiny), LL(maxpc), LL(assertQ), LL(nviol), timeLimit, t2 - t0);
  fprintf(f, "\"notes\": ["); for (int i = 0; i < sh->nunsup && i < 64; i++) fprintf(f, "%s%s", i ? ", " : "", js(sh->unsup[i]).c_str()); fprintf(f, "],\n\"ids\": {");
  for (int i = 0; i < sh->nids; i++) { auto &s = sh->ids[i]; fprintf(f, "%s%s: {\"evaluated\": %llu, \"concrete\": %llu, \"proved\": %llu, \"violated\": %llu, \"reached\": %llu}", i ? ",\n " : "\n ", js(s.id).c_str(), (unsigned long long)s.evaluated, (unsigned long long)s.concrete, (unsigned long long)s.proved, (unsigned long long)s.violated, (unsigned long long)s.reached); }
  fprintf(f, "},\n\"functions\": {"); bool first = true; u64 nb = 0, nbc = 0;
  for (CFunc *cf : e.funcs) { if (cf->F->isDeclaration()) continue; if (cf->name.find("CppLisp") == std::string::npos && !cf->F->getSubprogram()) continue; u32 c = sh->cover[cf->idx]; u32 n = cf->F->size(), k = 0; for (u32 i = 0; i < n; i++) if (sh->cover[e.funcs.size() + cf->firstBB + i]) k++; std::string dm = llvm::demangle(cf->name); nb += n; nbc += k; fprintf(f, "%s%s: [%u, %u, %u]", first ? "\n " : ",\n ", js(cf->name).c_str(), c, k, n); first = false; (void)dm; }
  fprintf(f, "},\n\"blocks\": %llu, \"blocks_covered\": %llu}\n", (unsigned long long)nb, (unsigned long long)nbc);
  if (f != stdout) fclose(f);
  fflush(stdout); fflush(stderr); _exit(sh->nviol ? 1 : 0);
}
