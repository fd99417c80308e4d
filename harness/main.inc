// harness main: main(argc, argv) over one instantiation SEQ_T
// usage: prog script out [tree] [nosegs] [noprobe] [runs]
// std::stable_sort and std::inplace_merge ask for temporary memory this way.
void* operator new(std::size_t n, std::nothrow_t const&) noexcept {
  if (vh::watching()) { ++vh::G().cnt[vh::C_HEAP]; if (vh::G().tick(1)) return nullptr; }
  return vh::G().no_temp ? nullptr : malloc(n ? n : 1);
}
void operator delete(void* p, std::nothrow_t const&) noexcept { free(p); }
void* operator new(std::size_t n) {
  if (vh::watching()) { ++vh::G().cnt[vh::C_HEAP]; if (vh::G().tick(1)) throw vh::AllocFail(); }
  void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc();
  return p;
}
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, std::size_t) noexcept { free(p); }
int main(int argc, char** argv) {
  using namespace vh;
  if (argc < 3) return 95;
  for (int i = 3; i < argc; ++i) {
    std::string o = argv[i];
    if (o == "tree") O().tree = true;
    if (o == "nosegs") O().segs = false;
    if (o == "noprobe") O().probe = false;
    if (o == "runs") O().runs = true;
    if (o == "nosweep") O().sweep = false;
    if (o == "nocont") O().cont = O().sweep = false;
  }
  // read the script, split into histories
  std::vector<std::vector<std::string>> hs;
  std::vector<long> ids;
  {
    FILE* f = fopen(argv[1], "r");
    if (!f) return 94;
    char* buf = nullptr;
    size_t cap = 0;
    ssize_t len;
    while ((len = getline(&buf, &cap, f)) > 0) {
      std::string l(buf, (size_t)len);
      while (!l.empty() && (l.back() == '\n' || l.back() == ' ')) l.pop_back();
      if (l.empty() || l[0] == '#') continue;
      if (l[0] == 'H') { hs.emplace_back(); ids.push_back(atol(l.c_str() + 1)); continue; }
      if (!hs.empty()) hs.back().push_back(l);
    }
    free(buf);
    fclose(f);
  }
  int fd = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
  if (fd < 0) return 93;
  struct Shared { volatile long cur; volatile long line; volatile long done; };
  Shared* sh = (Shared*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  size_t next = 0;
  int crashes = 0;
  long limit_s = getenv("VH_HANG") ? atol(getenv("VH_HANG")) : 30;
  while (next < hs.size()) {
    sh->cur = (long)next;
    sh->done = (long)next;
    pid_t p = fork();
    if (p == 0) {
      signal(SIGSEGV, SIG_DFL);
      A();
      for (size_t h = next; h < hs.size(); ++h) {
        sh->cur = (long)h;
        alarm((unsigned)limit_s);
        Interp<SEQ_T> in;
        in.fd = fd;
        in.hist = ids[h];
        for (size_t i = 0; i < hs[h].size(); ++i) { sh->line = (long)i; in.line(hs[h][i]); }
        in.line("end");
        A().reset();
        G().live = 0;
        G().no_temp = false;
        G().arm_kind = 0;
        sh->done = (long)h + 1;
      }
      _exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
    if (WIFEXITED(st) && WEXITSTATUS(st) >= 90) return WEXITSTATUS(st);
    long h = sh->cur;
    std::string why = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? "hang" : "crash") : "exit";
    std::string ln = h < (long)hs.size() && sh->line < (long)hs[(size_t)h].size() ? hs[(size_t)h][(size_t)sh->line] : "end";
    std::string ev = "{\"hi\":" + std::to_string(ids[(size_t)h]) + ",\"ev\":0,\"op\":\"" + why + "\",\"a\":[" +
                     std::to_string(WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)) + "],\"ln\":\"" + ln + "\"}\n";
    if (write(fd, ev.data(), ev.size()) < 0) return 92;
    next = (size_t)h + 1;
    if (++crashes >= 3 || why == "hang") break;
  }
  close(fd);
  return 0;
}
