// rtmain: the command line program of the runtime, with the reads of its input file under control (environment variables):
//   SIM_INPUT=<path>        the input file          SIM_LOG=<fd>   one line per read: bytes given, output size so far
//   SIM_CHUNKS=3,10,...     lengths of its reads (the last one repeats)
//   SIM_READ_FAIL=<n>:<errno>[:once]  its n-th read fails (and all later ones)
//   SIM_GRAPH_FAIL=<n>:<errno>        the n-th read of a graph file fails (and all later ones)
//   SIM_FSIZE=<n>           output stops at n bytes (file size limit)
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

#include <string>

#include "gflags/gflags.h"
#include "glog/logging.h"

namespace rt {
std::map<std::string, Flag>& Flags() {
  static std::map<std::string, Flag>* f = new std::map<std::string, Flag>;
  return *f;
}
}  // namespace rt

namespace gflags {
uint32_t ParseCommandLineFlags(int* argc, char*** argv, bool) {
  for (int i = 1; i < *argc; ++i) {
    std::string a = (*argv)[i];
    if (a.size() < 2 || a[0] != '-') continue;
    a = a.substr(a[1] == '-' ? 2 : 1);
    size_t eq = a.find('=');
    std::string name = a.substr(0, eq);
    auto it = rt::Flags().find(name);
    if (it == rt::Flags().end() && name.compare(0, 2, "no") == 0 && rt::Flags().count(name.substr(2))) {
      rt::Flags()[name.substr(2)].set("false");
      continue;
    }
    if (it == rt::Flags().end()) {
      fprintf(stderr, "ERROR: unknown command line flag '%s'\n", name.c_str());
      exit(1);
    }
    if (eq != std::string::npos)
      it->second.set(a.substr(eq + 1));
    else if (it->second.boolean)
      it->second.set("true");
    else if (i + 1 < *argc)
      it->second.set((*argv)[++i]);
  }
  return *argc;
}
}  // namespace gflags

extern "C" void rt_fatal(const char* file, int line, const char* msg) {
  fprintf(stderr, "F %s:%d %s\n", file, line, msg);
  signal(SIGABRT, SIG_DFL);
  abort();
}
bool FLAGS_logtostderr = false;
int FLAGS_minloglevel = 0, FLAGS_v = 0;

namespace {
const char* input = nullptr;
int log_fd = -1;
long chunks[4096];
int nchunks = 0, nreads = 0, ngraph = 0;
int fail_at = -1, fail_errno = 0, fail_once = 0, graph_fail = -1, graph_errno = 0;
ino_t input_ino = 0;
dev_t input_dev = 0;

__attribute__((constructor)) void setup() {
  input = getenv("SIM_INPUT");
  if (const char* s = getenv("SIM_LOG")) log_fd = atoi(s);
  if (const char* s = getenv("SIM_CHUNKS"))
    for (const char* p = s; *p && nchunks < 4096;) {
      chunks[nchunks++] = strtol(p, const_cast<char**>(&p), 10);
      if (*p == ',') ++p;
    }
  if (const char* s = getenv("SIM_READ_FAIL")) {
    sscanf(s, "%d:%d", &fail_at, &fail_errno);
    fail_once = strstr(s, "once") != nullptr;
  }
  if (const char* s = getenv("SIM_GRAPH_FAIL")) sscanf(s, "%d:%d", &graph_fail, &graph_errno);
  if (const char* s = getenv("SIM_FSIZE")) {
    struct rlimit r;
    r.rlim_cur = r.rlim_max = strtoul(s, nullptr, 10);
    signal(SIGXFSZ, SIG_IGN);
    setrlimit(RLIMIT_FSIZE, &r);
  }
  struct stat st;
  if (input && stat(input, &st) == 0) {
    input_ino = st.st_ino;
    input_dev = st.st_dev;
  }
}

int kind_of(int fd) {  // 1 input, 2 graph
  struct stat st;
  if (fstat(fd, &st) != 0) return 0;
  if (input && input_ino && st.st_ino == input_ino && st.st_dev == input_dev) return 1;
  char link[64], path[4096];
  snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
  ssize_t n = readlink(link, path, sizeof path - 1);
  if (n <= 4) return 0;
  path[n] = 0;
  return !strcmp(path + n - 4, ".fst") ? 2 : 0;
}
}  // namespace

extern "C" ssize_t read(int fd, void* buf, size_t count) {
  static ssize_t (*real)(int, void*, size_t) = reinterpret_cast<ssize_t (*)(int, void*, size_t)>(dlsym(RTLD_NEXT, "read"));
  int kind = input || graph_fail >= 0 ? kind_of(fd) : 0;
  if (kind == 2 && graph_fail >= 0 && ++ngraph >= graph_fail) {
    errno = graph_errno;
    return -1;
  }
  if (kind != 1) return real(fd, buf, count);
  int n = nreads++;
  ssize_t got;
  struct stat st;
  long out = fstat(1, &st) == 0 ? static_cast<long>(st.st_size) : -1;
  if (fail_at >= 0 && (fail_once ? n == fail_at : n >= fail_at)) {
    errno = fail_errno;
    got = -1;
  } else {
    if (nchunks) {
      long c = chunks[n < nchunks ? n : nchunks - 1];
      if (c > 0 && static_cast<size_t>(c) < count) count = c;
    }
    got = real(fd, buf, count);
  }
  if (log_fd >= 0) {
    int e = errno;
    char line[64];
    int k = snprintf(line, sizeof line, "%zd %ld\n", got, out);
    if (write(log_fd, line, k) < 0) log_fd = -1;
    errno = e;
  }
  return got;
}
