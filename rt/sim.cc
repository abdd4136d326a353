// rtsim: runs one job on the C API under a scheduler of its own.  The job comes on stdin, the event log goes to stdout.
//
//   warm <tagger> <verbalizer>          one calm cycle first, so that one-time initialisation is not measured
//   pre                                  the following ops run before the tasks start, undisturbed by switches
//   task                                 starts the next task; the following ops belong to it
//   create <slot> <tagger> <verbalizer>  | tag|verb|norm <slot> <hex> | drop <n> (free the n-th oldest held answer) | destroy <slot>
//   switch <step> <task>                 at that basic block the task loses the processor to another one
//   hot <n> <task>                       the same at the n-th access to a global variable of the library
//   site <n> <k> <task>                  the same at the k-th visit to basic block n (modulo their number) of the library's own functions
//   fail <n>                             the n-th allocation inside the API fails      failfrom <n>: that one and all later ones
//   readfail <n> <errno>                 the n-th read of a graph file fails           short <n>: reads return at most n bytes
//   repeat <n>                           the whole job n times (for the leak check)
//   cap <n>                              step cap
//
// With RT_JNI the job may also call the Android binding, through a Java virtual machine of its own (jnienv.h):
//   jinit|jnorm|jinv 0 <UTF-16 in hex, or null>
//   jfail <n>                            the n-th JNI function that can fail does, with a Java exception pending
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/uio.h>
#include <unistd.h>

#include <functional>
#include <map>
#include <new>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <vector>

#include <cxxabi.h>

#include "processor/wetext_processor_c_api.h"
#ifdef RT_JNI
#include <jni.h>
#endif

// ---------------------------------------------------------------- state
namespace {
struct Task;
thread_local Task* me = nullptr;
thread_local int in_api = 0;
thread_local int quiet = 0;  // harness code: no switches, no failures

struct Switch {
  long step;
  int task;
};

long steps = 0, step_cap = 50000000;
long allocs = 0;
std::vector<long>* fails = nullptr;
long fail_from = -1;
long reads = 0;
long read_fail = -1;
int read_errno = EIO;
long read_short = 0;
thread_local long faults_here = 0;
long failed_allocs = 0, failed_reads = 0, switched = 0, blocked_on_lock = 0;
std::vector<Switch>* plan = nullptr;
size_t plan_at = 0;
std::vector<Switch>* hot_plan = nullptr;
size_t hot_at = 0;
long hots = 0;
struct Site {
  long n, k;
  int task;
  long seen;
};
std::vector<Site>* site_plan = nullptr;
std::vector<uint32_t>* own_guards = nullptr;  // of the library's own functions, not of the OpenFst stand-in's
bool site_on = false;
bool counting = false;

struct Quiet {
  Quiet() { ++quiet; }
  ~Quiet() { --quiet; }
};

// allocations made inside the API and not yet freed (open addressing, malloc only)
struct Table {
  void** slot = nullptr;
  size_t cap = 0, used = 0, live = 0;
  static size_t hash(void* p) { return (reinterpret_cast<uintptr_t>(p) >> 4) * 0x9E3779B97F4A7C15ull; }
  void grow();
  void add(void* p) {
    if (used * 2 >= cap) grow();
    size_t i = hash(p) & (cap - 1);
    while (slot[i] && slot[i] != reinterpret_cast<void*>(1)) i = (i + 1) & (cap - 1);
    if (!slot[i]) ++used;
    slot[i] = p;
    ++live;
  }
  void del(void* p) {
    if (!cap) return;
    size_t i = hash(p) & (cap - 1);
    while (slot[i]) {
      if (slot[i] == p) {
        slot[i] = reinterpret_cast<void*>(1);
        --live;
        return;
      }
      i = (i + 1) & (cap - 1);
    }
  }
} table;

void emit(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void emit(const char* fmt, ...) {
  Quiet q;
  va_list ap;
  va_start(ap, fmt);
  vprintf(fmt, ap);
  va_end(ap);
}

bool fail_now() {
  if (!in_api || quiet || !counting) return false;
  long n = ++allocs;
  if (fail_from >= 0 && n >= fail_from) return true;
  if (fails)
    for (long f : *fails)
      if (f == n) return true;
  return false;
}
}  // namespace

extern "C" void* __real_malloc(size_t);
extern "C" void __real_free(void*);
extern "C" void* __real_calloc(size_t, size_t);
extern "C" void* __real_realloc(void*, size_t);

void Table::grow() {
  size_t n = cap ? cap * 2 : 4096;
  void** old = slot;
  size_t oc = cap;
  slot = static_cast<void**>(__real_calloc(n, sizeof(void*)));
  cap = n;
  used = live = 0;
  for (size_t i = 0; i < oc; ++i)
    if (old[i] && old[i] != reinterpret_cast<void*>(1)) add(old[i]);
  __real_free(old);
}

namespace {
void note_alloc(void* p) {
  if (p && in_api && !quiet && counting) table.add(p);
}
void* allocate(size_t n, bool nothrow) {
  if (fail_now()) {
    ++failed_allocs, ++faults_here;
    if (nothrow) return nullptr;
    throw std::bad_alloc();
  }
  void* p = __real_malloc(n ? n : 1);
  note_alloc(p);
  return p;
}
void release(void* p) {
  if (!p) return;
  table.del(p);
  __real_free(p);
}
}  // namespace

void* operator new(size_t n) { return allocate(n, false); }
void* operator new[](size_t n) { return allocate(n, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return allocate(n, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return allocate(n, true); }
void operator delete(void* p) noexcept { release(p); }
void operator delete[](void* p) noexcept { release(p); }
void operator delete(void* p, size_t) noexcept { release(p); }
void operator delete[](void* p, size_t) noexcept { release(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { release(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { release(p); }

extern "C" void* __wrap_malloc(size_t n) {
  if (fail_now()) {
    ++failed_allocs, ++faults_here;
    errno = ENOMEM;
    return nullptr;
  }
  void* p = __real_malloc(n);
  note_alloc(p);
  return p;
}
extern "C" void* __wrap_calloc(size_t a, size_t b) {
  if (fail_now()) {
    ++failed_allocs, ++faults_here;
    errno = ENOMEM;
    return nullptr;
  }
  void* p = __real_calloc(a, b);
  note_alloc(p);
  return p;
}
extern "C" void* __wrap_realloc(void* q, size_t n) {
  if (fail_now()) {
    ++failed_allocs, ++faults_here;
    errno = ENOMEM;
    return nullptr;
  }
  if (q) table.del(q);
  void* p = __real_realloc(q, n);
  note_alloc(p);
  return p;
}
extern "C" char* __wrap_strdup(const char* s) {
  size_t n = strlen(s) + 1;
  char* p = static_cast<char*>(__wrap_malloc(n));
  if (p) memcpy(p, s, n);
  return p;
}
extern "C" void __wrap_free(void* p) { release(p); }

// ---------------------------------------------------------------- scheduling: one task runs at a time
namespace {
struct Op {
  std::string kind, a, b;
  int slot = 0;
};
struct Answer {
  const char* p;
  std::string copy;
};
struct Task {
  int id = 0;
  std::vector<Op> ops;
  pthread_t thread;
  sem_t go;
  bool done = false;
  std::vector<Answer> held;
};
std::vector<Task*>* tasks = nullptr;
sem_t all_done;
std::map<int, WetextProcessorHandle>* slots = nullptr;

int runnable() {
  int n = 0;
  for (Task* t : *tasks) n += !t->done;
  return n;
}

Task* next_after(Task* t) {
  size_t n = tasks->size();
  for (size_t k = 1; k <= n; ++k) {
    Task* u = (*tasks)[(t->id + k) % n];
    if (!u->done && u != t) return u;
  }
  return nullptr;
}

void hand_over(Task* to) {
  Task* self = me;
  sem_post(&to->go);
  while (sem_wait(&self->go) != 0) {
  }
}

void finish_line(const char* why) {
  ++quiet;
  printf("end %s\n", why);
  printf("stats steps=%ld hots=%ld own_sites=%zu allocs=%ld failed_allocs=%ld failed_reads=%ld switches=%ld lock_waits=%ld\n", steps, hots, own_guards ? own_guards->size() : 0, allocs, failed_allocs, failed_reads,
         switched, blocked_on_lock);
  fflush(stdout);
  _exit(0);
}

void give_way(int want, const char* why) {
  Quiet q;
  Task* to = nullptr;
  if (want < static_cast<int>(tasks->size()) && !(*tasks)[want]->done && (*tasks)[want] != me) to = (*tasks)[want];
  if (!to) to = next_after(me);
  if (to) {
    ++switched;
    printf("switch %ld %d->%d%s\n", steps, me->id, to->id, why);
    hand_over(to);
  }
}

void on_block(uint32_t guard) {
  ++steps;
  if (steps > step_cap) finish_line("step-cap");
  if (plan_at < plan->size() && steps >= (*plan)[plan_at].step) {
    give_way((*plan)[plan_at++].task, "");
  } else if (site_on) {
    for (Site& x : *site_plan) {
      if (own_guards->empty() || (*own_guards)[x.n % own_guards->size()] != guard) continue;
      if (++x.seen == x.k) {
        give_way(x.task, " site");
        break;
      }
    }
  }
}

void on_global() {
  ++hots;
  if (hot_at < hot_plan->size() && hots >= (*hot_plan)[hot_at].step) give_way((*hot_plan)[hot_at++].task, " hot");
}

// A task that waits for another one (a lock, a static initialisation) lets the others run.
void wait_for_others(const char* what) {
  Quiet q;
  ++blocked_on_lock;
  static long spins = 0;
  Task* to = next_after(me);
  if (!to || ++spins > 200000) {
    printf("deadlock %s\n", what);
    finish_line("deadlock");
  }
  hand_over(to);
}
}  // namespace

extern "C" char __data_start, _end;
namespace {
uint32_t* guards_start = nullptr;
size_t n_guards = 0;

inline void touched(void* p) {
  if (p >= &__data_start && p < &_end && me && !quiet && counting) on_global();
}
}  // namespace

extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t* start, uint32_t* stop) {
  if (start == stop || *start) return;
  guards_start = start;
  n_guards = stop - start;
  uint32_t n = 0;
  for (uint32_t* x = start; x < stop; ++x) *x = ++n;
}
namespace {
const uintptr_t *pcs_beg = nullptr, *pcs_end = nullptr;
}
extern "C" void __sanitizer_cov_pcs_init(const uintptr_t* beg, const uintptr_t* end) {
  pcs_beg = beg;
  pcs_end = end;
}
namespace {
void find_own_guards() {
  if (own_guards) return;
  own_guards = new std::vector<uint32_t>;
  uint32_t n = 0;
  bool own = false;
  for (const uintptr_t* x = pcs_beg; x < pcs_end; x += 2) {
    ++n;
    if (x[1] & 1) {  // a function's entry
      Dl_info info;
      own = dladdr(reinterpret_cast<void*>(x[0]), &info) && info.dli_sname && strncmp(info.dli_sname, "_ZN3fst", 7) != 0 &&
            strncmp(info.dli_sname, "_ZNK3fst", 8) != 0 && strstr(info.dli_sname, "wetext");
    }
    if (own) own_guards->push_back(n);
  }
}
}  // namespace
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t* g) {
  if (me && !quiet && counting) on_block(*g);
}
extern "C" void __sanitizer_cov_load1(uint8_t* p) { touched(p); }
extern "C" void __sanitizer_cov_load2(uint16_t* p) { touched(p); }
extern "C" void __sanitizer_cov_load4(uint32_t* p) { touched(p); }
extern "C" void __sanitizer_cov_load8(uint64_t* p) { touched(p); }
extern "C" void __sanitizer_cov_load16(__int128* p) { touched(p); }
extern "C" void __sanitizer_cov_store1(uint8_t* p) { touched(p); }
extern "C" void __sanitizer_cov_store2(uint16_t* p) { touched(p); }
extern "C" void __sanitizer_cov_store4(uint32_t* p) { touched(p); }
extern "C" void __sanitizer_cov_store8(uint64_t* p) { touched(p); }
extern "C" void __sanitizer_cov_store16(__int128* p) { touched(p); }

extern "C" int __real_pthread_mutex_lock(pthread_mutex_t*);
extern "C" int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  if (!me) return __real_pthread_mutex_lock(m);
  for (;;) {
    int rc = pthread_mutex_trylock(m);
    if (rc != EBUSY) return rc;
    wait_for_others("mutex");
  }
}
extern "C" int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
extern "C" int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  if (!me) return __real_pthread_rwlock_wrlock(m);
  for (;;) {
    int rc = pthread_rwlock_trywrlock(m);
    if (rc != EBUSY && rc != EDEADLK) return rc;
    wait_for_others("rwlock");
  }
}
extern "C" int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
extern "C" int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  if (!me) return __real_pthread_rwlock_rdlock(m);
  for (;;) {
    int rc = pthread_rwlock_tryrdlock(m);
    if (rc != EBUSY && rc != EDEADLK) return rc;
    wait_for_others("rwlock");
  }
}
extern "C" int __real_pthread_once(pthread_once_t*, void (*)(void));
namespace {
std::map<void*, int>* once_state = nullptr;  // 1 running, 2 done
}
extern "C" int __wrap_pthread_once(pthread_once_t* o, void (*fn)(void)) {
  if (!me) {
    int rc = __real_pthread_once(o, fn);
    return rc;
  }
  for (;;) {
    int* st;
    {
      Quiet q;
      st = &(*once_state)[o];
    }
    if (*st == 2) return 0;
    if (*st == 0) {
      *st = 1;
      try {
        fn();
      } catch (...) {
        *st = 0;
        throw;
      }
      *st = 2;
      return 0;
    }
    wait_for_others("once");
  }
}

// function-local statics: byte 0 says initialised, byte 1 says somebody is at it
extern "C" int __wrap___cxa_guard_acquire(char* g) {
  for (;;) {
    if (g[0]) return 0;
    if (!g[1]) {
      g[1] = 1;
      return 1;
    }
    if (!me) return 0;
    wait_for_others("static initialisation");
  }
}
extern "C" void __wrap___cxa_guard_release(char* g) {
  g[0] = 1;
  g[1] = 0;
}
extern "C" void __wrap___cxa_guard_abort(char* g) { g[1] = 0; }

extern "C" void rt_fatal(const char* file, int line, const char* msg) {
  ++quiet;
  const char* base = strrchr(file, '/');
  printf("abort task=%d %s:%d %s\n", me ? me->id : -1, base ? base + 1 : file, line, msg);
  finish_line("abort");
}
bool FLAGS_logtostderr = false;
int FLAGS_minloglevel = 0, FLAGS_v = 0;

// ---------------------------------------------------------------- reads of graph files
static bool graph_fd(int fd) {
  char link[64], path[4096];
  snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
  ssize_t n = readlink(link, path, sizeof path - 1);
  if (n <= 0) return false;
  path[n] = 0;
  return strstr(path, ".fst") != nullptr;
}
extern "C" ssize_t read(int fd, void* buf, size_t count) {
  static ssize_t (*real)(int, void*, size_t) = reinterpret_cast<ssize_t (*)(int, void*, size_t)>(dlsym(RTLD_NEXT, "read"));
  if (in_api && counting && (read_fail >= 0 || read_short > 0) && graph_fd(fd)) {
    long n = ++reads;
    if (read_fail >= 0 && n >= read_fail) {
      ++failed_reads, ++faults_here;
      errno = read_errno;
      return -1;
    }
    if (read_short > 0 && count > static_cast<size_t>(read_short)) count = read_short;
  }
  return real(fd, buf, count);
}

// ---------------------------------------------------------------- the job
namespace {
std::string unhex(const std::string& h) {
  std::string out;
  for (size_t i = 0; i + 1 < h.size(); i += 2) out.push_back(static_cast<char>(strtol(h.substr(i, 2).c_str(), nullptr, 16)));
  return out;
}
std::string hex(const std::string& s) {
  static const char* d = "0123456789abcdef";
  std::string out;
  for (unsigned char c : s) {
    out.push_back(d[c >> 4]);
    out.push_back(d[c & 15]);
  }
  return out.empty() ? "-" : out;
}

template <class F>
auto api(std::string* exc, F f) -> decltype(f()) {
  struct In {
    int q;
    In() : q(quiet) {
      quiet = 0;
      ++in_api;
    }
    ~In() {
      quiet = q;
      --in_api;
    }
  } in;
  try {
    return f();
  } catch (const std::exception& e) {
    Quiet q;
    int status = 0;
    char* name = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &status);
    *exc = std::string(name ? name : typeid(e).name());
    __real_free(name);
  } catch (...) {
    Quiet q;
    *exc = "unknown";
  }
  return decltype(f())();
}

}  // namespace
#ifdef RT_JNI
namespace {
#include "jnienv.h"
}
#endif
namespace {
void check_held(Task* t) {
  for (auto& a : t->held)
    if (a.p && a.copy != a.p) {
      emit("changed task=%d %s -> %s\n", t->id, hex(a.copy).c_str(), hex(a.p).c_str());
      a.copy = a.p;
    }
}

void run_op(Task* t, size_t i) {
  const Op& op = t->ops[i];
  std::string exc;
  char tag[64];
  snprintf(tag, sizeof tag, "%d.%zu %s", t->id, i, op.kind.c_str());
  printf("call %s\n", tag);
  faults_here = 0;
  if (op.kind == "create") {
    WetextProcessorHandle h = api(&exc, [&] { return wetext_create_processor(op.a.c_str(), op.b.c_str()); });
    (*slots)[op.slot] = h;
    emit("res %s %ld %s\n", tag, faults_here, !exc.empty() ? ("exc " + exc).c_str() : h ? "ok -" : "null -");
  } else if (op.kind == "destroy") {
    WetextProcessorHandle h = (*slots)[op.slot];
    (*slots)[op.slot] = nullptr;
    api(&exc, [&] {
      wetext_destroy_processor(h);
      return 0;
    });
    emit("res %s %ld %s\n", tag, faults_here, !exc.empty() ? ("exc " + exc).c_str() : "ok -");
  } else if (op.kind == "drop") {
    size_t n = op.slot;
    check_held(t);
    for (size_t k = 0; k < n && !t->held.empty(); ++k) {
      const char* p = t->held.front().p;
      api(&exc, [&] {
        wetext_free_string(p);
        return 0;
      });
      t->held.erase(t->held.begin());
    }
    emit("res %s %ld ok -\n", tag, faults_here);
#ifdef RT_JNI
  } else if (op.kind[0] == 'j') {
    jvm::run(t->id < 0 ? nullptr : t, tag, op.kind, op.a);
#endif
  } else {
    WetextProcessorHandle h = (*slots)[op.slot];
    std::string text = unhex(op.a);
    const char* in = op.a == "null" ? nullptr : text.c_str();
    const char* out = api(&exc, [&] {
      return op.kind == "tag" ? wetext_tag(h, in) : op.kind == "verb" ? wetext_verbalize(h, in) : wetext_normalize(h, in);
    });
    check_held(t);
    if (!exc.empty())
      emit("res %s %ld exc %s\n", tag, faults_here, exc.c_str());
    else if (!out)
      emit("res %s %ld null -\n", tag, faults_here);
    else {
      emit("res %s %ld ok %s\n", tag, faults_here, hex(out).c_str());
      t->held.push_back({out, out});
    }
  }
}

void release_held(Task* t) {
  std::string exc;
  check_held(t);
  for (auto& a : t->held) api(&exc, [&] {
    wetext_free_string(a.p);
    return 0;
  });
  t->held.clear();
}

void* body(void* arg) {
  Task* t = static_cast<Task*>(arg);
  while (sem_wait(&t->go) != 0) {
  }
  ++quiet;
  me = t;
  for (size_t i = 0; i < t->ops.size(); ++i) run_op(t, i);
  release_held(t);
  t->done = true;
  Task* to = next_after(t);
  me = nullptr;
  if (to)
    sem_post(&to->go);
  else
    sem_post(&all_done);
  return nullptr;
}
}  // namespace

int main() {
  setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
  ++quiet;
  plan = new std::vector<Switch>;
  hot_plan = new std::vector<Switch>;
  site_plan = new std::vector<Site>;
  fails = new std::vector<long>;
  tasks = new std::vector<Task*>;
  slots = new std::map<int, WetextProcessorHandle>;
  once_state = new std::map<void*, int>;
  std::string warm_t, warm_v;
  Task pre;
  Task* into = &pre;
  int repeat = 1;
  char line[1 << 16];
  while (fgets(line, sizeof line, stdin)) {
    std::vector<std::string> w;
    for (char* p = strtok(line, " \n"); p; p = strtok(nullptr, " \n")) w.push_back(p);
    if (w.empty()) continue;
    if (w[0] == "warm") {
      warm_t = w[1];
      warm_v = w[2];
    } else if (w[0] == "pre") {
      pre.id = -1;
      into = &pre;
    } else if (w[0] == "task") {
      Task* t = new Task;
      t->id = static_cast<int>(tasks->size());
      tasks->push_back(t);
      into = t;
    } else if (w[0] == "switch") {
      plan->push_back({atol(w[1].c_str()), atoi(w[2].c_str())});
    } else if (w[0] == "hot") {
      hot_plan->push_back({atol(w[1].c_str()), atoi(w[2].c_str())});
    } else if (w[0] == "site") {
      site_plan->push_back({atol(w[1].c_str()), atol(w[2].c_str()), atoi(w[3].c_str()), 0});
      site_on = true;
      find_own_guards();
    } else if (w[0] == "fail") {
      fails->push_back(atol(w[1].c_str()));
    } else if (w[0] == "failfrom") {
      fail_from = atol(w[1].c_str());
    } else if (w[0] == "readfail") {
      read_fail = atol(w[1].c_str());
      read_errno = atoi(w[2].c_str());
    } else if (w[0] == "short") {
      read_short = atol(w[1].c_str());
#ifdef RT_JNI
    } else if (w[0] == "jfail") {
      jvm::fail_at = atol(w[1].c_str());
#endif
    } else if (w[0] == "repeat") {
      repeat = atoi(w[1].c_str());
    } else if (w[0] == "cap") {
      step_cap = atol(w[1].c_str());
    } else {
      Op op;
      op.kind = w[0];
      op.slot = atoi(w[1].c_str());
      if (w.size() > 2) op.a = w[2] == "-" ? "" : w[2];
      if (w.size() > 3) op.b = w[3] == "-" ? "" : w[3];
      into->ops.push_back(op);
    }
  }
  sem_init(&all_done, 0, 0);
#ifdef RT_JNI
  jvm::setup();
#endif
  for (int r = 0; r < repeat; ++r) {
    if (!warm_t.empty() && r == 0) {
      std::string exc;
      WetextProcessorHandle h = api(&exc, [&] { return wetext_create_processor(warm_t.c_str(), warm_v.c_str()); });
      for (const char* s : {"a", "", "zz"}) {
        const char* x = api(&exc, [&] { return wetext_normalize(h, s); });
        wetext_free_string(x);
      }
      api(&exc, [&] {
        wetext_destroy_processor(h);
        return 0;
      });
    }
    counting = true;
    plan_at = hot_at = 0;
    for (Site& x : *site_plan) x.seen = 0;
    hots = steps = allocs = reads = 0;
#ifdef RT_JNI
    jvm::calls = 0;
#endif
    for (size_t i = 0; i < pre.ops.size(); ++i) run_op(&pre, i);
    for (Task* t : *tasks) {
      t->done = false;
      sem_init(&t->go, 0, 0);
      pthread_create(&t->thread, nullptr, body, t);
    }
    if (!tasks->empty()) {
      sem_post(&(*tasks)[0]->go);
      while (sem_wait(&all_done) != 0) {
      }
      for (Task* t : *tasks) pthread_join(t->thread, nullptr);
    }
    counting = false;
    release_held(&pre);
    std::string exc;
    for (auto& kv : *slots) api(&exc, [&] {
      wetext_destroy_processor(kv.second);
      return 0;
    });
    slots->clear();
    counting = true;
  }
  counting = false;
  printf("live %zu\n", table.live);
  finish_line("done");
}
