// Stand-in for glog: messages are dropped, a fatal one goes to rt_fatal (abort unless the harness defines it).
#ifndef RT_STUB_GLOG_H_
#define RT_STUB_GLOG_H_
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <string>

extern "C" void rt_fatal(const char* file, int line, const char* msg);

namespace rt {
class Message {
 public:
  Message(const char* file, int line, bool fatal) : file_(file), line_(line), fatal_(fatal) {}
  ~Message() {
    if (fatal_) rt_fatal(file_, line_, out_.str().c_str());
  }
  std::ostream& stream() { return out_; }

 private:
  std::ostringstream out_;
  const char* file_;
  int line_;
  bool fatal_;
};
struct Voidify {
  void operator&(std::ostream&) {}
};
}  // namespace rt

#define RT_LOG_INFO false
#define RT_LOG_WARNING false
#define RT_LOG_ERROR false
#define RT_LOG_FATAL true
#define RT_LOG_DFATAL false
#define LOG(s) ::rt::Message(__FILE__, __LINE__, RT_LOG_##s).stream()
#define DLOG(s) LOG(s)
#define VLOG(n) LOG(INFO)
#define LOG_IF(s, c) !(c) ? (void)0 : ::rt::Voidify() & LOG(s)
#define LOG_FIRST_N(s, n) LOG(s)
#define PLOG(s) LOG(s)
#define CHECK(c) (c) ? (void)0 : ::rt::Voidify() & LOG(FATAL) << "Check failed: " #c " "
#define CHECK_EQ(a, b) CHECK((a) == (b))
#define CHECK_NE(a, b) CHECK((a) != (b))
#define CHECK_LE(a, b) CHECK((a) <= (b))
#define CHECK_LT(a, b) CHECK((a) < (b))
#define CHECK_GE(a, b) CHECK((a) >= (b))
#define CHECK_GT(a, b) CHECK((a) > (b))
#define CHECK_NOTNULL(p) (p)
#define DCHECK(c) CHECK(c)
#define DCHECK_EQ(a, b) CHECK_EQ(a, b)
#define DCHECK_LE(a, b) CHECK_LE(a, b)
#define DCHECK_LT(a, b) CHECK_LT(a, b)
#define DCHECK_GE(a, b) CHECK_GE(a, b)
#define DCHECK_GT(a, b) CHECK_GT(a, b)

namespace google {
inline void InitGoogleLogging(const char*) {}
inline void ShutdownGoogleLogging() {}
inline void InstallFailureSignalHandler() {}
}  // namespace google
extern bool FLAGS_logtostderr;
extern int FLAGS_minloglevel;
extern int FLAGS_v;
#endif
