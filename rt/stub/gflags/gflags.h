// Stand-in for gflags: --name=value, --name value, --bool, --nobool.
#ifndef RT_STUB_GFLAGS_H_
#define RT_STUB_GFLAGS_H_
#include <cstdint>
#include <functional>
#include <map>
#include <string>

namespace rt {
struct Flag {
  bool boolean;
  std::function<void(const std::string&)> set;
};
std::map<std::string, Flag>& Flags();
struct Register {
  Register(const char* name, bool boolean, std::function<void(const std::string&)> set) { Flags()[name] = Flag{boolean, set}; }
};
}  // namespace rt

#define RT_DEFINE(type, name, value, boolean, conv) \
  type FLAGS_##name = value;                        \
  static ::rt::Register rt_reg_##name(#name, boolean, [](const std::string& s) { FLAGS_##name = conv; });
#define DEFINE_string(name, value, help) RT_DEFINE(std::string, name, value, false, s)
#define DEFINE_bool(name, value, help) RT_DEFINE(bool, name, value, true, (s == "true" || s == "1" || s == "yes"))
#define DEFINE_int32(name, value, help) RT_DEFINE(int32_t, name, value, false, std::stoi(s))
#define DEFINE_int64(name, value, help) RT_DEFINE(int64_t, name, value, false, std::stoll(s))
#define DEFINE_uint64(name, value, help) RT_DEFINE(uint64_t, name, value, false, std::stoull(s))
#define DEFINE_double(name, value, help) RT_DEFINE(double, name, value, false, std::stod(s))
#define DECLARE_string(name) extern std::string FLAGS_##name
#define DECLARE_bool(name) extern bool FLAGS_##name
#define DECLARE_int32(name) extern int32_t FLAGS_##name

namespace gflags {
uint32_t ParseCommandLineFlags(int* argc, char*** argv, bool remove);
inline void SetUsageMessage(const std::string&) {}
inline void ShutDownCommandLineFlags() {}
}  // namespace gflags
namespace google {
using gflags::ParseCommandLineFlags;
using gflags::SetUsageMessage;
}
#endif
