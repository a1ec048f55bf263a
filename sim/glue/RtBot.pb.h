#ifndef VERIF_RTBOT_PB_H
#define VERIF_RTBOT_PB_H
#include <string>
namespace rtbot::api::proto {
struct Input {
  std::string DebugString() const { return ""; }
};
struct Output {
  std::string DebugString() const { return ""; }
};
}  // namespace rtbot::api::proto
#endif
