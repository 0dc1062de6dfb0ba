#ifndef STANDIN_MT_PROGRESS
#define STANDIN_MT_PROGRESS
#include <cstdint>
#include <iostream>
#include <string>
namespace mockturtle
{
class progress_bar
{
  public:
    progress_bar(const std::string&, bool = true, std::ostream& = std::cout) {}
    progress_bar(uint32_t, const std::string&, bool = true, std::ostream& = std::cout) {}
    template <typename... A> void operator()(uint32_t, A...) {}
    template <typename... A> void operator()(A...) {}
    void done() {}
};
}  // namespace mockturtle
#endif
