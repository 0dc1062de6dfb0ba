// fmt 9 lacks the overload for run-time format strings that the library uses (newer fmt has it)
#ifndef STANDIN_FMT_COLOR
#define STANDIN_FMT_COLOR
#include_next <fmt/color.h>
namespace fmt
{
template <class... A> std::string format(const text_style& ts, basic_runtime<char> s, A&&... a) { return fmt::vformat(ts, s.str, fmt::make_format_args(a...)); }
}
#endif
