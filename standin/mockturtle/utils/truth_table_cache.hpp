#ifndef STANDIN_MT_TTC
#define STANDIN_MT_TTC
#include <cstdint>
#include <kitty/dynamic_truth_table.hpp>
#include <unordered_map>
#include <vector>
namespace mockturtle
{
template <typename TT> class truth_table_cache
{
  public:
    explicit truth_table_cache(uint32_t = 1000u) {}
    uint32_t insert(TT tt)
    {
        uint32_t c = 0;
        if (kitty::get_bit(tt, 0))
        {
            c  = 1;
            tt = ~tt;
        }
        const auto it = index.find(tt);
        if (it != index.end()) return 2 * it->second + c;
        const auto i = static_cast<uint32_t>(data.size());
        data.push_back(tt);
        index[tt] = i;
        return 2 * i + c;
    }
    TT operator[](uint32_t i) const
    {
        const auto& e = data.at(i >> 1);
        return (i & 1) ? ~e : e;
    }
    auto size() const { return data.size(); }
    void resize(uint32_t) {}

  private:
    std::unordered_map<TT, uint32_t, kitty::hash<TT>> index;
    std::vector<TT>                                   data;
};
}  // namespace mockturtle
#endif
