#ifndef STANDIN_MT_NAMES
#define STANDIN_MT_NAMES
#include "../traits.hpp"
#include <map>
#include <string>
namespace mockturtle
{
template <class Ntk> class names_view : public Ntk
{
  public:
    using storage = typename Ntk::storage;
    using node    = typename Ntk::node;
    using signal  = typename Ntk::signal;
    names_view(const Ntk& n = Ntk(), const std::string& name = "") : Ntk(n), net_name(name) {}
    names_view(const names_view<Ntk>&)            = default;
    names_view<Ntk>& operator=(const names_view&) = default;
    signal create_pi(const std::string& name = "")
    {
        const auto s = Ntk::create_pi();
        if (!name.empty()) set_name(s, name);
        return s;
    }
    auto create_po(const signal& s, const std::string& name = "")
    {
        const auto i = Ntk::num_pos();
        const auto r = Ntk::create_po(s);
        if (!name.empty()) set_output_name(static_cast<uint32_t>(i), name);
        return r;
    }
    void        set_network_name(const std::string& n) noexcept { net_name = n; }
    std::string get_network_name() const noexcept { return net_name; }
    bool        has_name(const signal& s) const { return signal_names.find(s) != signal_names.end(); }
    void        set_name(const signal& s, const std::string& n) { signal_names[s] = n; }
    std::string get_name(const signal& s) const { return signal_names.at(s); }
    bool        has_output_name(uint32_t i) const { return output_names.find(i) != output_names.end(); }
    void        set_output_name(uint32_t i, const std::string& n) { output_names[i] = n; }
    std::string get_output_name(uint32_t i) const { return output_names.at(i); }

  private:
    std::string                     net_name;
    std::map<signal, std::string>   signal_names;
    std::map<uint32_t, std::string> output_names;
};
template <class T> names_view(const T&) -> names_view<T>;
template <class T> names_view(const T&, const typename T::signal&) -> names_view<T>;
}  // namespace mockturtle
#endif
