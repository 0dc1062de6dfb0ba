#ifndef STANDIN_MT_EVENTS
#define STANDIN_MT_EVENTS
#include "../traits.hpp"
#include <algorithm>
#include <functional>
#include <memory>
#include <vector>
namespace mockturtle
{
template <class Ntk> class network_events
{
  public:
    using add_event_type      = std::function<void(const node<Ntk>&)>;
    using modified_event_type = std::function<void(const node<Ntk>&, const std::vector<signal<Ntk>>&)>;
    using delete_event_type   = std::function<void(const node<Ntk>&)>;
    std::shared_ptr<add_event_type> register_add_event(const add_event_type& f)
    {
        on_add.push_back(std::make_shared<add_event_type>(f));
        return on_add.back();
    }
    std::shared_ptr<modified_event_type> register_modified_event(const modified_event_type& f)
    {
        on_modified.push_back(std::make_shared<modified_event_type>(f));
        return on_modified.back();
    }
    std::shared_ptr<delete_event_type> register_delete_event(const delete_event_type& f)
    {
        on_delete.push_back(std::make_shared<delete_event_type>(f));
        return on_delete.back();
    }
    template <class E> void release_add_event(E& e) { rel(on_add, e); }
    template <class E> void release_modified_event(E& e) { rel(on_modified, e); }
    template <class E> void release_delete_event(E& e) { rel(on_delete, e); }
    std::vector<std::shared_ptr<add_event_type>>      on_add;
    std::vector<std::shared_ptr<modified_event_type>> on_modified;
    std::vector<std::shared_ptr<delete_event_type>>   on_delete;

  private:
    template <class V, class E> void rel(V& v, E& e)
    {
        v.erase(std::remove(v.begin(), v.end(), e), v.end());
        e.reset();
    }
};
}  // namespace mockturtle
#endif
