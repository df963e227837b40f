#pragma once
#include <functional>
#include <memory>
#include <vector>
namespace mockturtle
{
template <class Ntk>
struct network_events
{
    using node_t = uint32_t;
    using add_event_type      = std::function<void(const uint32_t&)>;
    using modified_event_type = std::function<void(const uint32_t&, const std::vector<uint64_t>&)>;
    using delete_event_type   = std::function<void(const uint32_t&)>;
    std::vector<std::shared_ptr<add_event_type>>      on_add;
    std::vector<std::shared_ptr<modified_event_type>> on_modified;
    std::vector<std::shared_ptr<delete_event_type>>   on_delete;
};
}  // namespace mockturtle
