#pragma once
#include <string>
#include "../traits.hpp"
#include "../../vx_phmap.hpp"
namespace mockturtle
{
template <class Ntk>
class names_view : public Ntk
{
  public:
    using storage = typename Ntk::storage;
    using node    = typename Ntk::node;
    using signal  = typename Ntk::signal;
    names_view(const std::string& name = "") : Ntk(), _name(name) {}
    names_view(Ntk const& n, const std::string& name = "") : Ntk(n), _name(name) {}
    names_view(names_view<Ntk> const&) = default;
    names_view& operator=(names_view<Ntk> const&) = default;
    names_view clone() const
    {
        names_view r{Ntk::clone(), _name};
        r._names  = _names;
        r._onames = _onames;
        return r;
    }
    signal create_pi(const std::string& name = {})
    {
        const auto s = Ntk::create_pi();
        if (!name.empty())
            set_name(s, name);
        return s;
    }
    template <class... A>
    void create_po(const signal& s, const std::string& name = {}, const A&... a)
    {
        const auto i = Ntk::num_pos();
        Ntk::create_po(s, a...);
        if (!name.empty())
            set_output_name(static_cast<uint32_t>(i), name);
    }
    void        set_network_name(const std::string& n) noexcept { _name = n; }
    std::string get_network_name() const noexcept { return _name; }
    bool        has_name(const signal& s) const { return _names.contains(s); }
    void        set_name(const signal& s, const std::string& n) { _names[s] = n; }
    std::string get_name(const signal& s) const { return _names.at(s); }
    bool        has_output_name(uint32_t i) const { return _onames.contains(i); }
    void        set_output_name(uint32_t i, const std::string& n) { _onames[i] = n; }
    std::string get_output_name(uint32_t i) const { return _onames.at(i); }

  private:
    std::string                                _name;
    phmap::flat_hash_map<signal, std::string>  _names;
    phmap::flat_hash_map<uint32_t, std::string> _onames;
};
}  // namespace mockturtle
