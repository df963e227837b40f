// Stand-in for nlohmann::json: an ordered tree of values in textual form.
#pragma once
#include <map>
#include <memory>
#include <ostream>
#include <string>
#include <type_traits>
namespace nlohmann
{
class json
{
  public:
    json() = default;
    template <class T, class = std::enable_if_t<!std::is_same_v<std::decay_t<T>, json>>>
    json& operator=(const T& v)
    {
        kids.clear();
        if constexpr (std::is_arithmetic_v<T>)
            text = std::to_string(v);
        else
            text = v;
        return *this;
    }
    json& operator[](const std::string& k) { return at(k); }
    json& operator[](const char* k) { return at(k); }
    template <class T, class = std::enable_if_t<std::is_integral_v<T>>>
    json& operator[](T i)
    {
        return at(std::to_string(i));
    }
    bool        empty() const { return kids.empty() && text.empty(); }
    std::size_t size() const { return kids.size(); }
    bool        contains(const std::string& k) const { return kids.count(k) != 0; }
    template <class T>
    T get() const
    {
        T v{};
        for (const char c : text)
            v = static_cast<T>(v * 10 + static_cast<T>(c - '0'));
        return v;
    }
    std::string dump(int = 0) const
    {
        if (kids.empty())
            return text;
        std::string r = "{";
        for (const auto& [k, v] : kids)
            r += k + ":" + v.dump() + ",";
        return r + "}";
    }
    friend std::ostream& operator<<(std::ostream& o, const json& j) { return o << j.dump(); }
    const std::map<std::string, json>& items_() const { return kids; }

  private:
    json& at(const std::string& k)
    {
        text.clear();
        return kids[k];
    }
    std::string                 text;
    std::map<std::string, json> kids;
};
}  // namespace nlohmann
