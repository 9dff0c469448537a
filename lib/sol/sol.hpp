// stand-in for the Lua binding: a table of values by path, set by the harness and read by the code
#pragma once
#include <string>
#include <vector>
#include <utility>
#include <type_traits>
namespace sol {
struct state;
struct proxy {
    state* s; std::string path;
    proxy operator[](const std::string& k) const { return {s, path + "." + k}; }
    template<typename V> const proxy& operator=(const V& v) const;
    const proxy& operator=(const proxy&) const { return *this; }
    template<typename D> D get_or(const D& d) const;
    operator std::string() const;
    bool valid() const;
    proxy(state* a, std::string b) : s(a), path(std::move(b)) {}
    proxy(const proxy&) = default;
};
struct state {
    std::vector<std::pair<std::string,double>> numbers; std::vector<std::pair<std::string,std::string>> strings;
    proxy operator[](const std::string& k) { return {this, k}; }
    proxy create_table() { return {this, ""}; }
};
template<typename V> const proxy& proxy::operator=(const V& v) const { if constexpr (std::is_arithmetic_v<V>) s->numbers.push_back({path, double(v)}); else s->strings.push_back({path, std::string(v)}); return *this; }
template<typename D> D proxy::get_or(const D& d) const { D r = d; if constexpr (std::is_arithmetic_v<D>) { for (auto& e : s->numbers) if (e.first == path) r = D(e.second); } else { for (auto& e : s->strings) if (e.first == path) r = e.second; } return r; }
inline proxy::operator std::string() const { for (auto& e : s->strings) if (e.first == path) return e.second; return ""; }
inline bool proxy::valid() const { for (auto& e : s->strings) if (e.first == path) return true; for (auto& e : s->numbers) if (e.first == path) return true; return false; }
}
