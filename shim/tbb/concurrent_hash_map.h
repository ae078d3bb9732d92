#pragma once
#include "mtbb.h"
namespace tbb {
template<typename K>
struct tbb_hash_compare {};
// only what CGAL's profiling counters name
template<typename K, typename V, typename H = std::hash<K>>
class concurrent_hash_map : public std::map<K, V> {
public:
    struct accessor { std::pair<const K, V> *p = nullptr; std::pair<const K, V> *operator->() const { return p; } };
    bool insert(accessor &a, const K &k) { auto r = this->emplace(k, V()); a.p = &*r.first; return r.second; }
};
}
