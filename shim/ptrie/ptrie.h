// Stand-in for github.com/petergjoel/ptrie (not available offline).
// Implements the documented contract the engine relies on: a set of byte
// strings with dense insertion-order ids, exact membership and id -> key unpack.
// It is a trusted part of the harness and knows nothing about Petri nets.
#ifndef VP_SHIM_PTRIE_H
#define VP_SHIM_PTRIE_H
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <deque>
#include <limits>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <utility>

namespace ptrie {
    typedef unsigned int uint;
    typedef unsigned char uchar;

    template<typename KEY>
    class vp_base {
    public:
        using id_t_ = size_t;
        vp_base() = default;
        vp_base(vp_base&&) = default;
        vp_base& operator=(vp_base&&) = default;

        std::pair<bool, size_t> insert(const KEY* data, size_t length) {
            std::string k((const char*)data, length * sizeof(KEY));
            auto r = _map.emplace(std::move(k), _keys.size());
            if (!r.second) return {false, r.first->second};
            _keys.push_back(&r.first->first);
            return {true, _keys.size() - 1};
        }
        std::pair<bool, size_t> insert(const KEY& d) { return insert(&d, 1); }
        std::pair<bool, size_t> insert(std::pair<KEY*, size_t> d) { return insert(d.first, d.second); }

        std::pair<bool, size_t> exists(const KEY* data, size_t length) const {
            std::string k((const char*)data, length * sizeof(KEY));
            auto it = _map.find(k);
            if (it == _map.end()) return {false, std::numeric_limits<size_t>::max()};
            return {true, it->second};
        }
        std::pair<bool, size_t> exists(const KEY& d) const { return exists(&d, 1); }

        size_t unpack(size_t id, KEY* dest) const {
            const std::string& k = *_keys.at(id);
            if (!k.empty()) memcpy(dest, k.data(), k.size());
            return k.size() / sizeof(KEY);
        }
        size_t size() const { return _keys.size(); }
    protected:
        std::unordered_map<std::string, size_t> _map;
        std::deque<const std::string*> _keys;
    };

    template<typename KEY = uchar, uint16_t HEAPBOUND = 17, uint16_t SPLITBOUND = 128, uint8_t BSIZE = 8,
             size_t ALLOCSIZE = 0, typename T = void, typename I = size_t>
    class set : public vp_base<KEY> {};
}
#endif
