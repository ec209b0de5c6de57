#ifndef VP_SHIM_PTRIE_MAP_H
#define VP_SHIM_PTRIE_MAP_H
#include "ptrie_stable.h"
namespace ptrie {
    template<typename KEY, typename T>
    class map : public vp_base<KEY> {
    public:
        T& get_data(size_t id) {
            if (id >= this->_keys.size()) throw std::out_of_range("ptrie::map::get_data");
            while (_data.size() < this->_keys.size()) _data.emplace_back();
            return _data[id];
        }
        T& operator[](const KEY& k) { return get_data(this->insert(k).second); }
    private:
        std::deque<T> _data;
    };
}
#endif
