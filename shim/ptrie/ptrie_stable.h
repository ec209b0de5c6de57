#ifndef VP_SHIM_PTRIE_STABLE_H
#define VP_SHIM_PTRIE_STABLE_H
#include "ptrie.h"
namespace ptrie {
    template<typename KEY = uchar, typename I = size_t, uint16_t HEAPBOUND = 17, uint16_t SPLITBOUND = 128,
             size_t ALLOCSIZE = 0>
    class set_stable : public vp_base<KEY> {};
}
#endif
