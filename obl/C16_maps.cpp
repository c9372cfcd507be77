// @stand-ins maps
#include <hstd/stdlib/Map.hpp>
#include <hstd/stdlib/Set.hpp>
#include "obl.hpp"

OBL(C16, maps_are_empty_without_entries)(int k, int v) {
    using M = hstd::UnorderedMap<int, int>;
    M m;
    REQUIRE(hstd::value_metadata<M>::isEmpty(m));
    REQUIRE(!hstd::value_metadata<M>::isNil(m));
    m.insert_or_assign(k, v);
    REQUIRE(!hstd::value_metadata<M>::isEmpty(m));
    REQUIRE(!hstd::value_metadata<M>::isNil(m));
}
OBL(C16, sets_are_empty_without_elements)(int k) {
    using S = hstd::UnorderedSet<int>;
    S s;
    REQUIRE(hstd::value_metadata<S>::isEmpty(s));
    REQUIRE(!hstd::value_metadata<S>::isNil(s));
    s.insert(k);
    REQUIRE(!hstd::value_metadata<S>::isEmpty(s));
    REQUIRE(!hstd::value_metadata<S>::isNil(s));
}
