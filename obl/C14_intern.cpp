// @throws range_error|logic_error
// @stand-ins maps
#include <hstd/stdlib/dod_base_multi.hpp>
#include "obl.hpp"

using namespace hstd;

DECL_ID_TYPE_MASKED(WordV, Word, u64, 16);
using Names = dod::InternStore<Word, int>;

OBL(C14, intern_gives_equal_values_one_id)(int a, int b) {
    Names s;
    REQUIRE(s.empty());
    Word x = s.add(a);
    Word y = s.add(b);
    REQUIRE((x == y) == (a == b));
    REQUIRE(s.size() == (a == b ? 1 : 2));
    REQUIRE(s.at(x) == a); REQUIRE(s.at(y) == b);
    REQUIRE(!x.isNil()); REQUIRE(!y.isNil());
    REQUIRE(s.add(a) == x);
    REQUIRE(s.add(b) == y);
}
OBL(C14, intern_contains)(int a, int b, int v) {
    Names s;
    (void)s.add(a); (void)s.add(b);
    REQUIRE(s.contains(v) == (v == a || v == b));
    REQUIRE(s.size() == (a == b ? 1 : 2));
}
OBL(C14, intern_masked)(int a, u64 m) {
    ASSUME(m <= 0xffff);
    Names s;
    Word x = s.add(a, m);
    REQUIRE(x.getMask() == m); REQUIRE(x.getIndex() == 0);
    REQUIRE(s.at(x) == a);
    REQUIRE(s.add(a) == x);
}
OBL(C14, intern_insert)(int a, int b) {
    Names s;
    Word x = s.add(a);
    s.insert(Word{u64(1)}, b);
    REQUIRE(s.contains(b));
    REQUIRE(s.size() == (a == b ? 1 : 2));
    REQUIRE(s.at(x) == a);
    Word y = s.add(b);
    REQUIRE(s.at(y) == b);
    REQUIRE((y == x) == (a == b));
}

struct Left;
struct Right;
DECL_ID_TYPE(Left, LeftId, u64);
DECL_ID_TYPE(Right, RightId, u64);
struct Left { using id_type = LeftId; int v; bool operator==(Left const& o) const { return v == o.v; } };
struct Right { using id_type = RightId; int v; };
template <> struct std::hash<Left> { std::size_t operator()(Left const& l) const { return l.v; } };
using Both = dod::MultiStore<dod::InternStore<LeftId, Left>, dod::Store<RightId, Right>>;

OBL(C14, multi_store_keeps_kinds_apart)(int a, int b) {
    Both    s;
    LeftId  x = s.add(Left{a});
    RightId y = s.add(Right{b});
    RightId z = s.add(Right{b});
    LeftId  w = s.add(Left{a});
    REQUIRE(s.at(x).v == a); REQUIRE(s.at(y).v == b); REQUIRE(s.at(z).v == b);
    REQUIRE(w == x);
    REQUIRE(!(y == z));
    REQUIRE(s.store<Left>().size() == 1); REQUIRE(s.store<Right>().size() == 2);
    Both const& k = s;
    REQUIRE(k.at(x).v == a); REQUIRE(k.at(z).v == b);
}
OBL(C14, multi_store_insert)(int a, int b) {
    Both    s;
    RightId y = s.add(Right{a});
    s.insert(y, Right{b});
    REQUIRE(s.at(y).v == b);
    REQUIRE(s.store<Right>().size() == 1);
}
