// @throws range_error|logic_error
#include <hstd/stdlib/dod_base.hpp>
#include "obl.hpp"

using namespace hstd;

DECL_ID_TYPE_MASKED(ItemV, Item, u64, 16);
using Store = dod::Store<Item, int>;

OBL(C14, store_gives_back_what_was_added)(int a, int b, int c) {
    Store s;
    REQUIRE(s.empty()); REQUIRE(s.size() == 0);
    Item x = s.add(a);
    Item y = s.add(b);
    Item z = s.add(std::move(c));
    REQUIRE(s.size() == 3); REQUIRE(!s.empty());
    REQUIRE(s.at(x) == a); REQUIRE(s.at(y) == b); REQUIRE(s.at(z) == c);
    Store const& k = s;
    REQUIRE(k.at(x) == a); REQUIRE(k.at(y) == b); REQUIRE(k.at(z) == c);
    REQUIRE(!(x == y)); REQUIRE(!(y == z)); REQUIRE(!(x == z));
    REQUIRE(x.getIndex() == 0); REQUIRE(y.getIndex() == 1); REQUIRE(z.getIndex() == 2);
    REQUIRE(x.getMask() == 0);
}
OBL(C14, store_masked_add)(int a, int b, u64 m) {
    ASSUME(m <= 0xffff);
    Store s;
    Item x = s.add(a, m);
    Item y = s.add(std::move(b), m);
    REQUIRE(s.size() == 2);
    REQUIRE(x.getIndex() == 0); REQUIRE(y.getIndex() == 1);
    REQUIRE(x.getMask() == m); REQUIRE(y.getMask() == m);
    REQUIRE(s.at(x) == a); REQUIRE(s.at(y) == b);
}
OBL(C14, store_at_index)(int a, int b, int i) {
    ASSUME(i == 0 || i == 1);
    Store s;
    (void)s.add(a); (void)s.add(b);
    Store const& k = s;
    REQUIRE(s.atIndex(i) == (i ? b : a));
    REQUIRE(k.atIndex(i) == (i ? b : a));
    REQUIRE(&s.atIndex(i) == &s.at(Item{u64(i)}));
}
OBL(C14, store_last)(int a, int b) {
    Store s;
    REQUIRE(s.back().isNil());
    Item x = s.add(a);
    REQUIRE(s.back() == x);
    Item y = s.add(b);
    REQUIRE(s.back() == y);
    REQUIRE(s.high() == y);
}
OBL(C14, store_contains)(int a, int b, u64 v) {
    Store s;
    (void)s.add(a); (void)s.add(b);
    Item id = Item::FromValue(v);
    REQUIRE(s.contains(id) == (id.getUnmasked() == 1 || id.getUnmasked() == 2));
}
OBL_THROWS(C14, store_rejects_foreign_ids)(int a, int b, u64 i) {
    ASSUME(i >= 2 && i <= 0x7fffffff);
    Store s;
    (void)s.add(a); (void)s.add(b);
    (void)s.at(Item{i});
    violation("element that was never added");
}
OBL_THROWS(C14, store_rejects_nil)(int a) {
    Store s;
    (void)s.add(a);
    (void)s.at(Item::Nil());
    violation("element of the nil id");
}
OBL(C14, store_ignores_the_mask_on_access)(int a, int b, u64 m) {
    ASSUME(m <= 0xffff);
    Store s;
    (void)s.add(a);
    Item y = s.add(b);
    y.setMask(m);
    REQUIRE(s.at(y) == b);
    REQUIRE(s.contains(y));
}
OBL(C14, store_part)(int a, int b, int c) {
    Store s;
    (void)s.add(a);
    Item y = s.add(b);
    Item z = s.add(c);
    auto p = s.at(HSlice<Item, Item>{y, z});
    REQUIRE(p.size() == 2);
    REQUIRE(p[0] == b); REQUIRE(p[1] == c);
}
OBL(C14, store_insert_replaces)(int a, int b, int c) {
    Store s;
    Item x = s.add(a);
    Item y = s.add(b);
    s.insert(x, c);
    REQUIRE(s.size() == 2);
    REQUIRE(s.at(x) == c); REQUIRE(s.at(y) == b);
}
OBL(C14, store_insert_appends)(int a, int b) {
    Store s;
    Item x = s.add(a);
    s.insert(Item{u64(1)}, b);
    REQUIRE(s.size() == 2);
    REQUIRE(s.at(x) == a); REQUIRE(s.at(Item{u64(1)}) == b);
}
OBL(C14, store_write_through)(int a, int b, int c) {
    Store s;
    Item x = s.add(a);
    Item y = s.add(b);
    s.at(y) = c;
    REQUIRE(s.at(x) == a); REQUIRE(s.at(y) == c);
}
OBL(C14, store_resize)(int a, int f) {
    Store s;
    Item x = s.add(a);
    s.resize(3, f);
    REQUIRE(s.size() == 3);
    REQUIRE(s.at(x) == a); REQUIRE(s.atIndex(1) == f); REQUIRE(s.atIndex(2) == f);
}
