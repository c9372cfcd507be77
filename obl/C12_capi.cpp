// @stand-ins capi
// Calls without a result are not here: clang 18 does not have `void{}` (CWG 2351).
#include <haxorg/sem/SemOrg.hpp>
#include <wrappers/c/haxorg_c_utils.hpp>
#include "obl.hpp"

using namespace org::bind::c;

extern "C" void may_throw();

struct Handle {
    haxorg_ptr_payload data;
};
enum Small : int { SmallA, SmallB, SmallC };
enum class Wide : int { A, B, C };

// A value that counts how many of it there are.
struct Obj {
    long  first = 0;
    long  second = 0;
    int*  live  = nullptr;
    bool  flag  = false;
    Obj() = default;
    Obj(long a, long b, int* l) : first{a}, second{b}, live{l} { ++*live; }
    Obj(Obj const& o) : first{o.first}, second{o.second}, live{o.live}, flag{o.flag} {
        if (live) { ++*live; }
    }
    Obj(Obj&& o) noexcept : first{o.first}, second{o.second}, live{o.live}, flag{o.flag} {
        if (live) { ++*live; }
    }
    ~Obj() {
        if (live) { --*live; }
    }
    long  sum(long x, long y) { second += x; return first * 0 + x - y; }
    long  get(long x) const { return first + 0 * x; }
    void  set(long x) { first = x; }
    Obj&  self() { return *this; }
    Obj const& cself() const { return *this; }
    Obj*  ptr() { return this; }
    Obj*  none() { return nullptr; }
    Obj   copy() const { return *this; }
    long  take(Obj const& o) const { return o.first - first; }
    long  fail(long x) { may_throw(); first = x; return x; }
    void  vfail() { may_throw(); }
    Obj   ofail() { may_throw(); return Obj{}; }
    long  bad() { throw std::runtime_error("bad"); }
    long  odd() { throw 12; }
    Wide  wide() const { return flag ? Wide::B : Wide::C; }
    long  wnum(Wide w) const { return (long)w; }
};

static OrgContext dirty() {
    OrgContext c;
    c.has_error    = 7;
    c.error_msg[0] = 'x';
    return c;
}
static Handle borrowed(Obj& o) { return Handle{{tag_pointer(&o, MemoryPolicy::Reference), nullptr}}; }

// ---- pointers carry their policy
template <MemoryPolicy K>
static void tagged(unsigned long q) {
    void* p = (void*)(q * 8);
    void* t = tag_pointer(p, K);
    REQUIRE(untag_pointer(t) == p);
    REQUIRE(get_pointer_policy(t) == K);
}
OBL(C12, tag_reference)(unsigned long q) { ASSUME(q < (1UL << 50)); tagged<MemoryPolicy::Reference>(q); }
OBL(C12, tag_unique)(unsigned long q) { ASSUME(q < (1UL << 50)); tagged<MemoryPolicy::Unique>(q); }
OBL(C12, tag_shared)(unsigned long q) { ASSUME(q < (1UL << 50)); tagged<MemoryPolicy::Shared>(q); }
OBL(C12, policies_differ)() {
    REQUIRE(MemoryPolicy::Reference != MemoryPolicy::Unique);
    REQUIRE(MemoryPolicy::Unique != MemoryPolicy::Shared);
    REQUIRE(MemoryPolicy::Reference != MemoryPolicy::Shared);
}

// ---- the context
OBL(C12, clear_forgets_the_error)() {
    OrgContext c = dirty();
    clear_context(&c);
    REQUIRE(c.has_error == 0);
    REQUIRE(c.error_msg[0] == 0);
    clear_context(nullptr);
}
OBL(C12, error_is_recorded)() {
    OrgContext c = dirty();
    clear_context(&c);
    set_context_error(&c, "text");
    REQUIRE(c.has_error != 0);
    REQUIRE(c.error_msg[0] != 0);
    set_context_error(nullptr, "text");
}

// ---- calls reach the object and pass the arguments in order
OBL_CONTAINS(C12, method_call)(long a, long b, long x, long y) {
    ASSUME(x > -1000 && x < 1000 && y > -1000 && y < 1000 && b > -1000 && b < 1000);
    OrgContext c = dirty();
    Obj        o;
    o.first = a; o.second = b;
    long r = execute_cpp<long>(&Obj::sum, &c, borrowed(o), x, y);
    REQUIRE(r == x - y);
    REQUIRE(o.second == b + x);
    REQUIRE(o.first == a);
    REQUIRE(c.has_error == 0);
}
OBL_CONTAINS(C12, const_method_call)(long a, long x) {
    OrgContext c = dirty();
    Obj        o;
    o.first = a;
    REQUIRE(execute_cpp<long>(&Obj::get, &c, borrowed(o), x) == a);
    REQUIRE(c.has_error == 0);
}
OBL_CONTAINS(C12, call_without_context)(long a) {
    Obj o;
    o.first = a;
    REQUIRE(execute_cpp<long>(&Obj::get, (OrgContext*)nullptr, borrowed(o), 0L) == a);
}
static long minus(long x, long y) { return x - y; }
OBL_CONTAINS(C12, free_function_call)(long x, long y) {
    ASSUME(x > -1000 && x < 1000 && y > -1000 && y < 1000);
    OrgContext c = dirty();
    REQUIRE(execute_cpp<long>(&minus, &c, x, y) == x - y);
    REQUIRE(c.has_error == 0);
}
OBL_CONTAINS(C12, object_argument)(long a, long b) {
    ASSUME(a > -1000 && a < 1000 && b > -1000 && b < 1000);
    OrgContext c = dirty();
    Obj        o, p;
    o.first = a; p.first = b;
    REQUIRE(execute_cpp<long>(&Obj::take, &c, borrowed(o), borrowed(p)) == b - a);
    REQUIRE(c.has_error == 0);
}
OBL_CONTAINS(C12, field_of_the_record)(long a, long b) {
    OrgContext c = dirty();
    Obj        o;
    o.first = a; o.second = b;
    REQUIRE((get_cpp_field<long, Obj, long, Handle>(&c, borrowed(o), &Obj::first)) == a);
    REQUIRE((get_cpp_field<long, Obj, long, Handle>(&c, borrowed(o), &Obj::second)) == b);
    REQUIRE(c.has_error == 0);
}
OBL_CONTAINS(C12, enumerations_keep_their_number)(bool f, int k) {
    ASSUME(k >= 0 && k < 3);
    OrgContext c = dirty();
    Obj        o;
    o.flag = f;
    REQUIRE((int)execute_cpp<Small>(&Obj::wide, &c, borrowed(o)) == (f ? 1 : 2));
    REQUIRE(execute_cpp<long>(&Obj::wnum, &c, borrowed(o), (Small)k) == k);
    REQUIRE(c.has_error == 0);
}

// ---- exceptions end at the interface and are reported
OBL_CONTAINS(C12, exception_is_reported)() {
    OrgContext c = dirty();
    Obj        o;
    long       r = execute_cpp<long>(&Obj::bad, &c, borrowed(o));
    REQUIRE(c.has_error != 0);
    REQUIRE(r == 0);
}
OBL_CONTAINS(C12, odd_exception_is_reported)() {
    OrgContext c = dirty();
    Obj        o;
    long       r = execute_cpp<long>(&Obj::odd, &c, borrowed(o));
    REQUIRE(c.has_error != 0);
    REQUIRE(r == 0);
}
OBL_CONTAINS(C12, failure_or_result)(long x) {
    ASSUME(x != 0);
    OrgContext c = dirty();
    Obj        o;
    long       r = execute_cpp<long>(&Obj::fail, &c, borrowed(o), x);
    REQUIRE(c.has_error != 0 || (r == x && o.first == x));
    REQUIRE(c.has_error == 0 || (r == 0 && o.first == 0));
}
OBL_CONTAINS(C12, failed_call_gives_a_null_handle)() {
    OrgContext c = dirty();
    Obj        o;
    Handle     h = execute_cpp<Handle>(&Obj::ofail, &c, borrowed(o));
    REQUIRE(c.has_error == 0 || h.data.data == nullptr);
    REQUIRE(c.has_error != 0 || h.data.data != nullptr);
}

// ---- null handles are errors of the call
OBL_CONTAINS(C12, null_self)(long x) {
    OrgContext c = dirty();
    long       r = execute_cpp<long>(&Obj::get, &c, Handle{}, x);
    REQUIRE(c.has_error != 0);
    REQUIRE(r == 0);
}
OBL_CONTAINS(C12, null_mutable_self)(long x, long y) {
    OrgContext c = dirty();
    long       r = execute_cpp<long>(&Obj::sum, &c, Handle{}, x, y);
    REQUIRE(c.has_error != 0);
    REQUIRE(r == 0);
}
OBL_CONTAINS(C12, null_argument)(long a) {
    OrgContext c = dirty();
    Obj        o;
    long       r = execute_cpp<long>(&Obj::take, &c, borrowed(o), Handle{});
    REQUIRE(c.has_error != 0);
    REQUIRE(r == 0);
}
OBL_CONTAINS(C12, null_record)() {
    OrgContext c = dirty();
    long       r = get_cpp_field<long, Obj, long, Handle>(&c, Handle{}, &Obj::first);
    REQUIRE(c.has_error != 0);
    REQUIRE(r == 0);
}
OBL_CONTAINS(C12, null_self_without_context)() {
    REQUIRE(execute_cpp<long>(&Obj::get, (OrgContext*)nullptr, Handle{}, 3L) == 0);
}

// ---- ownership
OBL_CONTAINS(C12, reference_result_is_borrowed)(long a) {
    int live = 0;
    {
        OrgContext c = dirty();
        Obj        o{a, 2, &live};
        Handle     h = execute_cpp<Handle>(&Obj::self, &c, borrowed(o));
        REQUIRE(live == 1);
        REQUIRE(h.data.data != nullptr);
        REQUIRE(untag_pointer(h.data.data) == &o);
        REQUIRE(execute_cpp<long>(&Obj::get, &c, h, 0L) == a);
        execute_destroy<Obj>(&c, &h);
        REQUIRE(live == 1);
        REQUIRE(h.data.data == nullptr);
        REQUIRE(c.has_error == 0);
    }
    REQUIRE(live == 0);
}
OBL_CONTAINS(C12, const_reference_result_is_borrowed)(long a) {
    int        live = 0;
    OrgContext c    = dirty();
    Obj        o{a, 2, &live};
    Handle     h = execute_cpp<Handle>(&Obj::cself, &c, borrowed(o));
    REQUIRE(untag_pointer(h.data.data) == &o);
    execute_destroy<Obj>(&c, &h);
    REQUIRE(live == 1);
}
OBL_CONTAINS(C12, pointer_result_is_borrowed)(long a) {
    int        live = 0;
    OrgContext c    = dirty();
    Obj        o{a, 2, &live};
    Handle     h = execute_cpp<Handle>(&Obj::ptr, &c, borrowed(o));
    REQUIRE(execute_cpp<long>(&Obj::get, &c, h, 0L) == a);
    REQUIRE(c.has_error == 0);
    execute_destroy<Obj>(&c, &h);
    REQUIRE(live == 1);
    REQUIRE(h.data.data == nullptr);
}
OBL_CONTAINS(C12, null_pointer_result)() {
    OrgContext c = dirty();
    Obj        o;
    Handle     h = execute_cpp<Handle>(&Obj::none, &c, borrowed(o));
    REQUIRE(h.data.data == nullptr);
    REQUIRE(c.has_error == 0);
}
OBL_CONTAINS(C12, value_result_is_owned)(long a) {
    int        live = 0;
    OrgContext c    = dirty();
    Obj        o{a, 2, &live};
    Handle     h = execute_cpp<Handle>(&Obj::copy, &c, borrowed(o));
    REQUIRE(live == 2);
    REQUIRE(untag_pointer(h.data.data) != &o);
    o.first = 0;
    REQUIRE(execute_cpp<long>(&Obj::get, &c, h, 0L) == a);
    execute_destroy<Obj>(&c, &h);
    REQUIRE(live == 1);
    REQUIRE(h.data.data == nullptr);
    execute_destroy<Obj>(&c, &h);
    REQUIRE(live == 1);
    REQUIRE(c.has_error == 0);
}
struct Outer {
    Obj                    in;
    hstd::ext::ImmBox<Obj> box;
};
OBL_CONTAINS(C12, object_field_is_copied)(long a) {
    int        live = 0;
    OrgContext c    = dirty();
    Outer      o;
    o.in.first = a;
    Handle h   = get_cpp_field<Handle, Outer, Obj, Handle>(
        &c, Handle{{tag_pointer(&o, MemoryPolicy::Reference), nullptr}}, &Outer::in);
    REQUIRE(untag_pointer(h.data.data) != &o.in);
    o.in.first = 0;
    REQUIRE(execute_cpp<long>(&Obj::get, &c, h, 0L) == a);
    REQUIRE(c.has_error == 0);
}
OBL_CONTAINS(C12, boxed_field_is_the_value)(long a) {
    OrgContext c = dirty();
    Outer      o;
    o.box.value.first = a;
    Handle h          = get_cpp_field<Handle, Outer, hstd::ext::ImmBox<Obj>, Handle>(
        &c, Handle{{tag_pointer(&o, MemoryPolicy::Reference), nullptr}}, &Outer::box);
    REQUIRE(execute_cpp<long>(&Obj::get, &c, h, 0L) == a);
    REQUIRE(c.has_error == 0);
}
OBL_CONTAINS(C12, destroying_a_null_handle)() {
    OrgContext c = dirty();
    Handle     h{};
    execute_destroy<Obj>(&c, &h);
    REQUIRE(h.data.data == nullptr);
    REQUIRE(c.has_error == 0);
}

// ---- function tables
struct Table {
    void (*destroy)(OrgContext*, Handle*);
};
static int  destroyed;
static void note(OrgContext*, Handle* h) { ++destroyed; }
static Table const table{&note};
OBL_CONTAINS(C12, destroys_through_the_table)(unsigned long p) {
    OrgContext c = dirty();
    Handle     h{{(void*)p, &table}};
    destroyed = 0;
    execute_destroy_vtable<Table>(&c, &h);
    REQUIRE(destroyed == 1);
    REQUIRE(h.data.data == nullptr);
}
OBL_CONTAINS(C12, null_table)() {
    OrgContext c = dirty();
    Handle     h{};
    execute_destroy_vtable<Table>(&c, &h);
    REQUIRE(h.data.data == nullptr);
}
struct Ret { long v; };
namespace org::bind::c {
template <>
struct VTable<Ret> {
    static void const* get_vtable() { return &table; }
};
} // namespace org::bind::c
struct Giver {
    Ret        r;
    Ret        value() const { return r; }
    Ret&       ref() { return r; }
    Ret const& cref() const { return r; }
};
static Handle giver(Giver& g) { return Handle{{tag_pointer(&g, MemoryPolicy::Reference), nullptr}}; }
OBL_CONTAINS(C12, handles_carry_their_table)(long a) {
    OrgContext c = dirty();
    Giver      g{{a}};
    REQUIRE(execute_cpp<Handle>(&Giver::value, &c, giver(g)).data.vtable == &table);
    REQUIRE(execute_cpp<Handle>(&Giver::ref, &c, giver(g)).data.vtable == &table);
    REQUIRE(execute_cpp<Handle>(&Giver::cref, &c, giver(g)).data.vtable == &table);
    REQUIRE(execute_cpp<haxorg_ptr_payload>(&Giver::value, &c, giver(g)).vtable == &table);
    REQUIRE(c.has_error == 0);
}

// ---- shared results
struct Keeper {
    std::shared_ptr<Obj> held;
    std::shared_ptr<Obj> share() const { return held; }
};
static Handle keeper(Keeper& k) { return Handle{{tag_pointer(&k, MemoryPolicy::Reference), nullptr}}; }
OBL_CONTAINS(C12, shared_result_reaches_the_object)(long a) {
    int        live = 0;
    OrgContext c    = dirty();
    Obj        o{a, 3, &live};
    Keeper     k{std::shared_ptr<Obj>(std::shared_ptr<int>{}, &o)};
    Handle     h = execute_cpp<Handle>(&Keeper::share, &c, keeper(k));
    REQUIRE(execute_cpp<long>(&Obj::get, &c, h, 0L) == a);
    REQUIRE((get_cpp_field<long, Obj, long, Handle>(&c, h, &Obj::second)) == 3);
    execute_cpp<long>(&Obj::sum, &c, h, 4L, 1L);
    REQUIRE(o.second == 7);
    REQUIRE(c.has_error == 0);
    execute_destroy<Obj>(&c, &h);
    REQUIRE(live == 1);
    REQUIRE(h.data.data == nullptr);
}
static long through(std::shared_ptr<Obj> const& p) { return p->first; }
OBL_CONTAINS(C12, shared_argument)(long a) {
    OrgContext c = dirty();
    Obj        o;
    o.first = a;
    Keeper k{std::shared_ptr<Obj>(std::shared_ptr<int>{}, &o)};
    Handle h = execute_cpp<Handle>(&Keeper::share, &c, keeper(k));
    REQUIRE(execute_cpp<long>(&through, &c, h) == a);
    REQUIRE(c.has_error == 0);
}
struct Node {
    long v;
};
static long inside(org::sem::SemId<Node> n) { return n.value->v; }
OBL_CONTAINS(C12, node_argument)(long a) {
    OrgContext             c = dirty();
    Node                   n{a};
    org::sem::SemId<Node>  id{&n};
    REQUIRE(execute_cpp<long>(&inside, &c, Handle{{tag_pointer(&id, MemoryPolicy::Reference), nullptr}}) == a);
    REQUIRE(c.has_error == 0);
}
static long by_pointer(Obj const* o) { return o->first; }
OBL_CONTAINS(C12, pointer_argument)(long a) {
    OrgContext c = dirty();
    Obj        o;
    o.first = a;
    REQUIRE(execute_cpp<long>(&by_pointer, &c, borrowed(o)) == a);
    REQUIRE(c.has_error == 0);
}
static long by_value(Obj o) { return o.first; }
OBL_CONTAINS(C12, value_argument_is_copied)(long a) {
    int        live = 0;
    OrgContext c    = dirty();
    Obj        o{a, 1, &live};
    REQUIRE(execute_cpp<long>(&by_value, &c, borrowed(o)) == a);
    REQUIRE(live == 1);
    REQUIRE(c.has_error == 0);
}
static bool yes(bool b) { return b; }
OBL_CONTAINS(C12, plain_values_pass_through)(bool b) {
    OrgContext c = dirty();
    REQUIRE(execute_cpp<bool>(&yes, &c, b) == b);
}
static char const* same(char const* t) { return t; }
OBL_CONTAINS(C12, text_passes_through)(char const* t) {
    OrgContext c = dirty();
    REQUIRE(execute_cpp<char const*>(&same, &c, t) == t);
    REQUIRE(c.has_error == 0);
}
OBL_CONTAINS(C12, shared_result_counts_as_an_owner)(long a) {
    int        live = 0;
    OrgContext c    = dirty();
    Keeper     k{std::make_shared<Obj>(a, 3L, &live)};
    Handle     h = execute_cpp<Handle>(&Keeper::share, &c, keeper(k));
    REQUIRE(c.has_error == 0);
    REQUIRE(k.held.use_count() == 2);
    execute_destroy<Obj>(&c, &h);
    REQUIRE(k.held.use_count() == 1);
    REQUIRE(h.data.data == nullptr);
    REQUIRE(c.has_error == 0);
    new (&c) Keeper{std::move(k)};  // the last owner is not part of this
}
