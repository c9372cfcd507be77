#include <stdexcept>
#include <hstd/stdlib/Ptrs.hpp>
#include <hstd/system/aux_utils.hpp>
#include "obl.hpp"

struct Base {
    long tag = 0;
    virtual ~Base() = default;
};
struct Derived : Base {
    long more = 0;
};
struct Other {
    long pad = 0;
    virtual ~Other() = default;
};
struct Multi
    : Other
    , Base {
    long last = 0;
};

// Counts the objects it is handed and remembers the last one.
struct Log {
    int   n    = 0;
    void* last = nullptr;
};
struct Del {
    Log* log = nullptr;
    void operator()(Base* p) const {
        if (log) {
            ++log->n;
            log->last = p;
        }
    }
};
using U = std::unique_ptr<Base, Del>;

OBL(C04, success_moves_the_object)(Base* b) {
    ASSUME(b != nullptr);
    Derived* d = dynamic_cast<Derived*>(b);
    ASSUME(d != nullptr);
    Log log;
    {
        U u{b, Del{&log}};
        {
            auto r = hstd::dynamic_pointer_cast<Derived>(std::move(u));
            static_assert(std::is_same_v<decltype(r), std::unique_ptr<Derived, Del>>);
            REQUIRE(r.get() == d);
            REQUIRE(u.get() == nullptr);
            REQUIRE(r.get_deleter().log == &log);
            REQUIRE(log.n == 0);
        }
        REQUIRE(log.n == 1);
    }
    REQUIRE(log.n == 1);
}
OBL(C04, failure_leaves_the_object_with_the_source)(Base* b) {
    ASSUME(b != nullptr);
    ASSUME(dynamic_cast<Derived*>(b) == nullptr);
    Log log;
    {
        U u{b, Del{&log}};
        {
            auto r = hstd::dynamic_pointer_cast<Derived>(std::move(u));
            REQUIRE(r.get() == nullptr);
            REQUIRE(u.get() == b);
            REQUIRE(u.get_deleter().log == &log);
        }
        REQUIRE(log.n == 0);
    }
    REQUIRE(log.n == 1);
    REQUIRE(log.last == b);
}
OBL(C04, null_source_yields_null)() {
    Log log;
    {
        U    u{nullptr, Del{&log}};
        auto r = hstd::dynamic_pointer_cast<Derived>(std::move(u));
        REQUIRE(r.get() == nullptr);
        REQUIRE(u.get() == nullptr);
    }
    REQUIRE(log.n == 0);
}

// A deleter that can not be default constructed is handed on.
struct RefDel {
    Log& log;
    explicit RefDel(Log& l) : log{l} {}
    void operator()(Base* p) const {
        ++log.n;
        log.last = p;
    }
};
OBL(C04, deleter_without_default_is_kept)(Base* b) {
    ASSUME(b != nullptr);
    Derived* d = dynamic_cast<Derived*>(b);
    Log      log;
    {
        std::unique_ptr<Base, RefDel> u{b, RefDel{log}};
        auto r = hstd::dynamic_pointer_cast<Derived>(std::move(u));
        REQUIRE(r.get() == d);
        REQUIRE(u.get() == (d ? nullptr : b));
        REQUIRE(&r.get_deleter().log == &log);
    }
    REQUIRE(log.n == 1);
}
// So is a function, and a deleter that can not be copied is moved.
static Log   fn_log;
static void  note_deleted(Base* p) {
    ++fn_log.n;
    fn_log.last = p;
}
OBL(C04, function_deleter_is_kept)(Base* b) {
    ASSUME(b != nullptr);
    Derived* d = dynamic_cast<Derived*>(b);
    fn_log     = {};
    {
        std::unique_ptr<Base, void (*)(Base*)> u{b, &note_deleted};
        auto r = hstd::dynamic_pointer_cast<Derived>(std::move(u));
        REQUIRE(r.get() == d);
        REQUIRE(u.get() == (d ? nullptr : b));
        REQUIRE(r.get_deleter() == &note_deleted);
    }
    REQUIRE(fn_log.n == 1);
}
struct OwnDel {
    Log* log = nullptr;
    OwnDel() = default;
    explicit OwnDel(Log* l) : log{l} {}
    OwnDel(OwnDel&& o) noexcept : log{o.log} {}
    void operator()(Base* p) const {
        if (log) {
            ++log->n;
            log->last = p;
        }
    }
};
OBL(C04, deleter_that_can_not_be_copied)(Base* b) {
    ASSUME(b != nullptr);
    Derived* d = dynamic_cast<Derived*>(b);
    Log      log;
    {
        std::unique_ptr<Base, OwnDel> u{b, OwnDel{&log}};
        auto r = hstd::dynamic_pointer_cast<Derived>(std::move(u));
        REQUIRE(r.get() == d);
        REQUIRE(u.get() == (d ? nullptr : b));
    }
    REQUIRE(log.n == 1);
}
// Cross casts adjust the address.
struct MDel {
    Log* log = nullptr;
    void operator()(void const*) const {
        if (log) { ++log->n; }
    }
};
OBL(C04, cross_cast_yields_the_adjusted_address)(Base* b) {
    ASSUME(b != nullptr);
    Other* o = dynamic_cast<Other*>(b);
    Log    log;
    {
        std::unique_ptr<Base, MDel> u{b, MDel{&log}};
        auto r = hstd::dynamic_pointer_cast<Other>(std::move(u));
        REQUIRE(r.get() == o);
        REQUIRE(u.get() == (o ? nullptr : b));
    }
    REQUIRE(log.n == 1);
}

// ---- mixins
struct Ahead {
    long first = 0;
};
struct Mixed
    : Ahead
    , hstd::CRTP_this_method<Mixed> {
    long         second = 0;
    Mixed*       self() { return _this(); }
    Mixed const* self() const { return _this(); }
};
OBL(C04, mixin_reaches_the_object_it_is_part_of)() {
    Mixed        m;
    Mixed const& c = m;
    REQUIRE(m.self() == &m);
    REQUIRE(c.self() == &m);
}

// ---- shared objects
struct Node : hstd::SharedPtrApi<Node> {
    long a, b;
    Node(long a, long b) : a{a}, b{b} {}
};
OBL(C04, shared_constructs_with_its_arguments)(long a, long b) {
    auto p = Node::shared(a, b);
    REQUIRE(p.get() != nullptr);
    REQUIRE(p->a == a);
    REQUIRE(p->b == b);
    REQUIRE(p.use_count() == 1);
}
// Answers for the library: a handle to this very object.
struct Probe : hstd::SharedPtrApi<Probe> {
    int   shared_calls = 0;
    int   weak_calls   = 0;
    std::shared_ptr<Probe> shared_from_this() {
        ++shared_calls;
        return std::shared_ptr<Probe>(std::shared_ptr<void>{}, this);
    }
    std::weak_ptr<Probe> weak_from_this() {
        ++weak_calls;
        return {};
    }
};
OBL(C04, handle_from_this_refers_to_this)() {
    Probe        p;
    Probe const& c = p;
    auto         q = c.mshared_from_this();
    REQUIRE(q.get() == &p);
    REQUIRE(p.shared_calls == 1);
    auto w = c.mweak_from_this();
    REQUIRE(p.weak_calls == 1);
    REQUIRE(p.shared_calls == 1);
}
OBL(C04, clone_is_an_independent_equal_object)(long a, long b) {
    auto p = Node::shared(a, b);
    auto q = p->clone_this();
    REQUIRE(q.get() != p.get());
    REQUIRE(q->a == a);
    REQUIRE(q->b == b);
    REQUIRE(p.use_count() == 1);
    REQUIRE(q.use_count() == 1);
    q->a = 0;
    REQUIRE(p->a == a);
}

static_assert(std::is_same_v<hstd::remove_smart_pointer<std::shared_ptr<int>>::type, int>);
static_assert(std::is_same_v<hstd::remove_smart_pointer<std::unique_ptr<int>>::type, int>);
static_assert(std::is_same_v<hstd::remove_smart_pointer<std::weak_ptr<int>>::type, int>);
static_assert(std::is_same_v<hstd::remove_smart_pointer<int*>::type, int*>);
static_assert(std::is_same_v<hstd::remove_smart_pointer<int>::type, int>);
static_assert(noexcept(hstd::dynamic_pointer_cast<Derived>(std::declval<U>())));
