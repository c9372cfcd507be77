#include <variant>
#include <hstd/ext/graphwrap.hpp>
#include "obl.hpp"

using namespace hstd::ext;
using G  = boost::adjacency_list<boost::vecS, boost::vecS, boost::directedS>;
using VD = boost::graph_traits<G>::vertex_descriptor;
using ED = boost::graph_traits<G>::edge_descriptor;

// A callback that notes who was called, how often and with what.
struct Note {
    int      calls = 0;
    int      which = 0;
    VD       vertex{};
    VD       source{}, target{};
    void const* property = nullptr;
    G const* graph    = nullptr;
};
struct OnVertex {
    Note* n;
    int   which;
    void  operator()(VD const& v, G const& g) const {
        ++n->calls;
        n->which  = which;
        n->vertex = v;
        n->graph  = &g;
    }
};
struct OnEdge {
    Note* n;
    int   which;
    void  operator()(ED const& e, G const& g) const {
        ++n->calls;
        n->which    = which;
        n->source   = e.m_source;
        n->target   = e.m_target;
        n->property = e.get_property();
        n->graph    = &g;
    }
};

static inline ED edge(VD s, VD t, void* p) { return ED(s, t, p); }

// Only one callback is installed: its own event reaches it with the same
// arguments, every other event reaches nobody.
#define VERTEX_EVENTS(X) X(initialize_vertex) X(discover_vertex) X(examine_vertex) X(finish_vertex)
#define EDGE_EVENTS(X) X(examine_edge) X(tree_edge) X(non_tree_edge) X(gray_target) X(black_target)
#define ALL_EVENTS(X) VERTEX_EVENTS(X) EDGE_EVENTS(X)

template <typename V>
static inline void others_v(V& vis, int skip, VD v, G const& g) {
    if (skip != 0) { vis.initialize_vertex(v, g); }
    if (skip != 1) { vis.discover_vertex(v, g); }
    if (skip != 2) { vis.examine_vertex(v, g); }
    if (skip != 3) { vis.finish_vertex(v, g); }
}
template <typename V>
static inline void others_e(V& vis, int skip, ED e, G const& g) {
    if (skip != 4) { vis.examine_edge(e, g); }
    if (skip != 5) { vis.tree_edge(e, g); }
    if (skip != 6) { vis.non_tree_edge(e, g); }
    if (skip != 7) { vis.gray_target(e, g); }
    if (skip != 8) { vis.black_target(e, g); }
}

#define ON_VERTEX(Kind, name, no)                                                        \
    OBL(C19, Kind##_##name##_reaches_its_callback)(VD v, G& g) {                        \
        Note                       n;                                                    \
        boost_lambda_##Kind##_visitor<G> vis;                                            \
        auto& same = vis.set_##name(OnVertex{&n, no});                                   \
        REQUIRE(&same == &vis);                                                          \
        vis.name(v, g);                                                                 \
        REQUIRE(n.calls == 1);                                                           \
        REQUIRE(n.which == no);                                                          \
        REQUIRE(n.vertex == v);                                                          \
        REQUIRE(n.graph == &g);                                                           \
    }                                                                                    \
    OBL(C19, Kind##_##name##_callback_sees_no_other_event)(VD v, VD s, VD t, void* p, G& g) { \
        Note                       n;                                                    \
        boost_lambda_##Kind##_visitor<G> vis;                                            \
        vis.set_##name(OnVertex{&n, no});                                                \
        others_v(vis, no, v, g);                                                        \
        others_e(vis, no, edge(s, t, p), g);                                            \
        REQUIRE(n.calls == 0);                                                           \
    }
#define ON_EDGE(Kind, name, no)                                                          \
    OBL(C19, Kind##_##name##_reaches_its_callback)(VD s, VD t, void* p, G& g) {          \
        Note                       n;                                                    \
        boost_lambda_##Kind##_visitor<G> vis;                                            \
        auto& same = vis.set_##name(OnEdge{&n, no});                                     \
        REQUIRE(&same == &vis);                                                          \
        vis.name(edge(s, t, p), g);                                                     \
        REQUIRE(n.calls == 1);                                                           \
        REQUIRE(n.which == no);                                                          \
        REQUIRE(n.source == s);                                                          \
        REQUIRE(n.target == t);                                                          \
        REQUIRE(n.property == p);                                                        \
        REQUIRE(n.graph == &g);                                                           \
    }                                                                                    \
    OBL(C19, Kind##_##name##_callback_sees_no_other_event)(VD v, VD s, VD t, void* p, G& g) { \
        Note                       n;                                                    \
        boost_lambda_##Kind##_visitor<G> vis;                                            \
        vis.set_##name(OnEdge{&n, no});                                                  \
        others_v(vis, no, v, g);                                                        \
        others_e(vis, no, edge(s, t, p), g);                                            \
        REQUIRE(n.calls == 0);                                                           \
    }
#define ALL(Kind)                                                                        \
    ON_VERTEX(Kind, initialize_vertex, 0)                                                \
    ON_VERTEX(Kind, discover_vertex, 1)                                                  \
    ON_VERTEX(Kind, examine_vertex, 2)                                                   \
    ON_VERTEX(Kind, finish_vertex, 3)                                                    \
    ON_EDGE(Kind, examine_edge, 4)                                                       \
    ON_EDGE(Kind, tree_edge, 5)                                                          \
    ON_EDGE(Kind, non_tree_edge, 6)                                                      \
    ON_EDGE(Kind, gray_target, 7)                                                        \
    ON_EDGE(Kind, black_target, 8)                                                       \
    OBL(C19, Kind##_without_callbacks_does_nothing)(VD v, VD s, VD t, void* p, G& g) {   \
        boost_lambda_##Kind##_visitor<G> vis;                                            \
        others_v(vis, -1, v, g);                                                        \
        others_e(vis, -1, edge(s, t, p), g);                                            \
    }
ALL(bfs)
ALL(dfs)
ALL(dijkstra)
ALL(astar)

#define BELLMAN_EDGE(name, no)                                                           \
    OBL(C19, bellman_ford_##name##_reaches_its_callback)(VD s, VD t, void* p, G& g) {    \
        Note                                 n;                                          \
        boost_lambda_bellman_ford_visitor<G> vis;                                        \
        auto& same = vis.set_##name(OnEdge{&n, no});                                     \
        REQUIRE(&same == &vis);                                                          \
        vis.name(edge(s, t, p), g);                                                     \
        REQUIRE(n.calls == 1);                                                           \
        REQUIRE(n.which == no);                                                          \
        REQUIRE(n.source == s);                                                          \
        REQUIRE(n.target == t);                                                          \
        REQUIRE(n.property == p);                                                        \
        REQUIRE(n.graph == &g);                                                           \
    }                                                                                    \
    OBL(C19, bellman_ford_##name##_callback_sees_no_other_event)(VD s, VD t, void* p, G& g) { \
        Note                                 n;                                          \
        boost_lambda_bellman_ford_visitor<G> vis;                                        \
        vis.set_##name(OnEdge{&n, no});                                                  \
        ED e = edge(s, t, p);                                                            \
        if (no != 0) { vis.examine_edge(e, g); }                                        \
        if (no != 1) { vis.edge_relaxed(e, g); }                                        \
        if (no != 2) { vis.edge_not_relaxed(e, g); }                                    \
        if (no != 3) { vis.edge_minimized(e, g); }                                      \
        if (no != 4) { vis.edge_not_minimized(e, g); }                                  \
        REQUIRE(n.calls == 0);                                                           \
    }
BELLMAN_EDGE(examine_edge, 0)
BELLMAN_EDGE(edge_relaxed, 1)
BELLMAN_EDGE(edge_not_relaxed, 2)
BELLMAN_EDGE(edge_minimized, 3)
BELLMAN_EDGE(edge_not_minimized, 4)
OBL(C19, bellman_ford_without_callbacks_does_nothing)(VD s, VD t, void* p, G& g) {
    boost_lambda_bellman_ford_visitor<G> vis;
    ED                                   e = edge(s, t, p);
    vis.examine_edge(e, g);
    vis.edge_relaxed(e, g);
    vis.edge_not_relaxed(e, g);
    vis.edge_minimized(e, g);
    vis.edge_not_minimized(e, g);
}

// The visitors are accepted where boost documents such a visitor.
static_assert(std::is_base_of_v<boost::default_bfs_visitor, boost_lambda_bfs_visitor<G>>);
static_assert(std::is_base_of_v<boost::default_dfs_visitor, boost_lambda_dfs_visitor<G>>);
void accepted_by_boost(G const& g, boost_lambda_bfs_visitor<G>& b, boost_lambda_dfs_visitor<G>& d) {
    boost::breadth_first_search(g, VD{}, boost::visitor(b));
    boost::depth_first_search(g, boost::visitor(d));
}

// The graph is handed on, never copied.
struct Pinned {
    using vertex_descriptor      = unsigned long;
    using edge_descriptor        = ED;
    using directed_category      = boost::directed_tag;
    using edge_parallel_category = boost::allow_parallel_edge_tag;
    struct traversal_category : boost::incidence_graph_tag {};
    Pinned()              = default;
    Pinned(Pinned const&) = delete;
};
#define PINNED(Kind)                                                                     \
    void Kind##_graph_is_not_copied(boost_lambda_##Kind##_visitor<Pinned>& vis, Pinned const& g, unsigned long v, ED e) { \
        vis.initialize_vertex(v, g);                                                     \
        vis.discover_vertex(v, g);                                                       \
        vis.examine_vertex(v, g);                                                        \
        vis.finish_vertex(v, g);                                                         \
        vis.examine_edge(e, g);                                                          \
        vis.tree_edge(e, g);                                                             \
        vis.non_tree_edge(e, g);                                                         \
        vis.gray_target(e, g);                                                           \
        vis.black_target(e, g);                                                          \
        auto ov = [](unsigned long const&, Pinned const&) {};                            \
        auto oe = [](ED const&, Pinned const&) {};                                       \
        vis.set_initialize_vertex(ov).set_discover_vertex(ov).set_examine_vertex(ov).set_finish_vertex(ov); \
        vis.set_examine_edge(oe).set_tree_edge(oe).set_non_tree_edge(oe).set_gray_target(oe).set_black_target(oe); \
    }
PINNED(bfs)
PINNED(dfs)
PINNED(dijkstra)
PINNED(astar)
void bellman_ford_graph_is_not_copied(boost_lambda_bellman_ford_visitor<Pinned>& vis, Pinned const& g, ED e) {
    vis.examine_edge(e, g);
    vis.edge_relaxed(e, g);
    vis.edge_not_relaxed(e, g);
    vis.edge_minimized(e, g);
    vis.edge_not_minimized(e, g);
    auto oe = [](ED const&, Pinned const&) {};
    vis.set_examine_edge(oe).set_edge_relaxed(oe).set_edge_not_relaxed(oe).set_edge_minimized(oe).set_edge_not_minimized(oe);
}
