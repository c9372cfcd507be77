#include <hstd/ext/geometry/hstd_geometry.cpp>
#include "obl.hpp"

using namespace hstd::ext::geometry;

#define P(n) double n##x, double n##y
#define PT(n) Point n{n##x, n##y};
#define SZ(n) Size n{n##x, n##y};
#define R(n) double n##x0, double n##y0, double n##x1, double n##y1
#define RC(n) Rect n{Point{n##x0, n##y0}, Point{n##x1, n##y1}};
#define IS(p, X, Y) REQUIRE((p).x() == (X)); REQUIRE((p).y() == (Y))
#define BOX(r, X0, Y0, X1, Y1) REQUIRE((r).min_x() == (X0)); REQUIRE((r).min_y() == (Y0)); REQUIRE((r).max_x() == (X1)); REQUIRE((r).max_y() == (Y1))

// ---- points
OBL(C20, point_add)(P(a), P(b)) { PT(a) PT(b) IS(a + b, ax + bx, ay + by); IS(a, ax, ay); a += b; IS(a, ax + bx, ay + by); IS(b, bx, by); }
OBL(C20, point_sub)(P(a), P(b)) { PT(a) PT(b) IS(a - b, ax - bx, ay - by); IS(a, ax, ay); a -= b; IS(a, ax - bx, ay - by); IS(b, bx, by); }
OBL(C20, point_scale)(P(a), double s) { PT(a) IS(a * s, ax * s, ay * s); IS(s * a, ax * s, ay * s); a *= s; IS(a, ax * s, ay * s); }
OBL(C20, point_divide)(P(a), double s) { ASSUME(s > 0 || s < 0); PT(a) IS(a / s, ax / s, ay / s); a /= s; IS(a, ax / s, ay / s); }
OBL(C20, point_negate)(P(a)) { PT(a) IS(-a, -ax, -ay); IS(a, ax, ay); }
OBL(C20, point_dot)(P(a), P(b)) { PT(a) PT(b) REQUIRE(a.dot(b) == ax * bx + ay * by); }
OBL(C20, point_cross)(P(a), P(b)) { PT(a) PT(b) REQUIRE(a.cross(b) == ax * by - ay * bx); }
OBL(C20, point_squared_length)(P(a)) { PT(a) REQUIRE(a.squared_length() == ax * ax + ay * ay); }
OBL(C20, point_length)(P(a)) { PT(a) double l = a.length(); REQUIRE(l >= 0); REQUIRE(l * l == ax * ax + ay * ay); }
OBL(C20, point_equality)(P(a), P(b)) { PT(a) PT(b) bool e = ax == bx && ay == by; REQUIRE((a == b) == e); REQUIRE((a != b) == !e); }

// ---- sizes
OBL(C20, size_names_its_sides)(P(a)) { SZ(a) REQUIRE(a.width() == ax); REQUIRE(a.height() == ay); }
OBL(C20, size_scale)(P(a), double s) { SZ(a) Size m = a * s; REQUIRE(m.width() == ax * s); REQUIRE(m.height() == ay * s); }
OBL(C20, size_divide)(P(a), double s) { ASSUME(s > 0 || s < 0); SZ(a) Size m = a / s; REQUIRE(m.width() == ax / s); REQUIRE(m.height() == ay / s); }

// ---- paddings
#define PAD double t, double b, double l, double r
OBL(C20, padding_sides)(PAD) { Padding p{t, b, l, r}; REQUIRE(p.getTop() == t); REQUIRE(p.getBottom() == b); REQUIRE(p.getLeft() == l); REQUIRE(p.getRight() == r); }
OBL(C20, padding_uniform)(double u) { Padding p{u}; REQUIRE(p.getTop() == u); REQUIRE(p.getBottom() == u); REQUIRE(p.getLeft() == u); REQUIRE(p.getRight() == u); }
OBL(C20, padding_default_is_zero)() { Padding p; REQUIRE(p.getTop() == 0); REQUIRE(p.getBottom() == 0); REQUIRE(p.getLeft() == 0); REQUIRE(p.getRight() == 0); }
#define SETTER(S)                                                                        \
    OBL(C20, padding_set_##S)(PAD, double v) {                                           \
        Padding p{t, b, l, r}, e{t, b, l, r};                                            \
        Padding& q = p.set##S(v);                                                        \
        REQUIRE(&q == &p);                                                               \
        REQUIRE(p.get##S() == v);                                                        \
        p.set##S(e.get##S());                                                            \
        REQUIRE(p.getTop() == t); REQUIRE(p.getBottom() == b); REQUIRE(p.getLeft() == l); REQUIRE(p.getRight() == r); \
    }
SETTER(Top)
SETTER(Bottom)
SETTER(Left)
SETTER(Right)

// ---- rectangles
OBL(C20, rect_default_is_empty_origin)() { Rect r; BOX(r, 0, 0, 0, 0); }
OBL(C20, rect_from_position_and_extent)(double x, double y, double w, double h) {
    Rect r{x, y, w, h};
    BOX(r, x, y, x + w, y + h);
    REQUIRE(r.width() == w); REQUIRE(r.height() == h);
}
OBL(C20, rect_from_corners)(R(a)) { RC(a) BOX(a, ax0, ay0, ax1, ay1); REQUIRE(a.width() == ax1 - ax0); REQUIRE(a.height() == ay1 - ay0); }
OBL(C20, rect_accessors)(R(a)) {
    RC(a)
    REQUIRE(a.x() == ax0); REQUIRE(a.y() == ay0);
    IS(a.upper_left(), ax0, ay0);
    IS(a.lower_right(), ax1, ay1);
    REQUIRE(a.size().width() == ax1 - ax0); REQUIRE(a.size().height() == ay1 - ay0);
}
OBL(C20, rect_center)(R(a)) {
    RC(a)
    REQUIRE(a.center_x() * 2 == ax0 + ax1); REQUIRE(a.center_y() * 2 == ay0 + ay1);
    IS(a.center(), a.center_x(), a.center_y());
}
OBL(C20, rect_from_center)(P(c), double w, double h) {
    PT(c)
    Rect r = Rect::FromCenterWH(c, w, h);
    REQUIRE(r.width() == w); REQUIRE(r.height() == h);
    IS(r.center(), cx, cy);
}
OBL(C20, rect_from_size)(P(s)) { SZ(s) Rect r = Rect::FromSize(s); BOX(r, 0, 0, sx, sy); }
OBL(C20, rect_from_upper_left)(P(c), double w, double h) { PT(c) Rect r = Rect::FromUpperLeftWH(c, w, h); BOX(r, cx, cy, cx + w, cy + h); }
OBL(C20, rect_from_bounds)(R(a)) { Rect r = Rect::FromCornerPoints(ax0, ax1, ay0, ay1); BOX(r, ax0, ay0, ax1, ay1); }
OBL(C20, rect_move)(R(a), P(d)) { RC(a) PT(d) Rect r = a.move(d); BOX(r, ax0 + dx, ay0 + dy, ax1 + dx, ay1 + dy); BOX(a, ax0, ay0, ax1, ay1); }
OBL(C20, rect_scale)(R(a), double s) { RC(a) Rect r = a * s; BOX(r, ax0 * s, ay0 * s, ax1 * s, ay1 * s); }
OBL(C20, rect_divide)(R(a), double s) { ASSUME(s > 0 || s < 0); RC(a) Rect r = a / s; BOX(r, ax0 / s, ay0 / s, ax1 / s, ay1 / s); }
OBL(C20, rect_outer_padding)(R(a), PAD) { RC(a) Rect q = a.withOuterPadding(Padding{t, b, l, r}); BOX(q, ax0 - l, ay0 - t, ax1 + r, ay1 + b); }
OBL(C20, rect_inner_padding)(R(a), PAD) { RC(a) Rect q = a.withInnerPadding(Padding{t, b, l, r}); BOX(q, ax0 + l, ay0 + t, ax1 - r, ay1 - b); }
static inline double lo(double a, double b) { return b < a ? b : a; }
static inline double hi(double a, double b) { return a < b ? b : a; }
OBL(C20, rect_extend_by_point_x)(R(a), P(p)) { RC(a) PT(p) a.extend(p); REQUIRE(a.min_x() == lo(ax0, px)); REQUIRE(a.max_x() == hi(ax1, px)); }
OBL(C20, rect_extend_by_point_y)(R(a), P(p)) { RC(a) PT(p) a.extend(p); REQUIRE(a.min_y() == lo(ay0, py)); REQUIRE(a.max_y() == hi(ay1, py)); }
OBL(C20, rect_extend_by_rect_x)(R(a), R(b)) { RC(a) RC(b) a.extend(b); REQUIRE(a.min_x() == lo(ax0, bx0)); REQUIRE(a.max_x() == hi(ax1, bx1)); }
OBL(C20, rect_extend_by_rect_y)(R(a), R(b)) { RC(a) RC(b) a.extend(b); REQUIRE(a.min_y() == lo(ay0, by0)); REQUIRE(a.max_y() == hi(ay1, by1)); }

// ---- paths
using C = Path::Command;
using K = Path::CommandType;
OBL(C20, move_command)(P(p)) { PT(p) C c = C::moveTo(p); REQUIRE(c.type == K::MoveTo); IS(c.p1, px, py); }
OBL(C20, line_command)(P(p)) { PT(p) C c = C::lineTo(p); REQUIRE(c.type == K::LineTo); IS(c.p1, px, py); }
OBL(C20, quad_command)(P(p), P(q)) { PT(p) PT(q) C c = C::quadTo(p, q); REQUIRE(c.type == K::QuadTo); IS(c.p1, px, py); IS(c.p2, qx, qy); }
OBL(C20, cubic_command)(P(p), P(q), P(r)) { PT(p) PT(q) PT(r) C c = C::cubicTo(p, q, r); REQUIRE(c.type == K::CubicTo); IS(c.p1, px, py); IS(c.p2, qx, qy); IS(c.p3, rx, ry); }
OBL(C20, close_command)() { REQUIRE(C::closeSubpath().type == K::CloseSubpath); }
OBL(C20, path_move_appends)(P(p)) { Path f; REQUIRE(f.empty()); Path& g = f.moveTo(px, py); REQUIRE(&g == &f); REQUIRE(!f.empty()); REQUIRE(f.commands.size() == 1); REQUIRE(f.commands[0].type == K::MoveTo); IS(f.commands[0].p1, px, py); }
OBL(C20, path_line_appends)(P(p)) { Path f; Path& g = f.lineTo(px, py); REQUIRE(&g == &f); REQUIRE(f.commands.size() == 1); REQUIRE(f.commands[0].type == K::LineTo); IS(f.commands[0].p1, px, py); }
OBL(C20, path_quad_appends)(P(p), P(q)) { Path f; Path& g = f.quadTo(px, py, qx, qy); REQUIRE(&g == &f); REQUIRE(f.commands.size() == 1); REQUIRE(f.commands[0].type == K::QuadTo); IS(f.commands[0].p1, px, py); IS(f.commands[0].p2, qx, qy); }
OBL(C20, path_cubic_appends)(P(p), P(q), P(r)) { Path f; Path& g = f.cubicTo(px, py, qx, qy, rx, ry); REQUIRE(&g == &f); REQUIRE(f.commands.size() == 1); REQUIRE(f.commands[0].type == K::CubicTo); IS(f.commands[0].p1, px, py); IS(f.commands[0].p2, qx, qy); IS(f.commands[0].p3, rx, ry); }
OBL(C20, path_close_appends)() { Path f; Path& g = f.closeSubpath(); REQUIRE(&g == &f); REQUIRE(f.commands.size() == 1); REQUIRE(f.commands[0].type == K::CloseSubpath); }
#define PATHOP(name, ARG, OPND, OP, X, Y)                                                \
    OBL(C20, path_##name##_moves_lines)(P(p), bool m, ARG) { PT(p) Path f; f.commands.push_back(m ? C::moveTo(p) : C::lineTo(p)); Path g = f OP OPND; REQUIRE(g.commands.size() == 1); IS(g.commands[0].p1, X(p), Y(p)); IS(f.commands[0].p1, px, py); REQUIRE(g.commands[0].type == (m ? K::MoveTo : K::LineTo)); } \
    OBL(C20, path_##name##_quads)(P(p), P(q), ARG) { PT(p) PT(q) Path f; f.commands.push_back(C::quadTo(p, q)); Path g = f OP OPND; REQUIRE(g.commands.size() == 1); IS(g.commands[0].p1, X(p), Y(p)); IS(g.commands[0].p2, X(q), Y(q)); REQUIRE(g.commands[0].type == K::QuadTo); } \
    OBL(C20, path_##name##_cubics)(P(p), P(q), P(r), ARG) { PT(p) PT(q) PT(r) Path f; f.commands.push_back(C::cubicTo(p, q, r)); Path g = f OP OPND; REQUIRE(g.commands.size() == 1); IS(g.commands[0].p1, X(p), Y(p)); IS(g.commands[0].p2, X(q), Y(q)); IS(g.commands[0].p3, X(r), Y(r)); REQUIRE(g.commands[0].type == K::CubicTo); }
#define COMMA ,
#define MX(n) n##x * s
#define MY(n) n##y * s
#define DX(n) n##x / s
#define DY(n) n##y / s
#define AX(n) n##x + vx
#define AY(n) n##y + vy
#define SX(n) n##x - vx
#define SY(n) n##y - vy
PATHOP(scale, double s, s, *, MX, MY)
PATHOP(divide, double s, s, /, DX, DY)
PATHOP(add, double vx COMMA double vy, (Point{vx, vy}), +, AX, AY)
PATHOP(sub, double vx COMMA double vy, (Point{vx, vy}), -, SX, SY)

// ---- polygons
#define POLY(name, ARG, OPND, OP, X, Y)                                                  \
    OBL(C20, polygon_##name)(P(p), P(q), ARG) {                                          \
        PT(p) PT(q) Polygon f; f.outer().push_back(p); f.outer().push_back(q);           \
        Polygon g = f OP OPND;                                                           \
        REQUIRE(g.outer().size() == 2);                                                  \
        IS(g.outer()[0], X(p), Y(p)); IS(g.outer()[1], X(q), Y(q));                      \
        IS(f.outer()[0], px, py); IS(f.outer()[1], qx, qy);                              \
    }
POLY(scale, double s, s, *, MX, MY)
POLY(divide, double s, s, /, DX, DY)
POLY(add, double vx COMMA double vy, (Point{vx, vy}), +, AX, AY)
POLY(sub, double vx COMMA double vy, (Point{vx, vy}), -, SX, SY)
OBL(C20, polygon_appends)(P(p)) { PT(p) Polygon f; f.push_back(p); REQUIRE(f.outer().size() == 1); IS(f.outer()[0], px, py); REQUIRE(f.begin() != f.end()); }

// ---- the rectangle that everything extends
OBL(C20, limit_rectangle_encloses_nothing)() {
    Rect l = Rect::FromLimitBoundaries();
    REQUIRE(l.min_x() >= 1e300); REQUIRE(l.min_y() >= 1e300);
    REQUIRE(l.max_x() <= -1e300); REQUIRE(l.max_y() <= -1e300);
}

// ---- where a path ends
OBL(C20, position_of_an_empty_path)() { Path f; IS(f.currentPosition(), 0, 0); }
OBL(C20, position_after_move_or_line)(P(p), bool m) { PT(p) Path f; f.commands.push_back(m ? C::moveTo(p) : C::lineTo(p)); IS(f.currentPosition(), px, py); }
OBL(C20, position_after_quad)(P(p), P(q)) { Path f; f.commands.push_back(C::quadTo({px, py}, {qx, qy})); IS(f.currentPosition(), qx, qy); }
OBL(C20, position_after_cubic)(P(p), P(q), P(r)) { Path f; f.commands.push_back(C::cubicTo({px, py}, {qx, qy}, {rx, ry})); IS(f.currentPosition(), rx, ry); }
OBL(C20, position_after_close)(P(p), P(q)) {
    Path f;
    f.commands.reserve(4);
    f.commands.push_back(C::moveTo({px, py}));
    f.commands.push_back(C::lineTo({qx, qy}));
    f.commands.push_back(C::closeSubpath());
    IS(f.currentPosition(), px, py);
}
OBL(C20, position_after_second_subpath)(P(p), P(q), P(r)) {
    Path f;
    f.commands.reserve(4);
    f.commands.push_back(C::moveTo({px, py}));
    f.commands.push_back(C::moveTo({qx, qy}));
    f.commands.push_back(C::cubicTo({rx, py}, {rx, ry}, {px, ry}));
    f.commands.push_back(C::closeSubpath());
    IS(f.currentPosition(), qx, qy);
}
OBL(C20, polyline_moves_then_draws)(P(p), P(q), P(r)) {
    Path f;
    std::vector<Point> v;
    v.push_back({px, py}); v.push_back({qx, qy}); v.push_back({rx, ry});
    Path& g = f.addPolyline(v);
    REQUIRE(&g == &f);
    REQUIRE(f.commands.size() == 3);
    REQUIRE(f.commands[0].type == K::MoveTo); REQUIRE(f.commands[1].type == K::LineTo); REQUIRE(f.commands[2].type == K::LineTo);
    IS(f.commands[0].p1, px, py); IS(f.commands[1].p1, qx, qy); IS(f.commands[2].p1, rx, ry);
}
OBL(C20, empty_polyline_draws_nothing)() { Path f; std::vector<Point> v; f.addPolyline(v); REQUIRE(f.empty()); }
