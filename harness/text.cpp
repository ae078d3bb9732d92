// U06: separated values and the textual forms of the geometric types.
#include "geo.hpp"
#include "CSV.h"
#include <climits>

template<typename T>
static std::string shown(const T &x) {
    std::stringstream s;
    s << x;
    return s.str();
}

// ---- separated values --------------------------------------------------------------------------------
struct Own { int a, b; };
static std::ostream &operator<<(std::ostream &o, const Own &x) { return o << x.a << "/" << x.b; }

template<typename... A>
static void compare(const A &... a) {
    std::vector<std::string> f{shown(a)...};
    std::string want;
    for (size_t i = 0; i < f.size(); ++i) { if (i) want += CSV::SEP; want += f[i]; }
    mc::describe("csv of '" + want + "'");
    std::string got = CSV::csv(a...);
    mc::requireF(got == want, [&] { return "csv yields '" + got + "', expected '" + want + "'"; });
    mc::state(mc::hashStr(want + "|" + std::to_string(f.size())));
}

template<int LEFT, typename... A>
static void fields(mc::Choice &c, const A &... a) {
    if (sizeof...(a) == 1) c.shard();
    if constexpr (LEFT == 0) compare(a...);
    else {
        static const std::vector<std::string> S{"a", "", "x y", "1.5", "-"};
        switch (c.pick(6)) {
            case 0: compare(a...); break;
            case 1: fields<LEFT - 1>(c, a..., c.of(S)); break;
            case 2: fields<LEFT - 1>(c, a..., c.of(std::vector<long>{0, -7, 123456789, LONG_MIN})); break;
            case 3: fields<LEFT - 1>(c, a..., c.of(std::vector<double>{0, -0.5, 1e300, 1.0 / 3})); break;
            case 4: fields<LEFT - 1>(c, a..., c.of(std::vector<char>{'q', ' '})); break;
            default: fields<LEFT - 1>(c, a..., Own{1, 2});
        }
    }
}

MC_SCENARIO("csv of types", 0, 0, 3) { fields<2>(c); }

// longer lists of one type whose value decides what is printed
struct Any {
    int k;
};
static std::ostream &operator<<(std::ostream &o, const Any &x) {
    static const char *T[] = {"a", "", "x y", " ", "-1.5"};
    return o << T[x.k];
}

template<size_t... I>
static void many(const std::vector<Any> &v, std::index_sequence<I...>) { compare(v[I]...); }

MC_SCENARIO("csv", 0, 0, 3) {
    std::vector<Any> v(c.pick(mc::thorough() ? 9 : 7));
    for (auto &x : v) { x.k = c.pick(5); if (&x == &v[0]) c.shard(); }
    if (v.empty()) c.shard();
    switch (v.size()) {
        case 0: compare(); break;
        case 1: many(v, std::make_index_sequence<1>()); break;
        case 2: many(v, std::make_index_sequence<2>()); break;
        case 3: many(v, std::make_index_sequence<3>()); break;
        case 4: many(v, std::make_index_sequence<4>()); break;
        case 5: many(v, std::make_index_sequence<5>()); break;
        case 6: many(v, std::make_index_sequence<6>()); break;
        case 7: many(v, std::make_index_sequence<7>()); break;
        default: many(v, std::make_index_sequence<8>());
    }
}

// ---- textual forms -----------------------------------------------------------------------------------
// the numbers of a text, in order
static std::vector<std::string> numbers(const std::string &s) {
    std::vector<std::string> r;
    std::string cur;
    auto flush = [&] {
        bool digit = cur == "inf" || cur == "-inf" || cur == "nan" || cur == "-nan";
        for (char ch : cur) digit |= isdigit((unsigned char) ch) > 0;
        if (digit) r.push_back(cur);
        cur.clear();
    };
    for (char ch : s) {
        if (isalnum((unsigned char) ch) || ch == '.' || ch == '-' || ch == '+') cur += ch;
        else flush();
    }
    flush();
    return r;
}

static std::string join(const std::vector<std::string> &v) {
    std::string r;
    for (auto &x : v) r += x + " ";
    return r;
}

template<typename T>
static void form(const char *name, const T &x, const std::vector<std::string> &want) {
    std::string t = to_string(x), o = shown(x);
    mc::describe(std::string(name) + " " + t);
    mc::requireF(numbers(t) == want, [&] { return std::string("the text of the ") + name + " is '" + t + "', its components are " + join(want); });
    mc::requireF(o == t, [&] { return std::string("printing the ") + name + " yields '" + o + "', its text is '" + t + "'"; });
    mc::requireF(t.find('\n') == std::string::npos, [&] { return std::string("the text of the ") + name + " spans several lines"; });
    mc::state(mc::hashStr(name + t));
}

template<uint D, typename P>
static void shapes(mc::Choice &c) {
    std::vector<P> V{0, -1, P(2.5), P(1e-7), P(123456789), P(-1.0 / 3)};
    if (!mc::thorough()) V.resize(D == 2 ? 6 : 4);
    auto vec = [&](std::vector<std::string> &w) { dVector<D, P> v; for (uint d = 0; d < D; ++d) { v[d] = c.of(V); w.push_back(shown(v[d])); } return v; };
    std::vector<std::string> w;
    int kind = c.pick(6);
    c.shard();
    if (kind == 0) { auto v = vec(w); form("vector", v, w); dPoint<D, P> p; p.coords = v; form("point", p, w); }
    else if (kind == 1) {
        dBox<D, P> b;
        for (uint d = 0; d < D; ++d) { b.low[d] = c.of(V); b.high[d] = c.of(V); w.push_back(shown(b.low[d])); w.push_back(shown(b.high[d])); }
        form("box", b, w);
    } else if (kind == 2) {
        dSphere<D, P> s;
        s.center = vec(w);
        s.radius = c.of(V);
        w.push_back(shown(s.radius));
        form("sphere", s, w);
    } else if (kind == 3) {
        dSimplex<D, P> s;
        std::vector<tIdType> ids{1, 27, dPoint<D, P>::cINF, ~tIdType(0)};
        s.id = c.of(std::vector<tIdType>{3, 0, dSimplex<D, P>::cINF});
        w.push_back(shown(s.id));
        for (uint d = 0; d < D + 1; ++d) { s.vertices[d] = c.of(ids); w.push_back(shown(s.vertices[d])); }
        for (uint d = 0; d < D + 1; ++d) { s.neighbors[d] = c.of(ids); w.push_back(shown(s.neighbors[d])); }
        form("simplex", s, w);
    } else if (kind == 4) {
        dPointStats<D, P> s;
        std::vector<P> few{V[1], V[2]};
        for (auto *v : {&s.min, &s.mid, &s.max}) for (uint d = 0; d < D; ++d) { (*v)[d] = c.of(few); w.push_back(shown((*v)[d])); }
        form("statistics", s, w);
    } else {
        std::vector<tIdType> ids = c.of(std::vector<std::vector<tIdType>>{{}, {5}, {5, 9}, {1, 2, 3, 4, 700}});
        Point_Ids set(8);
        for (auto x : ids) set.insert(x);
        Partition<D, P> p(std::move(set));
        p.id = c.of(std::vector<uint>{0, 17});
        w.push_back(shown(p.id));
        for (uint d = 0; d < D; ++d) { p.bounds.low[d] = c.of(V); p.bounds.high[d] = V[d]; w.push_back(shown(p.bounds.low[d])); w.push_back(shown(p.bounds.high[d])); }
        std::string t = to_string(p);
        auto n = numbers(t);
        mc::describe("partition " + t);
        bool ok = n.size() == w.size() + ids.size() && std::equal(w.begin(), w.end(), n.begin());
        if (ok) {
            std::multiset<std::string> a(n.begin() + w.size(), n.end()), b;
            for (auto x : ids) b.insert(shown(x));
            ok = a == b;
        }
        mc::requireF(ok, [&] { return "the text of the partition is '" + t + "', expected " + join(w) + "and its points"; });
        mc::requireF(shown(p) == t, [&] { return std::string("printing the partition differs from its text"); });
        mc::state(mc::hashStr(t));
    }
}

MC_SCENARIO("2D float", 0, 0, 3) { shapes<2, float>(c); }
MC_SCENARIO("2D double", 0, 0, 3) { shapes<2, double>(c); }
MC_SCENARIO("3D float", 0, 0, 3) { shapes<3, float>(c); }
MC_SCENARIO("3D double", 0, 0, 3) { shapes<3, double>(c); }

MC_MAIN
