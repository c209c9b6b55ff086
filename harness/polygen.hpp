// Simple polygons with integer vertices, and exact geometry on them.
#pragma once
#include "gridgen.hpp"
typedef long long ll;
typedef std::pair<ll, ll> IP;
typedef vector<IP> IPoly;

static inline ll cross(IP a, IP b, IP c) { return (b.first - a.first) * (c.second - a.second) - (b.second - a.second) * (c.first - a.first); }
static inline int sgn(ll x) { return (x > 0) - (x < 0); }
static inline bool on_seg(IP a, IP b, IP p)
{
    return cross(a, b, p) == 0 && std::min(a.first, b.first) <= p.first && p.first <= std::max(a.first, b.first) && std::min(a.second, b.second) <= p.second && p.second <= std::max(a.second, b.second);
}
static inline bool segs_meet(IP a, IP b, IP c, IP d)
{
    int s1 = sgn(cross(a, b, c)), s2 = sgn(cross(a, b, d)), s3 = sgn(cross(c, d, a)), s4 = sgn(cross(c, d, b));
    if (s1 * s2 < 0 && s3 * s4 < 0) return true;
    return on_seg(a, b, c) || on_seg(a, b, d) || on_seg(c, d, a) || on_seg(c, d, b);
}
// corners only, no redundant vertex, not repeated at the end
static inline bool is_simple(const IPoly& p)
{
    int n = (int) p.size();
    if (n < 3) return false;
    for (int i = 0; i < n; ++i) {
        IP a = p[i], b = p[(i + 1) % n], c = p[(i + 2) % n];
        if (a == b) return false;
        if (cross(a, b, c) == 0) return false;
        for (int j = i + 2; j < n; ++j) {
            if (i == 0 && j == n - 1) continue;
            if (segs_meet(a, b, p[j], p[(j + 1) % n])) return false;
        }
    }
    return true;
}
static inline IPoly corners(const IPoly& q)
{
    IPoly p = q;
    bool again = true;
    while (again && p.size() > 2) {
        again = false;
        for (size_t i = 0; i < p.size() && p.size() > 2; ++i) {
            size_t n = p.size();
            IP a = p[(i + n - 1) % n], b = p[i], c = p[(i + 1) % n];
            if (a == b || (cross(a, b, c) == 0 && on_seg(a, c, b))) { p.erase(p.begin() + i); again = true; break; }
        }
    }
    return p;
}
static const char* POLYKIND[] = {"outline", "star", "monotone", "random", "zigzag"};
// simple polygon, corners only; coordinates below about 2000 (once in a while: many vertices, coordinates up to about 10000)
static inline IPoly gen_ipoly(Rng& g, int* kindout = NULL)
{
    bool big = large(g);
    if (big) count("polygons with many vertices");
    for (;;) {
        IPoly p;
        int kind = g.i(0, 4);
        if (kind == 0) {
            int n1 = g.i(1, 12), n2 = g.i(1, 12);
            if (big) { n1 = g.i(8, 300); n2 = g.i(8, 2400 / n1); }
            Region r = region_disc(g, n1, n2);
            vector<double> D((size_t) (n1 + 1) * (n2 + 1), QNAN);
            // walk along the outline, keeping the region on the left
            int i = 0, j = 0;
            while (!r.at(i % n1, i / n1)) i++;
            j = i / n1; i %= n1;
            int i0 = i, j0 = j, d = 0;              // d: 0 +i, 1 +j, 2 -i, 3 -j
            static const int di[] = {1, 0, -1, 0}, dj[] = {0, 1, 0, -1};
            auto cellat = [&](int d, int side) -> bool {   // the cell left (0) or right (1) ahead of node (i, j)
                int a = d == 0 ? i : d == 1 ? (side ? i : i - 1) : d == 2 ? i - 1 : (side ? i - 1 : i);
                int b = d == 0 ? (side ? j - 1 : j) : d == 1 ? j : d == 2 ? (side ? j : j - 1) : j - 1;
                return r.at(a, b);
            };
            do {
                p.push_back({i, j});
                i += di[d]; j += dj[d];
                if (cellat(d, 1)) d = (d + 3) % 4;
                else if (!cellat(d, 0)) d = (d + 1) % 4;
            } while (!(i == i0 && j == j0));
            int a, b, c, e;
            do { a = g.i(-9, 9); b = g.i(-9, 9); c = g.i(-9, 9); e = g.i(-9, 9); if (g.p(0.4)) b = c = 0; } while (a * e - b * c == 0);
            for (auto& q : p) q = {a * q.first + b * q.second, c * q.first + e * q.second};
        } else if (kind == 1) {
            int k = g.i(3, 24), R = g.pick(vector<int>{3, 10, 200});
            if (big) { k = g.i(100, 700); R = 10000; }
            vector<IP> v;
            for (int q = 0; q < k; ++q) v.push_back({g.i(-R, R), g.i(-R, R)});
            std::sort(v.begin(), v.end(), [](IP a, IP b) { return atan2l(a.second, a.first) < atan2l(b.second, b.first); });
            for (auto& q : v) if (q.first || q.second) p.push_back(q);
            bool ok = p.size() >= 3;
            for (size_t q = 0; ok && q < p.size(); ++q) if (cross({0, 0}, p[q], p[(q + 1) % p.size()]) <= 0) ok = false;
            if (!ok) continue;
        } else if (kind == 2) {
            int a = g.i(0, 10), b = g.i(0, 10), H = g.pick(vector<int>{1, 2, 5, 100}), W = g.i(2, 40);
            if (big) { a = g.i(100, 600); b = g.i(0, 600); W = g.i(700, 2000); if (g.p(0.2)) { a *= 4; b *= 2; W *= 4; } }
            bool tr = g.p(0.5);
            std::set<int> xl, xu;
            for (int q = 0; q < a; ++q) xl.insert(g.i(1, W - 1));
            for (int q = 0; q < b; ++q) xu.insert(g.i(1, W - 1));
            p.push_back({0, 0});
            for (int x : xl) p.push_back({x, -g.i(1, H)});
            p.push_back({W, 0});
            for (auto it = xu.rbegin(); it != xu.rend(); ++it) p.push_back({*it, g.i(1, H)});
            if (tr) for (auto& q : p) std::swap(q.first, q.second);
        } else if (kind == 3) {
            if (big) continue;
            int k = g.i(3, 9), R = g.pick(vector<int>{3, 6, 30});
            for (int q = 0; q < k; ++q) p.push_back({g.i(-R, R), g.i(-R, R)});
            for (int t = 0; t < 200; ++t) {                 // 2-opt
                bool ch = false;
                for (int i = 0; i < k && !ch; ++i) for (int j = i + 2; j < k && !ch; ++j) {
                    if (i == 0 && j == k - 1) continue;
                    if (segs_meet(p[i], p[i + 1], p[j], p[(j + 1) % k])) { std::reverse(p.begin() + i + 1, p.begin() + j + 1); ch = true; }
                }
                if (!ch) break;
            }
        } else {
            int k = g.i(1, 8), H = g.i(1, 4), w = g.i(1, 3);
            if (big) k = g.i(60, 400);
            bool tr = g.p(0.5);
            for (int q = 0; q <= 2 * k; ++q) p.push_back({q * w, (q % 2 ? H : 0) + (g.p(0.3) ? g.i(0, 1) : 0)});
            for (int q = 2 * k; q >= 0; --q) p.push_back({q * w, p[q].second + H * 2 + g.i(0, 1)});
            if (tr) for (auto& q : p) std::swap(q.first, q.second);
        }
        p = corners(p);
        if (!is_simple(p)) continue;
        if (g.p(0.5)) std::reverse(p.begin(), p.end());
        if (kindout) *kindout = kind;
        return p;
    }
}
enum { P_OUT, P_IN, P_SLANT, P_FLAT, P_VERTEX };
// exact location of a point
static inline int where_is(const IPoly& p, IP q)
{
    int n = (int) p.size(), res = -1;
    bool in = false;
    for (int i = 0; i < n; ++i) {
        IP a = p[i], b = p[(i + 1) % n];
        if (a == q) return P_VERTEX;
        if (on_seg(a, b, q)) res = std::max(res, b == q ? (int) P_VERTEX : a.first == b.first || a.second == b.second ? (int) P_FLAT : (int) P_SLANT);
        if ((a.second > q.second) != (b.second > q.second)) {
            // the edge crosses the level of the point; to its right?
            ll c = cross(a, b, q);
            if (b.second > a.second ? c > 0 : c < 0) in = !in;
        }
    }
    if (res >= 0) return res;
    return in ? P_IN : P_OUT;
}
