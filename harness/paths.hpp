/* Exact set of attainable published-seed counts over all challenges with w
 * hidden rounds, by dynamic programming over the tree, with reconstruction. */
#pragma once
#include "model.hpp"
#include <bitset>
#include <map>
#include <set>
typedef std::bitset<1024> Counts;
struct PathDP {
    const Params &P; std::map<std::tuple<int,int,int>, Counts> memo;
    explicit PathDP(const Params &p) : P(p) {}
    static int half(int h, int cap) { int s = 1 << (h - 1); return cap < s ? cap : s; }
    /* subtree of height h whose first cap leaves are rounds, w>0 hidden: attainable counts inside */
    const Counts &get(int h, int cap, int w) {
        auto key = std::make_tuple(h, cap, w); auto it = memo.find(key); if (it != memo.end()) return it->second;
        Counts r;
        if (h == 0) { if (w == 1 && cap >= 1) r[0] = 1; }
        else { int cl = half(h, cap), cr = cap - cl;
            for (int a = 0; a <= w; a++) { int b = w - a; if (a > cl || b > cr) continue;
                Counts x, y; if (a) x = get(h-1, cl, a); else x[1] = 1; if (b) y = get(h-1, cr, b); else y[1] = 1;
                for (int i = 0; i < 512; i++) if (x[i]) r |= y << i; } }
        return memo[key] = r;
    }
    Counts all(int w) { return get(P.depth(), P.T, w); }
    /* a hidden set of size w with exactly this count; flavour selects among splits */
    void build(int h, int cap, int w, int count, int base, Bytes &hid, u64 flavour) {
        if (h == 0) { hid[base] = 1; return; }
        int cl = half(h, cap), cr = cap - cl; std::vector<std::array<int,4>> opts;
        for (int a = 0; a <= w; a++) { int b = w - a; if (a > cl || b > cr) continue;
            Counts x, y; if (a) x = get(h-1, cl, a); else x[1] = 1; if (b) y = get(h-1, cr, b); else y[1] = 1;
            for (int i = 0; i <= count && i < 1024; i++) if (x[i] && y[count-i]) opts.push_back({a, b, i, count - i}); }
        auto o = opts[(flavour*0x9E3779B97F4A7C15ULL >> 20) % opts.size()]; flavour = flavour*6364136223846793005ULL + 1442695040888963407ULL;
        if (o[0]) build(h-1, cl, o[0], o[2], base, hid, flavour);
        if (o[1]) build(h-1, cr, o[1], o[3], base + (1 << (h-1)), hid, flavour*31 + 7);
    }
    Bytes hidden(int w, int count, u64 flavour) { Bytes h(P.T, 0); if (!flavour) flavour = 0; build(P.depth(), P.T, w, count, 0, h, flavour); return h; }
};
