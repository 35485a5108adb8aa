#pragma once
// operand width pairs: same and different storage classes, partially and completely filled top
// words, either operand the wider one
constexpr int PAIRS[][2] = {
    {1, 1}, {2, 2}, {3, 3}, {4, 2}, {1, 5}, {5, 5}, {8, 8}, {7, 8}, {3, 20}, {16, 16}, {17, 9}, {20, 20},
    {31, 32}, {32, 32}, {33, 32}, {40, 40}, {63, 63}, {64, 64}, {1, 64}, {40, 64}, {64, 20}, {24, 48},
    {64, 65}, {65, 64}, {8, 100}, {100, 8}, {1, 128}, {128, 33}, {20, 300}, {72, 12},
    {65, 65}, {66, 66}, {96, 96}, {100, 100}, {127, 127}, {128, 128}, {129, 128}, {100, 160}, {160, 100},
    {191, 192}, {192, 192}, {193, 192}, {200, 200}, {256, 256}, {300, 257}, {320, 320}, {70, 512}, {512, 512}, {1024, 1000}, {1500, 1500}, {2112, 2100},
#ifdef THOROUGH
    {2, 7}, {9, 9}, {15, 16}, {12, 13}, {18, 18}, {28, 28}, {33, 33}, {47, 47}, {50, 64}, {56, 56}, {62, 62},
    {64, 1}, {2, 65}, {66, 2}, {32, 96}, {96, 32}, {64, 128}, {128, 64}, {64, 192}, {67, 67}, {80, 80}, {90, 91},
    {120, 120}, {126, 126}, {130, 130}, {144, 144}, {180, 180}, {190, 190}, {194, 194}, {250, 251}, {255, 255}, {257, 257},
    {384, 384}, {385, 383}, {448, 449}, {511, 511}, {513, 513}, {640, 640}, {700, 100}, {1000, 1000}, {1023, 1025}, {2048, 2048},
#endif
};
constexpr int WIDTHS[] = {
    1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 28, 31, 32, 33, 36, 40, 48, 50, 56, 60, 62, 63, 64, 65, 66, 67, 68, 72, 80, 90,
    95, 96, 97, 100, 112, 120, 126, 127, 128, 129, 130, 144, 160, 180, 190, 191, 192, 193, 194, 200, 224, 250, 255, 256, 257, 258, 300,
    319, 320, 321, 384, 448, 500, 511, 512, 513, 640, 1000, 1024, 1500, 2112,
#ifdef THOROUGH
    11, 13, 14, 18, 19, 21, 22, 23, 25, 26, 27, 29, 30, 34, 35, 37, 38, 39, 41, 42, 43, 44, 45, 46, 47, 49, 51, 52, 53, 54, 55, 57, 58, 59, 61,
    69, 70, 71, 73, 75, 77, 81, 85, 88, 93, 94, 99, 104, 110, 125, 131, 136, 140, 150, 168, 176, 184, 188, 189, 195, 196, 208, 240, 248, 252, 254, 259,
    260, 264, 272, 288, 318, 322, 336, 352, 383, 385, 400, 416, 447, 449, 480, 510, 514, 575, 576, 577, 600, 639, 641, 700, 704, 767, 768, 769, 800,
    832, 896, 900, 960, 1001, 1023, 1025, 1088, 1200, 2000, 2047, 2048,
#endif
};
// which sign/kind combinations of a pair are built: K 0 = logic/logic, 1 = bit/bit, 2 = logic/bit
constexpr bool combo(size_t i, bool sa, bool sb, int k) {
#ifdef THOROUGH
    return k < 2 || sa == sb || i % 2 == 0;
#else
    if (k == 0) return sa == sb || sa == (i % 2 == 0);
    if (k == 1) return sa == sb || sa == (i % 2 == 1);
    return (i % 4) == size_t(sa * 2 + sb);
#endif
}
// every width up to a limit: bugs that need one particular width have nowhere to hide. each width
// is built with one or two of the kind/sign combinations, chosen by the width
#ifdef NOSWEEP
constexpr int SWEEP_END = 0;
#else
constexpr int SWEEP_END = thorough ? 330 : 200;
#endif
constexpr auto SWEEP = [] {
    std::array<int, SWEEP_END> r{};
    for (size_t i = 0; i < r.size(); i++) r[i] = int(i) + 1;
    return r;
}();
constexpr int partner(int w) { return 1 + (w * 37 + 11) % 193; }
template <class F> void sweep(F f) {
    mv::reg_weight = 0.25;
    each<SWEEP, 8>([&]<size_t I>() { f.template operator()<int(I) + 1>(); });
    mv::reg_weight = 1;
}
// pairs of operand types with a left operand of every width: same width and another one
template <class F> void sweep_pairs(F f) {
    sweep([&]<int w>() {
        constexpr bool sa = w & 1, sb = (w >> 1) & 1;
        constexpr int v = partner(w);
        f.template operator()<LW<w, sa>, VW<w, sb, w % 5 != 0>>();
        f.template operator()<BW<w, !sa>, BW<w, sb>>();
        f.template operator()<VW<w, sb, w % 3 != 0>, VW<v, !sa, w % 3 == 1>>();
    });
}
template <class F> void sweep_types(F f) {
    sweep([&]<int w>() {
        f.template operator()<LW<w, w & 1>>();
        f.template operator()<BW<w, !(w & 1)>>();
    });
}
// types of indices and select bases: narrow, native and multi-word, both signednesses
constexpr int IXW[] = {9, 70, 33, 64, 100, 5, 129, 32, 12, 65, 3, 200, 80};
template <int n, bool is4> using IX = VW<IXW[n % 13], bool((n / 2) & 1), is4>;
// two operands in every combination of kind (logic or bit), sign, storage class (native or several
// words) and order of widths; the widths themselves differ from one combination to the next
constexpr int XW[8][4][2] = {
    {{13, 37}, {5, 8}, {30, 64}, {33, 60}}, {{21, 21}, {64, 64}, {32, 32}, {8, 8}}, {{37, 13}, {64, 31}, {16, 9}, {60, 47}},
    {{40, 90}, {64, 128}, {7, 65}, {32, 200}}, {{90, 24}, {128, 64}, {66, 1}, {150, 40}},
    {{70, 150}, {128, 192}, {65, 66}, {100, 128}}, {{100, 100}, {128, 128}, {65, 65}, {191, 191}}, {{150, 70}, {192, 128}, {129, 128}, {130, 67}},
};
constexpr std::array<int, 128> CROSS{};
// f.template operator()<X, Y>() for each; bit with logic (which few operations accept) only if BL
template <bool BL = false, class F> void cross(F f) {
    mv::reg_weight = 0.5;
    each<CROSS, 3>([&]<size_t I>() {
        constexpr size_t r = I % 8, sg = I / 8 % 4, k = I / 32, v = (sg + k) % 4;
        if constexpr (BL || k != 3) f.template operator()<VW<XW[r][v][0], bool(sg & 1), k == 0 || k == 2>, VW<XW[r][v][1], bool(sg & 2), k == 0 || k == 3>>();
    });
    mv::reg_weight = 1;
}
