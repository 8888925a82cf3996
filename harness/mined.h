// Instances found by tools/mine.cc: topology, base weights (before doubling) and syndrome. Chosen because together they reach the rarely
// executed code of flooder and matcher: blossoms forming, growing, shattering inside a tree, nested blossoms, degenerate implosions, trees
// meeting boundary matches, regions shrinking off nodes.
#pragma once
#include "scn.h"
struct Mined {
    int n;
    uint64_t synd;
    std::vector<Ed> e;
    std::vector<int> w;
};
static const Mined* mined(int k) {
    static const std::vector<Mined>* t = new std::vector<Mined>{
        {8, 0xff, {{4, 6}, {3, 5}, {1, 5}, {2, -1}, {2, 5}, {0, 4}, {1, 7}, {1, 4}, {4, 5}}, {7, 1, 2, 1, 1, 0, 11, 7, 0}},
        {8, 0x6e, {{3, 4}, {0, 6}, {3, 6}, {5, 7}, {2, 7}, {0, -1}, {0, 7}, {4, 7}, {1, 4}}, {1, 1, 4, 1, 6, 10, 2, 11, 6}},
        {8, 0xff, {{2, 4}, {2, 6}, {2, 3}, {4, 6}, {0, 2}, {1, 3}, {0, 3}, {5, -1}, {1, 7}, {3, 7}, {3, 5}}, {4, 10, 1, 11, 9, 2, 0, 0, 9, 9, 2}},
        {7, 0x7f, {{0, 4}, {3, 6}, {1, 5}, {2, 6}, {4, 5}, {0, 6}, {1, 3}, {3, -1}}, {1, 8, 1, 7, 1, 4, 1, 1}},
        {8, 0xff, {{1, 7}, {1, 6}, {4, 5}, {0, 5}, {1, 4}, {0, 6}, {2, 4}, {3, 4}}, {2, 2, 0, 9, 0, 11, 3, 4}},
        {7, 0x7f, {{3, 5}, {6, -1}, {0, 4}, {0, 3}, {1, 3}, {0, 6}, {3, 4}, {2, 3}, {1, 6}}, {7, 11, 2, 9, 5, 2, 1, 12, 5}},
        {8, 0xff, {{2, 3}, {4, 6}, {1, 4}, {0, 4}, {1, 5}, {3, 5}, {5, 7}}, {2, 2, 1, 12, 0, 1, 5}},
        {8, 0xff, {{2, 5}, {3, 5}, {1, 3}, {3, 6}, {0, 3}, {2, 3}, {7, -1}, {2, 6}, {1, 7}, {0, 2}, {2, 7}, {4, 6}}, {12, 1, 11, 0, 11, 12, 2, 0, 9, 12, 6, 3}},
        {8, 0x1c, {{0, 7}, {1, 4}, {5, 7}, {3, 7}, {2, 5}, {0, 4}, {2, 6}, {0, -1}, {6, 7}}, {0, 2, 1, 0, 7, 10, 1, 4, 1}},
        {8, 0xff, {{1, 5}, {5, 6}, {0, 7}, {2, -1}, {0, 5}, {4, -1}, {3, 7}, {4, 7}}, {2, 4, 0, 9, 0, 1, 1, 1}},
        {7, 0x7f, {{4, 5}, {3, -1}, {3, 6}, {2, 6}, {3, 4}, {1, 6}, {0, 6}, {0, 1}, {2, 5}}, {1, 11, 9, 4, 9, 7, 5, 11, 4}},
        {7, 0x7f, {{0, 3}, {2, 5}, {6, -1}, {1, 3}, {0, 4}, {5, 6}, {4, 6}, {1, 2}}, {10, 8, 7, 10, 11, 6, 10, 9}},
        {8, 0xff, {{1, 3}, {5, 6}, {0, 1}, {2, 6}, {2, 4}, {1, -1}, {5, 7}, {2, 3}, {2, 5}, {1, 5}, {3, 6}, {3, 5}, {3, 7}}, {3, 6, 8, 0, 12, 8, 7, 0, 5, 8, 9, 5, 2}},
        {7, 0x7f, {{3, 4}, {3, 5}, {2, 3}, {4, 6}, {1, 4}, {3, 6}, {0, 4}, {1, 6}, {1, -1}}, {4, 7, 11, 9, 0, 10, 1, 12, 1}},
        {5, 0x1f, {{2, 3}, {2, -1}, {0, 1}, {2, 4}, {0, 4}, {1, 3}}, {7, 10, 2, 4, 3, 5}},
        {6, 0x3f, {{0, 3}, {3, 5}, {0, 1}, {2, 4}, {0, 4}, {2, 5}}, {4, 10, 8, 2, 2, 7}},
        {11, 0x7ff, {{2, 4}, {5, 9}, {5, 6}, {5, 10}, {0, 1}, {0, 5}, {1, -1}, {0, 7}, {0, 2}, {3, 8}, {3, 9}, {1, 9}, {1, 10}}, {4, 2, 4, 12, 0, 2, 12, 4, 1, 5, 2, 0, 11}},
        {8, 0x5f, {{5, 7}, {1, 7}, {0, 7}, {5, 6}, {4, 7}, {2, 5}, {3, 7}, {0, 5}, {4, -1}}, {0, 1, 11, 1, 10, 2, 2, 3, 2}},
        {8, 0xff, {{3, 6}, {4, 6}, {5, 6}, {6, 7}, {4, 5}, {0, 6}, {2, 3}, {1, 3}, {0, -1}}, {1, 1, 1, 6, 8, 0, 10, 12, 0}},
        {9, 0x1ed, {{1, 5}, {0, 6}, {2, -1}, {2, 6}, {2, 5}, {0, 8}, {0, 3}, {1, 7}, {3, 8}, {3, 4}, {4, 5}, {0, 1}}, {11, 1, 5, 1, 2, 9, 1, 1, 2, 1, 1, 9}},
    };
    return &(*t)[k];
}
static const int NUM_MINED = 20;
