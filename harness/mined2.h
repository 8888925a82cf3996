// Instances selected from random ones so that together they tell apart from the real decoder a large set of single-change variants of it
// (operators, conditions, statements), including those that almost never matter. n, syndrome, earlier syndrome (0: none), edges, base weights.
#pragma once
#include "scn.h"
struct Camp {
    int n;
    uint64_t synd, earlier;
    std::vector<Ed> e;
    std::vector<int> w;
};
static const std::vector<Camp>& camp_single() {
    static const std::vector<Camp>* t = new std::vector<Camp>{
        {10, 0x1ff, 0x0, {{4, 6}, {2, 9}, {3, 6}, {0, 9}, {8, 9}, {7, 2}, {1, 2}, {4, 8}, {7, 6}, {4, 1}, {8, -1}, {5, 8}}, {10, 19, 19, 13, 12, 9, 18, 2, 7, 15, 4, 3}},
        {8, 0x3f, 0x0, {{6, 3}, {7, 3}, {2, 0}, {6, 2}, {6, 1}, {2, 5}, {2, 4}, {4, 3}, {7, 4}, {7, 1}, {0, 3}}, {2, 18, 2, 1, 14, 0, 6, 5, 4, 16, 10}},
        {6, 0x3f, 0x0, {{3, 4}, {5, 0}, {3, 2}, {4, 0}, {5, -1}, {1, 0}, {3, 0}, {4, -1}, {0, -1}, {3, 5}}, {3, 7, 20, 12, 11, 13, 4, 0, 6, 9}},
        {5, 0x1f, 0x0, {{1, 4}, {1, 0}, {1, 2}, {4, 3}, {3, 2}, {3, -1}, {3, 0}}, {6, 1, 4, 3, 5, 3, 0}},
        {6, 0x1f, 0x0, {{4, 3}, {1, 5}, {5, 3}, {2, -1}, {2, 4}, {0, 2}}, {1, 2, 1, 2, 1, 2}},
        {6, 0xf, 0x0, {{2, 1}, {1, -1}, {0, 4}, {0, -1}, {1, 3}, {0, 1}, {1, 5}}, {5, 4, 1, 1, 3, 1, 2}},
        {5, 0x1f, 0x0, {{4, 0}, {1, 2}, {2, -1}, {1, 3}, {3, 4}, {4, 2}, {3, 0}}, {19, 16, 20, 9, 14, 8, 18}},
        {10, 0xff, 0x0, {{7, -1}, {5, 1}, {9, 5}, {9, -1}, {9, 7}, {1, -1}, {3, 7}, {4, 7}, {9, 6}, {8, 3}, {2, -1}, {3, 2}, {6, 0}, {6, 4}}, {16, 17, 2, 12, 0, 1, 13, 12, 7, 15, 20, 19, 18, 16}},
        {6, 0x7, 0x0, {{5, 2}, {5, -1}, {5, 0}, {3, 1}, {3, 4}, {4, 2}, {3, 2}, {4, 0}, {3, 5}}, {5, 4, 13, 9, 19, 19, 14, 7, 13}},
        {5, 0x1f, 0x0, {{1, 4}, {3, 4}, {2, -1}, {3, 2}, {0, 2}, {4, -1}, {0, 4}, {2, 4}, {3, 1}}, {16, 15, 2, 2, 20, 11, 18, 6, 14}},
        {8, 0xff, 0x0, {{0, -1}, {7, 6}, {1, 7}, {4, 7}, {4, -1}, {0, 1}, {1, 6}, {0, 2}, {3, 5}, {3, 2}, {6, 5}, {0, 7}}, {19, 8, 9, 15, 6, 9, 14, 19, 20, 12, 20, 17}},
        {5, 0x1f, 0x0, {{4, 1}, {0, 1}, {0, -1}, {0, 4}, {2, 0}, {3, 1}}, {1, 1, 1, 4, 3, 6}},
        {6, 0x3f, 0x0, {{0, 1}, {5, 3}, {5, 4}, {5, 1}, {2, 5}, {0, 3}}, {1, 0, 1, 2, 1, 0}},
        {6, 0x1f, 0x0, {{4, 5}, {5, 3}, {5, 2}, {1, 2}, {5, 0}}, {3, 2, 7, 14, 15}},
        {4, 0x7, 0x0, {{1, -1}, {2, 3}, {2, 1}, {0, -1}, {0, 3}, {3, -1}, {0, 1}}, {8, 1, 7, 12, 3, 0, 12}},
        {6, 0x1f, 0x0, {{5, 2}, {3, -1}, {0, 5}, {3, 2}, {5, 3}, {1, 5}, {4, 2}, {0, 3}, {4, 3}}, {11, 20, 7, 14, 9, 7, 15, 5, 0}},
        {8, 0xff, 0x0, {{3, 4}, {3, 5}, {2, 5}, {6, 7}, {1, 7}, {1, 0}, {1, 3}, {3, 2}, {5, 7}, {0, 2}}, {16, 15, 4, 19, 4, 13, 19, 3, 5, 13}},
        {9, 0x1ff, 0x0, {{1, 4}, {5, 2}, {4, 2}, {0, 3}, {5, 6}, {6, 4}, {6, 7}, {5, 4}, {5, 8}, {1, 2}, {5, -1}, {0, 2}}, {11, 4, 16, 20, 1, 3, 19, 16, 14, 12, 11, 18}},
        {6, 0x3f, 0x0, {{5, 0}, {5, 4}, {1, 4}, {1, 5}, {0, 4}, {2, 4}, {0, 3}}, {6, 4, 16, 16, 16, 13, 14}},
        {3, 0x7, 0x0, {{1, 2}, {0, 2}, {1, 0}}, {1, 1, 1}},
        {3, 0x7, 0x0, {{2, 1}, {0, -1}, {2, -1}, {1, -1}, {0, 1}}, {2, 3, 1, 4, 3}},
        {6, 0x7, 0x0, {{2, 4}, {5, -1}, {1, 0}, {3, 2}, {1, 5}, {2, 1}, {3, 5}}, {1, 1, 4, 2, 1, 4, 2}},
        {5, 0x7, 0x0, {{1, 0}, {2, 4}, {4, -1}, {4, 1}}, {3, 2, 4, 0}},
        {8, 0xff, 0x0, {{0, 1}, {6, 1}, {2, 7}, {0, 5}, {1, 2}, {1, 4}, {3, 4}}, {1, 0, 1, 2, 0, 2, 1}},
        {9, 0x1ff, 0x0, {{0, 3}, {6, 4}, {1, 5}, {7, 1}, {6, 8}, {0, 4}, {6, -1}, {1, 4}, {6, 1}, {0, 6}, {7, 6}, {0, 1}, {0, 2}}, {1, 3, 2, 0, 5, 4, 2, 4, 4, 1, 3, 4, 5}},
        {9, 0x3f, 0x0, {{3, 6}, {0, 4}, {0, 5}, {4, 1}, {6, -1}, {0, 1}, {0, 2}, {7, 8}, {3, 8}, {7, 5}, {8, 1}}, {13, 2, 14, 11, 6, 2, 17, 0, 11, 13, 2}},
        {8, 0xff, 0x0, {{1, 3}, {7, -1}, {2, 4}, {3, 0}, {6, 0}, {1, -1}, {2, 6}, {2, 3}, {5, 0}, {7, 3}, {4, 0}}, {3, 0, 6, 2, 2, 5, 6, 2, 6, 1, 4}},
        {9, 0x1ff, 0x0, {{2, 6}, {6, 4}, {0, 8}, {5, 1}, {2, 1}, {2, -1}, {2, 0}, {7, 4}, {7, 6}, {5, 6}, {1, 4}, {2, 7}, {3, 5}}, {1, 5, 5, 5, 6, 3, 1, 4, 3, 4, 4, 6, 6}},
        {5, 0x7, 0x0, {{2, 0}, {4, 1}, {2, 4}, {4, 0}, {4, -1}}, {15, 18, 5, 14, 10}},
        {9, 0xff, 0x0, {{1, 2}, {1, 3}, {1, 4}, {0, 6}, {6, 3}, {7, 6}, {5, 3}, {4, 6}}, {2, 0, 2, 1, 0, 0, 2, 0}},
        {6, 0x1f, 0x0, {{3, -1}, {5, 2}, {0, 3}, {0, 1}, {5, -1}, {3, 2}, {0, 4}, {0, -1}}, {4, 2, 1, 5, 2, 2, 5, 4}},
        {5, 0x1f, 0x0, {{0, 4}, {1, 2}, {1, -1}, {1, 0}, {3, 4}, {3, 2}}, {15, 10, 18, 19, 6, 8}},
        {9, 0x1ff, 0x0, {{5, 0}, {6, 5}, {0, 7}, {2, 4}, {1, 0}, {6, 4}, {8, 4}, {3, 5}}, {1, 1, 2, 2, 2, 2, 2, 0}},
        {10, 0x7f, 0x0, {{6, 8}, {1, 7}, {6, 9}, {5, 2}, {1, 6}, {0, 9}, {5, 6}, {4, 3}, {7, 8}, {3, 8}, {0, 2}, {6, 2}}, {1, 1, 1, 0, 1, 1, 1, 2, 0, 0, 2, 0}},
        {9, 0x7f, 0x0, {{3, -1}, {1, 6}, {0, -1}, {0, 2}, {6, 8}, {1, 5}, {4, 8}, {0, 3}, {6, 2}, {5, 3}, {5, 2}}, {8, 18, 19, 15, 9, 19, 7, 6, 6, 16, 4}},
        {10, 0x3ff, 0x0, {{3, 2}, {2, -1}, {0, 8}, {7, -1}, {1, 6}, {4, 5}, {1, 0}, {3, 8}, {6, 8}, {6, 7}, {4, -1}, {2, 5}, {3, 4}, {5, 7}}, {4, 4, 3, 4, 5, 2, 4, 2, 4, 4, 3, 2, 1, 0}},
        {9, 0x1ff, 0x0, {{6, 1}, {8, 1}, {2, 7}, {4, 7}, {8, 2}, {3, -1}, {0, 5}, {2, -1}, {4, 1}, {3, 7}, {8, 3}}, {4, 4, 3, 3, 6, 0, 2, 3, 5, 1, 0}},
        {5, 0x1f, 0x0, {{3, 0}, {0, -1}, {4, 0}, {4, 2}, {0, 2}, {1, 2}}, {10, 5, 19, 0, 5, 16}},
        {4, 0x1, 0x0, {{0, -1}, {1, -1}, {2, 3}, {1, 2}, {0, 3}}, {6, 0, 0, 2, 2}},
        {5, 0x1f, 0x0, {{2, 0}, {4, 3}, {4, 1}, {1, 0}, {2, -1}}, {20, 16, 7, 13, 10}},
        {7, 0x3f, 0x0, {{4, 0}, {2, 0}, {1, 0}, {2, 4}, {5, 1}, {1, 2}, {5, 2}, {6, 0}, {6, 3}}, {6, 3, 2, 5, 4, 2, 5, 3, 2}},
        {9, 0x1ff, 0x0, {{8, 0}, {5, 0}, {2, 1}, {7, 1}, {2, -1}, {3, 0}, {6, 3}, {3, 4}, {5, 1}}, {5, 4, 1, 6, 5, 1, 6, 1, 3}},
        {5, 0x1f, 0x0, {{3, 0}, {1, 4}, {2, 4}, {1, 3}, {3, 4}, {1, 0}, {0, 4}, {1, -1}}, {11, 4, 7, 9, 8, 6, 4, 13}},
        {9, 0x7f, 0x0, {{3, 8}, {6, 8}, {4, 0}, {2, 8}, {3, -1}, {2, 1}, {5, 7}, {7, 8}, {3, 4}}, {1, 3, 3, 0, 4, 5, 6, 0, 4}},
        {10, 0x7f, 0x0, {{5, 6}, {6, 1}, {5, 3}, {0, 6}, {5, 2}, {5, -1}, {2, 6}, {6, 4}, {7, 3}, {0, 3}, {9, 4}}, {2, 15, 11, 3, 4, 19, 18, 3, 5, 15, 13}},
        {8, 0x1f, 0x0, {{1, 7}, {1, 6}, {2, -1}, {2, 4}, {7, -1}, {5, 7}, {5, 3}, {5, -1}, {3, 2}, {7, 0}, {5, 0}}, {14, 5, 17, 11, 19, 6, 10, 14, 20, 9, 8}},
        {9, 0x3f, 0x0, {{4, 5}, {8, 4}, {1, 5}, {2, 5}, {7, 3}, {7, 2}, {0, -1}, {6, 8}, {0, 5}}, {20, 4, 17, 5, 18, 17, 2, 5, 14}},
        {7, 0x1f, 0x0, {{5, 2}, {3, 4}, {5, 4}, {4, -1}, {3, 1}, {5, 6}, {6, 3}, {2, 4}, {0, 6}}, {14, 3, 10, 13, 3, 10, 6, 19, 16}},
        {6, 0xf, 0x0, {{2, 5}, {3, -1}, {1, 2}, {1, 5}, {1, 0}, {3, 5}, {1, -1}, {4, 0}, {0, 2}}, {17, 13, 6, 19, 14, 8, 19, 2, 7}},
        {4, 0xf, 0x0, {{1, -1}, {2, 1}, {0, 2}, {3, 1}, {0, 1}, {0, 3}, {2, 3}}, {2, 6, 9, 8, 12, 13, 9}},
        {5, 0x1f, 0x0, {{4, 3}, {1, 3}, {4, 1}, {4, 0}, {3, 0}, {0, -1}, {4, 2}, {4, -1}}, {0, 18, 9, 7, 13, 13, 20, 14}},
        {7, 0x7f, 0x0, {{0, 5}, {0, 1}, {3, 6}, {4, 6}, {1, 4}, {5, -1}, {1, 2}}, {0, 2, 1, 0, 1, 2, 2}},
        {5, 0x1f, 0x0, {{3, 4}, {0, 4}, {3, 2}, {2, 1}, {0, 1}}, {2, 2, 0, 1, 1}},
        {5, 0x1f, 0x0, {{0, 1}, {4, 3}, {0, 3}, {0, -1}, {1, 2}, {4, 2}}, {18, 15, 16, 12, 15, 17}},
        {5, 0x1f, 0x0, {{2, 4}, {3, 2}, {0, 2}, {0, 3}, {1, 4}, {4, -1}, {0, -1}, {1, 3}}, {8, 15, 13, 17, 9, 20, 6, 20}},
        {6, 0x1f, 0x0, {{5, 2}, {5, 3}, {1, 2}, {2, 0}, {3, 0}, {4, 0}, {5, -1}, {3, 1}, {3, 4}, {4, 1}}, {2, 0, 2, 2, 1, 2, 0, 1, 2, 2}},
        {4, 0x7, 0x0, {{2, 0}, {3, 2}, {2, -1}, {1, 0}, {2, 1}, {3, 1}}, {17, 1, 10, 20, 14, 3}},
        {5, 0x1f, 0x0, {{3, 0}, {2, 3}, {2, 4}, {1, -1}, {3, 1}, {4, 0}, {0, -1}, {2, 0}}, {0, 1, 2, 2, 2, 0, 2, 1}},
        {3, 0x1, 0x0, {{1, 2}, {2, 0}, {1, 0}, {2, -1}}, {0, 18, 5, 7}},
        {7, 0x3f, 0x0, {{3, 5}, {4, 3}, {4, 2}, {0, 2}, {0, 5}, {1, 5}}, {4, 6, 4, 3, 2, 3}},
        {5, 0x1f, 0x0, {{2, 0}, {3, 2}, {3, 4}, {3, 1}, {4, 1}, {2, 4}}, {5, 6, 4, 4, 1, 2}},
        {5, 0x1f, 0x0, {{3, 2}, {3, 1}, {0, 2}, {1, 2}, {0, 3}, {2, -1}, {1, 4}, {0, 1}}, {1, 6, 6, 1, 3, 6, 4, 3}},
        {9, 0x7f, 0x0, {{7, 0}, {0, 4}, {2, 8}, {0, 5}, {2, 5}, {6, 4}, {1, 8}, {7, 8}, {3, 5}, {6, 3}, {3, 2}, {0, 8}}, {12, 10, 12, 5, 4, 19, 15, 11, 6, 18, 20, 16}},
        {3, 0x7, 0x0, {{0, -1}, {2, -1}, {1, 2}}, {5, 6, 20}},
        {3, 0x7, 0x0, {{1, -1}, {0, 2}, {0, 1}, {1, 2}}, {5, 4, 3, 1}},
        {5, 0x7, 0x0, {{3, 0}, {4, 1}, {3, -1}, {2, 0}, {3, 4}}, {1, 2, 6, 5, 4}},
        {6, 0x3f, 0x0, {{2, 3}, {0, -1}, {1, 3}, {4, 3}, {1, 5}, {1, 2}, {0, 5}}, {1, 6, 1, 3, 2, 6, 4}},
        {9, 0x7f, 0x0, {{4, 3}, {2, 7}, {1, 8}, {5, 8}, {0, 3}, {6, 3}, {7, 8}, {0, 7}, {7, -1}}, {2, 2, 1, 0, 2, 2, 0, 0, 2}},
    };
    return *t;
}
/// two shots in sequence
static const std::vector<Camp>& camp_hist() {
    static const std::vector<Camp>* t = new std::vector<Camp>{
        {7, 0x3f, 0x6e, {{5, 1}, {6, 0}, {1, 2}, {5, 0}, {3, -1}, {6, 1}, {6, -1}, {4, 1}, {5, 3}, {6, 3}}, {9, 6, 13, 12, 0, 4, 16, 13, 15, 8}},
        {7, 0x7f, 0x6d, {{3, 4}, {2, -1}, {3, 1}, {1, 2}, {1, 0}, {0, 2}, {6, 2}, {5, 0}}, {5, 4, 2, 5, 0, 0, 3, 1}},
        {5, 0xf, 0x1f, {{1, 2}, {4, 1}, {4, -1}, {0, 3}, {0, 1}, {3, -1}, {3, 1}, {4, 2}, {4, 3}}, {15, 1, 6, 14, 13, 1, 8, 12, 1}},
        {7, 0x7f, 0x7c, {{2, 0}, {4, 6}, {1, -1}, {2, 3}, {3, 6}, {3, 0}, {2, 4}, {2, 1}, {5, 6}, {1, 6}, {1, 4}}, {8, 2, 12, 18, 20, 19, 9, 5, 12, 8, 10}},
        {8, 0xff, 0xed, {{2, 0}, {6, 2}, {5, 0}, {6, 3}, {1, 2}, {6, 7}, {1, 5}, {5, 7}, {4, 1}, {5, 3}}, {13, 8, 13, 20, 16, 6, 8, 7, 15, 18}},
        {8, 0x7f, 0xbb, {{1, -1}, {7, -1}, {0, 4}, {3, 1}, {2, 0}, {0, 6}, {7, 5}, {6, 3}, {0, 7}, {5, 1}, {0, 5}, {2, 3}}, {0, 0, 2, 0, 0, 2, 2, 2, 1, 1, 1, 0}},
        {7, 0xf, 0x7e, {{0, 5}, {3, 2}, {4, 1}, {2, 1}, {3, 5}, {5, 2}, {4, 2}, {5, 1}}, {3, 4, 4, 5, 2, 1, 1, 5}},
        {8, 0x7f, 0xff, {{3, 5}, {6, 0}, {7, -1}, {3, -1}, {3, 1}, {6, 2}, {6, 4}, {0, 2}, {1, 4}, {2, -1}, {1, 0}}, {2, 1, 2, 1, 0, 0, 1, 1, 2, 1, 0}},
        {9, 0x1ff, 0x1f3, {{6, 8}, {2, 7}, {0, 8}, {6, 7}, {7, 8}, {3, 4}, {6, 4}, {5, 2}, {7, -1}, {3, 2}, {0, 7}, {3, 5}, {1, 7}}, {1, 1, 1, 2, 2, 1, 2, 2, 2, 2, 1, 1, 0}},
        {5, 0x1f, 0x15, {{2, 3}, {2, 1}, {0, 3}, {0, 4}, {1, 4}}, {19, 19, 19, 18, 8}},
        {5, 0x1f, 0x1f, {{2, 1}, {4, -1}, {3, 4}, {0, 4}, {1, 4}, {1, 3}, {3, -1}, {2, 4}}, {1, 4, 6, 3, 0, 3, 4, 6}},
        {6, 0x1f, 0x2e, {{2, 4}, {2, 3}, {2, 5}, {1, 5}, {3, -1}, {1, 4}, {0, -1}, {4, 3}, {5, 3}, {0, 3}}, {10, 19, 5, 3, 13, 6, 14, 18, 13, 10}},
        {10, 0x3ff, 0x367, {{3, 7}, {9, 7}, {0, 5}, {0, 9}, {3, -1}, {0, 3}, {9, 4}, {5, 4}, {5, 1}, {0, -1}}, {1, 2, 19, 11, 9, 10, 12, 1, 8, 15}},
        {6, 0x1f, 0x37, {{2, -1}, {3, 1}, {4, 2}, {1, 5}, {3, 0}, {4, 5}, {3, 5}, {4, 0}}, {17, 20, 17, 15, 9, 13, 19, 7}},
        {6, 0x3f, 0x38, {{3, 4}, {2, 0}, {1, 0}, {2, 4}, {4, 5}}, {1, 0, 1, 0, 2}},
        {7, 0x1f, 0x7f, {{0, 3}, {5, 3}, {2, 6}, {2, 1}, {1, 5}, {2, 4}, {0, 5}}, {6, 2, 6, 0, 0, 4, 5}},
        {8, 0x3f, 0xff, {{6, 0}, {5, 7}, {2, 6}, {2, 3}, {3, 7}, {2, 5}, {6, 1}, {2, -1}}, {1, 0, 1, 1, 1, 1, 1, 2}},
        {3, 0x7, 0x7, {{2, 1}, {2, 0}, {0, 1}, {1, -1}}, {1, 3, 2, 6}},
        {8, 0x7f, 0x5f, {{7, 1}, {2, 3}, {5, 3}, {1, -1}, {3, 1}, {7, 3}, {7, 0}, {0, 6}, {0, 4}, {5, 4}, {5, 2}}, {0, 1, 2, 0, 0, 0, 0, 2, 1, 2, 0}},
        {8, 0xff, 0xff, {{7, -1}, {4, -1}, {5, 4}, {3, 4}, {2, 5}, {1, 3}, {2, 7}, {1, 4}, {2, 6}, {0, 3}, {1, -1}}, {1, 1, 1, 1, 1, 2, 0, 2, 1, 2, 2}},
        {3, 0x1, 0x7, {{0, 1}, {1, -1}, {2, -1}, {1, 2}}, {4, 5, 1, 0}},
        {5, 0x1f, 0x1b, {{1, 0}, {2, 4}, {4, 1}, {2, 0}, {3, 4}}, {2, 0, 0, 0, 0}},
        {5, 0x1f, 0x1a, {{1, 0}, {3, 4}, {3, 0}, {4, 2}, {0, -1}}, {2, 0, 0, 2, 0}},
        {5, 0x7, 0x1c, {{4, -1}, {0, 2}, {4, 2}, {1, 4}, {0, 4}}, {19, 6, 7, 7, 0}},
        {5, 0x1f, 0x1f, {{0, -1}, {4, 2}, {1, 2}, {4, 1}, {4, 3}, {0, 2}}, {1, 0, 1, 0, 0, 1}},
        {10, 0x7f, 0x3f2, {{1, 8}, {1, 6}, {1, 2}, {3, 5}, {7, 5}, {7, 3}, {4, 5}, {1, 3}, {7, 0}, {8, 5}, {1, 9}, {4, 7}, {8, -1}, {9, 2}}, {0, 2, 20, 11, 11, 15, 17, 2, 12, 8, 1, 18, 0, 3}},
        {7, 0x1f, 0x7f, {{4, 5}, {5, 3}, {1, 0}, {1, 6}, {2, 6}, {1, 3}, {1, -1}, {2, 5}}, {13, 4, 1, 6, 2, 1, 4, 12}},
        {5, 0x7, 0x1e, {{4, -1}, {4, 1}, {3, -1}, {3, 1}, {2, 3}, {0, 4}, {0, 1}, {2, 4}, {1, -1}}, {9, 18, 11, 4, 6, 16, 11, 18, 10}},
        {7, 0x7f, 0x3b, {{2, -1}, {3, 4}, {6, -1}, {3, 5}, {4, 5}, {5, 1}, {3, 2}, {0, 5}}, {6, 3, 1, 3, 4, 4, 6, 4}},
        {8, 0x7f, 0xcf, {{4, 6}, {0, 4}, {7, 3}, {5, 2}, {7, 6}, {2, 1}, {0, 1}, {2, 4}, {5, 7}, {5, -1}, {5, 3}}, {0, 1, 2, 1, 0, 2, 2, 1, 0, 2, 2}},
        {9, 0x7f, 0x13f, {{7, 5}, {3, 5}, {2, 6}, {1, 5}, {6, 4}, {7, 0}, {7, 4}, {1, 8}, {3, 1}}, {0, 2, 11, 11, 5, 4, 1, 16, 3}},
        {7, 0x7f, 0x7c, {{3, -1}, {0, 6}, {2, 4}, {0, 4}, {1, 3}, {5, 6}, {2, 0}, {2, 6}, {1, 6}, {2, 3}, {1, 0}}, {1, 5, 5, 4, 5, 6, 4, 3, 2, 5, 0}},
        {10, 0x7f, 0x3af, {{6, 0}, {5, 9}, {5, -1}, {2, 5}, {8, 9}, {8, 4}, {2, 0}, {8, 5}, {2, 8}, {3, 4}, {1, 9}}, {1, 0, 6, 2, 2, 0, 5, 3, 3, 3, 3}},
        {8, 0x7f, 0xee, {{1, -1}, {3, 1}, {0, 2}, {5, 7}, {4, 3}, {6, 1}, {5, 3}, {7, 1}, {6, 0}, {5, 2}}, {2, 2, 0, 0, 2, 2, 1, 2, 0, 1}},
        {9, 0x7f, 0x1ff, {{1, 2}, {6, 7}, {7, 8}, {6, 0}, {2, 3}, {2, -1}, {2, 8}, {5, 4}, {1, 8}}, {6, 1, 2, 6, 2, 4, 0, 5, 5}},
        {5, 0x1f, 0x1d, {{2, 4}, {2, 3}, {1, 0}, {2, 1}, {0, 3}, {1, 3}}, {10, 14, 15, 5, 11, 6}},
        {8, 0x7f, 0xff, {{4, 7}, {5, 6}, {4, 3}, {1, 6}, {1, 2}, {3, 6}, {4, 2}, {2, 0}, {1, 5}, {7, 0}}, {7, 12, 9, 16, 6, 18, 11, 19, 3, 7}},
        {7, 0x7f, 0x7e, {{0, 3}, {5, -1}, {2, 5}, {1, -1}, {6, 1}, {2, 1}, {4, 6}, {5, 3}, {4, 2}, {1, 3}}, {8, 16, 7, 9, 0, 11, 18, 7, 20, 3}},
        {3, 0x3, 0x4, {{0, 1}, {0, 2}, {1, -1}, {2, -1}, {2, 1}}, {2, 0, 2, 1, 1}},
        {6, 0x3f, 0x3b, {{0, 2}, {3, 5}, {5, 2}, {1, -1}, {3, 1}}, {13, 4, 6, 5, 8}},
        {6, 0x3f, 0x2d, {{0, 5}, {3, 1}, {2, 1}, {5, -1}, {3, 5}, {0, 1}, {5, 1}, {4, 2}, {4, 1}}, {6, 5, 13, 19, 14, 3, 7, 7, 3}},
        {10, 0xff, 0x377, {{0, -1}, {2, 4}, {8, 4}, {1, 2}, {5, 4}, {0, 2}, {7, 6}, {1, 9}, {3, 9}, {2, 6}, {2, 8}, {9, 6}, {3, 4}, {7, 9}}, {12, 4, 13, 17, 20, 14, 8, 13, 15, 15, 18, 7, 1, 11}},
        {4, 0x7, 0xf, {{0, 1}, {2, 1}, {1, -1}, {0, 3}, {3, 1}}, {5, 3, 4, 6, 1}},
        {8, 0xff, 0xff, {{7, 5}, {4, 5}, {3, 6}, {2, 4}, {7, 6}, {3, -1}, {1, 6}, {4, 6}, {7, 4}, {4, 0}, {1, 5}}, {3, 16, 15, 20, 2, 18, 18, 18, 16, 14, 19}},
        {3, 0x7, 0x3, {{2, -1}, {2, 0}, {1, -1}, {1, 2}}, {2, 0, 2, 1}},
        {3, 0x7, 0x7, {{1, -1}, {2, 1}, {2, -1}, {1, 0}, {2, 0}}, {4, 6, 1, 6, 4}},
        {7, 0x7f, 0x7f, {{6, 3}, {6, 1}, {5, 2}, {0, 2}, {1, 0}, {3, -1}, {1, 4}}, {0, 2, 1, 0, 1, 2, 2}},
        {4, 0xf, 0x7, {{3, -1}, {1, 2}, {3, 0}, {3, 2}, {1, 3}}, {9, 14, 3, 10, 6}},
        {6, 0x1f, 0x3f, {{4, 0}, {1, 3}, {1, 2}, {4, 3}, {3, -1}, {1, 0}}, {1, 2, 1, 1, 2, 0}},
        {6, 0x3f, 0x1d, {{2, 1}, {0, 2}, {0, 5}, {4, 5}, {4, 3}, {4, 1}, {4, 0}}, {2, 2, 0, 0, 0, 0, 4}},
        {7, 0x3f, 0x77, {{3, 6}, {3, 2}, {0, 1}, {5, 6}, {0, 4}, {6, 2}, {0, 3}}, {4, 0, 2, 4, 6, 4, 1}},
        {9, 0x3f, 0x1fe, {{7, 4}, {3, 5}, {2, 6}, {0, 5}, {6, 8}, {4, 8}, {6, 5}, {1, 8}}, {2, 1, 1, 2, 0, 2, 1, 1}},
        {7, 0x7f, 0x7b, {{4, 0}, {4, -1}, {5, 2}, {4, 3}, {5, 1}, {6, 4}, {2, 0}, {5, 4}}, {0, 2, 0, 0, 2, 1, 1, 0}},
        {8, 0x3f, 0xff, {{6, 4}, {1, -1}, {5, 6}, {7, 0}, {7, 2}, {7, -1}, {3, 7}, {7, 1}, {6, -1}, {5, 4}, {7, 4}, {5, 7}}, {4, 2, 3, 5, 3, 0, 2, 1, 3, 3, 4, 3}},
        {10, 0x1ff, 0x3ff, {{8, 2}, {4, -1}, {9, 5}, {7, 5}, {7, 2}, {0, 1}, {9, 6}, {0, 2}, {7, 4}, {1, -1}, {2, 3}, {9, 4}, {9, 8}}, {2, 2, 1, 1, 0, 1, 2, 1, 2, 0, 1, 0, 2}},
        {6, 0x3f, 0x1a, {{0, 1}, {4, 5}, {2, -1}, {0, -1}, {3, 5}, {0, 5}, {4, 1}, {1, -1}, {2, 1}}, {2, 12, 11, 18, 7, 3, 10, 14, 12}},
        {4, 0x7, 0xf, {{1, 0}, {3, 0}, {0, 2}, {1, 2}, {1, 3}, {3, -1}}, {10, 7, 20, 16, 4, 3}},
        {7, 0x7f, 0x7d, {{1, 4}, {2, 1}, {2, 3}, {0, 5}, {2, 0}, {3, 4}, {2, -1}, {0, 6}, {5, 3}, {2, 4}}, {5, 0, 1, 5, 1, 4, 3, 6, 5, 0}},
        {7, 0x7f, 0x7f, {{3, 0}, {5, 1}, {4, 5}, {4, 1}, {2, -1}, {6, 4}, {3, 4}, {2, 6}, {6, 1}, {0, 5}}, {20, 18, 11, 16, 4, 5, 11, 11, 14, 17}},
        {10, 0x7f, 0x3ff, {{6, 9}, {6, 5}, {4, 2}, {1, 0}, {9, 5}, {3, 4}, {5, -1}, {4, 5}, {4, 0}}, {1, 0, 1, 2, 1, 0, 1, 0, 0}},
        {8, 0x7f, 0x67, {{7, 5}, {1, 5}, {1, 0}, {7, 6}, {7, 2}, {5, -1}, {7, 3}, {0, 2}, {4, 3}, {5, 2}, {0, 3}}, {2, 0, 2, 1, 2, 0, 0, 2, 0, 2, 1}},
        {5, 0x1f, 0x1b, {{4, 3}, {2, 1}, {4, 2}, {0, 1}, {0, 3}, {4, -1}}, {2, 1, 1, 0, 2, 2}},
        {9, 0x3f, 0x1ff, {{4, 8}, {3, -1}, {4, 7}, {6, 7}, {5, 1}, {8, -1}, {0, 7}, {0, 5}, {8, 2}, {1, 8}}, {8, 2, 8, 3, 6, 14, 16, 9, 14, 20}},
        {10, 0x3ff, 0x299, {{9, -1}, {1, 6}, {1, 4}, {6, 8}, {3, 7}, {4, -1}, {6, 0}, {3, 5}, {4, 3}, {3, 2}, {6, 4}, {5, 7}, {5, 0}}, {4, 1, 6, 6, 0, 5, 5, 5, 3, 1, 1, 1, 3}},
        {6, 0x3f, 0x3f, {{0, 1}, {4, 5}, {4, 3}, {0, 5}, {2, 4}, {5, 1}}, {2, 1, 2, 2, 1, 1}},
        {7, 0x7f, 0x7d, {{3, -1}, {0, 3}, {4, 0}, {6, 5}, {1, 2}, {0, 2}, {0, 1}, {6, 1}, {4, 1}}, {4, 11, 8, 16, 19, 13, 2, 5, 8}},
        {4, 0xf, 0xf, {{1, 0}, {2, 0}, {1, 3}, {1, 2}}, {3, 4, 4, 5}},
        {3, 0x1, 0x7, {{0, 2}, {1, -1}, {1, 2}, {1, 0}, {2, -1}}, {6, 3, 4, 5, 3}},
        {8, 0xff, 0xe3, {{4, 0}, {5, 3}, {0, 1}, {0, 3}, {4, 7}, {5, 7}, {6, 3}, {2, -1}, {6, -1}, {5, 6}, {4, 5}, {7, 3}}, {5, 4, 3, 3, 4, 1, 5, 0, 3, 0, 6, 4}},
        {4, 0xf, 0xf, {{1, 2}, {3, -1}, {0, 2}, {2, 3}, {2, -1}}, {5, 3, 5, 3, 3}},
        {6, 0x3f, 0x3f, {{4, 3}, {1, 2}, {1, 3}, {5, 2}, {2, 3}, {5, 3}, {1, 5}}, {2, 2, 1, 2, 2, 1, 1}},
        {7, 0x1f, 0x2f, {{3, 0}, {2, 3}, {2, 4}, {5, 6}, {2, 0}, {1, 6}, {5, 3}, {0, -1}, {2, 5}, {0, 6}, {3, 6}}, {9, 7, 20, 0, 20, 4, 19, 10, 15, 17, 16}},
        {3, 0x1, 0x5, {{1, 0}, {1, -1}, {2, -1}, {0, 2}}, {6, 4, 5, 1}},
    };
    return *t;
}
/// negative weights
static const std::vector<Camp>& camp_neg() {
    static const std::vector<Camp>* t = new std::vector<Camp>{
        {10, 0x3ff, 0x0, {{0, 7}, {6, 9}, {0, 5}, {5, 9}, {7, -1}, {1, 0}, {9, 3}, {3, 2}, {0, 9}, {8, 0}, {9, 2}, {4, 9}}, {5, -20, 18, 4, -9, 6, 8, 20, -1, 16, 14, 9}},
        {7, 0x1f, 0x0, {{5, 1}, {1, 0}, {2, 6}, {3, 5}, {5, -1}, {5, 6}, {0, -1}, {3, 4}}, {6, 19, 3, -20, -9, 18, 5, -12}},
        {5, 0xf, 0x0, {{1, 2}, {0, 1}, {4, 2}, {3, 2}, {0, 4}, {0, 2}, {1, -1}, {2, -1}, {0, -1}}, {5, 6, 5, 6, -6, 0, 3, 6, 6}},
        {9, 0x1ff, 0x0, {{7, 2}, {2, 0}, {8, 7}, {3, 1}, {6, 5}, {5, 4}, {8, 1}, {8, 3}, {8, 5}, {8, -1}, {1, 4}, {6, 4}}, {0, 2, 2, 0, -1, -2, 0, 2, 1, 0, -2, 2}},
        {9, 0x1ff, 0x0, {{3, 5}, {6, 5}, {7, 1}, {0, -1}, {1, 4}, {2, 8}, {3, 4}, {2, 7}, {7, 5}, {0, 7}, {6, 1}, {8, 6}}, {0, -1, -1, 2, 2, -1, 2, 0, -2, 2, 1, -1}},
        {8, 0x3f, 0x0, {{3, 0}, {7, -1}, {0, 2}, {1, -1}, {0, 4}, {1, 2}, {6, 4}, {0, 5}, {6, 5}, {3, 7}, {0, 7}, {3, 5}}, {1, -2, 0, 2, 1, 0, 2, 2, -2, 0, 1, 0}},
        {5, 0x1f, 0x0, {{2, 3}, {1, 4}, {2, 1}, {3, 4}, {2, 0}, {1, 3}, {1, 0}, {4, -1}, {2, 4}}, {6, 1, 5, 5, 0, 4, 4, 5, -2}},
        {7, 0x3f, 0x0, {{6, -1}, {1, 2}, {2, -1}, {4, 6}, {1, -1}, {0, 4}, {5, 1}, {2, 6}, {3, -1}, {5, 6}, {0, 3}}, {-4, 1, -4, -1, 0, -5, 0, 6, -5, 1, -6}},
        {8, 0xff, 0x0, {{3, 6}, {1, 4}, {7, 4}, {2, 5}, {2, 4}, {2, 0}, {3, 4}, {1, -1}}, {20, -7, 11, 16, 2, 5, -11, -17}},
        {10, 0x3ff, 0x0, {{7, 1}, {7, 6}, {3, 0}, {5, 1}, {1, 2}, {1, 9}, {0, 9}, {7, 9}, {7, 0}, {5, 2}, {8, 1}, {9, 2}, {4, 7}}, {1, 0, 1, 1, 0, 1, 2, 0, -2, 2, 2, 0, 2}},
        {8, 0x3f, 0x0, {{3, 0}, {1, 0}, {5, 4}, {7, -1}, {6, 3}, {5, 6}, {6, -1}, {5, 0}, {3, 2}, {4, 0}}, {4, 4, 3, 1, 5, 4, -6, -1, 4, 6}},
        {3, 0x3, 0x0, {{2, 0}, {1, 0}, {0, -1}, {2, -1}}, {1, 4, -2, 0}},
        {6, 0x1f, 0x0, {{4, 5}, {5, 3}, {5, -1}, {1, 5}, {4, 0}, {1, 2}, {2, 4}}, {-3, 0, 5, 6, 4, 1, 0}},
        {8, 0x1f, 0x0, {{6, 1}, {3, 6}, {2, 6}, {0, 6}, {3, 4}, {4, 6}, {0, 3}, {5, 3}}, {3, 0, 5, 4, 4, -2, 1, -4}},
        {8, 0xff, 0x0, {{5, 3}, {1, 5}, {7, 4}, {2, 6}, {5, 6}, {3, 0}, {5, 4}, {1, 4}}, {1, -1, 2, 1, -2, 2, 2, 0}},
        {10, 0x1ff, 0x0, {{8, -1}, {8, 9}, {2, 4}, {5, -1}, {7, 6}, {1, 4}, {3, 4}, {8, 1}, {8, 3}, {7, 3}, {3, 9}}, {13, -7, 10, -5, 6, 9, -18, -6, 7, -15, 3}},
        {3, 0x3, 0x0, {{0, 1}, {1, 2}, {0, 2}}, {6, -15, 18}},
        {6, 0x3f, 0x0, {{5, -1}, {0, 1}, {4, 1}, {0, 2}, {4, -1}, {2, 1}, {5, 1}, {5, 2}, {3, 1}, {3, 4}}, {-19, 15, 5, 19, 20, 4, 6, -5, 2, 19}},
        {8, 0x3f, 0x0, {{3, 4}, {4, 0}, {2, 5}, {3, 7}, {7, -1}, {0, 7}, {4, 6}, {1, 5}, {0, 5}, {2, 4}, {1, 7}}, {12, 3, -16, 9, -19, 13, -20, 18, 18, 11, 19}},
        {10, 0x3ff, 0x0, {{4, 6}, {8, 9}, {8, 0}, {4, 3}, {4, 0}, {0, 1}, {9, 1}, {3, 1}, {2, 0}, {5, 3}, {0, -1}, {6, 8}, {7, 1}, {9, 0}}, {4, -5, 4, -2, 2, 1, 0, 4, 4, 6, -1, 1, 5, 1}},
        {9, 0x3f, 0x0, {{7, 4}, {2, -1}, {5, 1}, {0, 4}, {3, 4}, {0, 2}, {3, 7}, {1, 4}, {7, 8}, {4, -1}, {7, 1}, {5, 4}}, {-1, -6, -2, 1, -3, 1, -2, -4, -4, 6, 3, 6}},
        {7, 0x3f, 0x0, {{1, 3}, {4, -1}, {1, 6}, {3, 4}, {4, 2}, {0, 2}, {0, 3}, {5, 4}}, {2, -2, -1, 2, 1, 2, 1, 2}},
        {10, 0x1ff, 0x0, {{4, 7}, {2, 1}, {1, -1}, {6, 3}, {6, 9}, {6, 7}, {9, 4}, {8, 2}, {0, 5}, {0, 1}, {0, 7}, {8, 7}, {4, 2}, {0, 6}}, {0, -1, 0, 2, 0, -2, 0, 2, 1, 0, 1, 2, 0, 0}},
        {8, 0xff, 0x0, {{1, 2}, {4, 5}, {0, 7}, {0, 3}, {6, 1}, {1, -1}, {4, 1}, {0, -1}, {5, -1}, {7, 2}}, {1, 6, -4, 5, -3, 6, 2, 4, 3, -1}},
        {10, 0x3ff, 0x0, {{1, 2}, {1, 5}, {3, 1}, {8, -1}, {9, 3}, {6, 8}, {3, 5}, {6, 3}, {7, 0}, {4, -1}, {7, 9}, {7, 3}, {0, 2}, {6, 0}}, {0, 0, 0, 2, 0, 1, 1, 0, 2, 2, -1, 0, 1, 2}},
        {9, 0x1ff, 0x0, {{6, 7}, {4, 7}, {2, 0}, {2, 7}, {4, 0}, {5, 3}, {4, 1}, {6, 3}, {8, 7}, {5, 7}, {5, 1}, {5, -1}}, {1, 1, 0, 2, -2, -2, 0, 1, -1, 2, 2, -1}},
        {8, 0x7f, 0x0, {{0, 7}, {0, 3}, {5, 0}, {1, 4}, {7, -1}, {6, 4}, {1, -1}, {2, 4}, {1, 3}}, {0, -2, 2, 2, 2, 0, 2, 1, -1}},
        {10, 0x1ff, 0x0, {{3, 0}, {3, 2}, {8, 6}, {2, -1}, {3, 8}, {5, 9}, {1, 2}, {3, 4}, {5, 6}, {8, 7}, {2, 6}, {3, 6}}, {6, 4, 1, 2, 0, 0, 0, 0, 3, -1, 1, 2}},
        {8, 0x7f, 0x0, {{5, 4}, {3, 7}, {1, 3}, {5, 7}, {0, 7}, {0, 3}, {6, 0}, {5, 2}, {1, 4}, {6, -1}}, {15, 6, 8, 5, -6, 5, 1, 16, 19, -1}},
        {3, 0x7, 0x0, {{0, 2}, {0, 1}, {2, 1}, {2, -1}, {1, -1}}, {12, -3, 8, 16, 1}},
        {8, 0xff, 0x0, {{5, 3}, {5, 2}, {4, 1}, {5, -1}, {0, 1}, {3, 6}, {3, 1}, {5, 6}, {6, -1}, {5, 1}, {0, 5}}, {1, 0, 1, 2, 1, 0, 1, -1, 1, 1, 1}},
        {8, 0xff, 0x0, {{3, 6}, {5, 1}, {0, 3}, {1, 4}, {2, 4}, {5, 2}, {0, 5}, {7, 2}}, {-1, 6, -2, 3, 1, -1, -1, -3}},
        {9, 0x1ff, 0x0, {{3, 8}, {8, 7}, {4, -1}, {6, 7}, {1, 5}, {1, -1}, {2, 5}, {3, 5}, {2, 6}}, {0, 4, 1, 7, -17, 20, 20, -17, 9}},
        {6, 0x1f, 0x0, {{5, 0}, {1, 3}, {1, -1}, {0, 2}, {1, 5}, {4, 3}, {4, 1}}, {-1, 3, 18, 11, -15, 17, 16}},
        {7, 0x3f, 0x0, {{0, -1}, {0, 2}, {3, 2}, {5, 3}, {5, 1}, {6, 4}, {6, 2}, {0, 3}, {5, 4}}, {-4, -4, -4, 0, 0, -2, 6, 6, -3}},
        {10, 0x7f, 0x0, {{9, 0}, {2, 0}, {1, 0}, {3, 5}, {1, 3}, {6, 9}, {1, -1}, {2, 4}, {7, 9}, {1, 4}, {1, 2}}, {3, 1, 6, 0, -4, -6, 4, -1, 2, -2, 0}},
        {5, 0x1f, 0x0, {{0, -1}, {4, 3}, {0, 3}, {4, 1}, {0, 2}, {4, 2}, {0, 1}}, {0, -4, -4, 2, 6, 5, 5}},
        {10, 0x1ff, 0x0, {{1, 4}, {2, 5}, {3, 7}, {3, 1}, {6, 7}, {3, 6}, {2, 7}, {1, 6}, {8, 5}, {2, 0}}, {4, -6, 0, 2, 5, 1, 4, 0, 5, -1}},
        {9, 0xff, 0x0, {{4, 2}, {7, 5}, {6, 8}, {4, 3}, {1, -1}, {4, 7}, {1, 2}, {1, 8}, {0, 1}, {4, 1}, {0, -1}}, {2, 0, 0, 1, 0, 0, 0, -2, 2, 0, 1}},
        {10, 0x3ff, 0x0, {{8, 1}, {0, 3}, {7, 6}, {9, 8}, {8, 3}, {5, 7}, {7, 4}, {2, -1}, {6, 3}, {9, -1}, {9, 1}}, {-4, -5, 0, 2, 2, 0, 6, -6, 2, 5, -6}},
        {5, 0xf, 0x0, {{4, 0}, {2, 0}, {1, 0}, {1, 4}, {1, -1}, {1, 3}}, {-3, 14, -2, 2, -17, 6}},
        {8, 0x3f, 0x0, {{7, 5}, {7, 0}, {6, 4}, {0, 5}, {2, 0}, {6, 3}, {7, -1}, {6, 2}, {7, 1}, {2, 1}}, {0, 1, 0, 0, -2, 1, -2, 0, 0, -2}},
        {8, 0xff, 0x0, {{2, 7}, {5, 3}, {4, 3}, {0, 2}, {5, 2}, {4, 5}, {5, -1}, {4, -1}, {1, 7}, {3, 7}, {5, 7}, {1, 6}}, {-6, -19, 10, 1, 2, 5, -17, 12, -13, -18, 15, 19}},
        {7, 0x3f, 0x0, {{2, 6}, {3, 5}, {1, 0}, {1, 6}, {5, 6}, {6, -1}, {4, 6}, {2, -1}, {1, 5}}, {3, -2, 3, 1, 3, -6, 2, 3, -6}},
        {9, 0x7f, 0x0, {{0, -1}, {0, 1}, {5, 1}, {4, 2}, {1, 8}, {3, 6}, {3, 0}, {4, 1}, {3, 8}, {7, 6}, {5, 8}, {1, -1}, {7, 0}}, {4, 1, 6, 5, 5, 0, 1, -2, 2, 1, 2, 4, -1}},
        {10, 0x3ff, 0x0, {{6, -1}, {9, 3}, {9, 8}, {3, 0}, {4, 6}, {8, 2}, {7, -1}, {1, -1}, {3, 6}, {6, 2}, {9, 5}}, {-2, -1, 7, 13, -7, 15, -15, -19, 14, 7, 16}},
        {10, 0x3f, 0x0, {{1, 2}, {8, 3}, {1, 5}, {4, 5}, {0, 4}, {6, 2}, {6, 7}, {8, 9}, {8, 2}}, {3, 4, 1, 0, 3, 1, -1, -3, 6}},
        {8, 0x7f, 0x0, {{7, 2}, {0, 2}, {5, 1}, {0, -1}, {6, 0}, {4, 1}, {3, 2}, {7, 0}, {6, 5}, {5, 4}, {7, 4}}, {6, -5, -5, 3, 3, 3, 1, -6, 4, -5, 0}},
        {6, 0x3f, 0x0, {{4, 3}, {3, 1}, {2, -1}, {2, 3}, {0, 1}, {5, 3}, {1, -1}}, {0, 0, -1, 2, 0, 2, 1}},
        {4, 0xf, 0x0, {{3, 0}, {3, 2}, {1, 0}, {0, 2}, {3, 1}, {1, 2}}, {19, 17, -2, -9, 13, -5}},
        {5, 0xf, 0x0, {{3, 0}, {4, 2}, {1, 4}, {2, -1}, {0, 4}, {3, 1}}, {17, -4, 5, -6, 12, 8}},
        {6, 0x3f, 0x0, {{0, 3}, {4, -1}, {0, -1}, {2, 0}, {0, 4}, {4, 5}, {2, 5}, {0, 1}, {3, 1}, {4, 1}}, {5, 6, -3, 5, 2, 2, -3, 1, 4, 6}},
        {10, 0x7f, 0x0, {{4, 5}, {1, 7}, {7, 3}, {6, 9}, {8, -1}, {3, 8}, {0, 8}, {9, 5}, {1, 2}, {8, 9}, {3, 4}, {5, -1}, {3, 9}}, {0, 0, -2, 1, 1, 0, 0, 2, 0, 2, 0, 1, 1}},
        {8, 0x7f, 0x0, {{2, 6}, {2, 5}, {0, 6}, {5, 4}, {0, 3}, {5, 1}, {7, 4}, {0, 5}, {2, 7}}, {8, 9, 12, 11, 16, -5, 17, -6, -12}},
        {9, 0x1ff, 0x0, {{2, 8}, {7, -1}, {7, 1}, {2, 6}, {6, -1}, {5, 1}, {8, 4}, {4, 3}, {8, 1}, {0, 1}, {5, 0}, {5, 7}}, {19, -5, 1, 4, -11, 11, 4, 0, 3, 4, -2, -19}},
        {9, 0xff, 0x0, {{0, 8}, {3, 4}, {5, 7}, {5, 1}, {4, 6}, {6, -1}, {2, 7}, {3, 2}, {2, 1}, {3, -1}, {1, 8}, {5, 2}}, {1, 11, 15, 16, 3, 4, 12, -3, -12, 14, -11, 13}},
        {8, 0x7f, 0x0, {{4, 5}, {3, 0}, {0, 5}, {3, 2}, {3, 4}, {1, 6}, {6, 2}, {5, -1}, {0, -1}, {2, 4}}, {12, -2, 16, 6, 5, 7, 10, 15, 3, 13}},
        {7, 0x7f, 0x0, {{3, 0}, {2, 0}, {4, 5}, {1, 5}, {1, -1}, {2, 5}, {6, -1}}, {2, 0, 1, -1, -1, 0, 1}},
        {8, 0xff, 0x0, {{7, 1}, {2, 5}, {4, 6}, {3, 2}, {7, 2}, {6, -1}, {5, -1}, {5, 1}, {6, 1}, {0, 1}, {1, -1}}, {0, 1, 2, 2, 2, -2, -2, 0, 1, 0, -2}},
        {8, 0x1f, 0x0, {{6, 4}, {2, 1}, {6, 3}, {6, 0}, {5, -1}, {3, 7}, {1, 6}, {5, 6}}, {-4, 15, -7, 9, 10, -11, 11, 8}},
        {8, 0xff, 0x0, {{5, 4}, {0, -1}, {2, 1}, {2, 5}, {6, 5}, {2, 0}, {3, 0}, {1, 4}, {7, 1}, {2, -1}, {7, 0}, {4, -1}}, {0, -1, 1, 0, 0, 0, 2, 2, 1, 0, 0, 1}},
        {5, 0xf, 0x0, {{2, 4}, {0, 3}, {1, 2}, {3, 2}}, {-2, 1, 2, 0}},
        {3, 0x7, 0x0, {{0, 1}, {0, 2}, {1, 2}, {0, -1}}, {1, 15, 17, -7}},
    };
    return *t;
}
