// Lazy functions that several others share by reference (std::ref or a capturing lambda).
#pragma once
#include "core.h"

#include <vector>

namespace sim::lz {
inline constexpr int GFN = 6, GSRC = 3; // functions s, a, b, c, d, v; sources
struct GraphLog {
    int cells[GSRC]{}, sd[GSRC]{}; // what a source delivers; how many values its type has
    int src[GSRC]{};               // how often it was asked in this call
    long asked = 0, own_runs = 0;  // of what is given by reference
    bool calling = false;
    struct Fn {
        int D = 1;
        int runs = 0; // in this call
        int n = -1, last[3]{}; // arguments of the last completed run
        bool needless = false, altered = false;
    } fn[GFN];
};
struct AnyGraph {
    GraphLog log;
    virtual ~AnyGraph() = default;
    virtual int call(int which) = 0; // GFN: the copy
    virtual bool own() const = 0;    // a function or dependency given by reference is itself the one that ran
    virtual void copy() = 0;         // another a, which shares what a shares
    virtual bool copied() const = 0;
};
using MakeGraph = AnyGraph *(*)();
std::vector<MakeGraph> &graphs();
int graph_key(int fn, int D, const int *keys, int n);
} // namespace sim::lz
