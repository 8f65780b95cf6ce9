// P02: splitting work over threads covers every element exactly once.
#include "pbt.h"
#include "fern/algorithm/core/index_ranges.h"

namespace fa = fern::algorithm;

namespace {

size_t a_size(pbt::Case& c)
{
    switch(c.weighted({5, 3, 2, 1})) {
        case 0: return c.size(0, 40);
        case 1: return c.size(0, 700);
        case 2: return c.size(0, 1u << 20);
        // Also more than fit in 32 bits, which needs no memory here.
        default: return (c.size(0, 1u << 20) << c.size(0, 42)) +
            c.size(0, 40);
    }
}

size_t nr_threads(pbt::Case& c)
{
    switch(c.weighted({5, 3, 1})) {
        case 0: return c.size(1, 10);
        case 1: return c.size(1, 80);
        default: return c.size(1, 5000);
    }
}

} // Anonymous namespace

PBT_TARGET(ranges_1d, 400000, 1,
    "array is not empty and its size is no multiple of the number of threads")
{
    size_t threads = nr_threads(c);
    size_t size = a_size(c);
    c.desc() << "index_ranges(" << threads << ", " << size << ")";
    c.nontrivial(size > 0 && size % threads != 0);
    c.label(size == 0 ? "empty" : size < threads ? "small" : "regular");
    auto ranges = fa::index_ranges(threads, size);
    if(size == 0) {
        PBT_EQ(ranges.size(), size_t(0), "number of ranges of empty array");
    }
    else {
        PBT_CHECK(ranges.size() >= 1, "no ranges");
        PBT_CHECK(ranges.size() <= threads + 1,
            ranges.size() << " ranges for " << threads << " threads");
        if(size < threads) {
            PBT_EQ(ranges.size(), size_t(1), "ranges of small array");
        }
        else {
            PBT_CHECK(ranges.size() >= threads,
                "fewer ranges than threads: " << ranges.size());
        }
    }
    size_t at = 0;
    for(auto const& r: ranges) {
        PBT_EQ(r[0].begin(), at, "begin of range");
        PBT_CHECK(r[0].end() > r[0].begin(), "empty range");
        PBT_EQ(r[0].size(), r[0].end() - r[0].begin(), "size of range");
        PBT_EQ(r.size(), r[0].size(), "size of ranges");
        PBT_CHECK(!r.empty() && !r[0].empty(), "range says it is empty");
        at = r[0].end();
    }
    PBT_EQ(at, size, "end of last range");
}

PBT_TARGET(ranges_2d, 400000, 1,
    "array is not empty and its height is no multiple of the number of "
    "threads")
{
    size_t threads = nr_threads(c);
    size_t size1 = a_size(c), size2 = c.chance(1, 8) ? 0 : a_size(c);
    c.desc() << "index_ranges(" << threads << ", " << size1 << ", " << size2
        << ")";
    c.nontrivial(size1 > 0 && size2 > 0 && size1 % threads != 0);
    c.label(size1 * size2 == 0 ? "empty" : size1 < threads ? "small"
        : "regular");
    auto ranges = fa::index_ranges(threads, size1, size2);
    if(size1 == 0 || size2 == 0) {
        PBT_EQ(ranges.size(), size_t(0), "number of ranges of empty array");
        return;
    }
    PBT_CHECK(ranges.size() >= 1, "no ranges");
    PBT_CHECK(ranges.size() <= threads + 1,
        ranges.size() << " ranges for " << threads << " threads");
    // Every cell exactly once, in order: blocks of whole rows, or parts of
    // one block of rows.
    size_t row = 0, row_end = 0, col = size2;
    size_t cells = 0;
    for(auto const& r: ranges) {
        PBT_CHECK(!r.empty() && r[0].size() > 0 && r[1].size() > 0,
            "empty range");
        PBT_EQ(r.size(), r[0].size() * r[1].size(), "size of ranges");
        if(col == size2) {
            row = r[0].begin();
            PBT_EQ(row, row_end, "first row of range");
            row_end = r[0].end();
            col = 0;
        }
        PBT_EQ(r[0].begin(), row, "first row of range");
        PBT_EQ(r[0].end(), row_end, "last row of range");
        PBT_EQ(r[1].begin(), col, "first column of range");
        PBT_CHECK(r[1].end() <= size2, "range extends beyond the last column");
        col = r[1].end();
        cells += r.size();
    }
    PBT_EQ(row_end, size1, "end of last range");
    PBT_EQ(col, size2, "last column of last range");
    PBT_EQ(cells, size1 * size2, "number of cells");
}

PBT_TARGET(range_values, 40000, 1, "range is not empty")
{
    size_t b = c.size(0, 1000), e = b + c.size(0, 1000);
    fa::IndexRange range(b, e);
    c.desc() << "IndexRange(" << b << ", " << e << ")";
    c.nontrivial(b != e);
    PBT_EQ(range.begin(), b, "begin");
    PBT_EQ(range.end(), e, "end");
    PBT_EQ(range.size(), e - b, "size");
    PBT_EQ(range.empty(), b == e, "empty");
    size_t e2 = b + c.size(0, 1000);
    range.set_end(e2);
    PBT_EQ(range.begin(), b, "begin after set_end");
    PBT_EQ(range.end(), e2, "end after set_end");
    PBT_CHECK(range == fa::IndexRange(b, e2), "not equal to itself");
    PBT_CHECK(!(range == fa::IndexRange(b, e2 + 1)), "equal to other");
    fa::IndexRanges<2> ranges(range, fa::IndexRange(b, e));
    PBT_EQ(ranges.size(), (e2 - b) * (e - b), "size of ranges");
    PBT_EQ(ranges.empty(), e2 == b || e == b, "empty of ranges");
    fa::IndexRanges<2> copy(ranges), moved(std::move(copy)), assigned;
    assigned = ranges;
    for(auto const& r: {moved, assigned}) {
        PBT_CHECK(r[0] == range && r[1] == fa::IndexRange(b, e), "copy");
    }
}
