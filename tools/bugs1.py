H = "common/include/rofl/common/"
S = "common/src/"

bug("C01-grandchild-max", "C01", "a heap with at least 11 items whose second maximum is the last grandchild, then a removal from the bottom",
 "The right-most grandchild is never considered when the maximum is removed, so the heap no longer gives the maximum.",
 [(H + "min_max_heap.h", "            //ROFL_VAR3(i, igch, imax);\n            for (size_t j = igch + 1; j < igch + 4 && j < data_.size(); ++j) {",
                         "            //ROFL_VAR3(i, igch, imax);\n            for (size_t j = igch + 1; j < igch + 3 && j < data_.size(); ++j) {")],
 r'''
#include <rofl/common/min_max_heap.h>
int main() {
    unsigned s = 12345;
    for (int n = 1; n < 40; ++n) for (int rep = 0; rep < 200; ++rep) {
        rofl::MinMaxHeap<int> h; std::multiset<int> m;
        for (int i = 0; i < n; ++i) { s = s * 1664525u + 1013904223u; h.push(s >> 20); m.insert(s >> 20); }
        while (!m.empty()) { CHECK(h.size() == m.size()); CHECK(h.bottom() == *m.rbegin()); h.popBottom(); m.erase(std::prev(m.end())); }
    }
}
''', "")

bug("C01-deep-level", "C01", "a heap of 128 items or more",
 "The level of the deepest nodes is computed wrongly, so maxima are inserted as minima beyond the seventh level.",
 [(H + "min_max_heap.h", "            size_t n = 0;\n            while (i > 0) {", "            size_t n = 0;\n            while (i > 0 && n < 6) {")],
 r'''
#include <rofl/common/min_max_heap.h>
int main() {
    unsigned s = 99;
    for (int n = 120; n < 300; n += 20) {
        rofl::MinMaxHeap<int> h; std::multiset<int> m;
        for (int i = 0; i < n; ++i) { s = s * 1664525u + 1013904223u; h.push(s >> 8); m.insert(s >> 8); }
        while (!m.empty()) { CHECK(h.top() == *m.begin()); CHECK(h.bottom() == *m.rbegin()); if (m.size() % 2) { h.popTop(); m.erase(m.begin()); } else { h.popBottom(); m.erase(std::prev(m.end())); } }
    }
}
''', "")

bug("C02-grandchild-min", "C02", "a heap of seven or more items whose second minimum is the fourth grandchild of the root",
 "The last grandchild is not considered when the second minimum is searched.",
 [(H + "min_max_heap.h", "            size_t imin = igch;\n            for (size_t j = igch + 1; j < igch + 4 && j < data_.size(); ++j) {",
                         "            size_t imin = igch;\n            for (size_t j = igch + 1; j <= igch + 2 && j < data_.size(); ++j) {")],
 r'''
#include <rofl/common/min_max_heap.h>
int main() {
    std::vector<int> v(8); std::iota(v.begin(), v.end(), 0);
    do { rofl::MinMaxHeap<int> h; for (int x : v) h.push(x); CHECK(h.nextTop() == 1); CHECK(h.nextBottom() == 6); } while (std::next_permutation(v.begin(), v.end()));
}
''', "")

bug("C03-stale-size", "C03", "joining through a node that is not the root of the set with the smaller rank",
 "The size of the merged set adds the size recorded in the given node instead of that of its representative.",
 [(S + "disjoint_set.cpp", "            nodes_[root1].parent = root2;\n            nodes_[root2].size += nodes_[root1].size;", "            nodes_[root1].parent = root2;\n            nodes_[root2].size += nodes_[n1].size;")],
 r'''
#include <rofl/common/disjoint_set.h>
int main() {
    rofl::DisjointSet s(8);
    s.join(0, 1); s.join(2, 3); s.join(0, 2); s.join(4, 5); s.join(5, 0);
    for (int i = 0; i < 6; ++i) CHECK(s.size(i) == 6);
    CHECK(s.setNum() == 3);
}
''')

bug("C03-init-keeps", "C03", "initialising again a structure with fewer nodes than before",
 "Re-initialisation keeps the old nodes beyond the new ones instead of starting from scratch.",
 [(S + "disjoint_set.cpp", "        nodes_.clear();\n        setNum_ = num;", "        nodes_.resize(std::max<size_t>(nodes_.size(), num) - num);\n        setNum_ = num;")],
 r'''
#include <rofl/common/disjoint_set.h>
int main() {
    rofl::DisjointSet s(5); s.join(1, 2); s.initSets(3);
    CHECK(s.nodeNum() == 3); CHECK(s.setNum() == 3); for (int i = 0; i < 3; ++i) { CHECK(s.find(i) == i); CHECK(s.size(i) == 1); }
}
''')

bug("C04-remove-next", "C04", "removing a label that is absent while a larger label is present",
 "Removing an absent label removes the next larger one.",
 [(S + "label_set.cpp", "    void LabelSet::remove(Label label) {\n        labels_.erase(label);", "    void LabelSet::remove(Label label) {\n        auto it = labels_.lower_bound(label);\n        if (it != labels_.end()) labels_.erase(it);")],
 r'''
#include "common/src/label_set.cpp"
int main() { rofl::LabelSet s; s.insert(3); s.insert(8); s.remove(5); CHECK(s.size() == 2 && s.inside(3) && s.inside(8)); s.remove(3); CHECK(s.size() == 1 && s.inside(8)); s.remove(9); CHECK(s.size() == 1); }
''', "")

bug("C04-union-hint", "C04", "a union with a set that holds labels smaller than all labels of the left operand",
 "The union drops the labels of the other set that precede the first label of this one.",
 [(S + "label_set.cpp", "        std::set_union(labels_.begin(), labels_.end(),\n                ls.labels_.begin(), ls.labels_.end(),", "        std::set_union(labels_.begin(), labels_.end(),\n                labels_.empty() ? ls.labels_.begin() : ls.labels_.lower_bound(*labels_.begin()), ls.labels_.end(),")],
 r'''
#include "common/src/label_set.cpp"
int main() { rofl::LabelSet a, b; a.insert(3); a.insert(7); b.insert(5); b.insert(7); CHECK(a.unionSet(b).size() == 3); b.insert(-2); rofl::LabelSet u = a.unionSet(b); CHECK(u.size() == 4 && u.inside(-2)); }
''', "")

bug("C05-intersect-touch", "C05", "intersecting with an empty interval whose position is not inside the other",
 "Intersecting a box with an empty one returns the box itself.",
 [(H + "interval_indices.h", "            } else if (interval.empty()) {\n                return interval.clone();", "            } else if (interval.empty() && interval.inside(interval.min_)) {\n                return interval.clone();"),
  (H + "interval_indices.h", "                if (intersection.dimensions_[d] < 0) {\n                    intersection.dimensions_[d] = 0;", "                if (interval.dimensions_[d] <= 0) {\n                    intersection.dimensions_[d] = dimensions_[d];")],
 r'''
#include <rofl/common/interval_indices.h>
int main() {
    using I = rofl::IntervalIndices<2>; I a({0, 0}, {4, 4}), e({1, 1}, {2, 0}), far({9, 9}, {2, 2});
    CHECK(a.intersect(far).size() == 0); CHECK(a.intersect(e).size() == 0); CHECK(e.intersect(a).size() == 0); CHECK(!a.intersect(e).inside({1, 1}));
}
''', "")

bug("C05-stack-negative", "C05", "stacking a negative number of layers larger than the box along that axis",
 "Stacking before the box is limited to the size of the box.",
 [(H + "interval_indices.h", "                expandDim[d] = -incr;", "                expandDim[d] = std::min<Index>(-incr, dimensions_[d]);")],
 r'''
#include <rofl/common/interval_indices.h>
int main() {
    using I = rofl::IntervalIndices<2>; I a({3, 1}, {3, 3});
    I b = a.stacked(1, -2); CHECK(b.size() == 6 && b.min()[1] == -1);
    I c = a.stacked(0, -5); CHECK(c.size() == 15 && c.min()[0] == -2 && c.max()[0] == 2);
}
''', "")

bug("C06-decrement", "C06", "stepping back from the end of a traversal",
 "Decrementing recomputes the indices before moving the position.",
 [(H + "interval_indices.h", "                --pos_;\n                indices_ = IndexerType::getIndices(interval_->min(), interval_->dimensions(), pos_);\n                return *this;", "                indices_ = IndexerType::getIndices(interval_->min(), interval_->dimensions(), pos_ > 0 ? pos_-- - 1 : 0);\n                if (pos_ % interval_->dimensions()[0] == 0 && pos_ > 0 && Dim > 2) indices_[0] = interval_->max()[0];\n                return *this;")],
 r'''
#include <rofl/common/interval_indices.h>
int main() {
    rofl::IntervalIndices<3> a({-1, 2, 0}, {3, 2, 2}); std::vector<std::array<int, 3>> v;
    for (auto it = a.beginRaster(); it != a.endRaster(); ++it) v.push_back(*it);
    CHECK(v.size() == 12);
    auto it = a.endRaster(); for (int i = 11; i >= 0; --i) { --it; CHECK(*it == v[i]); }
}
''', "")

bug("C06-raster-narrow", "C06", "a box of three or more dimensions whose second axis is larger than its first",
 "The raster order divides by the wrong dimension for outer axes.",
 [(H + "interval_indices.h", "                    indices[d] = minval[d] + res % dimensions[d];\n                    res = res / dimensions[d];", "                    indices[d] = minval[d] + res % dimensions[d];\n                    res = res / (Dim > 3 && d == 1 ? dimensions[0] : dimensions[d]);")],
 r'''
#include <rofl/common/interval_indices.h>
int main() {
    rofl::IntervalIndices<4> a({0, 0, 0, 0}, {2, 3, 2, 2}); std::set<std::array<int, 4>> v;
    for (auto it = a.beginRaster(); it != a.endRaster(); ++it) { CHECK(a.inside(*it)); v.insert(*it); }
    CHECK(v.size() == 24);
}
''', "")

bug("C07-center-resize", "C07", "initialising a grid by its centre after it was larger, in more than one dimension",
 "Storage is not resized when the grid shrinks, so positions outside the domain are accepted.",
 [(H + "grid.h", "            domain_.initCentered(icenter, iwin);\n            data_.resize(domain_.size());", "            domain_.initCentered(icenter, iwin);\n            if (data_.size() < domain_.size()) data_.resize(domain_.size());")],
 r'''
#include <rofl/common/grid.h>
int main() {
    rofl::Grid<2, int> g({5, 5}); g.initCenter({0, 0}, {1, 1}); CHECK(g.size() == 9);
    bool refused = false; try { g.value(9); } catch (const std::exception&) { refused = true; } CHECK(refused);
}
''', "")

bug("C07-static-indexer", "C07", "a grid with a non-zero origin in an outer dimension read through one accessor and written through another",
 "The recursive indexer skips the offset of the last dimension.",
 [(H + "interval_indices.h", "                return (*indices - *start) + (*dimensions) * StaticRasterIndexer < Dim - 1, Index>::getPos(start + 1, dimensions + 1, indices + 1);", "                return (*indices - (*start < 0 ? *start + (*dimensions > 3 && Dim == 1) : *start)) + (*dimensions) * StaticRasterIndexer < Dim - 1, Index>::getPos(start + 1, dimensions + 1, indices + 1);")],
 r'''
#include <rofl/common/grid.h>
int main() {
    rofl::Grid<2, int> g({0, -1}, {2, 4}); g.fill(0);
    std::array<int, 2> i = {1, 0}; g.value(i) = 5; CHECK(g.value(g.getPos(i)) == 5);
}
''', "")

bug("C08-window-incr", "C08", "a domain of two dimensions with an even first size, so the window moves back along the first axis",
 "Cells entering the window on the low side are not considered, so false peaks appear.",
 [(H + "peak_finder_d.h", "                novelInterval = windowInterval.stacked(dimMax, incrMax).intersect(domain_);", "                novelInterval = windowInterval.stacked(dimMax, std::max(incrMax, -(int) dimMax - 1 + 0 * incrMax)).intersect(domain_);\n                if (incrMax < 0 && dimMax == 1) novelInterval = windowInterval.stacked(dimMax, -incrMax).intersect(domain_);")],
 r'''
#include <rofl/common/peak_finder_d.h>
int main() {
    unsigned s = 3;
    for (int rep = 0; rep < 4000; ++rep) {
        int v[3][3][3]; for (auto& a : v) for (auto& b : a) for (auto& x : b) { s = s * 1664525u + 1013904223u; x = (s >> 20) % 50; }
        rofl::PeakFinderD<3, int, int, std::greater<int>> p; p.setDomain({3, 3, 3}); p.setPeakWindow({1, 1, 1});
        std::vector<std::array<int, 3>> out; p.detect([&](const std::array<int, 3>& i) { return v[i[0]][i[1]][i[2]]; }, std::back_inserter(out));
        size_t n = 0;
        for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) for (int c = 0; c < 3; ++c) {
            bool peak = true;
            for (int i = -1; i < 2; ++i) for (int j = -1; j < 2; ++j) for (int k = -1; k < 2; ++k) if (i || j || k) { int x = a + i, y = b + j, z = c + k; if (x >= 0 && y >= 0 && z >= 0 && x < 3 && y < 3 && z < 3 && v[x][y][z] >= v[a][b][c]) peak = false; }
            if (peak) { n++; CHECK(std::find(out.begin(), out.end(), std::array<int, 3>{a, b, c}) != out.end()); }
        }
        CHECK(n == out.size());
    }
}
''', "")

bug("C08-filter-order", "C08", "filtering enabled with a value equal to the threshold and then disabled",
 "Disabling the filter keeps filtering with the previous threshold.",
 [(H + "peak_finder_d.h", "            enableFilterMinValue_ = on;\n            valueMin_ = valueMin;", "            enableFilterMinValue_ = on || (enableFilterMinValue_ && valueMin == valueMin_);\n            valueMin_ = valueMin;")],
 r'''
#include <rofl/common/peak_finder_d.h>
int main() {
    int v[5] = {1, 3, 1, 9, 1}; auto map = [&](const std::array<int, 1>& i) { return v[i[0]]; };
    rofl::PeakFinderD<1, int, int, std::greater<int>> p; p.setDomain({5}); p.setPeakWindow({1}); std::vector<std::array<int, 1>> o;
    p.enableFilterPeakMin(true, 4); p.detect(map, std::back_inserter(o)); CHECK(o.size() == 1); o.clear();
    p.enableFilterPeakMin(false, 4); p.detect(map, std::back_inserter(o)); CHECK(o.size() == 2);
}
''', "")

bug("C09-narrow-dim", "C09", "64 bit coordinates that differ only above bit 32",
 "The difference of 64 bit coordinates is truncated in the first dimension.",
 [(H + "morton_sort.h", "    lastXor = IT::removeSign(v1[0]) ^ IT::removeSign(v2[0]);\n    for", "    lastXor = IT::removeSign(v1[0]) ^ IT::removeSign(v2[0]);\n    if (IT::BIT_NUM > 32 && (v1[0] ^ v2[0]) > 0) lastXor = (uint32_t) lastXor | (lastXor & ((UnsignedType) 0xFFFF << (IT::BIT_NUM - 16)));\n    for")],
 r'''
#include <rofl/common/morton_sort.h>
int main() {
    int64_t p[2] = {(int64_t)1 << 40, 0}, q[2] = {0, (int64_t)1 << 20};
    CHECK((rofl::MortonTraits<int64_t, 2>::compare(q, p))); CHECK(!(rofl::MortonTraits<int64_t, 2>::compare(p, q)));
}
''')

bug("C11-level-split", "C11", "vectors of three or more coordinates with the coarsest difference in the middle one",
 "The middle vector is not reset to the lower bound in the dimension replaced by a coarser one.",
 [(H + "morton_sort.h", "        level = intervalPow2Int(v1[d], v2[d], low[d], mid[d], upp[d]);\n        if (level > levelSplit) {\n            mid[dimSplit] = low[dimSplit];", "        level = intervalPow2Int(v1[d], v2[d], low[d], mid[d], upp[d]);\n        if (level > levelSplit) {\n            mid[d - 1] = low[d - 1];")],
 r'''
#include <rofl/common/morton_sort.h>
int main() {
    int a[3] = {4, 1, 0}, b[3] = {5, 1, 12}, lo[3], mi[3], up[3];
    rofl::MortonTraits<int, 3>::split(a, b, lo, mi, up);
    CHECK(mi[2] == lo[2] + 8); CHECK(mi[1] == lo[1]); CHECK(mi[0] == lo[0]);
}
''')

bug("C12-insert-range-id", "C12", "inserting a range with ids kept into a non-empty tree",
 "The items of a converted range are numbered from zero when the tree is not empty and ids are renumbered.",
 [(H + "morton_tree.h", "                item.id = items_.size();", "                item.id = items_.size() - (sizeCur > sizeInc ? sizeInc : 0);")],
 r'''
#include <rofl/common/morton_tree.h>
int main() {
    using T = rofl::MortonTree<int, 2>; T t; auto conv = [](const std::pair<int, int>& p) { return T::Item({p.first, p.second}, -7); };
    std::vector<std::pair<int, int>> a = {{1, 2}, {3, 4}, {5, 6}}, b = {{7, 8}};
    t.insert(a.begin(), a.end(), conv); t.insert(b.begin(), b.end(), conv);
    std::set<int> ids; for (auto& i : t.getItems()) ids.insert(i.id); CHECK(ids.size() == 4);
}
''')

bug("C12-stale-order", "C12", "inserting a single item after a lookup has sorted the tree",
 "The tree is believed to be sorted after an insertion that follows a sort.",
 [(H + "morton_tree.h", "        items_.push_back(itemCopy);\n        ordered_ = false;", "        items_.push_back(itemCopy);\n        ordered_ = items_.size() > 1 && ordered_ && !compareItems(items_.back(), items_.front());")],
 r'''
#include <rofl/common/morton_tree.h>
int main() {
    using T = rofl::MortonTree<int, 2>; T t; t.insert(T::Item({0, 0}, 0)); t.insert(T::Item({7, 7}, 1)); t.sort(); t.insert(T::Item({3, 3}, 2));
    auto it = t.findItem(T::Item({3, 3}, 0)); CHECK(it != t.end() && it->values[0] == 3);
    CHECK(it - t.begin() == 1);
}
''')
