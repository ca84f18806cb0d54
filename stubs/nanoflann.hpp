// Stand-in for nanoflann (the pair-based API that ndt_2d is written against):
// brute force with the same contract. L2_Simple distances and search radii are SQUARED.
#pragma once
#include <algorithm>
#include <cstddef>
#include <cstdint>
#include <utility>
#include <vector>
namespace nanoflann
{
struct SearchParams
{
  SearchParams(int checks_ = 32, float eps_ = 0, bool sorted_ = true)
  : checks(checks_), eps(eps_), sorted(sorted_) {}
  int checks; float eps; bool sorted;
};
using SearchParameters = SearchParams;
struct KDTreeSingleIndexAdaptorParams
{ KDTreeSingleIndexAdaptorParams(size_t leaf = 10) : leaf_max_size(leaf) {} size_t leaf_max_size; };
template <class T, class DataSource, typename DistT = T> struct L2_Simple_Adaptor
{
  using ElementType = T; using DistanceType = DistT;
  const DataSource & data;
  explicit L2_Simple_Adaptor(const DataSource & d) : data(d) {}
};
template <class T, class DataSource, typename DistT = T> using L2_Adaptor = L2_Simple_Adaptor<T, DataSource, DistT>;
template <typename Distance, class DatasetAdaptor, int DIM = -1, typename IndexType = uint32_t>
class KDTreeSingleIndexAdaptor
{
public:
  using ElementType = typename Distance::ElementType;
  using DistanceType = typename Distance::DistanceType;
  KDTreeSingleIndexAdaptor(int dim, const DatasetAdaptor & data,
                           const KDTreeSingleIndexAdaptorParams & = KDTreeSingleIndexAdaptorParams())
  : dim_(dim), data_(data) {}
  void buildIndex() { n_ = data_.kdtree_get_point_count(); }
  template <typename I> size_t radiusSearch(const ElementType * q, const DistanceType & radius,
    std::vector<std::pair<I, DistanceType>> & out, const SearchParams & params) const
  {
    out.clear();
    for (size_t i = 0; i < n_; ++i) { auto d = dist(q, i); if (d < radius) out.emplace_back(I(i), d); }
    if (params.sorted) std::stable_sort(out.begin(), out.end(),
      [](const auto & a, const auto & b) { return a.second < b.second; });
    return out.size();
  }
  template <typename I> size_t knnSearch(const ElementType * q, size_t k, I * idx, DistanceType * d) const
  {
    std::vector<std::pair<I, DistanceType>> all;
    for (size_t i = 0; i < n_; ++i) all.emplace_back(I(i), dist(q, i));
    std::stable_sort(all.begin(), all.end(), [](const auto & a, const auto & b) { return a.second < b.second; });
    if (k > all.size()) k = all.size();
    for (size_t i = 0; i < k; ++i) { idx[i] = all[i].first; d[i] = all[i].second; }
    return k;
  }
private:
  DistanceType dist(const ElementType * q, size_t i) const
  {
    DistanceType s = 0;
    for (int d = 0; d < DIM; ++d) { auto v = q[d] - data_.kdtree_get_pt(i, d); s += v * v; }
    return s;
  }
  int dim_; const DatasetAdaptor & data_; size_t n_ = 0;
};
}
