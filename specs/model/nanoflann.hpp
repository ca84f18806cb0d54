// Model of nanoflann for the analysis: a search is an unknown function of the indexed points, the query, the squared
// radius and the order asked for. The points are those the adaptor gives out when the index is built.
#pragma once
#include <cstddef>
#include <cstdint>
#include <utility>
#include <vector>
namespace spec
{
// indices and squared distances of the points nearer than the radius; no body: the analysis knows nothing else about it
template <class I>
std::vector<std::pair<I, double>> within(const std::vector<double> & x, const std::vector<double> & y, double qx, double qy,
                                         double radius, bool sorted, int metric);
}
namespace nanoflann
{
struct SearchParams
{
  SearchParams(int checks_ = 32, float eps_ = 0, bool sorted_ = true)
  : checks(checks_), eps(eps_), sorted(sorted_) {}
  int checks;
  float eps;
  bool sorted;
};
using SearchParameters = SearchParams;
struct KDTreeSingleIndexAdaptorParams
{
  KDTreeSingleIndexAdaptorParams(size_t leaf = 10) : leaf_max_size(leaf) {}
  size_t leaf_max_size;
};
template <class T, class DataSource, typename DistT = T> struct L2_Simple_Adaptor
{
  using ElementType = T; using DistanceType = DistT;
  static const int metric = 2;
};
template <class T, class DataSource, typename DistT = T> struct L2_Adaptor
{
  using ElementType = T; using DistanceType = DistT;
  static const int metric = 2;
};
template <class T, class DataSource, typename DistT = T> struct L1_Adaptor
{
  using ElementType = T; using DistanceType = DistT;
  static const int metric = 1;
};
template <typename Distance, class DatasetAdaptor, int DIM = -1, typename IndexType = uint32_t>
class KDTreeSingleIndexAdaptor
{
public:
  using ElementType = typename Distance::ElementType;
  using DistanceType = typename Distance::DistanceType;
  KDTreeSingleIndexAdaptor(int dim, const DatasetAdaptor & data,
                           const KDTreeSingleIndexAdaptorParams & p = KDTreeSingleIndexAdaptorParams())
  : data_(data) {}
  void buildIndex()
  {
    size_t n = data_.kdtree_get_point_count();
    x_.resize(n);
    y_.resize(n);
    for (size_t i = 0; i < n; ++i) {x_[i] = data_.kdtree_get_pt(i, 0); y_[i] = data_.kdtree_get_pt(i, 1);}
  }
  template <typename I> size_t radiusSearch(const ElementType * q, const DistanceType & radius,
    std::vector<std::pair<I, DistanceType>> & out, const SearchParams & params) const
  {
    out = spec::within<I>(x_, y_, q[0], q[1], radius, params.sorted, Distance::metric);
    return out.size();
  }
  template <typename I> size_t knnSearch(const ElementType * q, size_t k, I * idx, DistanceType * d) const;
private:
  const DatasetAdaptor & data_;
  std::vector<double> x_, y_;
};
}
