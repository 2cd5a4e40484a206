// Stand-in for the htd library (whose binary is not available offline): the
// part of its interface the repository uses.  Orderings and tree
// decompositions are not computed but answered from a script (env.h), so that
// the nondeterministic environment of the specification can be replayed.
#ifndef FAKE_HTD_MAIN_HPP
#define FAKE_HTD_MAIN_HPP
#include <cstddef>
#include <cstdint>
#include <memory>
#include <functional>
#include <vector>

#include "../../env.h"

#define HTD_UNUSED(x) (void)(x);

namespace htd {
typedef std::size_t vertex_t;
typedef std::size_t index_t;
typedef std::size_t id_t;
enum Id { FIRST = 1 };
class LibraryInstance;

template <typename T>
class ConstCollection {
 public:
  ConstCollection() {}
  explicit ConstCollection(std::vector<T> v) : v_(std::move(v)) {}
  std::size_t size() const { return v_.size(); }
  const T &at(std::size_t i) const { return v_.at(i); }
  const T &operator[](std::size_t i) const { return v_.at(i); }
  typename std::vector<T>::const_iterator begin() const { return v_.begin(); }
  typename std::vector<T>::const_iterator end() const { return v_.end(); }

 private:
  std::vector<T> v_;
};

class IMultiHypergraph {
 public:
  virtual ~IMultiHypergraph() {}
  std::size_t vertexCount() const { return n_; }
  std::size_t edgeCount() const { return e_.size(); }
  const std::vector<std::vector<vertex_t>> &edges() const { return e_; }

 protected:
  std::size_t n_ = 0;
  std::vector<std::vector<vertex_t>> e_;
};
class IMutableMultiHypergraph : public IMultiHypergraph {
 public:
  vertex_t addVertex() { return ++n_; }
  vertex_t addVertices(std::size_t k) { n_ += k; return n_ - k + 1; }
  id_t addEdge(std::vector<vertex_t> e) { e_.push_back(std::move(e)); return e_.size(); }
  id_t addEdge(vertex_t a, vertex_t b) { e_.push_back({a, b}); return e_.size(); }
};
class MultiHypergraph : public IMutableMultiHypergraph {
 public:
  explicit MultiHypergraph(const LibraryInstance *) {}
  MultiHypergraph(const LibraryInstance *, std::size_t n) { n_ = n; }
};

class FitnessEvaluation {
 public:
  FitnessEvaluation(int, double a) : v_{a} {}
  FitnessEvaluation(int, double a, double b) : v_{a, b} {}
  FitnessEvaluation(int, double a, double b, double c) : v_{a, b, c} {}
  double at(std::size_t i) const { return v_.at(i); }
  std::size_t size() const { return v_.size(); }

 private:
  std::vector<double> v_;
};

class ITreeDecomposition {
 public:
  virtual ~ITreeDecomposition() {}
  std::vector<vertex_t> parent_;                // 1-based, parent_[0] unused
  std::vector<std::vector<vertex_t>> bag_;      // 1-based
  std::size_t vertexCount() const { return bag_.empty() ? 0 : bag_.size() - 1; }
  std::size_t maximumBagSize() const {
    std::size_t m = 0;
    for (auto &b : bag_) m = b.size() > m ? b.size() : m;
    return m;
  }
  std::size_t minimumBagSize() const {
    std::size_t m = (std::size_t)-1;
    for (std::size_t i = 1; i < bag_.size(); ++i) m = bag_[i].size() < m ? bag_[i].size() : m;
    return m;
  }
  std::size_t depth(vertex_t v) const {
    std::size_t d = 0;
    while (parent_[v]) { v = parent_[v]; ++d; }
    return d;
  }
  std::size_t height() const {
    std::size_t h = 0;
    for (vertex_t v = 1; v <= vertexCount(); ++v) h = depth(v) > h ? depth(v) : h;
    return h;
  }
  vertex_t root() const {
    for (vertex_t v = 1; v <= vertexCount(); ++v)
      if (!parent_[v]) return v;
    return 0;
  }
  std::size_t bagSize(vertex_t v) const { return bag_.at(v).size(); }
  const std::vector<vertex_t> &bagContent(vertex_t v) const { return bag_.at(v); }
  vertex_t parent(vertex_t v) const { return parent_.at(v); }
  ConstCollection<vertex_t> vertices() const {
    std::vector<vertex_t> r;
    for (vertex_t v = 1; v <= vertexCount(); ++v) r.push_back(v);
    return ConstCollection<vertex_t>(r);
  }
  ConstCollection<vertex_t> children(vertex_t p) const {
    std::vector<vertex_t> r;
    for (vertex_t v = 1; v <= vertexCount(); ++v)
      if (parent_[v] == p) r.push_back(v);
    return ConstCollection<vertex_t>(r);
  }
};

class ITreeDecompositionFitnessFunction {
 public:
  virtual ~ITreeDecompositionFitnessFunction() {}
  virtual FitnessEvaluation *fitness(const IMultiHypergraph &, const ITreeDecomposition &) const = 0;
  virtual ITreeDecompositionFitnessFunction *clone() const = 0;
};
class IDecompositionManipulationOperation {
 public:
  virtual ~IDecompositionManipulationOperation() {}
};
class ITreeDecompositionManipulationOperation : public IDecompositionManipulationOperation {};
class NormalizationOperation : public ITreeDecompositionManipulationOperation {
 public:
  explicit NormalizationOperation(const LibraryInstance *) {}
  NormalizationOperation(const LibraryInstance *, bool, bool, bool, bool) {}
};
class WeakNormalizationOperation : public ITreeDecompositionManipulationOperation {
 public:
  explicit WeakNormalizationOperation(const LibraryInstance *) {}
};
class SemiNormalizationOperation : public ITreeDecompositionManipulationOperation {
 public:
  explicit SemiNormalizationOperation(const LibraryInstance *) {}
};
class IVertexSelectionStrategy {
 public:
  virtual ~IVertexSelectionStrategy() {}
};
class RandomVertexSelectionStrategy : public IVertexSelectionStrategy {
 public:
  explicit RandomVertexSelectionStrategy(std::size_t) {}
};
class ExhaustiveVertexSelectionStrategy : public IVertexSelectionStrategy {};
class TreeDecompositionOptimizationOperation : public ITreeDecompositionManipulationOperation {
 public:
  explicit TreeDecompositionOptimizationOperation(const LibraryInstance *) {}
  TreeDecompositionOptimizationOperation(const LibraryInstance *, ITreeDecompositionFitnessFunction *) {}
  void setManagementInstance(const LibraryInstance *) {}
  void setVertexSelectionStrategy(IVertexSelectionStrategy *) {}
  void addManipulationOperation(IDecompositionManipulationOperation *) {}
};
class IVertexOrdering {
 public:
  virtual ~IVertexOrdering() {}
  const std::vector<vertex_t> &sequence() const { return s_; }
  std::vector<vertex_t> s_;
};
class IOrderingAlgorithm {
 public:
  virtual ~IOrderingAlgorithm() {}
  IVertexOrdering *computeOrdering(const IMultiHypergraph &g) const;
};
#define FAKE_ORDERING(N)                         \
  class N : public IOrderingAlgorithm {          \
   public:                                       \
    explicit N(const LibraryInstance *) {}       \
  };
FAKE_ORDERING(MinFillOrderingAlgorithm)
FAKE_ORDERING(MinDegreeOrderingAlgorithm)
FAKE_ORDERING(NaturalOrderingAlgorithm)
FAKE_ORDERING(RandomOrderingAlgorithm)
FAKE_ORDERING(MaximumCardinalitySearchOrderingAlgorithm)

class ITreeDecompositionAlgorithm {
 public:
  virtual ~ITreeDecompositionAlgorithm() {}
  void addManipulationOperation(IDecompositionManipulationOperation *) {}
  ITreeDecomposition *computeDecomposition(const IMultiHypergraph &g) const;
};
typedef ITreeDecompositionAlgorithm BucketEliminationTreeDecompositionAlgorithm;
class IterativeImprovementTreeDecompositionAlgorithm : public ITreeDecompositionAlgorithm {
 public:
  IterativeImprovementTreeDecompositionAlgorithm(const LibraryInstance *, ITreeDecompositionAlgorithm *,
                                                 ITreeDecompositionFitnessFunction *f)
      : f_(f) {}
  void setIterationCount(std::size_t) {}
  void setNonImprovementLimit(std::size_t) {}
  using ITreeDecompositionAlgorithm::computeDecomposition;
  template <typename F>
  ITreeDecomposition *computeDecomposition(const IMultiHypergraph &g, F cb) const {
    ITreeDecomposition *d = ITreeDecompositionAlgorithm::computeDecomposition(g);
    FitnessEvaluation *e = f_->fitness(g, *d);
    cb(g, *d, *e);
    delete e;
    return d;
  }

 private:
  ITreeDecompositionFitnessFunction *f_;
};

class MultiHypergraphFactory {
 public:
  IMutableMultiHypergraph *createInstance() const { return new MultiHypergraph(nullptr); }
  IMutableMultiHypergraph *createInstance(std::size_t n) const { return new MultiHypergraph(nullptr, n); }
};
class OrderingAlgorithmFactory {
 public:
  void setConstructionTemplate(IOrderingAlgorithm *) {}
  IOrderingAlgorithm *createInstance() const { return new MinFillOrderingAlgorithm(nullptr); }
};
class TreeDecompositionAlgorithmFactory {
 public:
  void setConstructionTemplate(ITreeDecompositionAlgorithm *) {}
  ITreeDecompositionAlgorithm *createInstance() const { return new ITreeDecompositionAlgorithm(); }
};
class LibraryInstance {
 public:
  MultiHypergraphFactory &multiHypergraphFactory() { return a_; }
  OrderingAlgorithmFactory &orderingAlgorithmFactory() { return b_; }
  TreeDecompositionAlgorithmFactory &treeDecompositionAlgorithmFactory() { return c_; }

 private:
  MultiHypergraphFactory a_;
  OrderingAlgorithmFactory b_;
  TreeDecompositionAlgorithmFactory c_;
};
inline LibraryInstance *createManagementInstance(Id) { return new LibraryInstance(); }

template <typename D, typename F>
inline void fake_traverse(const D &d, F f, bool post) {
  std::function<void(vertex_t)> go = [&](vertex_t v) {
    if (!post) f(v, d.parent(v), d.depth(v));
    for (vertex_t c : d.children(v)) go(c);
    if (post) f(v, d.parent(v), d.depth(v));
  };
  if (d.root()) go(d.root());
}
class PostOrderTreeTraversal {
 public:
  template <typename F>
  void traverse(const ITreeDecomposition &d, F f) const { fake_traverse(d, f, true); }
};
class PreOrderTreeTraversal {
 public:
  template <typename F>
  void traverse(const ITreeDecomposition &d, F f) const { fake_traverse(d, f, false); }
};
}  // namespace htd
#endif
