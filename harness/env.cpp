#include "env.h"

#include <algorithm>
#include <cstdio>
#include <cstdlib>

#include "fake/htd/main.hpp"

static std::vector<long> g_spec;
static size_t g_at = 0;
static std::string g_ans;

void env_script(const std::vector<long> &spec) {
  g_spec = spec;
  g_at = 0;
  g_ans = "";
}
std::string env_answers() { return "[" + g_ans + "]"; }
static void ans(const std::vector<long> &v) {
  g_ans += g_ans.empty() ? "[" : ",[";
  for (size_t i = 0; i < v.size(); ++i) g_ans += (i ? "," : "") + std::to_string(v[i]);
  g_ans += "]";
}
// Run stand-alone (the command line tools), the script comes from a file.
static void from_environment() {
  static bool done = false;
  if (done) return;
  done = true;
  const char *p = getenv("PSDD_VERIF_ENV");
  if (!p) return;
  FILE *f = fopen(p, "r");
  if (!f) return;
  long x;
  std::vector<long> v;
  while (fscanf(f, "%ld", &x) == 1) v.push_back(x);
  fclose(f);
  env_script(v);
}

namespace htd {
IVertexOrdering *IOrderingAlgorithm::computeOrdering(const IMultiHypergraph &g) const {
  from_environment();
  IVertexOrdering *o = new IVertexOrdering();
  std::vector<char> seen(g.vertexCount() + 1, 0);
  for (long v : g_spec)
    if (v >= 1 && v <= (long)g.vertexCount() && !seen[v]) {
      seen[v] = 1;
      o->s_.push_back(v);
    }
  for (size_t v = 1; v <= g.vertexCount(); ++v)
    if (!seen[v]) o->s_.push_back(v);
  ans(std::vector<long>(o->s_.begin(), o->s_.end()));
  return o;
}
ITreeDecomposition *ITreeDecompositionAlgorithm::computeDecomposition(const IMultiHypergraph &g) const {
  from_environment();
  ITreeDecomposition *d = new ITreeDecomposition();
  d->parent_.push_back(0);
  d->bag_.push_back({});
  size_t i = 0;
  while (i + 1 < g_spec.size()) {
    long p = g_spec[i], k = g_spec[i + 1];
    i += 2;
    std::vector<vertex_t> b;
    for (long j = 0; j < k && i < g_spec.size(); ++j) b.push_back((vertex_t)g_spec[i++]);
    d->parent_.push_back((vertex_t)p);
    d->bag_.push_back(b);
  }
  if (d->bag_.size() == 1) {
    std::vector<vertex_t> b;
    for (size_t v = 1; v <= g.vertexCount(); ++v) b.push_back(v);
    d->parent_.push_back(0);
    d->bag_.push_back(b);
  }
  for (size_t v = 1; v < d->bag_.size(); ++v) {
    std::vector<long> a{(long)d->parent_[v]};
    for (vertex_t x : d->bag_[v]) a.push_back((long)x);
    ans(a);
  }
  return d;
}
}  // namespace htd

extern "C" {
#include <kahypar/libkahypar.h>
struct kahypar_context_s {
  int dummy;
};
kahypar_context_t *kahypar_context_new() { return new kahypar_context_t(); }
void kahypar_context_free(kahypar_context_t *c) { delete c; }
void kahypar_configure_context_from_file(kahypar_context_t *, const char *) {}
void kahypar_partition(const kahypar_hypernode_id_t n, const kahypar_hyperedge_id_t, const double epsilon,
                       const kahypar_partition_id_t, const kahypar_hypernode_weight_t *,
                       const kahypar_hyperedge_weight_t *, const size_t *, const kahypar_hyperedge_id_t *,
                       kahypar_hyperedge_weight_t *objective, kahypar_context_t *, kahypar_partition_id_t *part) {
  from_environment();
  // sides from the script, moved minimally to an admissible (balanced) answer
  long limit = (long)((1.0 + epsilon) * (double)((n + 1) / 2));
  if (limit >= (long)n) limit = (long)n - 1;
  long c[2] = {0, 0};
  for (unsigned i = 0; i < n; ++i) {
    long b = g_at < g_spec.size() ? (g_spec[g_at] & 1) : (long)(i & 1);
    g_at++;
    if (c[b] >= limit) b = 1 - b;
    part[i] = (kahypar_partition_id_t)b;
    c[b]++;
  }
  if (objective) *objective = 0;
  std::vector<long> a;
  for (unsigned i = 0; i < n; ++i) a.push_back(part[i]);
  ans(a);
}
}
