// Replays operation scripts (produced by the TLA+ models or by the seeded
// generators) on the real psdd library and records, after every call, what an
// observer can see: one JSON event per call.  The recorded histories are then
// checked against the TLA+ specification (spec/PsddTrace.tla).
//
// usage: replay SCRIPT OUT SCRATCHDIR
#include <csignal>
#include <cstdint>
#include <cmath>
#include <psdd/binary_data.h>
#include <psdd/cnf.h>
#include <psdd/csvparser.h>
#include <psdd/hypergraph_decomposition_vtree.h>
#include <psdd/jointree_vtree.h>
#include <psdd/minfill_vtree.h>
#include <psdd/pgm_compiler.h>
#include <psdd/psdd_manager.h>
#include <psdd/psdd_node.h>
#include <psdd/psdd_parameter.h>
#include <psdd/psdd_unique_table.h>
#include <psdd/random_double_generator.h>
#include <psdd/uai_network.h>

#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>

#include "env.h"
extern "C" {
#include <sdd/sddapi.h>
}

using std::string;
using std::vector;
typedef std::vector<string> Toks;

static int g_out = -1;
static bool g_first = true;
static string g_scratch;

static void die(const string &m) {
  fprintf(stderr, "replay: %s\n", m.c_str());
  _exit(99);
}
static void write_all(int fd, const string &s) {
  size_t o = 0;
  while (o < s.size()) {
    ssize_t r = ::write(fd, s.data() + o, s.size() - o);
    if (r <= 0) _exit(98);
    o += (size_t)r;
  }
}
static string num(double d) {
  char b[64];
  if (std::isnan(d)) return "\"nan\"";
  if (std::isinf(d)) return d < 0 ? "\"-inf\"" : "\"inf\"";
  snprintf(b, sizeof b, "\"%.17g\"", d);
  return b;
}
static string qs(const string &s) { return "\"" + s + "\""; }
static string us(uintmax_t v) { return "\"" + std::to_string(v) + "\""; }
// JSON string of arbitrary bytes: only printable ASCII kept.
static string esc(const string &s) {
  string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += (char)c;
    } else if (c < 32 || c > 126) {
      r += '?';
    } else
      r += (char)c;
  }
  return r + "\"";
}

struct Ev {
  string s;
  explicit Ev(const string &op) { s = "{\"op\":\"" + op + "\""; }
  Ev &i(const string &k, long v) {
    s += ",\"" + k + "\":" + std::to_string(v);
    return *this;
  }
  Ev &raw(const string &k, const string &v) {
    s += ",\"" + k + "\":" + v;
    return *this;
  }
  Ev &ints(const string &k, const vector<long> &v) {
    s += ",\"" + k + "\":[";
    for (size_t j = 0; j < v.size(); ++j) {
      if (j) s += ",";
      s += std::to_string(v[j]);
    }
    s += "]";
    return *this;
  }
  Ev &strs(const string &k, const vector<string> &v) {
    s += ",\"" + k + "\":[";
    for (size_t j = 0; j < v.size(); ++j) {
      if (j) s += ",";
      s += v[j];
    }
    s += "]";
    return *this;
  }
  void emit() {
    string t = (g_first ? "" : ",") + s + "}";
    g_first = false;
    write_all(g_out, t);
  }
};

static long toi(const string &s) { return strtol(s.c_str(), nullptr, 10); }
static uintmax_t tou(const string &s) {
  return (uintmax_t)strtoull(s.c_str(), nullptr, 10);
}
static PsddParameter par(const string &s) {
  if (s[0] == 'd') return PsddParameter::CreateFromDecimal(strtod(s.c_str() + 1, nullptr));
  if (s[0] == 'l') return PsddParameter::CreateFromLog(strtod(s.c_str() + 1, nullptr));
  die("bad parameter " + s);
  return PsddParameter();
}
static string unhex(const string &h) {
  if (h == "-") return "";
  string r;
  for (size_t i = 0; i + 1 < h.size(); i += 2)
    r += (char)strtol(h.substr(i, 2).c_str(), nullptr, 16);
  return r;
}

// ---------------------------------------------------------------- state
struct Mgr {
  PsddManager *pm = nullptr;
  // without a manager: a unique table used directly, with a vtree and a counter of indices of its own
  PsddUniqueTable *ut = nullptr;
  Vtree *vt = nullptr;
  uintmax_t idx = 0;
  std::map<const Vtree *, long> pos;
  bool live = false;
};
static std::map<long, Vtree *> V;
static std::map<long, Mgr> M;
struct Handle {
  PsddNode *n;
  long m;
};
static std::map<long, Handle> H;
static std::map<PsddNode *, long> node_id;
static std::map<PsddNode *, long> node_mgr;
static long next_id = 1;
static std::map<long, BinaryData *> D;
static std::map<long, string> F;  // file slots: path
static std::map<long, UaiNetwork *> Un;
static std::map<long, PgmCompiler *> Pg;
static std::map<long, PsddParameter> R;

struct Skip {};  // a script line whose arguments no longer exist
template <class T>
static T &get(std::map<long, T> &m, const string &k) {
  auto it = m.find(toi(k));
  if (it == m.end()) throw Skip();
  return it->second;
}
static vector<PsddNode *> post_order(PsddNode *root) {
  vector<PsddNode *> res;
  std::set<PsddNode *> seen;
  vector<std::pair<PsddNode *, size_t>> st;
  st.push_back({root, 0});
  seen.insert(root);
  while (!st.empty()) {
    PsddNode *n = st.back().first;
    size_t k = st.back().second;
    vector<PsddNode *> ch;
    if (n->node_type() == DECISION_NODE_TYPE) {
      auto d = n->psdd_decision_node();
      ch = d->primes();
      ch.insert(ch.end(), d->subs().begin(), d->subs().end());
    }
    if (k < ch.size()) {
      st.back().second++;
      if (ch[k] && seen.insert(ch[k]).second) st.push_back({ch[k], 0});
    } else {
      res.push_back(n);
      st.pop_back();
    }
  }
  return res;
}
// identities are handed out children first
static long idof(PsddNode *n) {
  if (n == nullptr) return 0;
  auto it = node_id.find(n);
  if (it != node_id.end()) return it->second;
  for (PsddNode *x : post_order(n))
    if (!node_id.count(x)) node_id[x] = next_id++;
  return node_id[n];
}
static string node_json(PsddNode *n, long m) {
  auto &mg = M[m];
  long v = -1;
  auto pit = mg.pos.find(n->vtree_node());
  if (pit != mg.pos.end()) v = pit->second;
  string s = "{\"i\":" + std::to_string(idof(n)) + ",\"x\":" + us(n->node_index()) +
             ",\"v\":" + std::to_string(v) + ",\"f\":" + us(n->flag_index());
  if (n->node_type() == LITERAL_NODE_TYPE) {
    s += ",\"k\":\"L\",\"l\":" + std::to_string(n->psdd_literal_node()->literal());
  } else if (n->node_type() == TOP_NODE_TYPE) {
    auto t = n->psdd_top_node();
    s += ",\"k\":\"T\",\"l\":" + std::to_string((long)t->variable_index()) +
         ",\"w\":[" + num(t->true_parameter().parameter()) + "," +
         num(t->false_parameter().parameter()) + "]";
  } else {
    auto d = n->psdd_decision_node();
    s += ",\"k\":\"D\",\"p\":[";
    for (size_t j = 0; j < d->primes().size(); ++j)
      s += (j ? "," : "") + std::to_string(idof(d->primes()[j]));
    s += "],\"s\":[";
    for (size_t j = 0; j < d->subs().size(); ++j)
      s += (j ? "," : "") + std::to_string(idof(d->subs()[j]));
    s += "],\"w\":[";
    for (size_t j = 0; j < d->parameters().size(); ++j)
      s += (j ? "," : "") + num(d->parameters()[j].parameter());
    s += "]";
  }
  return s + "}";
}
// reachable nodes of several roots, children first
static string nodes_json(const vector<std::pair<PsddNode *, long>> &roots) {
  string s = "[";
  std::set<PsddNode *> done;
  bool first = true;
  for (auto &r : roots) {
    if (!r.first) continue;
    for (PsddNode *n : post_order(r.first)) {
      if (!done.insert(n).second) continue;
      node_mgr[n] = r.second;
      s += (first ? "" : ",") + node_json(n, r.second);
      first = false;
    }
  }
  return s + "]";
}
static string vtab_json(Vtree *root) {
  string s = "[";
  bool first = true;
  std::function<void(Vtree *)> go = [&](Vtree *v) {
    bool leaf = sdd_vtree_is_leaf(v);
    if (!leaf) go(sdd_vtree_left(v));
    Vtree *p = sdd_vtree_parent(v);
    s += string(first ? "" : ",") + "[" + std::to_string(sdd_vtree_position(v)) + "," +
         std::to_string(leaf ? sdd_vtree_var(v) : 0) + "," +
         std::to_string(leaf ? -1 : sdd_vtree_position(sdd_vtree_left(v))) + "," +
         std::to_string(leaf ? -1 : sdd_vtree_position(sdd_vtree_right(v))) + "," +
         std::to_string(p ? sdd_vtree_position(p) : -1) + "," +
         (sdd_vtree_data(v) ? "1" : "0") + "]";
    first = false;
    if (!leaf) go(sdd_vtree_right(v));
  };
  if (root) go(root);
  return s + "]";
}
static void reg_mgr(long m, PsddManager *pm, PsddUniqueTable *ut = nullptr, Vtree *vt = nullptr) {
  Mgr g;
  g.pm = pm;
  g.ut = ut;
  g.vt = ut ? vt : pm->vtree();
  g.live = true;
  std::function<void(Vtree *)> go = [&](Vtree *v) {
    g.pos[v] = sdd_vtree_position(v);
    if (!sdd_vtree_is_leaf(v)) {
      go(sdd_vtree_left(v));
      go(sdd_vtree_right(v));
    }
  };
  go(g.vt);
  M[m] = g;
}
static Vtree *at_pos(Vtree *v, long p) {
  if (sdd_vtree_position(v) == p) return v;
  if (sdd_vtree_is_leaf(v)) return nullptr;
  return p < sdd_vtree_position(v) ? at_pos(sdd_vtree_left(v), p)
                                   : at_pos(sdd_vtree_right(v), p);
}
static Vtree *build_rpn(const Toks &t, size_t a, size_t b) {
  vector<Vtree *> st;
  for (size_t i = a; i < b; ++i) {
    if (t[i] == "0") {
      Vtree *r = st.back();
      st.pop_back();
      Vtree *l = st.back();
      st.pop_back();
      st.push_back(new_internal_vtree(l, r));
    } else
      st.push_back(new_leaf_vtree(toi(t[i])));
  }
  set_vtree_properties(st.back());
  return st.back();
}
static vector<long> longs(const Toks &t, size_t a, size_t b) {
  vector<long> r;
  for (size_t i = a; i < b && i < t.size(); ++i) r.push_back(toi(t[i]));
  return r;
}
static Handle &hd(const string &s) {
  auto it = H.find(toi(s));
  if (it == H.end() || it->second.n == nullptr) throw Skip();
  return it->second;
}
static PsddManager *mg(const string &s) {
  auto it = M.find(toi(s));
  if (it == M.end() || !it->second.live || !it->second.pm) throw Skip();
  return it->second.pm;
}
static void result(Ev &e, long h, long m, PsddNode *n) {
  H[h] = {n, m};
  e.i("h", h).i("m", m).i("res", idof(n)).raw("nodes", nodes_json({{n, m}}));
}
static std::bitset<MAX_VAR> *bits() { return new std::bitset<MAX_VAR>(); }
static vector<long> setbits(const std::bitset<MAX_VAR> &b) {
  vector<long> r;
  for (size_t i = b._Find_first(); i < b.size(); i = b._Find_next(i)) r.push_back((long)i);
  return r;
}
static string spath(const string &n) { return g_scratch + "/" + n; }
static void put(const string &p, const string &c) {
  std::ofstream f(p.c_str(), std::ios::binary);
  f.write(c.data(), (std::streamsize)c.size());
}
static string slurp(const string &p) {
  std::ifstream f(p.c_str(), std::ios::binary);
  std::stringstream ss;
  ss << f.rdbuf();
  return ss.str();
}
static string toklines(const string &text) {
  // list of lines, each a list of blank separated tokens (comment lines: just the first token)
  string s = "[";
  std::istringstream is(text);
  string line;
  bool f1 = true;
  while (std::getline(is, line)) {
    s += f1 ? "[" : ",[";
    f1 = false;
    std::istringstream ls(line);
    string tk;
    bool f2 = true;
    bool comment = false;
    while (!comment && ls >> tk) {
      s += (f2 ? "" : ",") + esc(tk);
      if (f2 && tk == "c") comment = true;
      f2 = false;
    }
    s += "]";
  }
  return s + "]";
}
// uniform draws for DirectSample
class ScriptUniform : public RandomDoubleFromUniformGenerator {
 public:
  ScriptUniform(double mn, double mx) : RandomDoubleFromUniformGenerator(mn, mx, 1) {}
  double generate() override {
    double u = used < draws.size() ? draws[used] : fallback;
    used++;
    return min() + u * (max() - min());
  }
  vector<double> draws;
  double fallback = 0.5;
  size_t used = 0;
};
class ScriptDraws : public RandomDoubleGenerator {
 public:
  double generate() override {
    double u = used < draws.size() ? draws[used] : 1.0;
    used++;
    return u;
  }
  vector<double> draws;
  size_t used = 0;
};

// ---------------------------------------------------------------- formulas
enum { F_AND = 1000001, F_OR, F_NOT, F_TRUE, F_FALSE, F_XOR };
static SddNode *formula(const vector<long> &t, const std::map<long, long> &map, SddManager *sm) {
  vector<SddNode *> st;
  for (long x : t) {
    if (x == F_TRUE)
      st.push_back(sdd_manager_true(sm));
    else if (x == F_FALSE)
      st.push_back(sdd_manager_false(sm));
    else if (x == F_NOT) {
      SddNode *a = st.back();
      st.back() = sdd_negate(a, sm);
    } else if (x == F_AND || x == F_OR || x == F_XOR) {
      SddNode *b = st.back();
      st.pop_back();
      SddNode *a = st.back();
      if (x == F_AND)
        st.back() = sdd_conjoin(a, b, sm);
      else if (x == F_OR)
        st.back() = sdd_disjoin(a, b, sm);
      else
        st.back() = sdd_disjoin(sdd_conjoin(a, sdd_negate(b, sm), sm),
                                sdd_conjoin(sdd_negate(a, sm), b, sm), sm);
    } else {
      long v = labs(x);
      long sv = map.at(v);
      st.push_back(sdd_manager_literal(x > 0 ? sv : -sv, sm));
    }
  }
  return st.back();
}
static bool sdd_eval(SddNode *n, const std::map<long, bool> &a, std::map<SddSize, bool> *memo) {
  if (sdd_node_is_true(n)) return true;
  if (sdd_node_is_false(n)) return false;
  if (sdd_node_is_literal(n)) {
    long l = sdd_node_literal(n);
    return a.at(labs(l)) == (l > 0);
  }
  auto it = memo->find(sdd_id(n));
  if (it != memo->end()) return it->second;
  SddNode **e = sdd_node_elements(n);
  bool r = false;
  for (SddSize i = 0; i < sdd_node_size(n) && !r; ++i)
    if (sdd_eval(e[2 * i], a, memo) && sdd_eval(e[2 * i + 1], a, memo)) r = true;
  (*memo)[sdd_id(n)] = r;
  return r;
}

// ---------------------------------------------------------------- commands
typedef void (*Cmd)(const Toks &);
static std::map<string, Cmd> cmds;
struct Reg {
  Reg(const char *n, Cmd c) { cmds[n] = c; }
};
#define CMD(name)                       \
  static void cmd_##name(const Toks &t); \
  static Reg register_##name(#name, cmd_##name); \
  static void cmd_##name(const Toks &t)

// vtree V rpn...
CMD(vtree) {
  Vtree *v = build_rpn(t, 2, t.size());
  V[toi(t[1])] = v;
  Ev("vtree").i("v", toi(t[1])).ints("rpn", longs(t, 2, t.size())).raw("tab", vtab_json(v)).emit();
}
CMD(vfree) {
  sdd_vtree_free(V[toi(t[1])]);
  V.erase(toi(t[1]));
}
// mgr M V
CMD(mgr) {
  Vtree *v = get(V, t[2]);
  reg_mgr(toi(t[1]), PsddManager::GetPsddManagerFromVtree(v));
  Mgr &m = M[toi(t[1])];
  Ev("mgr").i("m", toi(t[1])).i("v", toi(t[2])).raw("tab", vtab_json(m.pm->vtree())).raw("vtab", vtab_json(v))
      .i("own", m.pos.count(v) ? 0 : 1).emit();
}
// burn M N: N requests whose results nobody keeps (indices grow)
CMD(burn) {
  Mgr &m = get(M, t[1]);
  Vtree *v = m.pm->vtree();
  while (!sdd_vtree_is_leaf(v)) v = sdd_vtree_left(v);
  long n = toi(t[2]);
  static long made = 0;   // every request makes a node
  for (long i = 0; i < n; ++i)
    m.pm->GetPsddTopNode((uint32_t)sdd_vtree_var(v), 77, PsddParameter::CreateFromLog(-1000 - 1e-3 * (double)made++),
                         PsddParameter::CreateFromDecimal(1));
}
// mgrmap M V k a1 b1 ...   (manager from a vtree with a variable renaming)
CMD(mgrmap) {
  Vtree *v = get(V, t[2]);
  std::unordered_map<uint32_t, uint32_t> map;
  long k = toi(t[3]);
  for (long i = 0; i < k; ++i) map[(uint32_t)toi(t[4 + 2 * i])] = (uint32_t)toi(t[5 + 2 * i]);
  reg_mgr(toi(t[1]), PsddManager::GetPsddManagerFromSddVtree(v, map));
  Mgr &m = M[toi(t[1])];
  Ev("mgrmap").i("m", toi(t[1])).i("v", toi(t[2])).ints("map", longs(t, 4, 4 + 2 * k))
      .raw("tab", vtab_json(m.pm->vtree())).raw("vtab", vtab_json(v)).i("own", m.pos.count(v) ? 0 : 1).emit();
}
CMD(mgrfree) {
  long m = toi(t[1]);
  delete M[m].pm;
  delete M[m].ut;
  M[m].pm = nullptr;
  M[m].ut = nullptr;
  M[m].live = false;
  M[m].pos.clear();
  for (auto it = H.begin(); it != H.end();)
    if (it->second.m == m)
      it = H.erase(it);
    else
      ++it;
  for (auto it = node_id.begin(); it != node_id.end();)
    if (node_mgr[it->first] == m)
      it = node_id.erase(it);
    else
      ++it;
  Ev("mgrfree").i("m", m).emit();
}
// lit H M lit flag
CMD(lit) {
  Ev e("lit");
  PsddNode *n = mg(t[2])->GetPsddLiteralNode((int32_t)toi(t[3]), tou(t[4]));
  e.i("l", toi(t[3])).raw("f", qs(t[4]));
  result(e, toi(t[1]), toi(t[2]), n);
  e.emit();
}
// top H M var flag wtrue wfalse
CMD(top) {
  Ev e("top");
  PsddParameter a = par(t[5]), b = par(t[6]);
  PsddNode *n = mg(t[2])->GetPsddTopNode((uint32_t)toi(t[3]), tou(t[4]), a, b);
  e.i("l", toi(t[3])).raw("f", qs(t[4])).strs("w", {num(a.parameter()), num(b.parameter())});
  result(e, toi(t[1]), toi(t[2]), n);
  e.emit();
}
// dec H M flag k p1 s1 w1 ...
CMD(dec) {
  long k = toi(t[4]);
  vector<PsddNode *> p, s;
  vector<PsddParameter> w;
  vector<long> ph, sh;
  vector<string> ws;
  for (long i = 0; i < k; ++i) {
    p.push_back(hd(t[5 + 3 * i]).n);
    s.push_back(hd(t[6 + 3 * i]).n);
    w.push_back(par(t[7 + 3 * i]));
    ph.push_back(idof(p.back()));
    sh.push_back(idof(s.back()));
    ws.push_back(num(w.back().parameter()));
  }
  PsddNode *n = mg(t[2])->GetConformedPsddDecisionNode(p, s, w, tou(t[3]));
  Ev e("dec");
  e.raw("f", qs(t[3])).ints("p", ph).ints("s", sh).strs("w", ws);
  result(e, toi(t[1]), toi(t[2]), n);
  e.emit();
}
// ---- a unique table used directly
// utab M V
CMD(utab) {
  Vtree *v = vtree_util::CopyVtree(get(V, t[2]));
  reg_mgr(toi(t[1]), nullptr, PsddUniqueTable::GetPsddUniqueTable(), v);
  Ev("utab").i("m", toi(t[1])).i("v", toi(t[2])).raw("tab", vtab_json(v)).emit();
}
static Mgr &ut(const string &s) {
  auto it = M.find(toi(s));
  if (it == M.end() || !it->second.live || !it->second.ut) throw Skip();
  return it->second;
}
static bool node_eq(PsddNode *a, PsddNode *b) {
  if (a->node_type() != b->node_type()) return false;
  if (a->node_type() == LITERAL_NODE_TYPE) return *a->psdd_literal_node() == *b->psdd_literal_node();
  if (a->node_type() == TOP_NODE_TYPE) return *a->psdd_top_node() == *b->psdd_top_node();
  return *a->psdd_decision_node() == *b->psdd_decision_node();
}
// what the new node compares equal to, and whether equal nodes have equal hash values; then the table's answer
static void ufinish(Ev &e, const Toks &t, PsddNode *n) {
  Mgr &g = ut(t[2]);
  vector<long> eq;
  int hq = 1;
  for (auto &kv : node_id) {
    auto mit = node_mgr.find(kv.first);
    if (mit == node_mgr.end() || mit->second != toi(t[2])) continue;
    bool q = node_eq(n, kv.first);
    if (q != node_eq(kv.first, n)) hq = 0;
    if (q) {
      eq.push_back(kv.second);
      if (n->hash_value() != kv.first->hash_value()) hq = 0;
    }
  }
  // an unfilled node was not handed an index by its constructor: the table counts
  PsddNode *r = g.ut->GetUniqueNode(n, &g.idx);
  e.ints("eq", eq).i("hq", hq);
  result(e, toi(t[1]), toi(t[2]), r);
  e.emit();
}
static Vtree *leaf_of(Vtree *v, long x) {
  if (sdd_vtree_is_leaf(v)) return (long)sdd_vtree_var(v) == x ? v : nullptr;
  Vtree *l = leaf_of(sdd_vtree_left(v), x);
  return l ? l : leaf_of(sdd_vtree_right(v), x);
}
// ulit H M lit flag
CMD(ulit) {
  Mgr &g = ut(t[2]);
  Ev e("lit");
  e.i("l", toi(t[3])).raw("f", qs(t[4]));
  ufinish(e, t, new PsddLiteralNode(g.idx, leaf_of(g.vt, labs(toi(t[3]))), tou(t[4]), (int32_t)toi(t[3])));
}
// utop H M var flag wtrue wfalse
CMD(utop) {
  Mgr &g = ut(t[2]);
  Ev e("top");
  PsddParameter a = par(t[5]), b = par(t[6]);
  e.i("l", toi(t[3])).raw("f", qs(t[4])).strs("w", {num(a.parameter()), num(b.parameter())});
  ufinish(e, t, new PsddTopNode(g.idx, leaf_of(g.vt, toi(t[3])), tou(t[4]), (uint32_t)toi(t[3]), a, b));
}
// udec H M flag k p1 s1 w1 ...   (primes and subs at the two children of one vtree node)
CMD(udec) {
  Mgr &g = ut(t[2]);
  long k = toi(t[4]);
  vector<PsddNode *> p, s;
  vector<PsddParameter> w;
  vector<long> ph, sh;
  vector<string> ws;
  for (long i = 0; i < k; ++i) {
    p.push_back(hd(t[5 + 3 * i]).n);
    s.push_back(hd(t[6 + 3 * i]).n);
    w.push_back(par(t[7 + 3 * i]));
    ph.push_back(idof(p.back()));
    sh.push_back(idof(s.back()));
    ws.push_back(num(w.back().parameter()));
  }
  Vtree *v = sdd_vtree_parent(p[0]->vtree_node());
  Ev e("dec");
  e.raw("f", qs(t[3])).ints("p", ph).ints("s", sh).strs("w", ws);
  ufinish(e, t, new PsddDecisionNode(g.idx, v, tou(t[3]), p, s, w));
}
// gcf M flags... : only nodes of these flags stay
CMD(gcf) {
  long m = toi(t[1]);
  Mgr &g = ut(t[1]);
  std::unordered_set<uintmax_t> fl;
  vector<string> fs;
  for (size_t i = 2; i < t.size(); ++i) {
    fl.insert(tou(t[i]));
    fs.push_back(qs(t[i]));
  }
  vector<long> hs;
  for (auto it = H.begin(); it != H.end();) {
    if (it->second.m == m && it->second.n && !fl.count(it->second.n->flag_index())) {
      hs.push_back(it->first);
      it = H.erase(it);
    } else
      ++it;
  }
  for (auto it = node_id.begin(); it != node_id.end();) {
    if (node_mgr[it->first] == m && !fl.count(it->first->flag_index()))
      it = node_id.erase(it);
    else
      ++it;
  }
  g.ut->DeletePsddNodesWithoutFlagIndexes(fl);
  vector<std::pair<PsddNode *, long>> rr;
  for (auto &kv : H)
    if (kv.second.m == m && kv.second.n) rr.push_back({kv.second.n, m});
  Ev("gcf").i("m", m).strs("fs", fs).ints("drop", hs).raw("nodes", nodes_json(rr)).emit();
}
// true H M pos flag
CMD(true) {
  Ev e("true");
  PsddManager *m = mg(t[2]);
  long p = toi(t[3]) < 0 ? sdd_vtree_position(m->vtree()) : toi(t[3]);
  PsddNode *n = m->GetTrueNode(at_pos(m->vtree(), p), tou(t[4]));
  e.i("p", p).raw("f", qs(t[4]));
  result(e, toi(t[1]), toi(t[2]), n);
  e.emit();
}
// norm H M pos H0 flag
CMD(norm) {
  Ev e("norm");
  PsddManager *m = mg(t[2]);
  long p = toi(t[3]) < 0 ? sdd_vtree_position(m->vtree()) : toi(t[3]);
  PsddNode *a = hd(t[4]).n;
  PsddNode *n = m->NormalizePsddNode(at_pos(m->vtree(), p), a, tou(t[5]));
  e.i("p", p).i("a", idof(a)).raw("f", qs(t[5]));
  result(e, toi(t[1]), toi(t[2]), n);
  e.emit();
}
static void rpn_of(Vtree *v, const std::map<long, long> &map, Toks *o) {
  if (sdd_vtree_is_leaf(v))
    o->push_back(std::to_string(map.at(sdd_vtree_var(v))));
  else {
    rpn_of(sdd_vtree_left(v), map, o);
    rpn_of(sdd_vtree_right(v), map, o);
    o->push_back("0");
  }
}
// conv H M flag mode pos k v1 s1 .. vk sk nf formula...
//   mode 0 ConvertSddToPsdd; 1 FromSdd with variable set; 2 FromSdd with sub-vtree
//   vi: PSDD variable, si: SDD variable standing for it
CMD(conv) {
  PsddManager *m = mg(t[2]);
  uintmax_t flag = tou(t[3]);
  long mode = toi(t[4]);
  long p = toi(t[5]) < 0 ? sdd_vtree_position(m->vtree()) : toi(t[5]);
  long k = toi(t[6]);
  std::map<long, long> map;
  for (long i = 0; i < k; ++i) map[toi(t[7 + 2 * i])] = toi(t[8 + 2 * i]);
  vector<long> f = longs(t, 7 + 2 * k, t.size());
  Vtree *sub = at_pos(m->vtree(), p);
  Toks rpn;
  rpn_of(sub, map, &rpn);
  Vtree *sv = build_rpn(rpn, 0, rpn.size());
  SddManager *sm = sdd_manager_new(sv);
  sdd_vtree_free(sv);
  sdd_manager_auto_gc_and_minimize_off(sm);
  SddNode *fn = formula(f, map, sm);
  PsddNode *n = nullptr;
  if (mode == 0)
    n = m->ConvertSddToPsdd(fn, sdd_manager_vtree(sm), flag);
  else if (mode == 1) {
    std::unordered_set<SddLiteral> vars;
    for (auto &kv : map) vars.insert(kv.first);
    n = m->FromSdd(fn, sdd_manager_vtree(sm), flag, vars);
  } else
    n = m->FromSdd(fn, sdd_manager_vtree(sm), flag, sub);
  Ev e("conv");
  e.i("mode", mode).i("p", p).raw("f", qs(t[3])).ints("fm", f);
  result(e, toi(t[1]), toi(t[2]), n);
  e.emit();
  sdd_manager_free(sm);
}
static string clauses_json(const vector<vector<SddLiteral>> &c) {
  string s = "[";
  for (size_t i = 0; i < c.size(); ++i) {
    s += i ? ",[" : "[";
    for (size_t j = 0; j < c[i].size(); ++j) s += (j ? "," : "") + std::to_string(c[i][j]);
    s += "]";
  }
  return s + "]";
}
// cnf H M flag lits... 0 lits... 0   (in memory)
CMD(cnf) {
  vector<vector<SddLiteral>> cl;
  vector<SddLiteral> cur;
  for (size_t i = 4; i < t.size(); ++i) {
    long x = toi(t[i]);
    if (x == 0) {
      cl.push_back(cur);
      cur.clear();
    } else
      cur.push_back(x);
  }
  CNF c(cl);
  PsddNode *n = c.Compile(mg(t[2]), tou(t[3]));
  Ev e("cnf");
  e.raw("f", qs(t[3])).raw("cl", clauses_json(cl));
  result(e, toi(t[1]), toi(t[2]), n);
  e.emit();
}
// cnffile H M flag hex
CMD(cnffile) {
  string p = spath("c.cnf");
  string text = unhex(t[4]);
  put(p, text);
  CNF c(p.c_str());
  PsddNode *n = c.Compile(mg(t[2]), tou(t[3]));
  Ev e("cnffile");
  e.raw("f", qs(t[3])).raw("text", toklines(text)).raw("cl", clauses_json(c.clauses()));
  result(e, toi(t[1]), toi(t[2]), n);
  e.emit();
}
// mul H M H1 H2 flag
CMD(mul) {
  PsddNode *a = hd(t[3]).n, *b = hd(t[4]).n;
  auto r = mg(t[2])->Multiply(a, b, tou(t[5]));
  Ev e("mul");
  e.i("a", idof(a)).i("b", idof(b)).raw("f", qs(t[5])).raw("z", num(r.second.parameter()));
  result(e, toi(t[1]), toi(t[2]), r.first);
  e.emit();
}
// evidence groups: "n lit... g garbage..."; queries separated by '/'
struct Query {
  vector<long> ev, gb;
};
static vector<Query> queries(const Toks &t, size_t from) {
  vector<Query> q;
  Query c;
  bool g = false;
  for (size_t i = from; i < t.size(); ++i) {
    if (t[i] == "/") {
      q.push_back(c);
      c = Query();
      g = false;
    } else if (t[i] == "g")
      g = true;
    else
      (g ? c.gb : c.ev).push_back(toi(t[i]));
  }
  return q;
}
static void qbits(const Query &q, std::bitset<MAX_VAR> *mask, std::bitset<MAX_VAR> *inst) {
  mask->reset();
  inst->reset();
  for (long l : q.ev) {
    mask->set((size_t)labs(l));
    if (l > 0) inst->set((size_t)l);
  }
  for (long v : q.gb) inst->set((size_t)v);
}
static string ilist(const vector<long> &v) {
  string s = "[";
  for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string(v[i]);
  return s + "]";
}
// evals H queries... : Evaluate, both overloads
CMD(evals) {
  PsddNode *n = hd(t[1]).n;
  auto ser = psdd_node_util::SerializePsddNodes(n);
  static std::bitset<MAX_VAR> mask, inst;
  vector<string> qj, r1, r2;
  for (auto &q : queries(t, 2)) {
    qbits(q, &mask, &inst);
    qj.push_back(ilist(q.ev));
    r1.push_back(num(psdd_node_util::Evaluate(mask, inst, n).parameter()));
    r2.push_back(num(psdd_node_util::Evaluate(mask, inst, ser).parameter()));
  }
  Ev("evals").i("a", idof(n)).strs("q", qj).strs("r", r1).strs("r2", r2).emit();
}
// cons H queries... : consistency, three ways
CMD(cons) {
  PsddNode *n = hd(t[1]).n;
  auto ser = psdd_node_util::SerializePsddNodes(n);
  static std::bitset<MAX_VAR> mask, inst;
  vector<string> qj, r;
  for (auto &q : queries(t, 2)) {
    qbits(q, &mask, &inst);
    std::unordered_map<uint32_t, bool> mp;
    for (long l : q.ev) mp[(uint32_t)labs(l)] = l > 0;
    const PsddNode *cn = n;
    int a = cn->IsConsistent(mp), b = psdd_node_util::IsConsistent(n, mask, inst),
        c = psdd_node_util::IsConsistent(ser, mask, inst);
    qj.push_back(ilist(q.ev));
    r.push_back("[" + std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(c) + "]");
  }
  Ev("cons").i("a", idof(n)).strs("q", qj).strs("r", r).emit();
}
// consn H size truevars... : consistency of the first `size` variables
CMD(consn) {
  PsddNode *n = hd(t[1]).n;
  static std::bitset<MAX_VAR> inst;
  inst.reset();
  for (size_t i = 3; i < t.size(); ++i) inst.set((size_t)toi(t[i]));
  int a = n->IsConsistent(inst, (uint32_t)toi(t[2]));
  Ev("consn").i("a", idof(n)).i("n", toi(t[2])).ints("t", longs(t, 3, t.size())).i("r", a).emit();
}
// act H truevars... : activation flags for a complete assignment
CMD(act) {
  PsddNode *n = hd(t[1]).n;
  auto ser = psdd_node_util::SerializePsddNodes(n);
  static std::bitset<MAX_VAR> inst;
  inst.reset();
  for (size_t i = 2; i < t.size(); ++i) inst.set((size_t)toi(t[i]));
  psdd_node_util::SetActivationFlag(inst, ser);
  vector<long> on;
  for (PsddNode *x : ser)
    if (x->activation_flag()) on.push_back(idof(x));
  for (PsddNode *x : ser) x->ResetActivationFlag();
  Ev("act").i("a", idof(n)).ints("t", longs(t, 2, t.size())).ints("on", on).emit();
}
CMD(mpe) {
  PsddNode *n = hd(t[1]).n;
  auto r = psdd_node_util::GetMPESolution(n);
  auto r2 = psdd_node_util::GetMPESolution(psdd_node_util::SerializePsddNodes(n));
  Ev("mpe").i("a", idof(n)).ints("t", setbits(r.first)).raw("r", num(r.second.parameter()))
      .ints("t2", setbits(r2.first)).raw("r2", num(r2.second.parameter())).emit();
}
CMD(mar) {
  PsddNode *n = hd(t[1]).n;
  auto r = psdd_node_util::GetMarginals(psdd_node_util::SerializePsddNodes(n));
  vector<string> o;
  std::map<long, std::pair<double, double>> s;
  for (auto &kv : r) s[kv.first] = {kv.second.first.parameter(), kv.second.second.parameter()};
  for (auto &kv : s)
    o.push_back("{\"x\":" + std::to_string(kv.first) + ",\"f\":" + num(kv.second.first) +
                ",\"t\":" + num(kv.second.second) + "}");
  Ev("mar").i("a", idof(n)).strs("r", o).emit();
}
CMD(count) {
  PsddNode *n = hd(t[1]).n;
  mpz_class c = psdd_node_util::ModelCount(psdd_node_util::SerializePsddNodes(n));
  char *b = mpz_get_str(nullptr, 10, c.get_mpz_t());
  Ev("count").i("a", idof(n)).raw("r", qs(b)).emit();
  free(b);
}
CMD(size) {
  PsddNode *n = hd(t[1]).n;
  Ev("size").i("a", idof(n)).raw("r", us(psdd_node_util::GetPsddSize(n))).emit();
}
// ser H... : serialise several roots (single: both overloads) and cover
CMD(ser) {
  vector<PsddNode *> roots;
  vector<long> ids;
  for (size_t i = 1; i < t.size(); ++i) {
    roots.push_back(hd(t[i]).n);
    ids.push_back(idof(roots.back()));
  }
  vector<long> o, o2;
  for (PsddNode *x : psdd_node_util::SerializePsddNodes(roots)) o.push_back(idof(x));
  if (roots.size() == 1)
    for (PsddNode *x : psdd_node_util::SerializePsddNodes(roots[0])) o2.push_back(idof(x));
  else
    o2 = o;
  vector<long> cov;
  long bad = 0;
  for (auto &kv : psdd_node_util::GetCoveredPsddNodes(roots)) {
    cov.push_back(idof(kv.second));
    if (kv.first != kv.second->node_index()) bad = 1;
  }
  std::sort(cov.begin(), cov.end());
  Ev("ser").ints("a", ids).ints("o", o).ints("o2", o2).ints("cov", cov).i("bad", bad).emit();
}
// tosdd H k v1 s1 ... rpn(of an SDD vtree over s1..sk)... / probes: truevars... / ...
CMD(tosdd) {
  PsddNode *n = hd(t[1]).n;
  long k = toi(t[2]);
  std::unordered_map<SddLiteral, SddLiteral> map;
  std::map<long, long> inv;
  for (long i = 0; i < k; ++i) {
    map[toi(t[3 + 2 * i])] = toi(t[4 + 2 * i]);
    inv[toi(t[3 + 2 * i])] = toi(t[4 + 2 * i]);
  }
  size_t a = 3 + 2 * (size_t)k, b = a;
  while (t[b] != "/") ++b;
  Vtree *sv = build_rpn(t, a, b);
  SddManager *sm = sdd_manager_new(sv);
  sdd_vtree_free(sv);
  sdd_manager_auto_gc_and_minimize_off(sm);
  SddNode *r = psdd_node_util::ConvertPsddNodeToSddNode(psdd_node_util::SerializePsddNodes(n), map, sm);
  vector<string> qj, rs;
  for (auto &q : queries(t, b + 1)) {
    std::map<long, bool> as;
    for (auto &kv : inv) as[kv.second] = false;
    for (long l : q.ev)
      if (inv.count(l)) as[inv[l]] = true;
    std::map<SddSize, bool> memo;
    qj.push_back(ilist(q.ev));
    rs.push_back(sdd_eval(r, as, &memo) ? "1" : "0");
  }
  Ev("tosdd").i("a", idof(n)).strs("q", qj).strs("r", rs).emit();
  sdd_manager_free(sm);
}
// learn H M H0 flag alpha nv v1..vn rows as bitstrings...
CMD(learn) {
  PsddNode *n = hd(t[3]).n;
  PsddParameter alpha = par(t[5]);
  long nv = toi(t[6]);
  vector<long> vars = longs(t, 7, 7 + nv);
  vector<string> rt;  // records; N*RECORD stands for N of them
  for (size_t i = 7 + (size_t)nv; i < t.size(); ++i) {
    size_t star = t[i].find('*');
    long k = star == string::npos ? 1 : toi(t[i].substr(0, star));
    rt.insert(rt.end(), (size_t)k, star == string::npos ? t[i] : t[i].substr(star + 1));
  }
  size_t rows = rt.size();
  std::unordered_map<int32_t, BatchedPsddValue> ex;
  vector<string> rj;
  for (long j = 0; j < nv; ++j) ex[(int32_t)vars[j]] = BatchedPsddValue(rows, false);
  std::map<string, long> tally;
  vector<string> order;
  for (size_t i = 0; i < rows; ++i) {
    const string &s = rt[i];
    if (!tally[s]++) order.push_back(s);
    for (long j = 0; j < nv; ++j) ex[(int32_t)vars[j]][i] = s[(size_t)j] == '1';
  }
  for (auto &s : order) {
    vector<long> tr;
    for (long j = 0; j < nv; ++j)
      if (s[(size_t)j] == '1') tr.push_back(vars[j]);
    rj.push_back("{\"t\":" + ilist(tr) + ",\"c\":" + std::to_string(tally[s]) + "}");
  }
  PsddNode *r = mg(t[2])->LearnPsddParameters(n, ex, rows, alpha, tou(t[4]));
  Ev e("learn");
  e.i("a", idof(n)).raw("f", qs(t[4])).raw("al", num(alpha.parameter())).strs("rows", rj).i("n", (long)rows);
  result(e, toi(t[1]), toi(t[2]), r);
  e.emit();
}
// samp M flag k H1 R1 ... Hk Rk draws...   (Hi sampled into handle Ri; mode by name)
static void do_samp(const Toks &t, bool multi) {
  long k = toi(t[3]);
  vector<PsddNode *> roots;
  vector<long> ids, hs;
  for (long i = 0; i < k; ++i) {
    roots.push_back(hd(t[4 + 2 * i]).n);
    ids.push_back(idof(roots.back()));
    hs.push_back(toi(t[5 + 2 * i]));
  }
  ScriptDraws g;
  vector<string> ds;
  for (size_t i = 4 + 2 * (size_t)k; i < t.size(); ++i) {
    g.draws.push_back(strtod(t[i].c_str(), nullptr));
    ds.push_back(num(std::log(g.draws.back())));
  }
  vector<PsddNode *> r;
  if (multi)
    r = mg(t[1])->SampleParametersForMultiplePsdds(&g, roots, tou(t[2]));
  else
    r.push_back(mg(t[1])->SampleParameters(&g, roots[0], tou(t[2])));
  Ev e("samp");
  vector<long> res;
  vector<std::pair<PsddNode *, long>> rr;
  for (size_t i = 0; i < r.size(); ++i) {
    res.push_back(idof(r[i]));
    rr.push_back({r[i], toi(t[1])});
    if (i < hs.size()) H[hs[i]] = {r[i], toi(t[1])};
  }
  e.ints("a", ids).raw("f", qs(t[2])).strs("d", ds).i("used", (long)g.used).ints("hs", hs).i("m", toi(t[1]))
      .ints("ress", res).raw("nodes", nodes_json(rr));
  e.emit();
}
CMD(samp) { do_samp(t, true); }
CMD(samp1) { do_samp(t, false); }
// dsgrid H min max G maxdepth : every sequence of grid draws (i+1/2)/G
CMD(dsgrid) {
  PsddNode *n = hd(t[1]).n;
  double mn = strtod(t[2].c_str(), nullptr), mx = strtod(t[3].c_str(), nullptr);
  long G = toi(t[4]), maxd = toi(t[5]);
  std::map<vector<long>, std::map<long, long>> tally;  // outcome -> draws used -> count
  vector<long> pre;
  static std::bitset<MAX_VAR> inst;
  long runs = 0, toodeep = 0;
  // depth-first over draw prefixes; a run with too few draws is extended
  std::function<void()> go = [&]() {
    ScriptUniform g(mn, mx);
    for (long x : pre) g.draws.push_back(((double)x + 0.5) / (double)G);
    inst.reset();
    n->DirectSample(&inst, &g);
    runs++;
    if (g.used <= pre.size()) {
      tally[setbits(inst)][(long)pre.size()]++;
      return;
    }
    if ((long)pre.size() >= maxd) {
      toodeep = 1;
      return;
    }
    for (long x = 0; x < G; ++x) {
      pre.push_back(x);
      go();
      pre.pop_back();
    }
  };
  go();
  vector<string> o;
  for (auto &kv : tally)
    for (auto &dc : kv.second)
      o.push_back("{\"t\":" + ilist(kv.first) + ",\"d\":" + std::to_string(dc.first) + ",\"c\":" +
                  std::to_string(dc.second) + "}");
  Ev("dsgrid").i("a", idof(n)).i("g", G).i("deep", toodeep).i("runs", runs).strs("r", o).emit();
}
// ds H min max preset.. / draws... : single draws with given numbers, repeated twice
CMD(ds) {
  PsddNode *n = hd(t[1]).n;
  double mn = strtod(t[2].c_str(), nullptr), mx = strtod(t[3].c_str(), nullptr);
  size_t b = 4;
  static std::bitset<MAX_VAR> inst, inst2;
  vector<long> preset;
  while (t[b] != "/") preset.push_back(toi(t[b++]));
  inst.reset();
  for (long v : preset) inst.set((size_t)v);
  inst2 = inst;
  ScriptUniform g(mn, mx), g2(0, 1);
  for (size_t i = b + 1; i < t.size(); ++i) g.draws.push_back(strtod(t[i].c_str(), nullptr));
  if (!g.draws.empty()) g.fallback = g.draws.back();
  g2.draws = g.draws;
  g2.fallback = g.fallback;
  n->DirectSample(&inst, &g);
  n->DirectSample(&inst2, &g2);
  Ev("ds").i("a", idof(n)).ints("pre", preset).ints("t", setbits(inst)).ints("t2", setbits(inst2))
      .i("used", (long)g.used).emit();
}
// dsrng H min max seed count : the library's own uniform generator
CMD(dsrng) {
  PsddNode *n = hd(t[1]).n;
  double mn = strtod(t[2].c_str(), nullptr), mx = strtod(t[3].c_str(), nullptr);
  RandomDoubleFromUniformGenerator g(mn, mx, (uint)toi(t[4])), g2(mn, mx, (uint)toi(t[4]));
  long c = toi(t[5]);
  std::map<vector<long>, long> tally;
  static std::bitset<MAX_VAR> inst, inst2;
  long same = 1, inrange = 1;
  for (long i = 0; i < c; ++i) {
    inst.reset();
    inst2.reset();
    n->DirectSample(&inst, &g);
    n->DirectSample(&inst2, &g2);
    if (inst != inst2) same = 0;
    tally[setbits(inst)]++;
  }
  for (int i = 0; i < 50; ++i) {
    double x = g.generate();
    if (!(x >= mn && x <= mx)) inrange = 0;
  }
  vector<string> o;
  for (auto &kv : tally) o.push_back("{\"t\":" + ilist(kv.first) + ",\"c\":" + std::to_string(kv.second) + "}");
  Ev("dsrng").i("a", idof(n)).strs("r", o).i("same", same).i("inrange", inrange)
      .i("mm", g.min() == mn && g.max() == mx).emit();
}
// load H M H0 pos flag
CMD(load) {
  PsddNode *a = hd(t[3]).n;
  PsddManager *m = mg(t[2]);
  long p = toi(t[4]) < 0 ? sdd_vtree_position(m->vtree()) : toi(t[4]);
  PsddNode *n = m->LoadPsddNode(at_pos(m->vtree(), p), a, tou(t[5]));
  Ev e("load");
  e.i("a", idof(a)).i("am", hd(t[3]).m).i("p", p).raw("f", qs(t[5]));
  result(e, toi(t[1]), toi(t[2]), n);
  e.emit();
}
// gc M H...
CMD(gc) {
  vector<PsddNode *> used;
  vector<long> ids;
  long m = toi(t[1]);
  for (size_t i = 2; i < t.size(); ++i) {
    auto it = H.find(toi(t[i]));
    if (it == H.end() || it->second.n == nullptr) continue;
    used.push_back(it->second.n);
    ids.push_back(idof(used.back()));
  }
  // forget (before the call) everything that will not be reachable
  std::set<PsddNode *> keep;
  for (PsddNode *u : used)
    for (PsddNode *x : post_order(u)) keep.insert(x);
  vector<long> hs;
  for (auto it = H.begin(); it != H.end();) {
    if (it->second.m == m && it->second.n && !keep.count(it->second.n)) {
      hs.push_back(it->first);
      it = H.erase(it);
    } else
      ++it;
  }
  for (auto it = node_id.begin(); it != node_id.end();) {
    if (node_mgr[it->first] == m && !keep.count(it->first))
      it = node_id.erase(it);
    else
      ++it;
  }
  if (M[m].ut)
    M[m].ut->DeleteUnusedPsddNodes(used);
  else
    M[m].pm->DeleteUnusedPsddNodes(used);
  vector<std::pair<PsddNode *, long>> rr;
  for (PsddNode *u : used) rr.push_back({u, m});
  Ev("gc").i("m", m).ints("a", ids).ints("drop", hs).raw("nodes", nodes_json(rr)).emit();
}
// snap : everything alive
CMD(snap) {
  vector<std::pair<PsddNode *, long>> rr;
  vector<string> hs;
  for (auto &kv : H) {
    hs.push_back("[" + std::to_string(kv.first) + "," + std::to_string(idof(kv.second.n)) + "]");
    if (kv.second.n) rr.push_back({kv.second.n, kv.second.m});
  }
  vector<string> mv, vv;
  for (auto &kv : M)
    if (kv.second.live)
      mv.push_back("{\"m\":" + std::to_string(kv.first) + ",\"tab\":" + vtab_json(kv.second.vt) + "}");
  for (auto &kv : V)
    vv.push_back("{\"v\":" + std::to_string(kv.first) + ",\"tab\":" + vtab_json(kv.second) + "}");
  Ev("snap").strs("hs", hs).strs("ms", mv).strs("vs", vv).raw("nodes", nodes_json(rr)).emit();
}
// write F H
CMD(write) {
  PsddNode *n = hd(t[2]).n;
  string p = spath("w" + t[1] + ".psdd");
  F[toi(t[1])] = p;
  psdd_node_util::WritePsddToFile(n, p.c_str());
  Ev("write").i("a", idof(n)).i("file", toi(t[1])).i("am", hd(t[2]).m).raw("text", toklines(slurp(p))).emit();
}
// read H M F flag
CMD(read) {
  string p = get(F, t[3]);
  PsddNode *n = mg(t[2])->ReadPsddFile(p.c_str(), tou(t[4]));
  Ev e("read");
  e.raw("f", qs(t[4])).i("file", toi(t[3])).raw("text", toklines(slurp(p)));
  result(e, toi(t[1]), toi(t[2]), n);
  e.emit();
}
// file F hex
CMD(file) {
  string p = spath("w" + t[1] + ".psdd");
  F[toi(t[1])] = p;
  put(p, unhex(t[2]));
}

// ---------------------------------------------------------------- parameters
static void pev(const string &op, long d, long a, long b, const string &extra) {
  Ev e("par");
  e.raw("o", qs(op)).i("d", d).i("a", a).i("b", b).raw("x", extra).raw("r", num(R[d].parameter()));
  // compare with every register
  vector<string> c;
  for (auto &kv : R) {
    PsddParameter &x = R[d], &y = kv.second;
    c.push_back("[" + std::to_string(kv.first) + "," + std::to_string(x == y) + "," + std::to_string(x != y) + "," +
                std::to_string(x < y) + "," + std::to_string(x > y) + "," + std::to_string(y == x) + "," +
                std::to_string(y < x) + "," + std::to_string(y > x) + "," +
                std::to_string(x.hash_value() == y.hash_value()) + "]");
  }
  e.strs("c", c);
  e.emit();
}
CMD(pset) {
  R[toi(t[1])] = par(t[2]);
  double given = strtod(t[2].c_str() + 1, nullptr);
  pev(t[2][0] == 'd' ? "setd" : "setl", toi(t[1]), 0, 0, num(t[2][0] == 'd' ? std::log(given) : given));
}
CMD(pzero) {
  R[toi(t[1])] = PsddParameter();
  pev("zero", toi(t[1]), 0, 0, "\"-inf\"");
}
CMD(padd) {
  R[toi(t[1])] = get(R, t[2]) + get(R, t[3]);
  pev("add", toi(t[1]), toi(t[2]), toi(t[3]), "\"0\"");
}
CMD(pmul) {
  R[toi(t[1])] = get(R, t[2]) * get(R, t[3]);
  pev("mul", toi(t[1]), toi(t[2]), toi(t[3]), "\"0\"");
}
CMD(pdiv) {
  R[toi(t[1])] = get(R, t[2]) / get(R, t[3]);
  pev("div", toi(t[1]), toi(t[2]), toi(t[3]), "\"0\"");
}
CMD(paddi) {
  PsddParameter x = get(R, t[2]);
  PsddParameter &ref = (toi(t[2]) == toi(t[3])) ? (x += x) : (x += get(R, t[3]));
  R[toi(t[1])] = ref;
  pev("add", toi(t[1]), toi(t[2]), toi(t[3]), "\"0\"");
}
CMD(pmuli) {
  PsddParameter x = get(R, t[2]);
  PsddParameter &ref = (toi(t[2]) == toi(t[3])) ? (x *= x) : (x *= get(R, t[3]));
  R[toi(t[1])] = ref;
  pev("mul", toi(t[1]), toi(t[2]), toi(t[3]), "\"0\"");
}
CMD(pdivi) {
  PsddParameter x = get(R, t[2]);
  PsddParameter &ref = (toi(t[2]) == toi(t[3])) ? (x /= x) : (x /= get(R, t[3]));
  R[toi(t[1])] = ref;
  pev("div", toi(t[1]), toi(t[2]), toi(t[3]), "\"0\"");
}

// ---------------------------------------------------------------- datasets
static string codes(const string &s) {
  string r = "[";
  for (size_t i = 0; i < s.size(); ++i) r += (i ? "," : "") + std::to_string((int)(unsigned char)s[i]);
  return r + "]";
}
static void dat(Ev &e, BinaryData *d, bool ent) {
  std::map<vector<long>, uintmax_t> s;
  for (auto &kv : d->data()) s[setbits(kv.first)] = kv.second;
  vector<string> o;
  for (auto &kv : s) o.push_back("{\"t\":" + ilist(kv.first) + ",\"c\":" + std::to_string(kv.second) + "}");
  e.strs("data", o).raw("n", us(d->data_size())).raw("vs", us(d->variable_size()));
  e.raw("ent", ent && !s.empty() ? num(d->CalculateEntropy()) : "\"\"");
}
// a default-initialised object in recycled (poisoned) memory
static BinaryData *fresh_data() {
  void *p = malloc(sizeof(BinaryData));
  memset(p, 0x5a, sizeof(BinaryData));
  __asm__ volatile("" : : "r"(p) : "memory");
  return new (p) BinaryData;
}
CMD(dnew) {
  D[toi(t[1])] = fresh_data();
  Ev e("dnew");
  e.i("d", toi(t[1]));
  dat(e, D[toi(t[1])], true);
  e.emit();
}
// csv D hex
CMD(csv) {
  string p = spath("d.csv"), c = unhex(t[2]);
  put(p, c);
  get(D, t[1])->ReadFile(p.c_str());
  Ev e("csv");
  e.i("d", toi(t[1])).raw("text", codes(c));
  dat(e, D[toi(t[1])], true);
  e.emit();
}
// csvw D F : write to slot
CMD(csvw) {
  string p = spath("o" + t[2] + ".csv");
  F[toi(t[2])] = p;
  get(D, t[1])->WriteFile(p.c_str());
  Ev e("csvw");
  e.i("d", toi(t[1])).i("file", toi(t[2])).raw("text", codes(slurp(p)));
  dat(e, D[toi(t[1])], true);
  e.emit();
}
// csvr D F
CMD(csvr) {
  string p = get(F, t[2]);
  get(D, t[1])->ReadFile(p.c_str());
  Ev e("csv");
  e.i("d", toi(t[1])).raw("text", codes(slurp(p)));
  dat(e, D[toi(t[1])], true);
  e.emit();
}
CMD(dadd) {
  static std::bitset<MAX_VAR> b;
  b.reset();
  for (size_t i = 2; i < t.size(); ++i) b.set((size_t)toi(t[i]));
  get(D, t[1])->AddRecord(b);
  Ev e("dadd");
  e.i("d", toi(t[1])).ints("t", longs(t, 2, t.size()));
  dat(e, D[toi(t[1])], true);
  e.emit();
}
CMD(dvar) {
  get(D, t[1])->set_variable_size((uint32_t)toi(t[2]));
  Ev e("dvar");
  e.i("d", toi(t[1])).i("x", toi(t[2]));
  dat(e, D[toi(t[1])], true);
  e.emit();
}
// json D hex raw : the JSON document is also embedded in the event as a JSON value
CMD(json) {
  string p = spath("d.json"), c = unhex(t[2]);
  put(p, c);
  BinaryData *d = BinaryData::ReadSparseDataJsonFile(p.c_str());
  if (d) D[toi(t[1])] = d;
  Ev e("json");
  e.i("d", toi(t[1])).raw("doc", unhex(t[3])).i("null", d ? 0 : 1);
  if (d)
    dat(e, d, true);
  else
    e.raw("data", "[]").raw("n", "\"0\"").raw("vs", "\"0\"").raw("ent", "\"\"");
  e.emit();
}
// csvp mode delim header hex : the CSV parser itself (mode 0 file, 1 string)
CMD(csvp) {
  string c = unhex(t[4]);
  string dl = unhex(t[2]);
  CsvParser *p;
  string path = spath("p.csv");
  if (t[1] == "0") {
    put(path, c);
    p = CsvParser_new(path.c_str(), dl.c_str(), (int)toi(t[3]));
  } else
    p = CsvParser_new_from_string(c.c_str(), dl.c_str(), (int)toi(t[3]));
  string hs = "[]";
  auto row = [&](const CsvRow *r) {
    string s = "[";
    for (int i = 0; i < CsvParser_getNumFields(r); ++i)
      s += (i ? "," : "") + codes(CsvParser_getFields(r)[i]);
    return s + "]";
  };
  if (toi(t[3])) {
    const CsvRow *h = CsvParser_getHeader(p);
    if (h) hs = row(h);
  }
  vector<string> rows;
  CsvRow *r;
  while ((r = CsvParser_getRow(p))) {
    rows.push_back(row(r));
    CsvParser_destroy_row(r);
  }
  CsvParser_destroy(p);
  Ev("csvp").i("mode", toi(t[1])).i("dl", (int)(unsigned char)dl[0]).i("hdr", toi(t[3])).raw("text", codes(c))
      .raw("head", hs).strs("rows", rows).emit();
}

// ---------------------------------------------------------------- networks
static string net_json(UaiNetwork *u) {
  string s = "{\"nv\":" + std::to_string(u->var_size()) + ",\"nf\":" + std::to_string(u->factor_size()) +
             ",\"ty\":" + std::to_string(u->network_type()) + ",\"sc\":[";
  for (size_t i = 0; i < u->factor_scopes().size(); ++i) {
    s += i ? ",[" : "[";
    for (size_t j = 0; j < u->factor_scopes()[i].size(); ++j)
      s += (j ? "," : "") + std::to_string(u->factor_scopes()[i][j]);
    s += "]";
  }
  s += "],\"tb\":[";
  for (size_t i = 0; i < u->params().size(); ++i) {
    s += i ? ",[" : "[";
    for (size_t j = 0; j < u->params()[i].size(); ++j) s += (j ? "," : "") + num(u->params()[i][j].parameter());
    s += "]";
  }
  return s + "]}";
}
// uai U hex : read a network file
CMD(uai) {
  string p = spath("n.uai"), c = unhex(t[2]);
  put(p, c);
  UaiNetwork *u = new UaiNetwork();
  u->read_file(p.c_str());
  Un[toi(t[1])] = u;
  Ev("uai").i("u", toi(t[1])).raw("text", toklines(c)).raw("net", net_json(u)).emit();
}
// pgm P hex : a compiler that has read the network
CMD(pgm) {
  string p = spath("g.uai"), c = unhex(t[2]);
  put(p, c);
  PgmCompiler *pc = new PgmCompiler(g_scratch);
  pc->read_uai_file(p.c_str());
  Pg[toi(t[1])] = pc;
  Ev("pgm").i("g", toi(t[1])).raw("text", toklines(c)).emit();
}
// pgmv P M rpn : manager from a vtree file
CMD(pgmv) {
  Vtree *v = build_rpn(t, 3, t.size());
  string p = spath("g.vtree");
  sdd_vtree_save(p.c_str(), v);
  sdd_vtree_free(v);
  PgmCompiler *pc = get(Pg, t[1]);
  pc->init_psdd_manager_from_vtree(p.c_str());
  reg_mgr(toi(t[2]), pc->psdd_manager());
  Ev("pgmv").i("g", toi(t[1])).i("m", toi(t[2])).ints("rpn", longs(t, 3, t.size()))
      .raw("tab", vtab_json(pc->psdd_manager()->vtree())).emit();
}
// pgmm P M mode envspec... : manager from a generated vtree, external tool scripted
CMD(pgmm) {
  PgmCompiler *pc = get(Pg, t[1]);
  vector<long> env = longs(t, 4, t.size());
  env_script(env);
  pc->init_psdd_manager((char)toi(t[3]));
  reg_mgr(toi(t[2]), pc->psdd_manager());
  Ev("pgmm").i("g", toi(t[1])).i("m", toi(t[2])).i("mode", toi(t[3])).ints("env", env)
      .raw("ans", env_answers()).raw("tab", vtab_json(pc->psdd_manager()->vtree())).emit();
}
// vgen V U mode envspec... : the vtree constructors themselves
CMD(vgen) {
  UaiNetwork *u = get(Un, t[2]);
  vector<long> env = longs(t, 4, t.size());
  env_script(env);
  long mode = toi(t[3]);
  Vtree *v = nullptr;
  if (mode == VTREE_METHOD_MINFILL)
    v = MinFillVtree(u).ConstructVtree();
  else if (mode == VTREE_METHOD_JOINTREE)
    v = JointreeVtree(u).ConstructVtree();
  else
    v = HypergraphDecompositionVtree(u, g_scratch.c_str()).ConstructVtree();
  V[toi(t[1])] = v;
  Ev("vgen").i("v", toi(t[1])).i("u", toi(t[2])).i("mode", mode).ints("env", env).raw("ans", env_answers())
      .raw("tab", vtab_json(v)).emit();
}
// pgmf H P M i : one factor
CMD(pgmf) {
  auto r = get(Pg, t[2])->compile_factor((size_t)toi(t[4]));
  Ev e("pgmf");
  e.i("g", toi(t[2])).i("i", toi(t[4])).raw("z", num(r.second.parameter()));
  result(e, toi(t[1]), toi(t[3]), r.first);
  e.emit();
}
// pgmn H P M strategy gcfreq : the network (0 sequential, 1 by vtree, 2 divide and conquer)
CMD(pgmn) {
  PgmCompiler *pc = get(Pg, t[2]);
  long st = toi(t[4]);
  size_t gf = (size_t)toi(t[5]);
  // strategies may collect garbage: forget (before the call) every node of this manager
  long m = toi(t[3]);
  vector<long> hs;
  for (auto it = H.begin(); it != H.end();) {
    if (it->second.m == m && it->second.n) {
      hs.push_back(it->first);
      it = H.erase(it);
    } else
      ++it;
  }
  for (auto it = node_id.begin(); it != node_id.end();)
    if (node_mgr[it->first] == m)
      it = node_id.erase(it);
    else
      ++it;
  auto r = st == 0 ? pc->compile_network(gf) : st == 1 ? pc->compile_network_with_vtree(gf) : pc->compile_network_dc(gf);
  Ev e("pgmn");
  e.i("g", toi(t[2])).i("st", st).i("gf", (long)gf).raw("z", num(r.second.parameter())).ints("drop", hs);
  result(e, toi(t[1]), m, r.first);
  e.emit();
}

// ---------------------------------------------------------------- vtree utilities
CMD(vcopy) {
  Vtree *o = get(V, t[2]);
  Vtree *v = vtree_util::CopyVtree(o);
  V[toi(t[1])] = v;
  Ev("vcopy").i("v", toi(t[1])).i("o", toi(t[2])).raw("tab", vtab_json(v)).raw("otab", vtab_json(o))
      .i("own", v != o).emit();
}
CMD(vmap) {
  Vtree *o = get(V, t[2]);
  std::unordered_map<SddLiteral, SddLiteral> map;
  for (size_t i = 3; i + 1 < t.size(); i += 2) map[toi(t[i])] = toi(t[i + 1]);
  Vtree *v = vtree_util::CopyVtree(o, map);
  V[toi(t[1])] = v;
  Ev("vmap").i("v", toi(t[1])).i("o", toi(t[2])).ints("map", longs(t, 3, t.size())).raw("tab", vtab_json(v))
      .raw("otab", vtab_json(o)).emit();
}
CMD(vproj) {
  Vtree *o = get(V, t[2]);
  vector<SddLiteral> vars;
  for (size_t i = 3; i < t.size(); ++i) vars.push_back(toi(t[i]));
  Vtree *v = vtree_util::ProjectVtree(o, vars);
  V[toi(t[1])] = v;
  Ev("vproj").i("v", toi(t[1])).i("o", toi(t[2])).ints("s", longs(t, 3, t.size())).raw("tab", vtab_json(v))
      .raw("otab", vtab_json(o)).emit();
}
CMD(vsub) {
  Vtree *o = get(V, t[1]);
  std::unordered_set<SddLiteral> s;
  for (size_t i = 2; i < t.size(); ++i) s.insert(toi(t[i]));
  Vtree *v = vtree_util::SubVtreeByVariables(o, s);
  Ev("vsub").i("o", toi(t[1])).ints("s", longs(t, 2, t.size())).i("r", v ? sdd_vtree_position(v) : -1)
      .raw("otab", vtab_json(o)).emit();
}
CMD(vvars) {
  Vtree *o = get(V, t[1]);
  long p = toi(t[2]);
  Vtree *r = p < 0 ? o : at_pos(o, p);
  vector<long> a, b, c;
  for (auto x : vtree_util::VariablesUnderVtree(r)) a.push_back(x);
  for (auto x : vtree_util::LeftToRightLeafTraverse(r)) b.push_back(x);
  for (auto x : vtree_util::SerializeVtree(r)) c.push_back(sdd_vtree_position(x));
  Ev("vvars").i("o", toi(t[1])).i("p", sdd_vtree_position(r)).ints("u", a).ints("lr", b).ints("se", c)
      .raw("otab", vtab_json(o)).emit();
}

// ---------------------------------------------------------------- command line tools
static string exe_dir() {
  char b[4096];
  ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1);
  if (n <= 0) die("readlink");
  string s(b, (size_t)n);
  return s.substr(0, s.rfind('/'));
}
static int run_tool(const string &cmd, string *out) {
  string o = spath("cli.out");
  int st = system(("cd '" + g_scratch + "' && timeout 10 " + exe_dir() + "/" + cmd + " >" + o + " 2>/dev/null").c_str());
  *out = slurp(o);
  if (WIFEXITED(st)) return WEXITSTATUS(st);
  return 1000;
}
static bool after(const string &s, const string &mark, string *rest) {
  size_t p = s.find(mark);
  if (p == string::npos) return false;
  size_t e = s.find('\n', p);
  *rest = s.substr(p + mark.size(), e == string::npos ? string::npos : e - p - mark.size());
  return true;
}
static vector<string> pieces(const string &s, char d) {
  vector<string> r;
  string c;
  for (char x : s) {
    if (x == d) {
      r.push_back(c);
      c = "";
    } else
      c += x;
  }
  if (!c.empty()) r.push_back(c);
  return r;
}
// cliinf M F qm qr ev order hexcnf : the inference tool
CMD(cliinf) {
  PsddManager *m = mg(t[1]);
  string p = get(F, t[2]), text = slurp(p), cnf = unhex(t[7]), out;
  long qm = toi(t[3]), qr = toi(t[4]), ev = toi(t[5]), order = toi(t[6]);
  sdd_vtree_save(spath("v.vtree").c_str(), m->vtree());
  put(spath("q.psdd"), text);
  put(spath("e.cnf"), cnf);
  vector<string> o;
  if (qm) o.push_back("--mpe_query");
  if (qr) o.push_back("--mar_query");
  if (ev) o.push_back(order & 1 ? "--cnf_evid=e.cnf" : "--cnf_evid e.cnf");
  if (order & 2) std::reverse(o.begin(), o.end());
  string cmd = "cli_inf", files = " q.psdd v.vtree";
  // the options stand before the files
  for (auto &x : o) cmd += " " + x;
  int rc = run_tool(cmd + files, &out);
  string rest;
  Ev e("cliinf");
  e.i("m", toi(t[1])).raw("text", toklines(text)).i("ev", ev).raw("cnf", toklines(cnf)).i("qm", qm).i("qr", qr).i("rc", rc);
  e.i("unsat", after(out, "UNSATISFIED", &rest));
  bool has = after(out, "MPE result=", &rest);
  e.i("hasmpe", has);
  vector<string> ml;
  if (has)
    for (auto &x : pieces(rest, ',')) {
      auto kv = pieces(x, ':');
      ml.push_back("[" + std::to_string(kv.size() > 0 ? toi(kv[0]) : -1) + "," + std::to_string(kv.size() > 1 ? toi(kv[1]) : -1) + "]");
    }
  e.strs("mpe", ml);
  rest = "nan";
  bool haspr = after(out, "MPE pr=", &rest);
  e.i("haspr", haspr).raw("pr", num(strtod(rest.c_str(), nullptr)));
  has = after(out, "MAR result=", &rest);
  e.i("hasmar", has);
  ml.clear();
  if (has)
    for (auto &x : pieces(rest, ',')) {
      auto kv = pieces(x, ':');
      auto fv = pieces(kv.size() > 1 ? kv[1] : "nan|nan", '|');
      ml.push_back("{\"x\":" + std::to_string(toi(kv[0])) + ",\"f\":" + num(strtod(fv[0].c_str(), nullptr)) + ",\"t\":" +
                   num(fv.size() > 1 ? strtod(fv[1].c_str(), nullptr) : NAN) + "}");
    }
  e.strs("mar", ml);
  e.emit();
}
// clibench M F : the timing tool
CMD(clibench) {
  PsddManager *m = mg(t[1]);
  string text = slurp(get(F, t[2])), out, rest = "-1";
  sdd_vtree_save(spath("v.vtree").c_str(), m->vtree());
  put(spath("q.psdd"), text);
  int rc = run_tool("cli_bench q.psdd v.vtree", &out);
  Ev e("clibench");
  e.i("m", toi(t[1])).raw("text", toklines(text)).i("rc", rc);
  after(out, "PSDD size ", &rest);
  e.i("size", toi(rest)).emit();
}
// cliuai hexuai method wd / rpn... / env... : the network compiler
CMD(cliuai) {
  string c = unhex(t[1]), out;
  put(spath("n.uai"), c);
  size_t i = 5;
  Toks rpn;
  while (t[i] != "/") rpn.push_back(t[i++]);
  string env;
  for (size_t j = i + 1; j < t.size(); ++j) env += t[j] + "\n";
  put(spath("env"), env);
  string method = t[2];
  if (method == "0") {
    Vtree *v = build_rpn(rpn, 0, rpn.size());
    sdd_vtree_save(spath("given.vtree").c_str(), v);
    sdd_vtree_free(v);
    method = "given.vtree";
  }
  setenv("PSDD_VERIF_ENV", spath("env").c_str(), 1);
  int rc = run_tool("cli_uai n.uai " + method + (t[3] == "1" ? " ." : ""), &out);
  Ev e("cliuai");
  e.raw("text", toklines(c)).raw("meth", qs(t[2])).ints("rpn", longs(rpn, 0, rpn.size())).i("rc", rc);
  string rest = "-1";
  after(out, "Final size ", &rest);
  e.i("size", toi(rest));
  rest = "nan";
  after(out, "Log Partition ", &rest);
  e.raw("z", num(strtod(rest.c_str(), nullptr)));
  e.raw("ptext", toklines(slurp(spath("n.uai.psdd"))));
  Vtree *v = access(spath("n.uai.vtree").c_str(), R_OK) ? nullptr : sdd_vtree_read(spath("n.uai.vtree").c_str());
  e.raw("tab", vtab_json(v));
  e.emit();
}

// ---------------------------------------------------------------- main loop
static Toks split(const string &l) {
  Toks t;
  std::istringstream is(l);
  string s;
  while (is >> s) t.push_back(s);
  return t;
}
static void run_child(const vector<string> &lines, int progress_fd) {
  int dn = open("/dev/null", O_WRONLY);
  dup2(dn, 1);
  dup2(dn, 2);
  for (size_t i = 0; i < lines.size(); ++i) {
    Toks t = split(lines[i]);
    if (t.empty()) continue;
    auto it = cmds.find(t[0]);
    uint32_t k = (uint32_t)i;
    if (::write(progress_fd, &k, sizeof k) != sizeof k) _exit(97);
    if (it == cmds.end()) _exit(99);
    try {
      it->second(t);
    } catch (Skip &) {
      Ev("skip").i("line", (long)i).emit();
    }
  }
  _exit(0);
}

int main(int argc, char **argv) {
  if (argc < 4) die("usage");
  std::ifstream in(argv[1]);
  g_out = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
  string base = argv[3];
  string line, head;
  vector<string> body;
  bool in_case = false;
  long caseno = 0, stuck = 0;
  while (std::getline(in, line)) {
    if (!in_case) {
      if (line.rfind("case ", 0) == 0) {
        head = line.substr(5);
        body.clear();
        in_case = true;
      }
      continue;
    }
    if (line != "end") {
      body.push_back(line);
      continue;
    }
    in_case = false;
    if (stuck >= 3) continue;  // enough calls that do not return
    write_all(g_out, "{" + head + ",\"ev\":[");
    int pp[2];
    if (pipe(pp)) die("pipe");
    g_scratch = base + "/c" + std::to_string(caseno++);
    string mk = "mkdir -p '" + g_scratch + "'";
    if (system(mk.c_str())) die("mkdir");
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
      close(pp[0]);
      alarm(20);
      run_child(body, pp[1]);
    }
    close(pp[1]);
    uint32_t k, last = 0;
    size_t got = 0;
    while (::read(pp[0], &k, sizeof k) == (ssize_t)sizeof k) {
      last = k;
      ++got;
    }
    close(pp[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    for (int f = 0; f < 1; ++f) {
      // scratch directory of this case only
      string cmd = "find '" + g_scratch + "' -mindepth 0 -delete";
      if (system(cmd.c_str())) {
      }
    }
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 99 || WEXITSTATUS(st) == 97 || WEXITSTATUS(st) == 98)) {
      fprintf(stderr, "replay: bad script line: %s\n", body[last].c_str());
      return 2;
    }
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
      stuck += WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM;
      Toks t = split(body[last]);
      // was anything written yet? (got counts started commands)
      string ev = "{\"op\":\"crash\",\"at\":" + esc(t[0]) + ",\"line\":" + std::to_string(last) + ",\"sig\":" +
                  std::to_string(WIFSIGNALED(st) ? WTERMSIG(st) : 1000 + WEXITSTATUS(st)) + "}";
      // a comma is needed unless the list is still empty
      off_t end = lseek(g_out, 0, SEEK_END);
      char c = 0;
      int rd = open(argv[2], O_RDONLY);
      if (pread(rd, &c, 1, end - 1) == 1 && c != '[') ev = "," + ev;
      close(rd);
      write_all(g_out, ev);
    }
    write_all(g_out, "]}\n");
  }
  return 0;
}
