// A small stand-in for the parts of OpenFst the runtime uses (tropical semiring, vector machines, byte strings).
#ifndef RT_STUB_FSTLIB_H_
#define RT_STUB_FSTLIB_H_

#include <algorithm>
#include <cstdint>
#include <cstring>
#include <deque>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <unordered_map>
#include <utility>
#include <vector>

namespace fst {
constexpr int kNoStateId = -1;
constexpr int kNoLabel = -1;

class TropicalWeight {
 public:
  TropicalWeight() : v_(0) {}
  TropicalWeight(float v) : v_(v) {}  // NOLINT
  float Value() const { return v_; }
  static TropicalWeight Zero() { return std::numeric_limits<float>::infinity(); }
  static TropicalWeight One() { return 0.0f; }
  bool operator==(const TropicalWeight& o) const { return v_ == o.v_; }
  bool operator!=(const TropicalWeight& o) const { return v_ != o.v_; }

 private:
  float v_;
};
inline TropicalWeight Times(TropicalWeight a, TropicalWeight b) { return a.Value() + b.Value(); }
inline TropicalWeight Plus(TropicalWeight a, TropicalWeight b) { return std::min(a.Value(), b.Value()); }

struct StdArc {
  using Label = int;
  using StateId = int;
  using Weight = TropicalWeight;
  StdArc() : ilabel(0), olabel(0), weight(0), nextstate(kNoStateId) {}
  StdArc(int i, int o, Weight w, int n) : ilabel(i), olabel(o), weight(w), nextstate(n) {}
  StdArc(int i, int o, int n) : ilabel(i), olabel(o), weight(0), nextstate(n) {}
  int ilabel, olabel;
  Weight weight;
  int nextstate;
};

template <class A>
class VectorFst {
 public:
  using Arc = A;
  using StateId = int;
  using Weight = typename A::Weight;

  VectorFst() = default;
  VectorFst(const VectorFst& o, bool) : states_(o.states_), start_(o.start_) {}
  VectorFst(const VectorFst&) = default;
  VectorFst& operator=(const VectorFst&) = default;

  int Start() const { return start_; }
  Weight Final(int s) const { return states_[s].final; }
  int NumStates() const { return static_cast<int>(states_.size()); }
  size_t NumArcs(int s) const { return states_[s].arcs.size(); }
  int AddState() {
    states_.emplace_back();
    return NumStates() - 1;
  }
  void SetStart(int s) { start_ = s; }
  void SetFinal(int s, Weight w = Weight::One()) { states_[s].final = w; }
  void AddArc(int s, const A& a) { states_[s].arcs.push_back(a); }
  void DeleteStates() {
    states_.clear();
    start_ = kNoStateId;
  }
  void ReserveStates(size_t n) { states_.reserve(n); }
  const std::vector<A>& Arcs(int s) const { return states_[s].arcs; }
  std::vector<A>& MutableArcs(int s) { return states_[s].arcs; }
  VectorFst* Copy(bool safe = false) const {
    (void)safe;
    return new VectorFst(*this);
  }
  const std::string& Type() const {
    static const std::string type = "vector";
    return type;
  }
  uint64_t Properties(uint64_t mask, bool) const { return mask & props_; }

  static VectorFst* Read(const std::string& source) {
    if (source.empty()) return nullptr;
    std::ifstream in(source, std::ios_base::in | std::ios_base::binary);
    if (!in) return nullptr;
    return Read(in);
  }

  static VectorFst* Read(std::istream& in) {
    int32_t magic = 0, version = 0, flags = 0;
    uint64_t props = 0;
    int64_t start = 0, nstates = 0, narcs = 0;
    std::string ftype, atype;
    if (!Get(in, &magic) || magic != 2125659606) return nullptr;
    if (!GetString(in, &ftype) || ftype != "vector" || !GetString(in, &atype) || atype != "standard") return nullptr;
    if (!Get(in, &version) || !Get(in, &flags) || !Get(in, &props) || !Get(in, &start) || !Get(in, &nstates) || !Get(in, &narcs)) return nullptr;
    if ((flags & 3) || nstates < -1) return nullptr;  // symbol tables are not used here
    std::unique_ptr<VectorFst> out(new VectorFst);
    for (int64_t s = 0; nstates < 0 || s < nstates; ++s) {
      float w;
      if (!Get(in, &w)) {
        if (nstates < 0) break;
        return nullptr;
      }
      int64_t n = 0;
      if (!Get(in, &n) || n < 0) return nullptr;
      int id = out->AddState();
      out->SetFinal(id, w);
      for (int64_t k = 0; k < n; ++k) {
        int32_t il, ol, next;
        float aw;
        if (!Get(in, &il) || !Get(in, &ol) || !Get(in, &aw) || !Get(in, &next)) return nullptr;
        out->AddArc(id, A(il, ol, aw, next));
      }
    }
    out->start_ = static_cast<int>(start);
    for (int s = 0; s < out->NumStates(); ++s)
      for (const auto& a : out->Arcs(s))
        if (a.nextstate < 0 || a.nextstate >= out->NumStates()) return nullptr;
    if (out->start_ >= out->NumStates()) return nullptr;
    return out.release();
  }

 private:
  template <class T>
  static bool Get(std::istream& in, T* v) {
    return static_cast<bool>(in.read(reinterpret_cast<char*>(v), sizeof(T)));
  }
  static bool GetString(std::istream& in, std::string* s) {
    int32_t n = 0;
    if (!Get(in, &n) || n < 0 || n > 1000) return false;
    s->resize(n);
    return n == 0 || static_cast<bool>(in.read(&(*s)[0], n));
  }

  struct State {
    Weight final = Weight::Zero();
    std::vector<A> arcs;
  };
  std::vector<State> states_;
  int start_ = kNoStateId;
  uint64_t props_ = 0;
};

using StdVectorFst = VectorFst<StdArc>;
using StdMutableFst = StdVectorFst;
using StdFst = StdVectorFst;

template <class F>
class ArcIterator {
 public:
  ArcIterator(const F& f, int s) : arcs_(f.Arcs(s)) {}
  bool Done() const { return i_ >= arcs_.size(); }
  const typename F::Arc& Value() const { return arcs_[i_]; }
  void Next() { ++i_; }
  void Reset() { i_ = 0; }

 private:
  const std::vector<typename F::Arc>& arcs_;
  size_t i_ = 0;
};

template <class F>
class StateIterator {
 public:
  explicit StateIterator(const F& f) : n_(f.NumStates()) {}
  bool Done() const { return s_ >= n_; }
  int Value() const { return s_; }
  void Next() { ++s_; }

 private:
  int s_ = 0, n_;
};

enum class TokenType { SYMBOL = 1, BYTE = 2, UTF8 = 3 };

template <class A>
class StringCompiler {
 public:
  explicit StringCompiler(TokenType = TokenType::BYTE) {}
  template <class F>
  bool operator()(std::string_view s, F* fst) const {
    fst->DeleteStates();
    int at = fst->AddState();
    fst->SetStart(at);
    for (char ch : s) {
      int next = fst->AddState();
      int label = static_cast<unsigned char>(ch);
      fst->AddArc(at, A(label, label, next));
      at = next;
    }
    fst->SetFinal(at);
    return true;
  }
  template <class F>
  bool operator()(std::string_view s, F* fst, typename A::Weight w) const {
    if (!(*this)(s, fst)) return false;
    fst->SetFinal(fst->NumStates() - 1, w);
    return true;
  }
};

template <class A>
class StringPrinter {
 public:
  explicit StringPrinter(TokenType = TokenType::BYTE) {}
  template <class F>
  bool operator()(const F& fst, std::string* out) const {
    out->clear();
    int s = fst.Start();
    if (s == kNoStateId) return false;
    while (fst.Final(s) == A::Weight::Zero()) {
      if (fst.NumArcs(s) != 1) return false;
      const A& a = fst.Arcs(s)[0];
      if (a.olabel) out->push_back(static_cast<char>(a.olabel));
      s = a.nextstate;
    }
    return fst.NumArcs(s) == 0;
  }
};

template <class A>
struct ILabelCompare {
  bool operator()(const A& x, const A& y) const { return x.ilabel < y.ilabel; }
};
template <class A>
struct OLabelCompare {
  bool operator()(const A& x, const A& y) const { return x.olabel < y.olabel; }
};
template <class F, class C>
void ArcSort(F* fst, C cmp) {
  for (int s = 0; s < fst->NumStates(); ++s) std::stable_sort(fst->MutableArcs(s).begin(), fst->MutableArcs(s).end(), cmp);
}

struct ComposeOptions {};

// Composition with an epsilon-sequencing filter: output epsilons of the first machine go before input epsilons of the second.
template <class F1, class F2, class O>
void Compose(const F1& a, const F2& b, O* out, const ComposeOptions& = ComposeOptions()) {
  using Arc = typename O::Arc;
  O result;
  if (a.Start() != kNoStateId && b.Start() != kNoStateId) {
    struct Triple {
      int x, y, f;
    };
    std::unordered_map<uint64_t, int> ids;
    std::vector<Triple> todo;  // todo[s] is what state s stands for
    ids.reserve(256);
    todo.reserve(256);
    result.ReserveStates(256);
    auto id = [&](int x, int y, int f) {
      uint64_t key = (static_cast<uint64_t>(x) << 33) | (static_cast<uint64_t>(y) << 1) | f;
      auto it = ids.find(key);
      if (it != ids.end()) return it->second;
      int s = result.AddState();
      ids.emplace(key, s);
      todo.push_back({x, y, f});
      return s;
    };
    result.SetStart(id(a.Start(), b.Start(), 0));
    for (size_t at = 0; at < todo.size(); ++at) {
      const auto [x, y, f] = todo[at];
      const int s = static_cast<int>(at);
      auto w = Times(a.Final(x), b.Final(y));
      if (w != TropicalWeight::Zero()) result.SetFinal(s, w);
      for (const auto& p : a.Arcs(x)) {
        if (p.olabel == 0) {
          if (f == 0) result.AddArc(s, Arc(p.ilabel, 0, p.weight, id(p.nextstate, y, 0)));
          continue;
        }
        for (const auto& q : b.Arcs(y))
          if (q.ilabel == p.olabel) result.AddArc(s, Arc(p.ilabel, q.olabel, Times(p.weight, q.weight), id(p.nextstate, q.nextstate, 0)));
      }
      for (const auto& q : b.Arcs(y))
        if (q.ilabel == 0) result.AddArc(s, Arc(0, q.olabel, q.weight, id(x, q.nextstate, 1)));
    }
  }
  *out = std::move(result);
}

// The single best path (label correcting; the first one found wins ties).
template <class F, class O>
void ShortestPath(const F& in, O* out, int nshortest = 1, bool unique = false) {
  (void)nshortest;
  (void)unique;
  using Arc = typename O::Arc;
  O result;
  int n = in.NumStates();
  if (in.Start() != kNoStateId && n > 0) {
    const float inf = std::numeric_limits<float>::infinity();
    std::vector<float> dist(n, inf);
    std::vector<std::pair<int, int>> from(n, {-1, -1});
    std::vector<char> queued(n, 0);
    std::vector<int> rounds(n, 0);
    std::deque<int> queue{in.Start()};
    dist[in.Start()] = 0;
    while (!queue.empty()) {
      int s = queue.front();
      queue.pop_front();
      queued[s] = 0;
      if (++rounds[s] > n + 1) break;  // a negative cycle
      const auto& arcs = in.Arcs(s);
      for (size_t k = 0; k < arcs.size(); ++k) {
        float d = dist[s] + arcs[k].weight.Value();
        int t = arcs[k].nextstate;
        if (d < dist[t] - 1e-6f) {
          dist[t] = d;
          from[t] = {s, static_cast<int>(k)};
          if (!queued[t]) {
            queued[t] = 1;
            queue.push_back(t);
          }
        }
      }
    }
    int best = -1;
    float bw = inf;
    for (int s = 0; s < n; ++s) {
      float w = dist[s] + in.Final(s).Value();
      if (w < bw) {
        bw = w;
        best = s;
      }
    }
    if (best >= 0) {
      std::vector<const Arc*> path;
      for (int s = best; s != in.Start() || from[s].first >= 0;) {
        auto [p, k] = from[s];
        if (p < 0) break;
        path.push_back(&in.Arcs(p)[k]);
        s = p;
      }
      int at = result.AddState();
      result.SetStart(at);
      for (auto it = path.rbegin(); it != path.rend(); ++it) {
        int next = result.AddState();
        result.AddArc(at, Arc((*it)->ilabel, (*it)->olabel, (*it)->weight, next));
        at = next;
      }
      result.SetFinal(at, in.Final(best));
    }
  }
  *out = std::move(result);
}

template <class F>
void Connect(F*) {}

enum class ProjectType { INPUT = 1, OUTPUT = 2 };
template <class F>
void Project(F* fst, ProjectType type) {
  for (int s = 0; s < fst->NumStates(); ++s)
    for (auto& a : fst->MutableArcs(s)) (type == ProjectType::INPUT ? a.olabel : a.ilabel) = type == ProjectType::INPUT ? a.ilabel : a.olabel;
}
}  // namespace fst

#endif  // RT_STUB_FSTLIB_H_
