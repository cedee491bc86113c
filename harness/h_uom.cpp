// Monitor for learned choices: C12.
#include <cmath>
#include <list>
#include <memory>

#include "UserOverrideModel.h"
#include "common.h"
#include "gramambular2/reading_grid.h"

using Formosa::Gramambular2::LanguageModel;
using Formosa::Gramambular2::ReadingGrid;
using McBopomofo::UserOverrideModel;
using std::string;
using std::vector;
using vf::Rng;

namespace {

// Reference: contexts in order of last observation, newest first.
struct Ref {
  struct Seen {
    uint64_t n = 0;
    double last = 0;
    bool force = false;
  };
  struct Ctx {
    string key;
    uint64_t total = 0;
    std::map<string, Seen> c;
  };
  size_t capacity;
  double halfLife;
  std::list<Ctx> l;
  void observe(const string& key, const string& cand, double t, bool force) {
    auto it = l.begin();
    while (it != l.end() && it->key != key) ++it;
    if (it == l.end()) {
      l.push_front(Ctx{key, 0, {}});
      if (l.size() > capacity) l.pop_back();
    } else {
      l.splice(l.begin(), l, it);
    }
    Ctx& x = l.front();
    ++x.total;
    auto& s = x.c[cand];
    ++s.n;
    s.last = t;
    s.force = force;
  }
  const Ctx* find(const string& key) const {
    for (auto& x : l)
      if (x.key == key) return &x;
    return nullptr;
  }
};

// Weight in bits of decay, 0 when forgotten; `edge` when too close to call.
double weight(const Ref::Ctx& x, const Ref::Seen& s, double t, double halfLife, bool* edge) {
  double halves = (t - s.last) / halfLife;
  if (std::fabs(halves - 20) < 1e-6) *edge = true;
  if (halves > 20) return 0;
  return static_cast<double>(s.n) / static_cast<double>(x.total) * std::pow(2.0, -halves);
}

void checkSuggestion(const UserOverrideModel::Suggestion& got, const Ref& ref, const string& key, double t) {
  const Ref::Ctx* x = ref.find(key);
  if (!x) {
    VCHECK(got.empty(), "'" << got.candidate << "' is suggested for a context never observed (or forgotten): " << key);
    vf::count("nothing_known");
    return;
  }
  bool edge = false;
  double best = 0;
  for (auto& kv : x->c) best = std::max(best, weight(*x, kv.second, t, ref.halfLife, &edge));
  if (edge) return;
  if (got.empty()) {
    VCHECK(best == 0, "nothing is suggested for " << key << " though there is an observation of weight " << best);
    vf::count("decayed");
    return;
  }
  auto it = x->c.find(got.candidate);
  VCHECK(it != x->c.end(), "'" << got.candidate << "' was never observed for " << key);
  double w = weight(*x, it->second, t, ref.halfLife, &edge);
  VCHECK(w > 0, "'" << got.candidate << "' is suggested although it has decayed");
  VCHECK(w >= best * (1 - 1e-9), "'" << got.candidate << "' of weight " << w << " is suggested though there is one of " << best);
  VCHECK(got.forceHighScoreOverride == it->second.force, "suggestion strength of '" << got.candidate << "'");
  vf::count("suggested");
  if (x->c.size() > 1) vf::count("competing_suggestions");
}

void caseKeys(Rng& r) {
  static const vector<size_t> caps = {1, 2, 3, 5, 10, 500};
  Ref ref{r.pick(caps), r.chance(1, 2) ? 5400.0 : 1.0 + static_cast<double>(r.below(100)), {}};
  UserOverrideModel m(ref.capacity, ref.halfLife);
  size_t nk = 1 + r.below(ref.capacity < 100 ? ref.capacity * 2 + 2 : 12), nc = 1 + r.below(5);
  double t = static_cast<double>(r.below(1000000));
  uint64_t h = ref.capacity;
  size_t steps = 30 + r.below(ref.capacity > 100 && r.chance(1, 6) ? 1500 : 120);
  if (ref.capacity > 100 && steps > 800) nk = 700;
  for (size_t i = 0; i < steps; ++i) {
    string key = "k" + std::to_string(r.chance(1, 2) ? r.below(nk) : r.below(std::min<size_t>(nk, 3)));
    switch (r.below(8)) {
      case 0: t += ref.halfLife * static_cast<double>(r.below(24)); break;
      case 1: break;
      default: t += ref.halfLife * r.unit() * (r.chance(1, 4) ? 8 : 0.3);
    }
    if (r.chance(3, 5)) {
      string c = "c" + std::to_string(r.below(nc));
      bool f = r.chance(1, 4);
      vf::note("observe " + key + " " + c + " at " + std::to_string(t));
      m.observe(key, c, t, f);
      ref.observe(key, c, t, f);
      // what was just chosen can be suggested, and is if nothing competes
      auto s = m.suggest(key, t);
      checkSuggestion(s, ref, key, t);
      h = vf::fnv(key + c, h);
      vf::count("observed");
    } else {
      double at = t + (r.chance(1, 3) ? ref.halfLife * static_cast<double>(r.below(30)) : 0);
      vf::note("suggest " + key + " at " + std::to_string(at));
      checkSuggestion(m.suggest(key, at), ref, key, at);
    }
  }
  for (size_t k = 0; k < nk; ++k) {
    string key = "k" + std::to_string(k);
    checkSuggestion(m.suggest(key, t), ref, key, t);
    VCHECK(m.suggest(key, t + 21 * ref.halfLife).empty(), "something is suggested after it has decayed");
  }
  vf::distinct(h);
  vf::sample(vf::G().trace);
}

// ---- observations and suggestions through conversions
class Lm : public LanguageModel {
 public:
  std::map<string, vector<std::pair<string, double>>> t;
  vector<Unigram> getUnigrams(const string& k) override {
    vector<Unigram> v;
    auto it = t.find(k);
    if (it != t.end())
      for (auto& e : it->second) v.emplace_back(e.first, e.second);
    return v;
  }
  bool hasUnigrams(const string& k) override { return t.count(k) > 0; }
};

// Position of the phrase that holds reading `at`.
size_t holder(const ReadingGrid::WalkResult& w, size_t at, size_t* start) {
  size_t p = 0;
  for (size_t i = 0; i < w.nodes.size(); ++i) {
    if (at < p + w.nodes[i]->spanningLength()) {
      *start = p;
      return i;
    }
    p += w.nodes[i]->spanningLength();
  }
  *start = 0;
  return w.nodes.size();
}

// The context of the i-th phrase: itself (by its best value) and up to two
// phrases before it, cut at punctuation.
string context(const ReadingGrid::WalkResult& w, size_t i) {
  string o = "<" + w.nodes[i]->reading() + "=" + w.nodes[i]->unigrams()[0].value() + ">";
  for (size_t k = 1; k <= 2; ++k) {
    if (i < k) break;
    auto& n = w.nodes[i - k];
    if (n->reading()[0] == '_') break;
    o += "<" + n->reading() + "=" + n->value() + ">";
  }
  return o;
}

void caseWalks(Rng& r) {
  auto lm = std::make_shared<Lm>();
  vector<string> alpha = {"a", "b", "c", "_punctuation_x"};
  alpha.resize(2 + r.below(3));
  int uid = 0;
  auto score = [&] { return -static_cast<double>(1 + r.below(300)) / 64.0; };
  for (auto& a : alpha) {
    size_t n = 1 + r.below(3);
    for (size_t i = 0; i < n; ++i) lm->t[a].emplace_back("v" + std::to_string(uid++), score());
  }
  size_t np = r.below(14);
  for (size_t i = 0; i < np; ++i) {
    string k = r.pick(alpha);
    size_t len = 2 + r.below(3);
    for (size_t j = 1; j < len; ++j) k += "-" + r.pick(alpha);
    lm->t[k].emplace_back("v" + std::to_string(uid++), score());
    if (r.chance(1, 2)) lm->t[k].emplace_back("v" + std::to_string(uid++), score());
  }
  for (auto& kv : lm->t) std::stable_sort(kv.second.begin(), kv.second.end(), [](auto& a, auto& b) { return a.second > b.second; });
  Ref ref{1 + r.below(12), 5400, {}};
  UserOverrideModel m(ref.capacity, ref.halfLife);
  double t = 1000;
  uint64_t h = 0;
  for (int round = 0; round < 12; ++round) {
    ReadingGrid g(lm);
    size_t n = 1 + r.below(6);
    string typed;
    for (size_t i = 0; i < n; ++i) {
      string rd = r.pick(alpha);
      g.insertReading(rd);
      typed += rd + " ";
    }
    vf::note("type " + typed);
    if (r.chance(1, 3)) {
      // an earlier choice, part of the context
      auto cs = g.candidatesAt(0);
      auto& c = cs[r.below(cs.size())];
      g.overrideCandidate(0, c);
    }
    auto before = g.walk();
    t += static_cast<double>(r.below(3000));
    size_t cur = r.below(g.length() + 1);
    // suggestion in the current context
    {
      size_t st;
      size_t at = cur == g.length() ? cur - 1 : cur;
      size_t i = holder(before, at, &st);
      vf::note("suggest at " + std::to_string(cur));
      checkSuggestion(m.suggest(before, cur, t), ref, context(before, i), t);
    }
    auto cs = g.candidatesAt(cur);
    auto& c = cs[r.below(cs.size())];
    vf::note("choose " + c.value + "<" + c.reading + "> at " + std::to_string(cur));
    if (!g.overrideCandidate(cur, c)) continue;
    auto after = g.walk();
    m.observe(before, after, cur, t);
    // what the observation means
    size_t st = 0, st2 = 0;
    size_t at = cur == g.length() ? cur - 1 : cur;
    size_t i = holder(after, at, &st);
    size_t len = after.nodes[i]->spanningLength();
    if (len <= 3) {
      size_t last = st + len - 1;
      size_t j = holder(before, last, &st2);
      size_t blen = before.nodes[j]->spanningLength();
      bool breakUp = len == 1 && blen > 1;
      string key = breakUp ? context(after, i) : context(before, j);
      ref.observe(key, after.nodes[i]->value(), t, len > blen);
      vf::count("observed_in_conversion");
      checkSuggestion(breakUp ? m.suggest(after, cur, t) : m.suggest(before, last, t), ref, key, t);
    }
    h = vf::fnv(typed + c.value, h);
  }
  // degenerate observations are ignored
  ReadingGrid e(lm), f(lm);
  f.insertReading("a");
  auto ew = e.walk(), fw = f.walk();
  m.observe(ew, fw, 0, t);
  m.observe(fw, ew, 0, t);
  m.observe(fw, fw, 7, t);
  vf::distinct(h);
  vf::sample(vf::G().trace);
}

vf::Reg c12("C12", 12000, 400000, [](uint64_t i, Rng& r) {
  if (i % 3 == 0)
    caseWalks(r);
  else
    caseKeys(r);
});
}  // namespace

int main(int argc, char** argv) { return vf::mainLoop(argc, argv); }
