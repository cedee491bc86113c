// Monitors for the composition grid: C01 optimal segmentation, C02 content
// independent of history, C03 candidates, C04 chosen candidates stick.
#include <algorithm>
#include <cmath>
#include <limits>
#include <memory>

#include "common.h"
#include "gramambular2/reading_grid.h"

using Formosa::Gramambular2::LanguageModel;
using Formosa::Gramambular2::ReadingGrid;
using Node = ReadingGrid::Node;
using OT = Node::OverrideType;
using vf::Rng;
using std::string;
using std::vector;

namespace {

struct Entry {
  string value;
  double score;
};

class TableLM : public LanguageModel {
 public:
  std::map<string, vector<Entry>> table;
  vector<Unigram> getUnigrams(const string& r) override {
    vector<Unigram> out;
    auto it = table.find(r);
    if (it != table.end())
      for (auto& e : it->second) out.emplace_back(e.value, e.score);
    return out;
  }
  bool hasUnigrams(const string& r) override {
    auto it = table.find(r);
    return it != table.end() && !it->second.empty();
  }
};

// Entries in order of preference: best score first, equal scores keep order.
vector<Entry> ranked(const TableLM& lm, const string& r) {
  auto it = lm.table.find(r);
  if (it == lm.table.end()) return {};
  vector<Entry> v = it->second;
  std::stable_sort(v.begin(), v.end(), [](const Entry& a, const Entry& b) { return a.score > b.score; });
  return v;
}

struct World {
  std::shared_ptr<TableLM> lm = std::make_shared<TableLM>();
  vector<string> alphabet;
  vector<string> unknown;
  string sep = "-";
  bool defaultSep = true;
};

string join(const vector<string>& r, size_t b, size_t len, const string& sep) {
  string o;
  for (size_t i = b; i < b + len; ++i) {
    if (i > b) o += sep;
    o += r[i];
  }
  return o;
}

const vector<string>& allReadings() {
  static const vector<string> v = {"ㄅㄚ", "ㄇㄚˇ", "ㄓㄨㄥ", "ㄍㄨㄛˊ", "ㄕˋ", "ㄧ", "_punctuation_<", "_letter_A", "ㄐㄩㄝˊ", "x"};
  return v;
}

// boundedScores: all scores in (-2.5, 0], so that the boost of a choice (42)
// always dominates.
World makeWorld(Rng& rng, bool boundedScores) {
  World w;
  unsigned k = 1 + static_cast<unsigned>(rng.below(5));
  vector<string> pool = allReadings();
  for (size_t i = pool.size(); i > 1; --i) std::swap(pool[i - 1], pool[rng.below(i)]);
  w.alphabet.assign(pool.begin(), pool.begin() + k);
  w.unknown.assign(pool.begin() + k, pool.begin() + k + 2);
  switch (rng.below(6)) {
    case 0: w.sep = ""; w.defaultSep = false; break;
    case 1: w.sep = ";"; w.defaultSep = false; break;
    default: break;
  }
  int valuePool = 2 + static_cast<int>(rng.below(12));
  bool sharedValues = rng.chance(1, 3);
  // Nearly equal scores; all sums are exact in double precision.
  bool fine = rng.chance(1, 4);
  auto score = [&]() -> double {
    if (fine) {
      vf::count("fine_scores");
      return -static_cast<double>(rng.below(3)) / 2 - static_cast<double>(rng.below(256)) / 17179869184.0;
    }
    if (boundedScores) return -static_cast<double>(rng.below(160)) / 64.0;
    switch (rng.below(12)) {
      case 0: return 0;
      case 1: return -static_cast<double>(rng.below(8));
      case 2: return static_cast<double>(rng.below(64)) / 64.0;  // positive
      case 3: return -99;
      default: return -static_cast<double>(rng.below(12 * 64)) / 64.0;
    }
  };
  int uid = 0;
  auto fill = [&](const string& key, size_t len, size_t n) {
    auto& e = w.lm->table[key];
    for (size_t i = 0; i < n; ++i) {
      string v;
      if (sharedValues) {
        v = "v" + std::to_string(rng.below(static_cast<uint64_t>(valuePool)));
      } else {
        v = "字" + std::to_string(len) + "." + std::to_string(uid++);
      }
      bool dup = false;
      for (auto& x : e) dup = dup || x.value == v;
      if (!dup) e.push_back({v, score()});
    }
  };
  for (auto& a : w.alphabet) fill(a, 1, 1 + rng.below(4));
  // multi-reading phrases, 2..8 readings (longer than the grid's limit too)
  size_t phrases = rng.below(60);
  for (size_t i = 0; i < phrases; ++i) {
    size_t len = 2 + rng.below(rng.chance(1, 2) ? 2 : 7);
    vector<string> r;
    for (size_t j = 0; j < len; ++j) r.push_back(rng.pick(w.alphabet));
    fill(join(r, 0, len, w.sep), len, 1 + rng.below(3));
  }
  return w;
}

string describe(const World& w) {
  string o = "lm{";
  for (auto& kv : w.lm->table) {
    o += kv.first + ":";
    for (auto& e : kv.second) o += e.value + "(" + std::to_string(e.score) + ") ";
    o += "; ";
  }
  return o + "} sep='" + w.sep + "'";
}

struct Choice {
  size_t start, len;
  string value;
  OT type;
};

// The reference: readings, cursor and the choices in force.
struct Model {
  vector<string> readings;
  size_t cursor = 0;
  vector<Choice> choices;

  const Choice* at(size_t s, size_t l) const {
    for (auto& c : choices)
      if (c.start == s && c.len == l) return &c;
    return nullptr;
  }
  void inserted(size_t loc) {
    vector<Choice> keep;
    for (auto c : choices) {
      if (c.start < loc && loc < c.start + c.len) continue;
      if (c.start >= loc) ++c.start;
      keep.push_back(c);
    }
    choices = keep;
  }
  void deleted(size_t loc) {
    vector<Choice> keep;
    for (auto c : choices) {
      if (c.start <= loc && loc < c.start + c.len) continue;
      if (c.start > loc) --c.start;
      keep.push_back(c);
    }
    choices = keep;
  }
  void chosen(const Choice& n) {
    vector<Choice> keep;
    for (auto c : choices) {
      bool overlap = c.start < n.start + n.len && n.start < c.start + c.len;
      if (!overlap) keep.push_back(c);
    }
    keep.push_back(n);
    choices = keep;
  }
};

double nodeScore(const vector<Entry>& e, const Choice* c) {
  if (!c) return e[0].score;
  if (c->type == OT::kOverrideValueWithHighScore) return Node::kOverridingScore;
  return e[0].score;
}

// Best total score over all segmentations.
double best(const World& w, const Model& m) {
  size_t n = m.readings.size();
  vector<double> d(n + 1, -std::numeric_limits<double>::infinity());
  d[0] = 0;
  for (size_t i = 0; i < n; ++i) {
    if (std::isinf(d[i])) continue;
    for (size_t l = 1; l <= ReadingGrid::kMaximumSpanLength && i + l <= n; ++l) {
      auto e = ranked(*w.lm, join(m.readings, i, l, w.sep));
      if (e.empty()) continue;
      double s = d[i] + nodeScore(e, m.at(i, l));
      if (s > d[i + l]) d[i + l] = s;
    }
  }
  return d[n];
}

string walkString(const ReadingGrid::WalkResult& r) {
  string o;
  for (auto& n : r.nodes) o += n->value() + "<" + n->reading() + "> ";
  return o;
}

void checkContent(const ReadingGrid& g, const World& w, const Model& m) {
  VCHECK(g.readings() == m.readings, "readings are [" << vf::S(g.readings()) << "], expected [" << vf::S(m.readings) << "]");
  VCHECK(g.length() == m.readings.size(), "length " << g.length());
  VCHECK(g.cursor() == m.cursor, "cursor " << g.cursor() << ", expected " << m.cursor);
  VCHECK(g.spans().size() == m.readings.size(), "span count " << g.spans().size() << " for " << m.readings.size() << " readings");
  for (size_t i = 0; i < m.readings.size(); ++i) {
    size_t longest = 0;
    for (size_t l = 1; l <= ReadingGrid::kMaximumSpanLength; ++l) {
      auto node = g.spans()[i].nodeOf(l);
      vector<Entry> e;
      string key;
      if (i + l <= m.readings.size()) {
        key = join(m.readings, i, l, w.sep);
        e = ranked(*w.lm, key);
      }
      if (e.empty()) {
        VCHECK(node == nullptr, "stale phrase over readings " << i << "+" << l << " (" << (node ? node->reading() + "/" + node->value() : "") << ") not offered by the language model");
        continue;
      }
      longest = l;
      VCHECK(node != nullptr, "phrase over readings " << i << "+" << l << " (" << key << ") is missing");
      VCHECK(node->reading() == key, "phrase at " << i << "+" << l << " has reading " << node->reading() << " instead of " << key);
      VCHECK(node->spanningLength() == l, "phrase at " << i << "+" << l << " spans " << node->spanningLength());
      VCHECK(node->unigrams().size() == e.size(), "phrase at " << i << "+" << l << " has " << node->unigrams().size() << " values, language model has " << e.size());
      for (size_t k = 0; k < e.size(); ++k) {
        VCHECK(node->unigrams()[k].value() == e[k].value && node->unigrams()[k].score() == e[k].score,
               "value " << k << " of " << key << " is " << node->unigrams()[k].value() << ", expected " << e[k].value);
      }
    }
    VCHECK(g.spans()[i].maxLength() == longest, "longest phrase at " << i << " said to be " << g.spans()[i].maxLength() << ", is " << longest);
  }
}

void checkWalk(ReadingGrid& g, const World& w, const Model& m, bool hardSticks) {
  auto r = g.walk();
  if (m.readings.empty()) {
    VCHECK(r.nodes.empty() && r.totalReadings == 0, "conversion of nothing is not empty");
    return;
  }
  VCHECK(r.totalReadings == m.readings.size(), "conversion covers " << r.totalReadings << " of " << m.readings.size() << " readings");
  size_t pos = 0;
  double total = 0;
  for (auto& n : r.nodes) {
    size_t l = n->spanningLength();
    VCHECK(l >= 1 && pos + l <= m.readings.size(), "conversion goes past the readings");
    string key = join(m.readings, pos, l, w.sep);
    VCHECK(n->reading() == key, "phrase over readings " << pos << "+" << l << " has reading " << n->reading() << " not " << key);
    auto e = ranked(*w.lm, key);
    VCHECK(!e.empty(), "conversion uses " << key << " which the language model does not have");
    const Choice* c = m.at(pos, l);
    string want = c ? c->value : e[0].value;
    VCHECK(n->value() == want, "readings " << pos << "+" << l << " (" << key << ") convert to " << n->value() << ", expected " << want << (c ? " (chosen)" : " (best)"));
    VCHECK(n->isOverridden() == (c != nullptr), "phrase at " << pos << "+" << l << (c ? " lost its choice" : " keeps a choice nobody made"));
    total += nodeScore(e, c);
    pos += l;
  }
  VCHECK(pos == m.readings.size(), "conversion covers " << pos << " readings of " << m.readings.size());
  double b = best(w, m);
  VCHECK(std::fabs(total - b) < 1e-12, "conversion scores " << total << " but " << b << " is possible: " << walkString(r));
  auto vs = r.valuesAsStrings();
  auto rs = r.readingsAsStrings();
  VCHECK(vs.size() == r.nodes.size() && rs.size() == r.nodes.size(), "strings of the conversion");
  for (size_t i = 0; i < vs.size(); ++i) VCHECK(vs[i] == r.nodes[i]->value() && rs[i] == r.nodes[i]->reading(), "strings of the conversion differ from its phrases");
  if (hardSticks) {
    for (auto& c : m.choices) {
      if (c.type != OT::kOverrideValueWithHighScore) continue;
      size_t p = 0;
      bool found = false;
      for (auto& n : r.nodes) {
        if (p == c.start && n->spanningLength() == c.len && n->value() == c.value) found = true;
        p += n->spanningLength();
      }
      VCHECK(found, "chosen " << c.value << " over readings " << c.start << "+" << c.len << " is not in the conversion: " << walkString(r));
    }
  }
  auto r2 = g.walk();
  VCHECK(walkString(r2) == walkString(r), "asking for the conversion twice differs: " << walkString(r) << " / " << walkString(r2));
  // Finding the phrase at a cursor.
  for (size_t cur = 0; cur <= m.readings.size(); ++cur) {
    size_t past = 9999;
    auto it = r.findNodeAt(cur, &past);
    VCHECK(it != r.nodes.cend(), "no phrase found at cursor " << cur);
    size_t target = cur == m.readings.size() ? cur - 1 : cur;
    size_t p = 0;
    for (auto& n : r.nodes) {
      if (target < p + n->spanningLength()) {
        VCHECK(&*it == &n && past == p + n->spanningLength(), "phrase at cursor " << cur << " wrong");
        break;
      }
      p += n->spanningLength();
    }
  }
  VCHECK(r.findNodeAt(m.readings.size() + 1) == r.nodes.cend(), "a phrase is found past the end");
  vf::count("conversions_checked");
}

void checkCandidates(ReadingGrid& g, const World& w, const Model& m) {
  for (size_t loc = 0; loc <= m.readings.size() + 1; ++loc) {
    auto cs = g.candidatesAt(loc);
    if (m.readings.empty() || loc > m.readings.size()) {
      VCHECK(cs.empty(), "candidates offered outside the composition");
      continue;
    }
    size_t at = loc == m.readings.size() ? loc - 1 : loc;
    size_t used = 0;
    for (size_t l = ReadingGrid::kMaximumSpanLength; l >= 1; --l) {
      // stretches of length l that touch the position
      vector<vector<std::pair<string, string>>> groups;
      size_t total = 0;
      for (size_t s = at + 1 >= l ? at + 1 - l : 0; s <= at; ++s) {
        if (s + l > m.readings.size()) continue;
        string key = join(m.readings, s, l, w.sep);
        auto e = ranked(*w.lm, key);
        if (e.empty()) continue;
        groups.emplace_back();
        for (auto& x : e) groups.back().emplace_back(key, x.value);
        total += e.size();
      }
      VCHECK(used + total <= cs.size(), "only " << cs.size() << " candidates at " << loc << ", phrases of length " << l << " are missing");
      // any order of the groups is acceptable, order inside a group is not
      vector<bool> taken(groups.size(), false);
      size_t end = used + total;
      while (used < end) {
        bool ok = false;
        for (size_t k = 0; k < groups.size() && !ok; ++k) {
          if (taken[k] || used + groups[k].size() > end) continue;
          bool same = true;
          for (size_t q = 0; q < groups[k].size(); ++q)
            same = same && cs[used + q].reading == groups[k][q].first && cs[used + q].value == groups[k][q].second;
          if (same) {
            taken[k] = true;
            used += groups[k].size();
            ok = true;
          }
        }
        VCHECK(ok, "candidate " << used << " at position " << loc << " is " << cs[used].value << "<" << cs[used].reading << ">, not a phrase of " << l << " readings in the language model's order");
      }
    }
    VCHECK(used == cs.size(), "foreign candidate " << cs[used].value << " at " << loc);
    vf::count("candidate_lists_checked");
    vf::count("candidates_seen", cs.size());
  }
}

enum Focus { F_WALK, F_CONTENT, F_CAND, F_STICK };

void runHistory(Rng& rng, Focus focus) {
  World w = makeWorld(rng, focus == F_STICK);
  vf::note(describe(w));
  ReadingGrid g(w.lm);
  if (!w.defaultSep) g.setReadingSeparator(w.sep);
  VCHECK(g.readingSeparator() == w.sep, "separator");
  Model m;
  vf::Rng local(rng.next());
  size_t maxLen = rng.chance(1, 6) ? 60 : 3 + rng.below(18);
  size_t steps = 20 + rng.below(60);
  uint64_t h = vf::fnv(describe(w));
  unsigned wInsert = 4 + static_cast<unsigned>(rng.below(8)), wDel = 1 + static_cast<unsigned>(rng.below(5)), wChoose = focus == F_CONTENT ? 1 : 2 + static_cast<unsigned>(rng.below(5));
  for (size_t st = 0; st < steps; ++st) {
    uint64_t op = rng.below(wInsert + wDel * 2 + wChoose + 3);
    string what;
    auto sawEffect = [&]() { h = vf::fnv(what, h); };
    if (op < wInsert) {
      string r = rng.chance(1, 12) ? (rng.chance(1, 2) ? rng.pick(w.unknown) : (rng.chance(1, 2) ? string() : w.sep)) : rng.pick(w.alphabet);
      if (m.readings.size() >= maxLen) continue;
      what = "insert '" + r + "' at " + std::to_string(m.cursor);
      vf::note(what);
      bool expect = !r.empty() && r != w.sep && w.lm->hasUnigrams(r);
      bool got = g.insertReading(r);
      VCHECK(got == expect, "inserting '" << r << "' " << (got ? "accepted" : "refused"));
      if (got) {
        m.readings.insert(m.readings.begin() + static_cast<long>(m.cursor), r);
        m.inserted(m.cursor);
        ++m.cursor;
      }
      vf::count(got ? "inserts" : "refused_inserts");
    } else if (op < wInsert + wDel) {
      what = "delete before " + std::to_string(m.cursor);
      vf::note(what);
      bool got = g.deleteReadingBeforeCursor();
      VCHECK(got == (m.cursor > 0), "delete before cursor at " << m.cursor << " returned " << got);
      if (got) {
        --m.cursor;
        m.readings.erase(m.readings.begin() + static_cast<long>(m.cursor));
        m.deleted(m.cursor);
      }
      vf::count("deletes");
    } else if (op < wInsert + 2 * wDel) {
      what = "delete after " + std::to_string(m.cursor);
      vf::note(what);
      bool got = g.deleteReadingAfterCursor();
      VCHECK(got == (m.cursor < m.readings.size()), "delete after cursor at " << m.cursor << " returned " << got);
      if (got) {
        m.readings.erase(m.readings.begin() + static_cast<long>(m.cursor));
        m.deleted(m.cursor);
      }
      vf::count("deletes");
    } else if (op < wInsert + 2 * wDel + wChoose) {
      if (m.readings.empty()) {
        VCHECK(!g.overrideCandidate(rng.below(3), "字1.0"), "a candidate is accepted in an empty composition");
        continue;
      }
      size_t loc = rng.below(m.readings.size() + 1);
      size_t at = loc == m.readings.size() ? loc - 1 : loc;
      // every phrase touching the position
      struct Opt {
        size_t s, l;
        string key, value;
      };
      vector<Opt> opts;
      for (size_t l = 1; l <= ReadingGrid::kMaximumSpanLength; ++l)
        for (size_t s = at + 1 >= l ? at + 1 - l : 0; s <= at; ++s) {
          if (s + l > m.readings.size()) continue;
          string key = join(m.readings, s, l, w.sep);
          for (auto& e : ranked(*w.lm, key)) opts.push_back({s, l, key, e.value});
        }
      if (rng.chance(1, 8)) {
        what = "choose a candidate not offered at " + std::to_string(loc);
        vf::note(what);
        bool got = rng.chance(1, 2) ? g.overrideCandidate(loc, ReadingGrid::Candidate("ㄨㄨ", "無")) : g.overrideCandidate(loc, "無");
        VCHECK(!got, "a candidate that is not offered is accepted");
        VCHECK(!g.overrideCandidate(m.readings.size() + 1, opts[0].value), "a candidate is accepted past the end");
        vf::count("refused_choices");
      } else {
        const Opt& o = opts[rng.below(opts.size())];
        OT t = rng.chance(1, 4) ? OT::kOverrideValueWithScoreFromTopUnigram : OT::kOverrideValueWithHighScore;
        bool byReading = true;
        // by value alone is only well defined if one phrase has the value
        size_t same = 0, sameKey = 0;
        for (auto& x : opts) {
          same += x.value == o.value;
          sameKey += x.value == o.value && x.key == o.key;
        }
        if (same == 1 && rng.chance(1, 3)) byReading = false;
        if (sameKey > 1) continue;  // the same phrase at two places here: ambiguous request
        what = "choose " + o.value + "<" + o.key + "> at " + std::to_string(loc) + (t == OT::kOverrideValueWithHighScore ? "" : " softly") + (byReading ? "" : " by value");
        vf::note(what);
        bool got = byReading ? g.overrideCandidate(loc, ReadingGrid::Candidate(o.key, o.value), t) : g.overrideCandidate(loc, o.value, t);
        VCHECK(got, "an offered candidate " << o.value << " is refused at " << loc);
        m.chosen({o.s, o.l, o.value, t});
        vf::count("choices");
      }
    } else if (op == wInsert + 2 * wDel + wChoose && rng.chance(1, 25)) {
      what = "clear";
      vf::note(what);
      g.clear();
      m = Model();
      vf::count("clears");
    } else {
      m.cursor = rng.chance(1, 3) ? (rng.chance(1, 2) ? 0 : m.readings.size()) : rng.below(m.readings.size() + 1);
      what = "cursor " + std::to_string(m.cursor);
      vf::note(what);
      g.setCursor(m.cursor);
    }
    sawEffect();
    switch (focus) {
      case F_WALK:
        if (rng.chance(1, 2) || st + 1 == steps) checkWalk(g, w, m, false);
        break;
      case F_CONTENT:
        checkContent(g, w, m);
        break;
      case F_CAND: {
        checkCandidates(g, w, m);
        if (rng.chance(1, 4)) checkContent(g, w, m);
        break;
      }
      case F_STICK:
        checkWalk(g, w, m, true);
        break;
    }
    vf::count("states_checked");
  }
  if (focus == F_CAND) checkWalk(g, w, m, false);
  vf::distinct(h);
  vf::sample(vf::G().trace);
}

// The conversion of long compositions (the grid's own limits are far away).
void longWalk(Rng& rng) {
  World w = makeWorld(rng, false);
  ReadingGrid g(w.lm);
  if (!w.defaultSep) g.setReadingSeparator(w.sep);
  Model m;
  size_t n = 200 + rng.below(400);
  for (size_t i = 0; i < n; ++i) {
    string r = rng.pick(w.alphabet);
    VCHECK(g.insertReading(r), "refused");
    m.readings.push_back(r);
    ++m.cursor;
  }
  checkWalk(g, w, m, false);
  vf::distinct(vf::fnv(vf::S(m.readings)));
}

vf::Reg c01("C01", 6000, 150000, [](uint64_t i, Rng& r) {
  if (i % 200 == 199)
    longWalk(r);
  else
    runHistory(r, F_WALK);
});
vf::Reg c02("C02", 6000, 150000, [](uint64_t, Rng& r) { runHistory(r, F_CONTENT); });
vf::Reg c03("C03", 4000, 100000, [](uint64_t, Rng& r) { runHistory(r, F_CAND); });
vf::Reg c04("C04", 6000, 150000, [](uint64_t, Rng& r) { runHistory(r, F_STICK); });
}  // namespace

int main(int argc, char** argv) { return vf::mainLoop(argc, argv); }
