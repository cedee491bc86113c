// Monitors for the language data layer: C05 lookup, C06 reverse lookup,
// C07 pipeline, C08 known readings, C09 associated phrases, C10 text files,
// C11 data file life cycle.
#include <sys/stat.h>

#include <algorithm>
#include <cmath>
#include <fstream>
#include <memory>
#include <optional>

#include "AssociatedPhrasesV2.h"
#include "KeyValueBlobReader.h"
#include "McBopomofoLM.h"
#include "MemoryMappedFile.h"
#include "ParselessLM.h"
#include "ParselessPhraseDB.h"
#include "PhraseReplacementMap.h"
#include "UserPhrasesLM.h"
#include "common.h"
#include "gramambular2/reading_grid.h"

using namespace McBopomofo;
using Formosa::Gramambular2::LanguageModel;
using Formosa::Gramambular2::ReadingGrid;
using std::string;
using std::vector;
using vf::Rng;

namespace {

const string kPragma = "# format org.openvanilla.mcbopomofo.sorted\n";

struct Row {
  string key, value, score;
  double num() const { return strtod(score.c_str(), nullptr); }
  // A row may leave out its score, which is then 0.
  string line() const { return score.empty() ? key + " " + value : key + " " + value + " " + score; }
};

// A buffer of exactly n bytes on the heap, so that ASan sees any overrun.
struct Exact {
  std::unique_ptr<char[]> p;
  size_t n = 0;
  explicit Exact(const string& s) : p(new char[s.size() ? s.size() : 1]), n(s.size()) { memcpy(p.get(), s.data(), s.size()); }
  // A trailing redzone right after the last byte requires an exact size.
};
struct Heap {
  char* p;
  size_t n;
  explicit Heap(const string& s) : p(static_cast<char*>(malloc(s.size()))), n(s.size()) { memcpy(p, s.data(), n); }
  ~Heap() { free(p); }
  Heap(const Heap&) = delete;
};

string randKey(Rng& r) {
  static const vector<string> parts = {"a", "b", "ab", "ㄅ", "ㄅㄚ", "ㄅㄚˋ", "ㄆ", "ㄇ", "_", "-", "z", "~", "ㄩˋ", "1", ":"};
  string k;
  size_t n = 1 + r.below(r.chance(1, 4) ? 8 : 3);
  for (size_t i = 0; i < n; ++i) k += r.pick(parts);
  return k;
}
string randValue(Rng& r) {
  static const vector<string> parts = {"一", "八", "ㄅ", "的", "x", "𠮷", "吧", "-", "1", "不是", "\"", "A"};
  string v;
  size_t n = 1 + r.below(3);
  for (size_t i = 0; i < n; ++i) v += r.pick(parts);
  return v;
}
string randScore(Rng& r) {
  char b[40];
  switch (r.below(6)) {
    case 0: return "0";
    case 1: return "-" + std::to_string(r.below(12));
    case 2: return "0.0";
    case 3: snprintf(b, sizeof b, "-%.8f", r.unit() * 12); return b;
    case 4: return "-8";
    default: snprintf(b, sizeof b, "-%.2f", r.unit() * 12); return b;
  }
}

struct Table {
  vector<Row> rows;
  string text;    // without pragma
  bool finalNl = true;
  bool whole = false;  // sorted by the whole row, not just by the reading
};

void finish(Rng& r, Table& t) {
  t.whole = r.chance(1, 4);
  std::stable_sort(t.rows.begin(), t.rows.end(), [&](const Row& a, const Row& b) { return t.whole ? a.line() < b.line() : a.key + " " < b.key + " "; });
  t.finalNl = r.chance(2, 3);
  for (size_t i = 0; i < t.rows.size(); ++i) {
    t.text += t.rows[i].line();
    if (i + 1 < t.rows.size() || t.finalNl) t.text += "\n";
  }
}

Table randTable(Rng& r, bool scoreless = false) {
  Table t;
  size_t n = r.chance(1, 12) ? r.below(3) : r.chance(1, 20) ? 300 + r.below(900) : 1 + r.below(40);
  string last;
  vector<string> pool;
  size_t poolN = 1 + r.below(n + 1);
  for (size_t i = 0; i < poolN; ++i) pool.push_back(randKey(r));
  for (size_t i = 0; i < n; ++i) {
    Row row{r.chance(3, 4) ? r.pick(pool) : randKey(r), randValue(r), randScore(r)};
    if (scoreless && r.chance(1, 3)) row.score.clear();
    t.rows.push_back(row);
  }
  finish(r, t);
  return t;
}

vector<string> queries(Rng& r, const Table& t) {
  vector<string> q;
  for (auto& row : t.rows) {
    if (t.rows.size() > 100 && !r.chance(1, 10)) continue;
    q.push_back(row.key);
    if (r.chance(1, 3)) q.push_back(row.key + randKey(r));
    if (r.chance(1, 3)) q.push_back(row.key.substr(0, r.below(row.key.size()) + 1));
    if (r.chance(1, 6)) {
      string k = row.key;
      k.back() = static_cast<char>(k.back() + (r.chance(1, 2) ? 1 : -1));
      q.push_back(k);
    }
  }
  if (!t.rows.empty()) {
    q.push_back(t.rows.front().key);
    q.push_back(t.rows.back().key);
    q.push_back(t.rows.back().key + "\xff\xff\xff");
    q.push_back(t.rows.back().key + "-" + t.rows.back().key + "-" + t.rows.back().key + "-" + t.rows.back().key);
  }
  q.push_back("!");
  q.push_back("\xf4\x8f\xbf\xbf");
  for (int i = 0; i < 6; ++i) q.push_back(randKey(r));
  q.push_back(string(200, 'a'));
  return q;
}

void checkUnigrams(LanguageModel& lm, const vector<Row>& rows, const string& q) {
  vector<const Row*> want;
  for (auto& row : rows)
    if (row.key == q) want.push_back(&row);
  auto got = lm.getUnigrams(q);
  VCHECK(got.size() == want.size(), "looking up '" << q << "' gives " << got.size() << " rows, the table has " << want.size());
  for (size_t i = 0; i < want.size(); ++i)
    VCHECK(got[i].value() == want[i]->value && got[i].score() == want[i]->num(), "row " << i << " of '" << q << "' is " << got[i].value() << " " << got[i].score() << ", the table has " << want[i]->line());
  VCHECK(lm.hasUnigrams(q) == !want.empty(), "hasUnigrams('" << q << "') says " << lm.hasUnigrams(q) << " but there are " << want.size() << " rows");
  vf::count(want.empty() ? "absent_lookups" : "present_lookups");
}

vector<Row> parseRows(const string& text) {
  vector<Row> rows;
  std::istringstream in(text);
  string l;
  while (std::getline(in, l)) {
    size_t a = l.find(' ');
    size_t b = a == string::npos ? a : l.find(' ', a + 1);
    if (b == string::npos) continue;
    rows.push_back({l.substr(0, a), l.substr(a + 1, b - a - 1), l.substr(b + 1)});
  }
  return rows;
}
string slurp(const string& p) {
  std::ifstream f(p, std::ios::binary);
  std::ostringstream o;
  o << f.rdbuf();
  return o.str();
}
string repo() {
  const char* e = getenv("VERIF_REPO");
  return e ? e : "/repo";
}

void spit(const string& p, const string& s) {
  std::ofstream f(p, std::ios::binary | std::ios::trunc);
  f << s;
}

// ---------------------------------------------------------------- C05
void realDataLookup(Rng& r, bool reverse) {
  string path = repo() + "/data/data-plain-bpmf.txt";
  string text = slurp(path);
  if (text.compare(0, kPragma.size(), kPragma) != 0) return;
  vector<Row> rows = parseRows(text.substr(kPragma.size()));
  ParselessLM lm;
  VCHECK(lm.open(path.c_str()), "cannot open " << path);
  std::map<string, vector<Row>> byKey;
  std::map<string, vector<Row>> byValue;
  for (auto& x : rows) {
    byKey[x.key].push_back(x);
    byValue[x.value].push_back(x);
  }
  if (!reverse) {
    for (auto& kv : byKey) {
      checkUnigrams(lm, kv.second, kv.first);
      if (!byKey.count(kv.first + "x")) checkUnigrams(lm, {}, kv.first + "x");
    }
  } else {
    for (int i = 0; i < 40; ++i) {
      auto& x = rows[r.below(rows.size())];
      auto got = lm.getReadings(x.value);
      auto& want = byValue[x.value];
      VCHECK(got.size() == want.size(), "readings of " << x.value << ": " << got.size() << " instead of " << want.size());
      for (size_t k = 0; k < got.size(); ++k) VCHECK(got[k].reading == want[k].key, "reading of " << x.value);
      vf::count("reverse_lookups");
    }
  }
  vf::distinct(vf::fnv(text));
}

void caseLookup(uint64_t idx, Rng& r) {
  if (idx == 0) return realDataLookup(r, false);
  Table t = randTable(r, r.chance(1, 8));
  vf::note("table:\n" + t.text);
  bool pragma = r.chance(1, 2);
  string all = pragma ? kPragma + t.text : t.text;
  if (all.empty()) return;
  Heap buf(all);
  ParselessLM lm;
  VCHECK(!lm.isLoaded(), "loaded before opening");
  VCHECK(lm.open(std::make_unique<ParselessPhraseDB>(buf.p, buf.n, pragma)), "open");
  VCHECK(lm.isLoaded(), "not loaded");
  ParselessPhraseDB db(buf.p, buf.n, pragma);
  const char* base = buf.p + (pragma ? kPragma.size() : 0);
  for (auto& q : queries(r, t)) {
    vf::note("lookup '" + q + "'");
    checkUnigrams(lm, t.rows, q);
    // prefix search of the phrase table itself
    vector<string> prefixes = {q, q + " "};
    // and with most of a row, or all of it
    if (t.whole && !t.rows.empty() && r.chance(1, 3)) {
      string l = (r.chance(1, 3) ? t.rows.back() : r.chance(1, 3) ? t.rows.front() : r.pick(t.rows)).line();
      prefixes.push_back(l);
      prefixes.push_back(l.substr(0, l.size() - 1));
      prefixes.push_back(l + "0");
      prefixes.push_back(l.substr(0, 1 + r.below(l.size())));
    }
    for (const string& pre : prefixes) {
      vector<string> want;
      size_t off = 0, first = string::npos;
      for (auto& row : t.rows) {
        string l = row.line();
        if (l.compare(0, pre.size(), pre) == 0) {
          if (want.empty()) first = off;
          want.push_back(l);
        }
        off += l.size() + 1;
      }
      auto got = db.findRows(pre);
      VCHECK(got.size() == want.size(), "rows beginning with '" << pre << "': " << got.size() << " instead of " << want.size());
      for (size_t i = 0; i < want.size(); ++i) VCHECK(string(got[i]) == want[i], "row " << i << " for '" << pre << "' is '" << string(got[i]) << "'");
      const char* f = db.findFirstMatchingLine(pre);
      VCHECK(f == (first == string::npos ? nullptr : base + first), "first row beginning with '" << pre << "' is at " << (f ? f - base : -1) << ", expected " << static_cast<long>(first));
    }
  }
  // the same through a file
  if (pragma && idx % 8 == 1) {
    string p = vf::G().scratch + "/t.txt";
    spit(p, all);
    ParselessLM f;
    VCHECK(f.open(p.c_str()), "open file");
    for (auto& q : queries(r, t)) checkUnigrams(f, t.rows, q);
    f.close();
    VCHECK(!f.isLoaded() && f.getUnigrams("a").empty() && !f.hasUnigrams("a"), "closed table still answers");
  }
  vf::distinct(t.text);
  vf::sample(t.text.substr(0, 300));
}
vf::Reg c05("C05", 12000, 400000, caseLookup);

// ---------------------------------------------------------------- C06
void caseReverse(uint64_t idx, Rng& r) {
  if (idx == 0) return realDataLookup(r, true);
  Table t = randTable(r);
  vf::note("table:\n" + t.text);
  bool pragma = r.chance(1, 2);
  string all = pragma ? kPragma + t.text : t.text;
  if (all.empty()) return;
  Heap buf(all);
  ParselessLM lm;
  VCHECK(lm.open(std::make_unique<ParselessPhraseDB>(buf.p, buf.n, pragma)), "open");
  McBopomofoLM mlm;
  mlm.loadLanguageModel(std::make_unique<ParselessPhraseDB>(buf.p, buf.n, pragma));
  ParselessPhraseDB db(buf.p, buf.n, pragma);
  vector<string> qs;
  for (auto& row : t.rows) {
    if (t.rows.size() > 60 && !r.chance(1, 20)) continue;
    qs.push_back(row.value);
    if (r.chance(1, 4)) qs.push_back(row.value + "一");
    if (r.chance(1, 4)) qs.push_back(row.value.substr(0, row.value.size() - 1));
    if (r.chance(1, 8)) qs.push_back(row.key);
  }
  if (!t.rows.empty()) qs.push_back(t.rows.back().value);
  if (!t.rows.empty()) qs.push_back(t.rows.front().value);
  for (int i = 0; i < 4; ++i) qs.push_back(randValue(r));
  for (auto& q : qs) {
    if (q.empty()) continue;
    vf::note("readings of '" + q + "'");
    vector<const Row*> want;
    for (auto& row : t.rows)
      if (row.value == q) want.push_back(&row);
    auto got = lm.getReadings(q);
    VCHECK(got.size() == want.size(), "'" << q << "' has " << got.size() << " readings, the table has " << want.size());
    double top = 0;
    bool any = false;
    for (size_t i = 0; i < want.size(); ++i) {
      VCHECK(got[i].reading == want[i]->key && got[i].score == want[i]->num(), "reading " << i << " of '" << q << "' is " << got[i].reading << " " << got[i].score << ", the table has " << want[i]->line());
      if (!any || want[i]->num() > top) top = want[i]->num();
      any = true;
    }
    string best = mlm.getReading(q);
    bool okBest = !any && best.empty();
    for (auto* w : want) okBest = okBest || (w->num() == top && w->key == best);
    VCHECK(okBest, "best reading of '" << q << "' is '" << best << "'");
    // rows whose text after the key begins with the given text
    string pre = q;
    if (!t.rows.empty() && r.chance(1, 3)) {
      auto& row = r.chance(1, 3) ? t.rows.back() : r.pick(t.rows);
      string rest = row.value + " " + row.score;
      pre = rest.substr(0, 1 + r.below(rest.size()));
      if (r.chance(1, 2)) pre = rest;
    }
    vector<string> wl;
    for (auto& row : t.rows) {
      string rest = row.value + " " + row.score;
      if (rest.compare(0, pre.size(), pre) == 0) wl.push_back(row.line());
    }
    auto gl = db.reverseFindRows(pre);
    VCHECK(gl == wl, "rows whose value begins with '" << pre << "': [" << vf::S(gl) << "], expected [" << vf::S(wl) << "]");
    vf::count(want.empty() ? "absent_values" : "present_values");
  }
  vf::distinct(t.text);
  vf::sample(t.text.substr(0, 300));
}
vf::Reg c06("C06", 12000, 400000, caseReverse);

// ---------------------------------------------------------------- C07, C08
struct Pipeline {
  Table t;
  vector<std::pair<string, string>> user, excluded, repl;  // value,key ; value,key ; from,to
  bool replOn = false, convOn = false, haveConv = false, haveMacro = false;
  int convKind = 0;
  string userText, exclText, replText;
};

string conv(int kind, const string& v) {
  switch (kind) {
    case 0: return "C(" + v + ")";
    case 1: return v.size() > 3 ? v.substr(0, 3) : v;  // collapses different values
    case 2: return v == "的" ? "底" : v;
    case 3: return v + v;
    default: return v;
  }
}
// The drawn phrases that are not valid UTF-8 have one of these.
const string kBig5 = "\xA4\x40", kCut = "\xE4\xBD";
bool validText(const string& v) {
  if (v.find(kBig5) != string::npos) return false;
  for (size_t i = v.find(kCut); i != string::npos; i = v.find(kCut, i + 1))
    if (i + 2 == v.size() || (static_cast<unsigned char>(v[i + 2]) & 0xC0) != 0x80) return false;
  return true;
}
string macro(const string& v) {
  if (v == "MACRO@DATE") return "今天";
  if (v == "MACRO@SAME") return "一";
  return v;
}

Pipeline randPipeline(Rng& r, bool hostileMacros) {
  Pipeline p;
  vector<string> keys = {"ㄅㄚ", "ㄅㄚ-ㄅㄚ", "ㄆ", "ㄇㄚˇ", "ㄧ-ㄒㄧㄝ", "_punctuation_-", "x"};
  vector<string> values = {"一", "八", "的", "吧", "爸爸", "不是", "MACRO@DATE", "MACRO@SAME", "MACRO@UNKNOWN", "MACRO@", "MACRO", "一些", "底"};
  if (r.chance(1, 3)) values.insert(values.end(), {kBig5, "好" + kCut, kCut});
  size_t n = r.below(25);
  for (size_t i = 0; i < n; ++i) {
    Row row{r.pick(keys), r.pick(values), randScore(r)};
    if (row.value.compare(0, 5, "MACRO") == 0 && r.chance(1, 2)) row.score = r.chance(1, 2) ? "-8" : "-8.0";
    if (hostileMacros && r.chance(1, 3)) {
      row.value = "MACRO@UNKNOWN";
      row.score = "-8";
    }
    p.t.rows.push_back(row);
  }
  finish(r, p.t);
  auto fill = [&](vector<std::pair<string, string>>& v, size_t mx, bool repl) {
    size_t m = r.below(mx);
    for (size_t i = 0; i < m; ++i) v.emplace_back(r.pick(values), repl ? r.pick(values) : r.pick(keys));
  };
  fill(p.user, 10, false);
  fill(p.excluded, 6, false);
  fill(p.repl, 6, true);
  if (hostileMacros && r.chance(1, 2)) {
    // exclude everything one key has
    string k = r.pick(keys);
    for (auto& row : p.t.rows)
      if (row.key == k) p.excluded.emplace_back(row.value, k);
    for (auto& u : p.user)
      if (u.second == k) p.excluded.push_back(u);
  }
  auto text = [&](const vector<std::pair<string, string>>& v) {
    string s;
    for (auto& x : v) s += x.first + (r.chance(1, 5) ? "\t" : " ") + x.second + "\n";
    return s;
  };
  p.userText = text(p.user);
  p.exclText = text(p.excluded);
  p.replText = text(p.repl);
  p.replOn = r.chance(1, 2);
  p.convOn = r.chance(1, 2);
  p.haveConv = r.chance(3, 4);
  p.haveMacro = r.chance(3, 4);
  p.convKind = static_cast<int>(r.below(5));
  return p;
}

string describe(const Pipeline& p) {
  return "dictionary:\n" + p.t.text + "user:\n" + p.userText + "excluded:\n" + p.exclText + "replacements:\n" + p.replText +
         (p.replOn ? " repl-on" : " repl-off") + (p.convOn ? " conv-on" : " conv-off") + (p.haveConv ? " conv" + std::to_string(p.convKind) : " noconv") + (p.haveMacro ? " macro" : " nomacro");
}

vector<std::pair<string, double>> expected(const Pipeline& p, const string& key) {
  if (key == " ") return {{" ", 0.0}};
  std::set<string> excluded, seen;
  for (auto& e : p.excluded)
    if (e.second == key) excluded.insert(e.first);
  auto pass = [&](const string& orig, double score) -> std::optional<string> {
    if (excluded.count(orig)) return std::nullopt;
    string v = orig;
    if (p.replOn) {
      string to;
      for (auto& x : p.repl)
        if (x.first == v) to = x.second;  // the last line for a phrase counts
      if (!to.empty()) v = to;
    }
    if (p.haveMacro) v = macro(v);
    if (score == -8.0 && v.size() > 6 && v.compare(0, 6, "MACRO@") == 0) return std::nullopt;
    if (p.convOn && p.haveConv) v = conv(p.convKind, v);
    if (!validText(v)) {
      vf::count("not_text");
      return std::nullopt;
    }
    if (!seen.insert(v).second) return std::nullopt;
    return v;
  };
  vector<std::pair<string, double>> u, d;
  for (auto& x : p.user)
    if (x.second == key)
      if (auto v = pass(x.first, 0)) u.emplace_back(*v, 0.0);
  for (auto& row : p.t.rows)
    if (row.key == key)
      if (auto v = pass(row.value, row.num())) d.emplace_back(*v, row.num());
  if (key.find('-') == string::npos && !d.empty()) {
    double top = d[0].second;
    for (auto& x : d) top = std::max(top, x.second);
    for (auto& x : u) x.second = top;  // just above: checked separately
  }
  u.insert(u.end(), d.begin(), d.end());
  return u;
}

struct Loaded {
  McBopomofoLM lm;
  vector<std::unique_ptr<Heap>> bufs;
};

void load(Loaded& l, const Pipeline& p) {
  string all = kPragma + p.t.text;
  l.bufs.push_back(std::make_unique<Heap>(all));
  l.lm.loadLanguageModel(std::make_unique<ParselessPhraseDB>(l.bufs.back()->p, l.bufs.back()->n, true));
  auto keep = [&](const string& s) {
    l.bufs.push_back(std::make_unique<Heap>(s));
    return l.bufs.back().get();
  };
  Heap* h = keep(p.userText);
  l.lm.loadUserPhrases(h->p, h->n);
  h = keep(p.exclText);
  l.lm.loadExcludedPhrases(h->p, h->n);
  h = keep(p.replText);
  l.lm.loadPhraseReplacementMap(h->p, h->n);
  l.lm.setPhraseReplacementEnabled(p.replOn);
  l.lm.setExternalConverterEnabled(p.convOn);
  int k = p.convKind;
  if (p.haveConv)
    l.lm.setExternalConverter([k](const string& s) { return conv(k, s); });
  if (p.haveMacro) l.lm.setMacroConverter([](const string& s) { return macro(s); });
}

const vector<string> kPipeKeys = {"ㄅㄚ", "ㄅㄚ-ㄅㄚ", "ㄆ", "ㄇㄚˇ", "ㄧ-ㄒㄧㄝ", "_punctuation_-", "x", " ", "nothing", "ㄆ-ㄆ"};

void checkPipeline(Loaded& l, const Pipeline& p) {
  for (auto& key : kPipeKeys) {
    auto want = expected(p, key);
    auto got = l.lm.getUnigrams(key);
    string ws, gs;
    for (auto& x : want) ws += x.first + "(" + std::to_string(x.second) + ") ";
    for (auto& x : got) gs += x.value() + "(" + std::to_string(x.score()) + ") ";
    VCHECK(got.size() == want.size(), "'" << key << "' offers " << gs << ", expected " << ws);
    size_t users = 0;
    for (size_t i = 0; i < want.size(); ++i) {
      VCHECK(got[i].value() == want[i].first && std::fabs(got[i].score() - want[i].second) < 1e-6, "'" << key << "' offers " << gs << ", expected " << ws);
    }
    // user phrases of one syllable rank strictly above the dictionary's best
    std::set<string> seen;
    bool hasDict = false;
    for (auto& row : p.t.rows) hasDict = hasDict || row.key == key;
    (void)users;
    if (key != " " && hasDict && key.find('-') == string::npos) {
      Pipeline q = p;
      q.user.clear();
      auto dictOnly = expected(q, key);
      Pipeline uo = p;
      uo.t.rows.clear();
      size_t nu = expected(uo, key).size();
      if (nu > 0 && want.size() > nu) {
        double top = -1e300;
        for (size_t i = nu; i < got.size(); ++i) top = std::max(top, got[i].score());
        for (size_t i = 0; i < nu; ++i) VCHECK(got[i].score() > top && got[i].score() < top + 1e-6, "one-syllable user phrase " << got[i].value() << " scores " << got[i].score() << ", dictionary's best " << top);
        vf::count("boosted_user_phrases", nu);
      }
    }
    vf::count("unigram_lists", 1);
    vf::count("unigrams", got.size());
  }
}

void casePipeline(uint64_t, Rng& r) {
  Pipeline p = randPipeline(r, r.chance(1, 4));
  vf::note(describe(p));
  Loaded l;
  load(l, p);
  VCHECK(l.lm.phraseReplacementEnabled() == p.replOn && l.lm.externalConverterEnabled() == p.convOn, "settings");
  checkPipeline(l, p);
  // settings switched back and forth
  for (int i = 0; i < 3; ++i) {
    p.replOn = r.chance(1, 2);
    p.convOn = r.chance(1, 2);
    l.lm.setPhraseReplacementEnabled(p.replOn);
    l.lm.setExternalConverterEnabled(p.convOn);
    vf::note(string("now ") + (p.replOn ? "repl-on" : "repl-off") + (p.convOn ? " conv-on" : " conv-off"));
    checkPipeline(l, p);
  }
  if (p.haveMacro) VCHECK(l.lm.convertMacro("MACRO@DATE") == "今天", "macro");
  VCHECK(l.lm.convertMacro("文") == "文", "macro on plain text");
  vf::distinct(describe(p));
  vf::sample(describe(p));
}
vf::Reg c07("C07", 15000, 500000, casePipeline);

void caseKnown(uint64_t, Rng& r) {
  Pipeline p = randPipeline(r, r.chance(2, 3));
  vf::note(describe(p));
  auto l = std::make_shared<Loaded>();
  load(*l, p);
  std::shared_ptr<LanguageModel> lm(l, &l->lm);
  ReadingGrid g(lm);
  for (int round = 0; round < 2; ++round) {
    for (auto& key : kPipeKeys) {
      bool has = l->lm.hasUnigrams(key);
      bool any = !l->lm.getUnigrams(key).empty();
      VCHECK(has == any, "'" << key << "' is reported as " << (has ? "known" : "unknown") << " but offers " << (any ? "something" : "nothing"));
      // twice in a row is stable
      VCHECK(l->lm.hasUnigrams(key) == has, "answer changes");
      bool ins = g.insertReading(key);
      VCHECK(ins == (any && key != "-"), "the composition " << (ins ? "accepts" : "refuses") << " '" << key << "'");
      if (g.length()) {
        auto w = g.walk();
        VCHECK(w.totalReadings == g.length() && !w.nodes.empty(), "an accepted reading cannot be converted");
        vf::count("conversions");
      }
      vf::count(any ? "known" : "unknown");
    }
    p.replOn = !p.replOn;
    g.clear();
    l->lm.setPhraseReplacementEnabled(p.replOn);
  }
  vf::distinct(describe(p));
  vf::sample(describe(p));
}
vf::Reg c08("C08", 15000, 500000, caseKnown);

// ---------------------------------------------------------------- C09
struct APhrase {
  vector<string> values, readings;
  string score;
  // without a score it comes last
  double num() const { return score.empty() ? std::numeric_limits<double>::lowest() : strtod(score.c_str(), nullptr); }
  string key() const {
    string o;
    for (size_t i = 0; i < values.size(); ++i) o += (i ? "-" : "") + values[i] + "-" + readings[i];
    return o;
  }
  string value() const {
    string o;
    for (auto& v : values) o += v;
    return o;
  }
};

void checkAssoc(const std::function<vector<AssociatedPhrasesV2::Phrase>(const string&, const vector<string>&)>& find, const vector<APhrase>& rows, const vector<string>& pv, const vector<string>& pr) {
  string prefix;
  for (auto& v : pv) prefix += v;
  vf::note("associated phrases of " + prefix + " [" + vf::S(pr) + "]");
  auto got = find(prefix, pr);
  // best score per value among matching rows
  std::map<string, double> best;
  for (auto& row : rows) {
    bool m;
    if (pr.empty()) {
      m = pv.size() == 1 && row.values[0] == pv[0];
    } else {
      m = pv.size() == pr.size() && row.values.size() > pv.size();
      for (size_t i = 0; m && i < pv.size(); ++i) m = row.values[i] == pv[i] && row.readings[i] == pr[i];
    }
    if (!m) continue;
    auto it = best.find(row.value());
    if (it == best.end() || it->second < row.num()) best[row.value()] = row.num();
  }
  if (pr.empty() && pv.size() != 1) return;  // not specified
  VCHECK(got.size() == best.size(), "associated phrases of " << prefix << " [" << vf::S(pr) << "]: " << got.size() << " instead of " << best.size());
  std::set<string> seen;
  double prev = 1e300;
  for (auto& p : got) {
    VCHECK(best.count(p.value), "foreign associated phrase " << p.value);
    VCHECK(seen.insert(p.value).second, "associated phrase " << p.value << " is listed twice");
    // must be one of the best rows with that value that matches the prefix
    bool row_ok = false;
    for (auto& row : rows) {
      bool m = row.value() == p.value && row.readings == p.readings && row.num() == best[p.value];
      if (m && pr.empty()) m = row.values[0] == pv[0];
      if (m && !pr.empty())
        for (size_t i = 0; m && i < pv.size(); ++i) m = row.values[i] == pv[i] && row.readings[i] == pr[i];
      row_ok = row_ok || m;
    }
    VCHECK(row_ok, "associated phrase " << p.value << " has readings [" << vf::S(p.readings) << "], which is not its best row");
    VCHECK(best[p.value] <= prev, "associated phrase " << p.value << " is out of order");
    prev = best[p.value];
    string comb;
    for (size_t i = 0; i < p.readings.size(); ++i) comb += (i ? "-" : "") + p.readings[i];
    VCHECK(p.combinedReading() == comb, "combined reading " << p.combinedReading());
    VCHECK(AssociatedPhrasesV2::SplitReadings(comb) == p.readings, "split of " << comb);
  }
  vf::count(got.empty() ? "queries_without_result" : "queries_with_result");
  vf::count("phrases_returned", got.size());
}

void caseAssoc(uint64_t idx, Rng& r) {
  if (idx == 0) {
    // the shipped table
    string path = repo() + "/data/associated-phrases-v2.txt";
    string text = slurp(path);
    if (text.empty()) return;
    AssociatedPhrasesV2 a;
    VCHECK(a.open(path.c_str()), "cannot open the shipped associated phrases");
    vector<APhrase> rows;
    std::istringstream in(text.substr(kPragma.size()));
    string l;
    std::map<string, vector<APhrase>> byFirst;
    while (std::getline(in, l)) {
      size_t sp = l.find(' ');
      if (sp == string::npos) continue;
      APhrase p;
      p.score = l.substr(sp + 1);
      std::istringstream k(l.substr(0, sp));
      string x;
      bool val = true;
      while (std::getline(k, x, '-')) {
        (val ? p.values : p.readings).push_back(x);
        val = !val;
      }
      if (p.values.size() != p.readings.size()) continue;
      byFirst[p.values[0]].push_back(p);
    }
    size_t n = 0;
    for (auto& kv : byFirst) {
      if (n++ % 11 && kv.second.size() > 1) continue;
      auto& p = kv.second[r.below(kv.second.size())];
      auto f = [&](const string& v, const vector<string>& rd) { return a.findPhrases(v, rd); };
      checkAssoc(f, kv.second, {p.values[0]}, {});
      checkAssoc(f, kv.second, {p.values[0]}, {p.readings[0]});
      size_t k = 1 + r.below(p.values.size());
      checkAssoc(f, kv.second, vector<string>(p.values.begin(), p.values.begin() + k), vector<string>(p.readings.begin(), p.readings.begin() + k));
    }
    return;
  }
  vector<string> vals = {"一", "二", "𠮷", "ㄅ", "x", "三", "丁"};
  vector<string> rds = {"ㄧ", "ㄧˊ", "ㄦˋ", "x", "ㄐㄧˊ", "_punctuation_a"};
  size_t nv = 1 + r.below(vals.size()), nr = 1 + r.below(rds.size());
  vals.resize(nv);
  rds.resize(nr);
  vector<APhrase> rows;
  size_t n = r.chance(1, 15) ? 0 : 1 + r.below(r.chance(1, 10) ? 300 : 40);
  bool scoreless = r.chance(1, 5);
  for (size_t i = 0; i < n; ++i) {
    APhrase p;
    size_t len = 2 + r.below(r.chance(1, 6) ? 5 : 2);
    if (r.chance(1, 15)) len = 1;
    for (size_t k = 0; k < len; ++k) {
      p.values.push_back(r.pick(vals));
      p.readings.push_back(r.pick(rds));
    }
    if (!scoreless || !r.chance(1, 3)) p.score = randScore(r);
    rows.push_back(p);
  }
  std::stable_sort(rows.begin(), rows.end(), [](const APhrase& a, const APhrase& b) { return a.key() + " " < b.key() + " "; });
  string text = kPragma;
  bool nl = r.chance(2, 3);
  for (size_t i = 0; i < rows.size(); ++i) text += rows[i].key() + " " + rows[i].score + (i + 1 < rows.size() || nl ? "\n" : "");
  vf::note(text);
  Heap buf(text);
  AssociatedPhrasesV2 a;
  McBopomofoLM lm;
  VCHECK(!a.isLoaded() && !lm.isAssociatedPhrasesV2Loaded(), "loaded too early");
  VCHECK(a.findPhrases("一", {}).empty(), "phrases without a table");
  VCHECK(a.open(std::make_unique<ParselessPhraseDB>(buf.p, buf.n, true)), "open");
  lm.loadAssociatedPhrasesV2(std::make_unique<ParselessPhraseDB>(buf.p, buf.n, true));
  VCHECK(a.isLoaded() && lm.isAssociatedPhrasesV2Loaded(), "not loaded");
  auto f1 = [&](const string& v, const vector<string>& rd) { return a.findPhrases(v, rd); };
  auto f2 = [&](const string& v, const vector<string>& rd) { return lm.findAssociatedPhrasesV2(v, rd); };
  VCHECK(a.findPhrases("", {}).empty() && a.findPhrases("", {"ㄧ"}).empty(), "associated phrases of nothing");
  for (int i = 0; i < 25; ++i) {
    vector<string> pv, pr;
    if (!rows.empty() && r.chance(3, 4)) {
      auto& p = r.pick(rows);
      size_t k = 1 + r.below(p.values.size());
      pv.assign(p.values.begin(), p.values.begin() + static_cast<long>(k));
      pr.assign(p.readings.begin(), p.readings.begin() + static_cast<long>(k));
      if (r.chance(1, 8)) pr.back() = r.pick(rds);
      if (r.chance(1, 8)) pv.back() = r.pick(vals);
      if (r.chance(1, 8)) pr.pop_back();
      if (r.chance(1, 8)) pr.push_back(r.pick(rds));
    } else {
      pv = {r.pick(vals)};
      if (r.chance(1, 2)) pr = {r.pick(rds)};
    }
    if (r.chance(1, 6)) {
      pv.resize(1);
      pr.clear();
    }
    if (pr.empty() && pv.size() > 1) continue;
    if (r.chance(1, 2))
      checkAssoc(f1, rows, pv, pr);
    else
      checkAssoc(f2, rows, pv, pr);
  }
  // splitting and combining
  vector<string> parts;
  size_t k = r.below(6);
  for (size_t i = 0; i < k; ++i) parts.push_back(r.pick(rds));
  string comb = AssociatedPhrasesV2::CombineReadings(parts);
  string manual;
  for (size_t i = 0; i < parts.size(); ++i) manual += (i ? "-" : "") + parts[i];
  VCHECK(comb == manual, "combination of [" << vf::S(parts) << "] is " << comb);
  VCHECK(AssociatedPhrasesV2::SplitReadings(comb) == parts, "split of " << comb);
  vf::distinct(text);
  vf::sample(text.substr(0, 300));
}
vf::Reg c09("C09", 8000, 250000, caseAssoc);

// ---------------------------------------------------------------- C10
string randBlob(Rng& r) {
  static const vector<string> atoms = {"foo", "一", "bar", "ㄅㄚ-ㄅㄚ", " ", "  ", "\t", "\n", "\n\n", "\r", "\r\n", "#", "# c", "#x y\n", "a b\n", "一 ㄧ\n", "a", "\xff", "\xe4", "key value rest of line\n", " k\tv \r\n", string(1, '\0'), "\v", "\f", "\xef\xbb\xbf", "\x01"};
  string s;
  if (r.chance(1, 6)) {
    size_t n = r.below(40);
    for (size_t i = 0; i < n; ++i) s += static_cast<char>(r.below(256));
    return s;
  }
  size_t n = r.below(r.chance(1, 10) ? 200 : 24);
  bool nul = r.chance(1, 8);
  for (size_t i = 0; i < n; ++i) {
    const string& a = r.pick(atoms);
    if (!nul && a.size() == 1 && a[0] == 0) continue;
    s += a;
  }
  if (r.chance(1, 30)) s += string(5000, 'k') + " " + string(9000, 'v');
  return s;
}

struct Parsed {
  vector<std::pair<string, string>> kv;
  bool error = false;
};
// Line based reference reader.
Parsed reference(const string& whole) {
  Parsed out;
  string s = whole.substr(0, whole.find('\0'));  // a NUL ends the text
  size_t i = 0;
  while (i <= s.size()) {
    size_t e = i;
    while (e < s.size() && s[e] != '\n' && s[e] != '\r') ++e;
    string l = s.substr(i, e - i);
    i = e + 1;
    size_t b = l.find_first_not_of(" \t");
    if (b == string::npos) continue;
    l = l.substr(b);
    if (l[0] == '#') continue;
    size_t ke = l.find_first_of(" \t");
    size_t vb = ke == string::npos ? ke : l.find_first_not_of(" \t", ke);
    if (vb == string::npos) {
      out.error = true;
      return out;
    }
    size_t ve = l.find_first_of(" \t", vb);
    out.kv.emplace_back(l.substr(0, ke), l.substr(vb, ve == string::npos ? ve : ve - vb));
  }
  return out;
}

void caseFiles(uint64_t idx, Rng& r) {
  string s = randBlob(r);
  vf::note("content: " + vf::jstr(s));
  Parsed want = reference(s);
  {
    Heap buf(s);
    KeyValueBlobReader reader(buf.p, buf.n);
    KeyValueBlobReader::KeyValue kv;
    for (size_t i = 0; i < want.kv.size(); ++i) {
      auto st = r.chance(1, 10) ? reader.Next() : reader.Next(&kv);
      VCHECK(st == KeyValueBlobReader::State::HAS_PAIR, "pair " << i << " (" << want.kv[i].first << ") is not read");
      if (kv.key.empty()) continue;
    }
    auto st = reader.Next(&kv);
    VCHECK(st == (want.error ? KeyValueBlobReader::State::ERROR : KeyValueBlobReader::State::END), "reading ends with " << static_cast<int>(st) << " after " << want.kv.size() << " pairs");
    for (int i = 0; i < 3; ++i) {
      auto again = reader.Next(&kv);
      VCHECK(again == st, "the end of the file is not final");
    }
  }
  {
    Heap buf(s);
    KeyValueBlobReader reader(buf.p, buf.n);
    KeyValueBlobReader::KeyValue kv;
    for (size_t i = 0; i < want.kv.size(); ++i) {
      VCHECK(reader.Next(&kv) == KeyValueBlobReader::State::HAS_PAIR, "pair");
      VCHECK(string(kv.key) == want.kv[i].first && string(kv.value) == want.kv[i].second, "pair " << i << " is " << string(kv.key) << "/" << string(kv.value) << ", the file has " << want.kv[i].first << "/" << want.kv[i].second);
    }
  }
  vf::count("pairs", want.kv.size());
  vf::count(want.error ? "files_with_error" : "files_clean");
  // user phrases: first column phrase, second reading, in file order
  std::map<string, vector<string>> byReading;
  std::map<string, string> repl;
  for (auto& p : want.kv) {
    byReading[p.second].push_back(p.first);
    repl[p.first] = p.second;
  }
  auto checkUser = [&](UserPhrasesLM& u, const char* how) {
    for (auto& kv : byReading) {
      auto got = u.getUnigrams(kv.first);
      VCHECK(u.hasUnigrams(kv.first), how << ": user phrases of " << kv.first << " are unknown");
      VCHECK(got.size() == kv.second.size(), how << ": " << got.size() << " user phrases for " << kv.first << ", the file has " << kv.second.size());
      for (size_t i = 0; i < got.size(); ++i) VCHECK(got[i].value() == kv.second[i] && got[i].score() == 0, how << ": user phrase " << got[i].value());
    }
    for (const string& k : {string("absent"), string(""), string("ㄅ")})
      if (!byReading.count(k)) VCHECK(!u.hasUnigrams(k) && u.getUnigrams(k).empty(), how << ": a user phrase for '" << k << "' out of nowhere");
  };
  auto checkRepl = [&](PhraseReplacementMap& m, const char* how) {
    for (auto& kv : repl) VCHECK(m.valueForKey(kv.first) == kv.second, how << ": replacement of " << kv.first << " is " << m.valueForKey(kv.first));
    if (!repl.count("absent")) VCHECK(m.valueForKey("absent").empty(), how << ": replacement out of nowhere");
  };
  {
    Heap buf(s);
    UserPhrasesLM u;
    bool ok = u.load(buf.p, buf.n);
    VCHECK(ok || want.kv.empty(), "user phrases are not loaded");
    checkUser(u, "user phrases in memory");
    PhraseReplacementMap m;
    ok = m.load(buf.p, buf.n);
    VCHECK(ok || want.kv.empty(), "replacements are not loaded");
    checkRepl(m, "replacements in memory");
  }
  if (idx % 4 == 0) {
    string t = s;
    // text that ends exactly at the end of a page
    if (idx % 8 == 0 && t.find('\0') == string::npos) {
      size_t pad = (4096 - t.size() % 4096) % 4096;
      if (pad > 3) t = string(pad, '\n') + t;
    }
    string p = vf::G().scratch + "/user.txt";
    spit(p, t);
    UserPhrasesLM u;
    bool ok = u.open(p.c_str());
    VCHECK(ok || want.kv.empty(), "user phrase file is not opened");
    checkUser(u, "user phrase file");
    PhraseReplacementMap m;
    ok = m.open(p.c_str());
    VCHECK(ok || want.kv.empty(), "replacement file is not opened");
    checkRepl(m, "replacement file");
    u.close();
    m.close();
    for (auto& kv : byReading) VCHECK(!u.hasUnigrams(kv.first), "a closed user phrase file still answers");
    for (auto& kv : repl) VCHECK(m.valueForKey(kv.first).empty(), "a closed replacement file still answers");
    u.open(p.c_str());
    checkUser(u, "reopened user phrase file");
    vf::count("files_opened");
  }
  vf::distinct(s);
  vf::sample(s);
}
vf::Reg c10("C10", 60000, 2000000, caseFiles);

// ---------------------------------------------------------------- C11
struct PathKind {
  string name, path;
  bool openable;   // must open
  bool mayOpen;    // may open or not, without data
  vector<Row> rows;
  string content;
};

vector<PathKind> makePaths(Rng& r) {
  string d = vf::G().scratch + "/files";
  mkdir(d.c_str(), 0755);
  vector<PathKind> v;
  auto good = [&](const string& name) {
    Table t = randTable(r);
    while (t.rows.empty()) t = randTable(r);
    string p = d + "/" + name;
    // replaced by rename: a mapped file keeps its content
    spit(p + ".tmp", kPragma + t.text);
    rename((p + ".tmp").c_str(), p.c_str());
    v.push_back({name, p, true, true, t.rows, kPragma + t.text});
  };
  good("good1");
  good("good2");
  spit(d + "/empty", "");
  v.push_back({"empty", d + "/empty", false, true, {}, ""});
  v.push_back({"missing", d + "/no/such/file", false, false, {}, ""});
  mkdir((d + "/dir").c_str(), 0755);
  v.push_back({"directory", d + "/dir", false, false, {}, ""});
  spit(d + "/noheader", "a b -1\nc d -2\n");
  v.push_back({"noheader", d + "/noheader", false, true, {}, "a b -1\nc d -2\n"});
  spit(d + "/short", kPragma.substr(0, 1 + r.below(kPragma.size() - 1)));
  v.push_back({"short", d + "/short", false, true, {}, kPragma.substr(0, 5)});
  spit(d + "/headeronly", kPragma);
  v.push_back({"headeronly", d + "/headeronly", false, true, {}, kPragma});
  v.push_back({"devnull", "/dev/null", false, true, {}, ""});
  v.push_back({"emptyname", "", false, false, {}, ""});
  return v;
}

void caseLifecycle(uint64_t, Rng& r) {
  auto paths = makePaths(r);
  uint64_t h = 0;
  int which = static_cast<int>(r.below(6));
  size_t steps = 4 + r.below(20);
  auto answersRows = [&](LanguageModel& lm, const vector<Row>& rows) {
    vector<string> keys = {"a", "c", "ㄅ"};
    for (auto& p : paths)
      if (!p.rows.empty()) {
        keys.push_back(p.rows.front().key);
        keys.push_back(p.rows.back().key);
        keys.push_back(r.pick(p.rows).key);
      }
    for (auto& k : keys) checkUnigrams(lm, rows, k);
  };
  if (which == 0 || which == 1) {
    ParselessLM lm;
    McBopomofoLM mlm;
    vector<Row> cur;
    bool loaded = false;
    for (size_t i = 0; i < steps; ++i) {
      auto& p = r.pick(paths);
      if (which == 0) {
        if (r.chance(1, 3)) {
          vf::note("close");
          lm.close();
          cur.clear();
          loaded = false;
          h = vf::mix(h + 1);
        } else {
          vf::note("open " + p.name + (loaded ? " (already open)" : ""));
          bool ok = lm.open(p.path.c_str());
          if (loaded) {
            VCHECK(!ok, "a second file is opened without closing the first");
          } else {
            VCHECK(ok || !p.openable, "good file " << p.name << " is not opened");
            VCHECK(!ok || p.mayOpen, p.name << " is reported as opened");
            if (ok) {
              loaded = true;
              cur = p.rows;
            }
          }
          h = vf::mix(h + vf::fnv(p.name));
        }
        VCHECK(lm.isLoaded() == loaded, "isLoaded is " << lm.isLoaded());
        answersRows(lm, cur);
        lm.getReadings("一");
      } else {
        vf::note("load " + p.name);
        mlm.loadLanguageModel(p.path.c_str());
        cur = p.rows;
        if (p.openable) VCHECK(mlm.isDataModelLoaded(), "good file is not loaded");
        if (!p.mayOpen) VCHECK(!mlm.isDataModelLoaded(), p.name << " counts as loaded");
        bool dup = false;  // dictionary values repeat: compare sets of values
        for (auto& q : paths)
          if (!q.rows.empty()) {
            string k = q.rows[r.below(q.rows.size())].key;
            std::set<string> want, got;
            for (auto& row : cur)
              if (row.key == k) want.insert(row.value);
            for (auto& u : mlm.getUnigrams(k)) got.insert(u.value());
            VCHECK(want == got, "after loading " << p.name << " '" << k << "' offers " << got.size() << " phrases, the file has " << want.size());
            VCHECK(mlm.hasUnigrams(k) == !want.empty(), "hasUnigrams");
          }
        (void)dup;
        mlm.getReading("一");
        h = vf::mix(h + vf::fnv(p.name));
        if (r.chance(1, 5)) mlm.loadLanguageModel(static_cast<const char*>(nullptr));
      }
      vf::count("opens");
    }
  } else if (which == 2) {
    AssociatedPhrasesV2 a;
    bool loaded = false;
    for (size_t i = 0; i < steps; ++i) {
      auto& p = r.pick(paths);
      if (r.chance(1, 3)) {
        vf::note("close");
        a.close();
        loaded = false;
      } else {
        vf::note("open " + p.name);
        bool ok = a.open(p.path.c_str());
        if (loaded) VCHECK(!ok, "opened twice");
        else {
          VCHECK(ok || !p.openable, "good file " << p.name << " is not opened");
          VCHECK(!ok || p.mayOpen, p.name << " is reported as opened");
          loaded = loaded || ok;
        }
      }
      VCHECK(a.isLoaded() == loaded, "isLoaded");
      if (!loaded) VCHECK(a.findPhrases("一", {}).empty(), "phrases from a file that is not open");
      VCHECK(a.findPhrases("無此字", {"x", "y", "z"}).empty(), "phrase out of nowhere");
      h = vf::mix(h + vf::fnv(p.name));
      vf::count("opens");
    }
  } else if (which == 3) {
    UserPhrasesLM u;
    PhraseReplacementMap m;
    McBopomofoLM mlm;
    string cur, curM;
    bool open = false, openM = false;
    for (size_t i = 0; i < steps; ++i) {
      auto& p = r.pick(paths);
      if (r.chance(1, 4)) {
        vf::note("close");
        u.close();
        m.close();
        cur.clear();
        curM.clear();
        open = openM = false;
      } else {
        vf::note("open " + p.name);
        bool ok = u.open(p.path.c_str());
        if (open) VCHECK(!ok, "opened twice");
        VCHECK(ok || open || !p.openable, "good file is not opened");
        if (ok) {
          VCHECK(p.mayOpen, p.name << " is reported as opened");
          open = true;
          cur = slurp(p.path);
        }
        bool okM = m.open(p.path.c_str());
        if (openM) VCHECK(!okM, "opened twice");
        if (okM) {
          VCHECK(p.mayOpen, p.name << " is reported as opened");
          openM = true;
          curM = slurp(p.path);
        }
        // A file that did not count as opened (such as an empty one) must not
        // keep the next good one from being opened after a close.
        if (!open && !ok) u.close();
        if (!openM && !okM) m.close();
      }
      Parsed pr = reference(cur), prM = reference(curM);
      std::map<string, vector<string>> by;
      std::map<string, string> rep;
      for (auto& kv : pr.kv) by[kv.second].push_back(kv.first);
      for (auto& kv : prM.kv) rep[kv.first] = kv.second;
      for (auto& q : paths) {
        for (auto& kv : reference(q.content).kv) {
          VCHECK(u.getUnigrams(kv.second).size() == (by.count(kv.second) ? by[kv.second].size() : 0), "user phrases of " << kv.second << " do not come from the open file");
          VCHECK(m.valueForKey(kv.first) == (rep.count(kv.first) ? rep[kv.first] : ""), "replacement of " << kv.first << " does not come from the open file");
        }
      }
      mlm.loadUserPhrases(r.chance(1, 4) ? nullptr : p.path.c_str(), r.chance(1, 4) ? nullptr : r.pick(paths).path.c_str());
      mlm.loadPhraseReplacementMap(p.path.c_str());
      mlm.hasUnigrams("ㄅ");
      mlm.getUnigrams("ㄅ");
      h = vf::mix(h + vf::fnv(p.name));
      vf::count("opens");
    }
  } else {
    // raw mapped files and moves
    vector<MemoryMappedFile> v(3);
    vector<std::pair<bool, string>> st(3, {false, ""});
    for (size_t i = 0; i < steps; ++i) {
      size_t k = r.below(3);
      auto& p = r.pick(paths);
      switch (r.below(4)) {
        case 0:
          vf::note("close " + std::to_string(k));
          v[k].close();
          st[k] = {false, ""};
          break;
        case 1: {
          size_t j = r.below(3);
          if (j == k) break;
          vf::note("move " + std::to_string(k) + " to " + std::to_string(j));
          if (r.chance(1, 2)) {
            v[j] = std::move(v[k]);
          } else {
            MemoryMappedFile tmp(std::move(v[k]));
            VCHECK(v[k].data() == nullptr && v[k].length() == 0, "a moved-from file still has " << v[k].length() << " bytes");
            VCHECK(st[k].first == (tmp.data() != nullptr), "a moved file is lost");
            v[j] = std::move(tmp);
          }
          st[j] = st[k];
          st[k] = {false, ""};
          break;
        }
        default: {
          vf::note("open " + p.name + " in " + std::to_string(k));
          bool ok = v[k].open(p.path.c_str());
          if (st[k].first) {
            VCHECK(!ok, "opened twice");
          } else {
            VCHECK(ok || !(p.openable || (p.mayOpen && !slurp(p.path).empty())), p.name << " is not opened");
            VCHECK(!ok || p.mayOpen, p.name << " is reported as opened");
            if (ok) {
              VCHECK(v[k].data() != nullptr, "opened without data");
              st[k] = {true, slurp(p.path)};
            }
          }
          h = vf::mix(h + vf::fnv(p.name));
          vf::count("opens");
        }
      }
      for (size_t q = 0; q < 3; ++q) {
        if (!st[q].first) {
          VCHECK(v[q].data() == nullptr && v[q].length() == 0, "a file that is not open has " << v[q].length() << " bytes of data");
        } else {
          VCHECK(v[q].length() == st[q].second.size(), "length " << v[q].length() << ", the file has " << st[q].second.size());
          VCHECK(memcmp(v[q].data(), st[q].second.data(), st[q].second.size()) == 0, "content differs");
        }
      }
    }
  }
  vf::distinct(h);
  vf::sample(vf::G().trace);
}
vf::Reg c11("C11", 12000, 300000, caseLifecycle);

}  // namespace

int main(int argc, char** argv) { return vf::mainLoop(argc, argv); }
