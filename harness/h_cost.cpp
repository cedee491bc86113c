// C44: what the code does for a key, counted, against what it is done with.
//
// Everything is compiled with -fsanitize-coverage=trace-pc-guard; the callback
// here counts the edges that are executed, and operator new what is allocated.
// Unlike time, this is the same in every run on every machine.
#include <malloc.h>

#include <new>

#include <fstream>

#include "Engine/AssociatedPhrasesV2.h"
#include "InputMacro.h"
#include "UTF8Helper.h"
#include "kdict.h"

#define UNCOUNTED __attribute__((no_sanitize("coverage")))

static uint64_t gWork = 0;
extern "C" UNCOUNTED void __sanitizer_cov_trace_pc_guard(uint32_t*) { ++gWork; }
extern "C" UNCOUNTED void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) {
  for (; a < b; ++a) *a = 1;
}
UNCOUNTED void* operator new(size_t n) {
  gWork += 2 + n / 32;
  void* p = malloc(n ? n : 1);
  if (!p) abort();
  return p;
}
UNCOUNTED void operator delete(void* p) noexcept { free(p); }
UNCOUNTED void operator delete(void* p, size_t) noexcept { free(p); }

namespace {
namespace S = McBopomofo::InputStates;

struct Part {
  const char *text, *key;
};
const vector<Part> kC = {{"ㄅ", "1"}, {"ㄆ", "q"}, {"ㄇ", "a"}, {"ㄈ", "z"}, {"ㄉ", "2"}, {"ㄊ", "w"}, {"ㄋ", "s"}, {"ㄌ", "x"}, {"ㄍ", "e"}, {"ㄎ", "d"}, {"ㄏ", "c"}};
const vector<Part> kV = {{"ㄚ", "8"}, {"ㄛ", "i"}, {"ㄜ", "k"}, {"ㄞ", "9"}, {"ㄟ", "o"}, {"ㄠ", "l"}, {"ㄡ", "."}, {"ㄢ", "0"}, {"ㄣ", "p"}, {"ㄤ", ";"}};
const vector<Part> kT = {{"", " "}, {"ˊ", "6"}, {"ˇ", "3"}, {"ˋ", "4"}};
struct Reading {
  string text, keys;
};
Reading reading(size_t i) {
  const Part &c = kC[i % kC.size()], &v = kV[i / kC.size() % kV.size()], &t = kT[i / kC.size() / kV.size() % kT.size()];
  return {string(c.text) + v.text + t.text, string(c.key) + v.key + t.key};
}
const size_t kReadings = 11 * 10 * 4;
string hanzi(uint64_t i) {
  uint32_t c = 0x4e00 + static_cast<uint32_t>(i % 20000);
  return {static_cast<char>(0xe0 | (c >> 12)), static_cast<char>(0x80 | ((c >> 6) & 63)), static_cast<char>(0x80 | (c & 63))};
}
const char* const kHeader = "# format org.openvanilla.mcbopomofo.sorted\n";
string sortedRows(vector<std::pair<string, string>> rows) {
  std::stable_sort(rows.begin(), rows.end(), [](auto& a, auto& b) { return a.first < b.first; });
  string t = kHeader;
  for (auto& r : rows) t += r.first + " " + r.second + "\n";
  return t;
}
string score(Rng& r) { return "-" + std::to_string(1 + r.below(9)) + "." + std::to_string(r.below(100000)); }

using Rows = vector<std::pair<string, string>>;

// The data of a case; what is in the first is in the second, which has more.
struct Data {
  Rows dict, assoc;
  string user, excluded, replacement;
};

struct Texts : KeyHandler::LocalizedStrings {
  string cursorIsBetweenSyllables(const string& a, const string& b) override { return a + "/" + b; }
  string syllablesRequired(size_t n) override { return std::to_string(n); }
  string syllablesMaximum(size_t n) override { return std::to_string(n); }
  string phraseAlreadyExists() override { return "exists"; }
  string pressEnterToAddThePhrase() override { return "enter"; }
  string markedWithSyllablesAndStatus(const string& m, const string& r, const string& s) override { return m + r + s; }
};
struct NoAdder : UserPhraseAdder {
  void addUserPhrase(const std::string_view&, const std::string_view&) override {}
};

struct Session {
  string dict, assoc;
  std::shared_ptr<McBopomofoLM> lm = std::make_shared<McBopomofoLM>();
  InputMacroController macros;
  std::unique_ptr<KeyHandler> kh;
  std::unique_ptr<InputState> st = std::make_unique<S::Empty>();
  size_t committed = 0;
  explicit Session(const Data& d) : dict(sortedRows(d.dict)), assoc(sortedRows(d.assoc)) {
    lm->loadLanguageModel(std::make_unique<ParselessPhraseDB>(dict.data(), dict.size(), true));
    lm->loadAssociatedPhrasesV2(std::make_unique<ParselessPhraseDB>(assoc.data(), assoc.size(), true));
    lm->loadUserPhrases(d.user.data(), d.user.size());
    lm->loadExcludedPhrases(d.excluded.data(), d.excluded.size());
    lm->loadPhraseReplacementMap(d.replacement.data(), d.replacement.size());
    lm->setPhraseReplacementEnabled(true);
    lm->setMacroConverter([this](const string& s) { return macros.handle(s); });
    kh = std::make_unique<KeyHandler>(lm, std::make_shared<NoAdder>(), std::make_unique<Texts>());
    kh->setOnAddNewPhrase([](const string&) {});
  }
  KeyHandler::StateCallback cb() {
    return [this](std::unique_ptr<InputState> n) {
      if (auto* c = dynamic_cast<S::Committing*>(n.get())) {
        committed += c->text.size();
        st = std::make_unique<S::Empty>();
      } else if (dynamic_cast<S::EmptyIgnoringPrevious*>(n.get())) {
        st = std::make_unique<S::Empty>();
      } else {
        st = std::move(n);
      }
    };
  }
  bool press(Key k) {
    return kh->handle(k, st.get(), cb(), [] {});
  }
  void type(const string& s) {
    for (char c : s) press(Key::asciiKey(c));
  }
  void name(Key::KeyName n, bool shift = false) { press(Key::namedKey(n, shift)); }
  size_t offers() {
    if (auto* c = dynamic_cast<S::ChoosingCandidate*>(st.get())) return c->candidates.size();
    if (auto* c = dynamic_cast<S::AssociatedPhrases*>(st.get())) return c->candidates.size();
    return 0;
  }
  void pick(double where) {
    if (auto* c = dynamic_cast<S::ChoosingCandidate*>(st.get())) {
      if (c->candidates.empty()) return;
      auto x = c->candidates[std::min(c->candidates.size() - 1, static_cast<size_t>(where * static_cast<double>(c->candidates.size())))];
      kh->candidateSelected(x, c->originalCursor, cb());
    } else if (auto* c = dynamic_cast<S::AssociatedPhrases*>(st.get())) {
      if (c->candidates.empty()) return;
      auto x = c->candidates[std::min(c->candidates.size() - 1, static_cast<size_t>(where * static_cast<double>(c->candidates.size())))];
      kh->candidateAssociatedPhraseSelected(c->prefixCursorIndex, x, string(c->prefixReading), string(c->prefixValue), cb());
    }
  }
  void cancel() {
    if (auto* c = dynamic_cast<S::ChoosingCandidate*>(st.get())) kh->candidatePanelCancelled(c->originalCursor, cb());
    else if (dynamic_cast<S::AssociatedPhrases*>(st.get())) st = kh->buildInputtingState();
  }
  string text() {
    auto* n = dynamic_cast<S::NotEmpty*>(st.get());
    return n ? n->composingBuffer : "";
  }
  // what the two runs of a case have to agree on for a step to be compared
  string shape(bool lengths) {
    string s = typeid(*st).name();
    if (auto* n = dynamic_cast<S::NotEmpty*>(st.get()); n && lengths) s += "/" + std::to_string(CodePointCount(n->composingBuffer)) + "/" + std::to_string(n->cursorIndex);
    if (auto* m = dynamic_cast<S::Marking*>(st.get()); m && lengths) s += "/" + std::to_string(m->markStartGridCursorIndex);
    return s;
  }
  void settings(Rng r) {
    kh->setSelectPhraseAfterCursorAsCandidate(r.chance(1, 2));
    kh->setMoveCursorAfterSelection(r.chance(1, 2));
    kh->setEscKeyClearsEntireComposingBuffer(r.chance(1, 2));
    kh->setAssociatedPhrasesEnabled(r.chance(1, 3));
    kh->setHalfWidthPunctuationEnabled(r.chance(1, 4));
    kh->setCtrlEnterKeyBehavior(r.chance(1, 2) ? KeyHandlerCtrlEnter::OutputBpmfReadings : KeyHandlerCtrlEnter::OutputHTMLRubyText);
  }
};

uint64_t spent(const std::function<void()>& f) {
  uint64_t before = gWork;
  f();
  return gWork - before;
}

// What is done at a place of a composition, each step measured by itself.
struct Step {
  string name;
  std::function<void(Session&)> act;
};
vector<Step> stepsOf(Rng& r, const vector<Reading>& use) {
  vector<Step> v;
  auto key = [&](const char* n, Key k) { v.push_back({n, [k](Session& s) { s.press(k); }}); };
  auto named = [&](const char* n, Key::KeyName k, bool shift = false) { v.push_back({n, [k, shift](Session& s) { s.name(k, shift); }}); };
  auto readingTyped = [&] {
    Reading rd = r.pick(use);
    v.push_back({"type " + rd.text, [rd](Session& s) { s.type(rd.keys); }});
    if (r.chance(1, 3)) v.push_back({"cancel", [](Session& s) { s.cancel(); }});
  };
  size_t n = 8 + r.below(8);
  for (size_t i = 0; i < n; ++i) {
    switch (r.below(12)) {
      case 0: case 1: case 2: readingTyped(); break;
      case 3: key("Backspace", Key::asciiKey(Key::BACKSPACE)); break;
      case 4: key("Delete", Key::asciiKey(Key::DELETE)); break;
      case 5: named("Left", Key::KeyName::LEFT); break;
      case 6: named("Right", Key::KeyName::RIGHT); break;
      case 7: key("Tab", Key::asciiKey(Key::TAB, r.chance(1, 2))); break;
      case 8:
        named("Down", Key::KeyName::DOWN);
        if (r.chance(2, 3)) {
          double w = r.unit();
          v.push_back({"choose", [w](Session& s) { s.pick(w); }});
        } else {
          v.push_back({"cancel", [](Session& s) { s.cancel(); }});
        }
        break;
      case 9: {
        key("Shift+Enter", Key::asciiKey(Key::RETURN, true));
        double w = r.unit();
        if (r.chance(1, 2)) v.push_back({"choose associated", [w](Session& s) { s.pick(w); }});
        else v.push_back({"cancel", [](Session& s) { s.cancel(); }});
        break;
      }
      case 10:
        named("Shift+Left", Key::KeyName::LEFT, true);
        if (r.chance(1, 2)) named("Shift+Left", Key::KeyName::LEFT, true);
        if (r.chance(1, 2)) key("Enter", Key::asciiKey(Key::RETURN));
        else key("Esc", Key::asciiKey(Key::ESC));
        break;
      default: v.push_back({"a comma", [](Session& s) { s.press(Key::asciiKey('<')); }}); break;
    }
    v.push_back({"leave the window", [](Session& s) { s.cancel(); }});
  }
  if (r.chance(1, 3)) {
    named("Home", Key::KeyName::HOME);
    named("End", Key::KeyName::END);
  }
  switch (r.below(3)) {
    case 0: key("Enter", Key::asciiKey(Key::RETURN)); break;
    case 1: v.push_back({"Ctrl+Enter", [](Session& s) { s.press(Key::asciiKey(Key::RETURN, false, true)); }}); break;
    default: key("Esc", Key::asciiKey(Key::ESC)); break;
  }
  return v;
}

Data baseData(Rng& r, vector<Reading>& use, size_t offers) {
  Data d;
  size_t n = 4 + r.below(6);
  std::set<size_t> chosen;
  while (chosen.size() < n) chosen.insert(r.below(3 * 10 * 4) * 11 % kReadings / 11 * 11 + r.below(3));
  for (size_t i : chosen) use.push_back(reading(i));
  uint64_t h = r.below(10000);
  auto values = [&](const string& k, size_t len, size_t count) {
    for (size_t i = 0; i < count; ++i) {
      string v;
      for (size_t j = 0; j < len; ++j) v += hanzi(h++);
      d.dict.emplace_back(k, v + " " + score(r));
    }
  };
  for (auto& u : use) values(u.text, 1, offers);
  for (size_t i = 0; i < 30; ++i) {
    size_t len = 2 + r.below(5);
    string k;
    for (size_t j = 0; j < len; ++j) k += (j ? "-" : "") + r.pick(use).text;
    values(k, len, 1 + r.below(2));
  }
  for (const char* p : {"_punctuation_<", "_half_punctuation_<"}) d.dict.emplace_back(p, "， -8");
  for (size_t i = 0; i < 20; ++i) {
    // an associated phrase of a word there is
    auto row = d.dict[r.below(use.size() * offers)];
    string v = row.second.substr(0, row.second.find(' '));
    string k = v + "-" + row.first;
    for (size_t j = 0; j < 1 + r.below(2); ++j) k += "-" + hanzi(h++) + "-" + r.pick(use).text;
    d.assoc.emplace_back(k, score(r));
  }
  for (size_t i = 0; i < 12; ++i) {
    auto& a = r.pick(use).text;
    auto& b = r.pick(use).text;
    d.user += i % 3 ? hanzi(h) + hanzi(h + 1) + " " + a + "-" + b + "\n" : hanzi(h) + " " + a + "\n";
    h += 2;
  }
  return d;
}

// More rows: before, after and in between the ones there are.
Data more(const Data& d, Rng& r, const vector<Reading>& use, size_t rows) {
  Data o = d;
  uint64_t h = r.below(10000);
  auto other = [&] { return reading(3 + r.below(8) + 11 * r.below(40)).text; };
  auto key = [&] {
    string k = r.chance(1, 2) ? r.pick(use).text : other();
    size_t len = 1 + r.below(4);
    for (size_t i = 0; i < len; ++i) k += "-" + other();
    return k;
  };
  for (size_t i = 0; i < rows; ++i) o.dict.emplace_back(key(), hanzi(h++) + hanzi(h++) + " " + score(r));
  for (size_t i = 0; i < rows; ++i) {
    string k = hanzi(h++) + "-" + other();
    if (r.chance(1, 2)) {
      auto& a = d.assoc[r.below(d.assoc.size())].first;
      k = a.substr(0, a.find('-')) + "-" + other();
    }
    o.assoc.emplace_back(k + "-" + hanzi(h++) + "-" + other(), score(r));
  }
  size_t lines = rows;
  for (size_t i = 0; i < lines; ++i) o.user += hanzi(h++) + hanzi(h++) + " " + key() + "\n";
  for (size_t i = 0; i < lines; ++i) o.excluded += hanzi(h++) + hanzi(h++) + " " + key() + "\n";
  for (size_t i = 0; i < lines; ++i) o.replacement += "x" + std::to_string(h++) + " " + hanzi(h) + "\n";
  return o;
}

void compose(Session& s, const vector<Reading>& pattern, size_t n) {
  for (size_t i = 0; i < n; ++i) {
    s.type(pattern[i % pattern.size()].keys);
    s.cancel();
  }
}

// The factor by which each step may cost more where there is `times` as much.
void atMost(const char* what, const vector<Step>& steps, const vector<uint64_t>& small, const vector<uint64_t>& large, double factor, uint64_t slack, const std::function<string()>& between, const vector<string>* shapes = nullptr) {
  for (size_t i = 0; i < steps.size(); ++i) {
    if (shapes && shapes[0][i] != shapes[1][i]) {
      vf::count("steps_not_comparable");
      continue;
    }
    vf::count("steps_measured");
    VCHECK(static_cast<double>(large[i]) <= factor * static_cast<double>(small[i]) + static_cast<double>(slack), steps[i].name << " takes " << small[i] << " units of work, and " << large[i] << " " << what << " (" << between() << ")");
  }
}

void report(const char* kind, const vector<Step>& steps, const vector<uint64_t>& a, const vector<uint64_t>& b) {
  if (!getenv("VF_COST")) return;
  for (size_t i = 0; i < steps.size(); ++i) printf("%s %s %llu %llu %.2f\n", kind, steps[i].name.c_str(), (unsigned long long)a[i], (unsigned long long)b[i], a[i] ? double(b[i]) / double(a[i]) : 0.0);
}

// A longer composition.
void caseLength(Rng& r) {
  vector<Reading> use;
  Data d = baseData(r, use, 3 + r.below(6));
  size_t plen = 3 + r.below(8);
  vector<Reading> pattern;
  for (size_t i = 0; i < plen; ++i) pattern.push_back(r.pick(use));
  // the same pattern before the place in both
  size_t n = (vf::thorough() ? 150 : 70) / plen * plen;
  const size_t times = 8;
  auto steps = stepsOf(r, use);
  uint64_t set = r.next();
  int where = static_cast<int>(r.below(3));
  vector<uint64_t> w[2];
  vector<string> shapes[2];
  for (int k = 0; k < 2; ++k) {
    Session s(d);
    s.settings(Rng(set));
    size_t len = k ? n * times : n;
    uint64_t total = spent([&] { compose(s, pattern, len); });
    (void)total;
    if (where == 1) s.name(Key::KeyName::HOME);
    if (where == 2)
      for (size_t i = 0; i < len / 2 / plen * plen; ++i) s.name(Key::KeyName::LEFT);
    for (auto& st : steps) {
      shapes[k].push_back(s.shape(false));
      w[k].push_back(spent([&] { st.act(s); }));
    }
  }
  report("length", steps, w[0], w[1]);
  atMost("in a composition eight times as long", steps, w[0], w[1], 16, 20000, [&] { return std::to_string(n) + " readings"; }, shapes);
  vf::count("long_compositions");
  string sig = "length" + std::to_string(where);
  for (auto& s : steps) sig += s.name;
  vf::distinct(sig);
  vf::sample("composition of " + std::to_string(n) + " and of " + std::to_string(n * times) + " readings: " + steps[0].name + " takes " + std::to_string(w[0][0]) + " and " + std::to_string(w[1][0]));
}

// Bigger dictionaries and user files.
void caseRows(Rng& r) {
  vector<Reading> use;
  Data d = baseData(r, use, 3 + r.below(6));
  size_t rows = vf::thorough() ? 60000 : 12000;
  Data big = more(d, r, use, rows);
  size_t n = 3 + r.below(10);
  vector<Reading> pattern;
  for (size_t i = 0; i < n; ++i) pattern.push_back(r.pick(use));
  auto steps = stepsOf(r, use);
  uint64_t set = r.next();
  vector<uint64_t> w[2];
  vector<string> shapes[2];
  string text[2];
  for (int k = 0; k < 2; ++k) {
    Session s(k ? big : d);
    s.settings(Rng(set));
    compose(s, pattern, n);
    text[k] = s.text();
    for (auto& st : steps) {
      shapes[k].push_back(s.shape(true));
      w[k].push_back(spent([&] { st.act(s); }));
    }
  }
  report("rows", steps, w[0], w[1]);
  VCHECK(text[0] == text[1], "the same conversion is [" << text[0] << "] with the smaller and [" << text[1] << "] with the bigger dictionary (harness)");
  atMost("with bigger dictionaries and user files", steps, w[0], w[1], 3, 20000, [&] { return std::to_string(d.dict.size()) + " and " + std::to_string(big.dict.size()) + " rows"; }, shapes);
  vf::count("big_dictionaries");
  string sig = "rows";
  for (auto& s : steps) sig += s.name;
  vf::distinct(sig);
}

// A reading with more candidates, a word with more associated phrases.
void caseOffers(Rng& r) {
  vector<Reading> use;
  Data d = baseData(r, use, 3);
  size_t m = 30 + r.below(40);
  const size_t times = 8;
  string k0 = use[0].text, v0 = d.dict[0].second.substr(0, d.dict[0].second.find(' '));
  bool two = r.chance(1, 2);
  auto with = [&](size_t count) {
    Data o = d;
    Rng q(7);
    for (size_t i = 0; i < count; ++i) o.dict.emplace_back(k0, hanzi(11000 + i) + " " + score(q));
    if (two)
      for (size_t i = 0; i < count; ++i) o.dict.emplace_back(k0 + "-" + k0, hanzi(11000 + i) + hanzi(11000) + " " + score(q));
    for (size_t i = 0; i < count; ++i) o.assoc.emplace_back(v0 + "-" + k0 + "-" + hanzi(12000 + i) + "-" + k0, score(q));
    for (size_t i = 0; i < count; ++i) o.user += hanzi(13000 + i) + " " + k0 + "\n";
    for (size_t i = 0; i < count; ++i) o.excluded += hanzi(14000 + i) + " " + k0 + "\n";
    return o;
  };
  auto steps = stepsOf(r, {use[0], use[0], use[1]});
  uint64_t set = r.next();
  vector<uint64_t> w[2];
  vector<string> shapes[2];
  for (int k = 0; k < 2; ++k) {
    Session s(with(k ? m * times : m));
    s.settings(Rng(set));
    compose(s, {use[0], use[0], use[1], use[0]}, 8);
    for (auto& st : steps) {
      shapes[k].push_back(s.shape(true));
      w[k].push_back(spent([&] { st.act(s); }));
    }
  }
  report("offers", steps, w[0], w[1]);
  atMost("with eight times as many candidates", steps, w[0], w[1], 16, 40000, [&] { return std::to_string(m) + " candidates"; }, shapes);
  vf::count("many_candidates");
  string sig = "offers";
  for (auto& s : steps) sig += s.name;
  vf::distinct(sig);
}

// Files eight times as big.
void caseFiles(Rng& r) {
  size_t lines = 200 + r.below(800);
  const size_t times = 8;
  int shape = static_cast<int>(r.below(6));
  auto make = [&](size_t n) {
    string o;
    Rng q(11);
    for (size_t i = 0; i < n; ++i) switch (shape) {
        case 0: o += hanzi(q.below(20000)) + hanzi(i) + " " + reading(q.below(kReadings)).text + "-" + reading(q.below(kReadings)).text + "\n"; break;
        case 1: o += hanzi(i) + " " + reading(1).text + "\n"; break;   // one key
        case 2: o += "# " + hanzi(i) + " comment\n"; break;
        case 3: o += q.chance(1, 2) ? "\n" : "  \t\r\n"; break;
        case 4: o += hanzi(i); break;  // one line
        default: o += hanzi(i) + " " + reading(q.below(kReadings)).text + (q.chance(1, 2) ? " \t more\n" : "\r\n"); break;
      }
    return o;
  };
  string path = vf::G().scratch + "/cost.txt", empty = vf::G().scratch + "/empty.txt";
  auto put = [](const string& p, const string& s) {
    std::ofstream f(p, std::ios::binary);
    f << s;
  };
  put(empty, "");
  struct Load {
    string name;
    std::function<void(McBopomofoLM&, const string&)> act;
  };
  vector<Load> loads = {
      {"reading the user phrases", [&](McBopomofoLM& lm, const string&) { lm.loadUserPhrases(path.c_str(), empty.c_str()); }},
      {"reading the excluded phrases", [&](McBopomofoLM& lm, const string&) { lm.loadUserPhrases(empty.c_str(), path.c_str()); }},
      {"reading the replacements", [&](McBopomofoLM& lm, const string&) { lm.loadPhraseReplacementMap(path.c_str()); }},
      {"opening the dictionary", [&](McBopomofoLM& lm, const string&) { lm.loadLanguageModel(path.c_str()); }},
      {"opening the associated phrases", [&](McBopomofoLM& lm, const string&) { lm.loadAssociatedPhrasesV2(path.c_str()); }},
      {"finding a reading of a word", [&](McBopomofoLM& lm, const string& s) {
         lm.loadLanguageModel(std::make_unique<ParselessPhraseDB>(s.data(), s.size(), true));
         lm.getReading(hanzi(3));
       }},
  };
  vector<Step> steps;
  vector<uint64_t> w[2];
  for (auto& l : loads) steps.push_back({l.name, nullptr});
  for (int k = 0; k < 2; ++k) {
    string s = make(k ? lines * times : lines);
    McBopomofoLM lm;
    for (size_t i = 0; i < loads.size(); ++i) {
      string t = i == 5 && shape != 4 ? kHeader + s : s;
      put(path, t);
      w[k].push_back(spent([&] { loads[i].act(lm, t); }));
    }
  }
  report("files", steps, w[0], w[1]);
  atMost("for a file eight times as big", steps, w[0], w[1], 16, 20000, [&] { return std::to_string(lines) + " lines of kind " + std::to_string(shape); });
  vf::count("files_read");
  vf::distinct("files" + std::to_string(shape) + "/" + std::to_string(lines));
}

// Longer texts.
void caseTexts(Rng& r) {
  size_t n = 40 + r.below(100);
  const size_t times = 8;
  vector<Step> steps;
  vector<uint64_t> w[2];
  uint64_t seed = r.next();
  for (int k = 0; k < 2; ++k) {
    Rng q(seed);
    size_t len = k ? n * times : n;
    string t, row;
    vector<string> readings;
    for (size_t i = 0; i < len; ++i) {
      t += q.chance(1, 4) ? "a" : q.chance(1, 9) ? "\xf0\xa0\x80\x80" : hanzi(q.next());
      readings.push_back(reading(q.below(kReadings)).text);
      row += hanzi(q.next()) + "-" + readings.back() + "-";
    }
    auto add = [&](const char* name, const std::function<void()>& f) {
      if (!k) steps.push_back({name, nullptr});
      w[k].push_back(spent(f));
    };
    add("counting characters", [&] { CodePointCount(t); });
    add("splitting", [&] { Split(t); });
    add("cutting", [&] { SubstringToCodePoints(t, len - 3); });
    add("checking text", [&] { IsValidUTF8(t); });
    add("combining readings", [&] { AssociatedPhrasesV2::CombineReadings(readings); });
    add("splitting readings", [&] { AssociatedPhrasesV2::SplitReadings(row); });
  }
  report("texts", steps, w[0], w[1]);
  atMost("for eight times as much", steps, w[0], w[1], 16, 20000, [&] { return std::to_string(n) + " characters"; });
  vf::count("texts");
  vf::distinct("texts" + std::to_string(n) + "/" + std::to_string(seed));
}

// The same again and again.
void caseSession(Rng& r) {
  vector<Reading> use;
  Data d = baseData(r, use, 3 + r.below(6));
  Session s(d);
  s.settings(Rng(r.next()));
  vector<vector<Step>> scripts;
  for (size_t i = 0; i < 4; ++i) {
    auto v = stepsOf(r, use);
    vector<Step> w;
    for (size_t j = 0; j < 3 + r.below(5); ++j) {
      Reading rd = r.pick(use);
      w.push_back({"type " + rd.text, [rd](Session& s) { s.type(rd.keys); s.cancel(); }});
    }
    w.insert(w.end(), v.begin(), v.end());
    w.push_back({"Enter", [](Session& s) { s.press(Key::asciiKey(Key::RETURN)); }});
    scripts.push_back(w);
  }
  auto round = [&] {
    for (auto& sc : scripts)
      for (auto& st : sc) st.act(s);
    gFakeNow += 1;
  };
  size_t warm = 60, rounds = vf::thorough() ? 6000 : 700;
  gFakeNow = 1700000000;
  uint64_t first = 0, last = 0;
  for (size_t i = 0; i < warm; ++i) {
    uint64_t w = spent(round);
    if (i >= warm / 2) first = std::max(first, w);
  }
  size_t before = mallinfo2().uordblks;
  for (size_t i = 0; i < rounds; ++i) {
    uint64_t w = spent(round);
    if (i >= rounds - warm) last = std::max(last, w);
  }
  size_t after = mallinfo2().uordblks;
  gFakeNow = 0;
  if (getenv("VF_COST")) printf("session %llu %llu memory %zu %zu\n", (unsigned long long)first, (unsigned long long)last, before, after);
  VCHECK(last <= 2 * first + 50000, "the same keys take " << first << " units of work after " << warm << " rounds and " << last << " after " << rounds << " more");
  VCHECK(after <= before + 65536, "the same keys leave " << (after - before) << " bytes behind in " << rounds << " rounds");
  vf::count("session_rounds", rounds);
  string sig = "session";
  for (auto& sc : scripts)
    for (auto& st : sc) sig += st.name;
  vf::distinct(sig);
}

// Ever new texts and choices: what is remembered of them has a bound.
void caseFresh(Rng& r) {
  vector<Reading> use;
  Data d = baseData(r, use, 6 + r.below(6));
  Session s(d);
  Rng set(r.next());
  s.settings(set);
  s.kh->setAssociatedPhrasesEnabled(false);
  auto round = [&] {
    size_t n = 2 + r.below(4);
    for (size_t i = 0; i < n; ++i) s.type(r.pick(use).keys);
    for (size_t i = 0; i < r.below(n); ++i) s.name(Key::KeyName::LEFT);
    for (size_t i = 0; i < 2; ++i) {
      s.name(Key::KeyName::DOWN);
      s.pick(r.unit());
      s.cancel();
    }
    s.press(Key::asciiKey(Key::RETURN));
    gFakeNow += 1;
  };
  gFakeNow = 1700000000;
  size_t warm = vf::thorough() ? 6000 : 2500;
  auto part = [&](size_t rounds) {
    uint64_t most = 0;
    for (size_t i = 0; i < rounds; ++i) most = std::max(most, spent(round));
    return most;
  };
  uint64_t first = part(warm);
  size_t before = mallinfo2().uordblks;
  part(warm);
  uint64_t last = part(warm);
  size_t after = mallinfo2().uordblks;
  gFakeNow = 0;
  if (getenv("VF_COST")) printf("fresh %llu %llu memory %zu %zu\n", (unsigned long long)first, (unsigned long long)last, before, after);
  VCHECK(s.committed > 0, "nothing was committed (harness)");
  VCHECK(last <= 2 * first + 100000, "a text takes at most " << first << " units of work in the first " << warm << " and up to " << last << " later");
  VCHECK(after <= before + 131072, "typing " << 2 * warm << " texts leaves " << (after - before) << " bytes behind, after " << warm << " had been typed");
  vf::count("session_rounds", 3 * warm);
  vf::count("fresh_sessions");
  vf::distinct("fresh" + std::to_string(s.committed));
}

// A search in a dictionary of many megabytes, by itself.
void caseSearch(Rng& r) {
  size_t n = 2000 + r.below(2000);
  const size_t times = 100;
  uint64_t seed = r.next();
  vector<uint64_t> w[2];
  vector<Step> steps;
  vector<double> places;
  for (size_t i = 0; i < 12; ++i) places.push_back(i == 0 ? 0 : i == 1 ? 1 : r.unit());
  size_t width = 4 + r.below(3);
  for (int k = 0; k < 2; ++k) {
    Rng q(seed);
    size_t rows = k ? n * times : n;
    string t = kHeader;
    t.reserve(rows * 40);
    char b[128];
    for (size_t i = 0; i < rows; ++i) {
      int len = snprintf(b, sizeof b, "ㄅ%0*zu-ㄆ%s %s -%zu.5\n", static_cast<int>(width) + 3, i, i % 3 ? "ㄚ" : "ㄚㄛㄜ", hanzi(i).c_str(), i % 9);
      t.append(b, static_cast<size_t>(len));
    }
    ParselessPhraseDB db(t.data(), t.size(), true);
    McBopomofoLM lm;
    lm.loadLanguageModel(std::make_unique<ParselessPhraseDB>(t.data(), t.size(), true));
    auto add = [&](const string& name, const std::function<void()>& f) {
      if (!k) steps.push_back({name, nullptr});
      w[k].push_back(spent(f));
    };
    for (double p : places) {
      auto i = static_cast<size_t>(p * static_cast<double>(rows - 1));
      int len = snprintf(b, sizeof b, "ㄅ%0*zu-ㄆ%s", static_cast<int>(width) + 3, i, i % 3 ? "ㄚ" : "ㄚㄛㄜ");
      string key(b, static_cast<size_t>(len));
      size_t found = 0;
      add("finding a row", [&] { found = db.findRows(key + " ").size(); });
      VCHECK(found == 1, "[" << key << "] has " << found << " rows");
      add("finding no row", [&] { found = db.findRows(key + "x").size(); });
      VCHECK(found == 0, "[" << key << "x] has " << found << " rows");
      add("phrases of a reading", [&] { found = lm.getUnigrams(key).size(); });
      VCHECK(found == 1, "[" << key << "] has " << found << " phrases");
      add("whether there is a phrase", [&] { lm.hasUnigrams(key + "ˊ"); });
    }
    add("a row before all", [&] { db.findRows("A"); });
    add("a row after all", [&] { db.findRows("ㄇ"); });
  }
  report("search", steps, w[0], w[1]);
  atMost("in a dictionary a hundred times as big", steps, w[0], w[1], 3, 3000, [&] { return std::to_string(n) + " rows"; });
  vf::count("searches");
  vf::distinct("search" + std::to_string(n) + "/" + std::to_string(seed));
}

// One question with many answers, by itself.
void caseAnswers(Rng& r) {
  size_t n = 100 + r.below(100);
  const size_t times = 16;
  uint64_t seed = r.next();
  bool twice = r.chance(1, 2);
  vector<uint64_t> w[2];
  vector<Step> steps;
  for (int k = 0; k < 2; ++k) {
    Rng q(seed);
    size_t rows = k ? n * times : n;
    string key = reading(5).text, value = hanzi(1), user, excluded, replacement;
    Rows dict, assoc;
    for (size_t i = 0; i < rows; ++i) {
      dict.emplace_back(key, hanzi(i) + " " + score(q));
      dict.emplace_back(key + "-" + key, hanzi(i) + hanzi(i + 7) + " " + score(q));
      if (twice && i % 3 == 0) dict.emplace_back(key, hanzi(i) + " " + score(q));
      assoc.emplace_back(value + "-" + key + "-" + hanzi(i) + "-" + key, score(q));
      if (twice) assoc.emplace_back(value + "-" + key + "-" + hanzi(i) + "-" + reading(6).text, score(q));
      user += hanzi(i * (twice ? 1 : 2)) + " " + key + "\n";
      excluded += hanzi(i * 5 + 1) + " " + key + "\n";
      replacement += hanzi(i * 3) + " " + hanzi(i) + "\n";
    }
    string d = sortedRows(dict), a = sortedRows(assoc);
    McBopomofoLM lm;
    lm.loadLanguageModel(std::make_unique<ParselessPhraseDB>(d.data(), d.size(), true));
    lm.loadAssociatedPhrasesV2(std::make_unique<ParselessPhraseDB>(a.data(), a.size(), true));
    auto add = [&](const char* name, const std::function<void()>& f) {
      if (!k) steps.push_back({name, nullptr});
      w[k].push_back(spent(f));
    };
    auto ask = [&] {
      size_t found = 0;
      add("phrases of a reading", [&] { found = lm.getUnigrams(key).size(); });
      VCHECK(found >= rows / 3, "[" << key << "] has " << found << " phrases");
      add("phrases of two readings", [&] { found = lm.getUnigrams(key + "-" + key).size(); });
      VCHECK(found >= rows / 3, "[" << key << "-" << key << "] has " << found << " phrases");
      add("whether there are phrases", [&] { lm.hasUnigrams(key); });
      add("associated phrases of a text", [&] { found = lm.findAssociatedPhrasesV2(value, {}).size(); });
      VCHECK(found >= rows / 3, "[" << value << "] has " << found << " associated phrases");
      add("associated phrases of a text and its reading", [&] { lm.findAssociatedPhrasesV2(value, {key}); });
      add("reading of a text", [&] { lm.getReading(hanzi(rows - 1)); });
    };
    ask();
    lm.loadUserPhrases(user.data(), user.size());
    ask();
    lm.loadExcludedPhrases(excluded.data(), excluded.size());
    lm.loadPhraseReplacementMap(replacement.data(), replacement.size());
    lm.setPhraseReplacementEnabled(true);
    ask();
    lm.setExternalConverter([](const string& s) { return s; });
    lm.setExternalConverterEnabled(true);
    lm.setMacroConverter([](const string& s) { return s; });
    ask();
  }
  report("answers", steps, w[0], w[1]);
  atMost("with sixteen times as many answers", steps, w[0], w[1], 24, 20000, [&] { return std::to_string(n) + " answers"; });
  vf::count("many_answers");
  vf::distinct("answers" + std::to_string(n) + "/" + std::to_string(seed));
}

void c44(uint64_t idx, Rng& r) {
  switch (idx % 9) {
    case 8: caseAnswers(r); break;
    case 0: caseLength(r); break;
    case 1: caseRows(r); break;
    case 2: caseOffers(r); break;
    case 3: caseFiles(r); break;
    case 4: caseTexts(r); break;
    case 5: caseSession(r); break;
    case 6: caseFresh(r); break;
    default: caseSearch(r); break;
  }
}
vf::Reg r44("C44", 270, 3400, c44);
}  // namespace

int main(int argc, char** argv) { return vf::mainLoop(argc, argv); }
