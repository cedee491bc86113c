// Shared by the key handler and engine harnesses: dictionaries, the real
// KeyHandler driven by states, a clock under control, processes never started.
#pragma once
#include <fcntl.h>
#include <sys/syscall.h>
#include <time.h>

#include <cmath>
#include <list>
#include <memory>

#include <sys/time.h>

#include "ChineseNumbers/ChineseNumbers.h"
#include "ChineseNumbers/SuzhouNumbers.h"
#include "KeyHandler.h"
#include "UserOverrideModel.h"
#include "bpmf.h"
#include "gramambular2/reading_grid.h"

// ---- a clock under the harness's control and processes never started -------
static double gFakeNow = 0;
static vector<vector<string>> gStarted;
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) {
  if (id == CLOCK_REALTIME && gFakeNow > 0) {
    ts->tv_sec = static_cast<time_t>(gFakeNow);
    ts->tv_nsec = 0;
    return 0;
  }
  return static_cast<int>(syscall(SYS_clock_gettime, id, ts));
}
extern "C" time_t time(time_t* t) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
namespace fcitx {
void startProcess(const std::vector<std::string>& args, const std::string& dir) {
  gStarted.push_back(args);
  if (!dir.empty()) gStarted.back().push_back("in " + dir);
}
}  // namespace fcitx

using namespace McBopomofo;
using Formosa::Gramambular2::LanguageModel;
using Formosa::Gramambular2::ReadingGrid;
using vf::Rng;
using Cand = InputStates::ChoosingCandidate::Candidate;

namespace {

struct Abandon {};
struct Abandoned {};  // beyond what the model can follow

bool has(const string& tags, const string& p) { return (" " + tags + " ").find(" " + p + " ") != string::npos; }
[[noreturn]] void blame(const string& tags, const string& msg) {
  static bool all = getenv("VF_BLAME_ALL") != nullptr;  // for debugging the model
  if (all || has(tags, vf::G().prop)) vf::fail("(" + tags + ") " + msg);
  if (vf::G().verbose) fprintf(stderr, "ABANDONED (%s): %s\n", tags.c_str(), msg.c_str());
  vf::count("abandoned");
  throw Abandon{};
}
#define JUDGE(tags, cond, msg)   \
  do {                           \
    if (!(cond)) {               \
      std::ostringstream os__;   \
      os__ << msg;               \
      blame(tags, os__.str());   \
    }                            \
  } while (0)

size_t cpLen(unsigned char c) { return c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4; }
vector<string> chars(const string& s) {
  vector<string> o;
  for (size_t i = 0; i < s.size();) {
    size_t n = std::min(cpLen(static_cast<unsigned char>(s[i])), s.size() - i);
    o.push_back(s.substr(i, n));
    i += n;
  }
  return o;
}
string firstChars(const string& s, size_t n) {
  string o;
  auto c = chars(s);
  for (size_t i = 0; i < n && i < c.size(); ++i) o += c[i];
  return o;
}
bool boundary(const string& s, size_t i) { return i <= s.size() && (i == s.size() || (static_cast<unsigned char>(s[i]) & 0xc0) != 0x80); }
bool validUtf8(const string& s) {
  for (size_t i = 0; i < s.size();) {
    unsigned char c = static_cast<unsigned char>(s[i]);
    if (c >= 0x80 && c < 0xc2) return false;
    if (c >= 0xf5) return false;
    size_t n = cpLen(c);
    if (i + n > s.size()) return false;
    for (size_t k = 1; k < n; ++k)
      if ((static_cast<unsigned char>(s[i + k]) & 0xc0) != 0x80) return false;
    i += n;
  }
  return true;
}
string join(const vector<string>& v, size_t b, size_t e, const char* sep = "-") {
  string o;
  for (size_t i = b; i < e; ++i) {
    if (i > b) o += sep;
    o += v[i];
  }
  return o;
}

// ---- the dictionary of a case ----------------------------------------------
struct Val {
  string value;
  double score;
};
struct Dict {
  std::map<string, vector<Val>> t;  // best first
  vector<string> syl;               // syllables in use
  vector<Syl> sylP;
  struct Assoc {
    vector<string> v, r;
    double score;
  };
  vector<Assoc> assoc;
  bool closed = true;
  bool learn = false;
  const vector<Val>* find(const string& k) const {
    auto it = t.find(k);
    return it == t.end() ? nullptr : &it->second;
  }
  bool has(const string& k) const { return k == " " || t.count(k); }
};
const vector<Val> kSpaceVals = {{" ", 0}};
const vector<Val>* look(const Dict& d, const string& k) { return k == " " ? &kSpaceVals : d.find(k); }

class TableLM : public LanguageModel {
 public:
  explicit TableLM(const Dict* d) : d_(d) {}
  vector<Unigram> getUnigrams(const string& k) override {
    vector<Unigram> o;
    if (auto* v = look(*d_, k))
      for (auto& x : *v) o.emplace_back(x.value, x.score);
    return o;
  }
  bool hasUnigrams(const string& k) override { return look(*d_, k) != nullptr; }

 private:
  const Dict* d_;
};

const char* const kLayoutNames[6] = {"Standard", "ETen", "IBM", "Hsu", "ETen26", "HanyuPinyin"};
const BopomofoKeyboardLayout* layoutOf(int i) { return i < 5 ? layouts()[static_cast<size_t>(i)].layout : BopomofoKeyboardLayout::HanyuPinyinLayout(); }

const vector<string>& pool() {
  static vector<string> p;
  if (p.empty()) {
    for (int c = 0x4e00; c < 0x4e00 + 900; ++c) {
      char b[4] = {static_cast<char>(0xe0 | (c >> 12)), static_cast<char>(0x80 | ((c >> 6) & 63)), static_cast<char>(0x80 | (c & 63)), 0};
      p.push_back(b);
    }
    for (int c = 0x20000; c < 0x20000 + 60; ++c) {
      char b[5] = {static_cast<char>(0xf0 | (c >> 18)), static_cast<char>(0x80 | ((c >> 12) & 63)), static_cast<char>(0x80 | ((c >> 6) & 63)), static_cast<char>(0x80 | (c & 63)), 0};
      p.push_back(b);
    }
  }
  return p;
}

const string kPunctKeys = ",.!?/;'\"<>[]{}()+=5*:|~\\-@#^&_";

struct World;
Dict makeDict(Rng& r, const string& prop) {
  Dict d;
  d.closed = prop == "C23" ? r.chance(9, 10) : prop == "C18" || prop == "C20" || prop == "C21" ? r.chance(1, 2) : prop == "C38" ? r.chance(1, 6) : r.chance(7, 10);
  d.learn = prop == "C12" ? true : r.chance(1, 5);
  std::set<double> used;
  auto score = [&](bool phrase) {
    for (;;) {
      double s;
      if (d.learn && r.chance(2, 3)) s = -0.5 - r.unit() * (phrase ? 7.4 : 7.0);
      else s = -8.01 - r.unit() * (phrase ? 22 : 8);
      s = std::round(s * 1e6) / 1e6;
      if (used.insert(s).second) return s;
    }
  };
  auto add = [&](const string& k, const string& v, double s) {
    auto& l = d.t[k];
    for (auto& x : l)
      if (x.value == v) return;
    l.push_back({v, s});
  };
  size_t n = r.chance(1, prop == "C23" ? 4 : 12) ? 1 + r.below(3) : 4 + r.below(11);  // a few only: much is said twice
  std::set<string> seen;
  while (d.syl.size() < n) {
    const Syl& s = r.pick(realSyllables());
    if (!typeableShared(s) || !seen.insert(text(s)).second) continue;
    d.syl.push_back(text(s));
    d.sylP.push_back(s);
  }
  vector<vector<string>> single(n);
  uint64_t wide = r.chance(1, 3) ? 1 + r.below(6) : 0;  // characters of four bytes, in sixths
  for (size_t i = 0; i < n; ++i) {
    size_t m = 1 + r.below(5);
    for (size_t k = 0; k < m; ++k) {
      string v = r.chance(1, 8) && i > 0 ? r.pick(single[r.below(i)]) : r.chance(wide, 6) ? pool()[900 + r.below(60)] : r.pick(pool());
      if (!d.closed && r.chance(1, 8)) v += r.pick(pool());
      if (std::find(single[i].begin(), single[i].end(), v) != single[i].end()) continue;
      single[i].push_back(v);
      add(d.syl[i], v, score(false));
    }
  }
  vector<vector<size_t>> phrases;
  size_t m = r.below(25);
  for (size_t k = 0; k < m; ++k) {
    vector<size_t> p;
    if (!phrases.empty() && r.chance(1, 3)) p = r.pick(phrases);  // another value or a longer phrase
    if (p.empty() || (p.size() < 5 && r.chance(1, 2)))
      for (size_t c = p.empty() ? 2 + r.below(2) : 1; c; --c) p.push_back(r.below(n));
    phrases.push_back(p);
    string key, val;
    for (size_t i = 0; i < p.size(); ++i) {
      key += (i ? "-" : "") + d.syl[p[i]];
      val += r.pick(single[p[i]]);
    }
    if (!d.closed && r.chance(1, 3)) {
      val.clear();
      for (uint64_t c = 1 + r.below(r.chance(1, 2) ? 2 : 5); c; --c) val += r.pick(pool());
    }
    if (!d.closed && r.chance(1, 6)) val = r.pick(single[r.pick(p)]);  // the same text over fewer readings
    add(key, val, score(true));
  }
  // symbols
  auto sym = [&](const string& key, size_t cnt) {
    static const vector<string> v = {"，", "。", "！", "？", "「", "」", "、", "；", "：", "…", "—", "～", "（", "）", "＋", ",", ".", "!", "?", "……", "──", "0️⃣"};
    for (size_t i = 0; i < cnt; ++i) add(key, r.pick(v), score(false));
  };
  for (char c : kPunctKeys) {
    if (r.chance(1, 2)) sym(string("_punctuation_") + c, 1 + r.below(3));
    if (r.chance(1, 3)) sym(string("_half_punctuation_") + c, 1 + r.below(2));
    if (r.chance(1, 3)) sym(string("_ctrl_punctuation_") + c, 1 + r.below(2));
    for (auto* l : kLayoutNames) {
      if (r.chance(1, 5)) sym(string("_punctuation_") + l + "_" + c, 1 + r.below(2));
      if (r.chance(1, 6)) sym(string("_half_punctuation_") + l + "_" + c, 1 + r.below(2));
    }
  }
  if (r.chance(9, 10)) sym("_punctuation_list", 2 + r.below(6));
  for (char c = 'A'; c <= 'Z'; ++c) add(string("_letter_") + c, string(1, static_cast<char>(c + 32)), score(false));
  for (int i = 0; i < 30; ++i) {
    string k = "_number_" + std::to_string(r.below(r.chance(1, 2) ? 12 : 120));
    add(k, r.chance(1, 6) ? "1️⃣" : r.pick(pool()), score(false));
    if (r.chance(1, 2)) add(k, r.pick(pool()), score(false));
  }
  for (auto& kv : d.t) std::stable_sort(kv.second.begin(), kv.second.end(), [](const Val& a, const Val& b) { return a.score > b.score; });
  // associated phrases: character by character
  std::set<string> aseen;
  vector<string> symbols;
  for (auto& kv : d.t)
    if (kv.first[0] == '_' && kv.first.find("punctuation") != string::npos && kv.first.back() != '-') symbols.push_back(kv.first);
  size_t na = (prop == "C23" || prop == "C24") ? 10 + r.below(30) : r.below(25);
  for (size_t k = 0; k < na; ++k) {
    Dict::Assoc a;
    size_t len = 2 + r.below(4);
    if (!d.assoc.empty() && r.chance(1, 3)) {
      a = r.pick(d.assoc);
      size_t keep = 1 + r.below(a.v.size());
      a.v.resize(keep);
      a.r.resize(keep);
      len = keep + 1 + r.below(2);
    }
    while (a.v.size() < len) {
      size_t i = r.below(n);
      string v = r.pick(single[i]);
      string rd = d.syl[i];
      if (r.chance(1, d.closed ? 25 : 10)) rd = text(r.pick(realSyllables()));  // may be unknown
      if (r.chance(1, d.closed ? 40 : 10)) v = r.pick(pool());
      if (!symbols.empty() && r.chance(1, 8)) {
        rd = r.pick(symbols);
        v = r.pick(d.t[rd]).value;
      }
      if (chars(v).size() != 1) v = chars(v)[0];
      a.v.push_back(v);
      a.r.push_back(rd);
    }
    a.score = score(true);
    string key;
    for (size_t i = 0; i < a.v.size(); ++i) key += a.v[i] + a.r[i];
    string val = vf::S(a.v, "");
    if (!aseen.insert(val).second) continue;
    d.assoc.push_back(a);
  }
  return d;
}
string num(double s) {
  // not by printf: its decimal point is the locale's
  long long n = std::llround(std::fabs(s) * 1e6);
  string t = std::to_string(n % 1000000);
  return (s < 0 ? "-" : "") + std::to_string(n / 1000000) + "." + string(6 - t.size(), '0') + t;
}
void writeFile(const string& p, const string& s) {
  FILE* f = fopen(p.c_str(), "w");
  if (!f) _exit(3);
  fwrite(s.data(), 1, s.size(), f);
  fclose(f);
}
string dictText(const Dict& d) {
  vector<string> l;
  for (auto& kv : d.t)
    for (auto& v : kv.second) l.push_back(kv.first + " " + v.value + " " + num(v.score));
  std::sort(l.begin(), l.end());
  return "# format org.openvanilla.mcbopomofo.sorted\n" + vf::S(l, "\n") + "\n";
}
string assocText(const Dict& d) {
  vector<string> l;
  for (auto& a : d.assoc) {
    string k;
    for (size_t i = 0; i < a.v.size(); ++i) k += (i ? "-" : "") + a.v[i] + "-" + a.r[i];
    l.push_back(k + " " + num(a.score));
  }
  std::sort(l.begin(), l.end());
  return "# format org.openvanilla.mcbopomofo.sorted\n" + vf::S(l, "\n") + "\n";
}

// ---- the real thing ---------------------------------------------------------
class Strings : public KeyHandler::LocalizedStrings {
 public:
  string cursorIsBetweenSyllables(const string& a, const string& b) override { return "BETWEEN " + a + " " + b; }
  string syllablesRequired(size_t n) override { return "REQUIRED " + std::to_string(n); }
  string syllablesMaximum(size_t n) override { return "MAXIMUM " + std::to_string(n); }
  string phraseAlreadyExists() override { return "EXISTS"; }
  string pressEnterToAddThePhrase() override { return "PRESS ENTER"; }
  string markedWithSyllablesAndStatus(const string& m, const string& r, const string& s) override { return "MARKED " + m + "|" + r + "|" + s; }
};
class Adder : public UserPhraseAdder {
 public:
  vector<std::pair<string, string>> added;
  void addUserPhrase(const std::string_view& r, const std::string_view& p) override { added.emplace_back(r, p); }
};

enum Kind { EMPTY, INPUT, MARK, CHOOSE, ASSOC, ASSOCPLAIN, FEATURE, DATE, ENCL, CNUM, DICT, CHARINFO, OTHER };
const char* const kKindNames[] = {"empty", "inputting", "marking", "choosing a candidate", "associated phrases", "associated phrases (plain)", "feature menu", "date menu", "enclosed number", "Chinese number", "dictionary menu", "character information", "unknown"};

struct Settings {
  InputMode mode = InputMode::McBopomofo;
  int layout = 0;
  bool selectAfter = false, moveAfter = false, putLower = false, escClears = false, assoc = false, half = false;
  int ctrlEnter = 0;
};

struct World {
  std::shared_ptr<McBopomofoLM> lm = std::make_shared<McBopomofoLM>();
  std::shared_ptr<Adder> adder = std::make_shared<Adder>();
  vector<string> notified;
  std::unique_ptr<KeyHandler> kh;
  std::unique_ptr<InputState> st = std::make_unique<InputStates::Empty>();
  vector<string> commits;
  size_t errors = 0, states = 0;
  bool strict = true;

  World() {
    kh = std::make_unique<KeyHandler>(lm, adder, std::make_unique<Strings>());
    kh->setOnAddNewPhrase([this](const string& p) { notified.push_back(p); });
  }
  void apply(const Settings& s) {
    kh->setInputMode(s.mode);
    kh->setKeyboardLayout(layoutOf(s.layout));
    kh->setSelectPhraseAfterCursorAsCandidate(s.selectAfter);
    kh->setMoveCursorAfterSelection(s.moveAfter);
    kh->setPutLowercaseLettersToComposingBuffer(s.putLower);
    kh->setEscKeyClearsEntireComposingBuffer(s.escClears);
    kh->setAssociatedPhrasesEnabled(s.assoc);
    kh->setHalfWidthPunctuationEnabled(s.half);
    kh->setCtrlEnterKeyBehavior(s.ctrlEnter == 0 ? KeyHandlerCtrlEnter::Disabled : s.ctrlEnter == 1 ? KeyHandlerCtrlEnter::OutputBpmfReadings : KeyHandlerCtrlEnter::OutputHTMLRubyText);
  }
  template <typename T>
  T* is() const {
    return dynamic_cast<T*>(st.get());
  }
  // What the engine does with a new state.
  void onState(std::unique_ptr<InputState> next) {
    ++states;
    std::unique_ptr<InputState> prev = std::move(st);
    st = std::move(next);
    if (!st) blame("C18 C28", "a null state is shown");
    wellFormed();
    if (is<InputStates::Empty>()) {
      if (auto* ne = dynamic_cast<InputStates::NotEmpty*>(prev.get())) commits.push_back(ne->composingBuffer);
    } else if (is<InputStates::EmptyIgnoringPrevious>()) {
      st = std::make_unique<InputStates::Empty>();
    } else if (auto* c = is<InputStates::Committing>()) {
      if (!c->text.empty()) commits.push_back(c->text);
    }
  }
  KeyHandler::StateCallback cb() {
    return [this](std::unique_ptr<InputState> n) { onState(std::move(n)); };
  }
  KeyHandler::ErrorCallback err() {
    return [this] { ++errors; };
  }
  Kind kind() const {
    if (is<InputStates::Empty>() || is<InputStates::Committing>() || is<InputStates::EmptyIgnoringPrevious>()) return EMPTY;
    if (is<InputStates::Inputting>()) return INPUT;
    if (is<InputStates::Marking>()) return MARK;
    if (is<InputStates::ChoosingCandidate>()) return CHOOSE;
    if (is<InputStates::AssociatedPhrases>()) return ASSOC;
    if (is<InputStates::AssociatedPhrasesPlain>()) return ASSOCPLAIN;
    if (is<InputStates::SelectingFeature>()) return FEATURE;
    if (is<InputStates::SelectingDateMacro>()) return DATE;
    if (is<InputStates::EnclosingNumber>()) return ENCL;
    if (is<InputStates::ChineseNumber>()) return CNUM;
    if (is<InputStates::SelectingDictionary>()) return DICT;
    if (is<InputStates::ShowingCharInfo>()) return CHARINFO;
    return OTHER;
  }
  void wellFormed() {
    if (!strict) {
      // wild use: only what a user interface could not survive
      return;
    }
    vf::count("states_seen");
    auto* ne = is<InputStates::NotEmpty>();
    if (ne) {
      JUDGE("C18", !ne->composingBuffer.empty(), "an empty composition is shown as non-empty (" << kKindNames[kind()] << ")");
      JUDGE("C18", validUtf8(ne->composingBuffer), "the text shown is not valid UTF-8: " << vf::jstr(ne->composingBuffer));
      JUDGE("C18 C20", boundary(ne->composingBuffer, ne->cursorIndex), "the cursor " << ne->cursorIndex << " is outside or inside a character of [" << ne->composingBuffer << "]");
    }
    auto cands = [&](const vector<Cand>& c, const char* tags, const char* what) {
      JUDGE(tags, !c.empty(), what << " are offered with an empty list");
      for (auto& x : c) JUDGE(tags, !x.value.empty() && validUtf8(x.value), what << " hold an empty or broken entry");
    };
    if (auto* m = is<InputStates::Marking>()) {
      JUDGE("C18 C21", m->head + m->markedText + m->tail == m->composingBuffer, "marked parts [" << m->head << "][" << m->markedText << "][" << m->tail << "] do not make up [" << m->composingBuffer << "]");
      JUDGE("C18 C21", m->cursorIndex == m->head.size() || m->cursorIndex == m->head.size() + m->markedText.size(), "the cursor is not at an end of the marked text");
      JUDGE("C18 C21", validUtf8(m->head) && validUtf8(m->markedText), "marking splits a character");
    } else if (auto* c = is<InputStates::ChoosingCandidate>()) {
      cands(c->candidates, "C18 C22 C24", "candidates");
    } else if (auto* a = is<InputStates::AssociatedPhrases>()) {
      cands(a->candidates, "C18 C22 C23", "associated phrases");
      JUDGE("C18 C23", a->previousState != nullptr, "associated phrases without a state to go back to");
    } else if (auto* a = is<InputStates::AssociatedPhrasesPlain>()) {
      cands(a->candidates, "C18 C22 C23 C24", "associated phrases (plain)");
    } else if (auto* d = is<InputStates::SelectingDictionary>()) {
      JUDGE("C18", d->previousState != nullptr && !d->menu.empty(), "dictionary menu without entries or a state to go back to");
    } else if (auto* c = is<InputStates::Committing>()) {
      JUDGE("C19 C24 C25 C26", validUtf8(c->text), "broken text is committed");
    }
  }
};
}  // namespace
