// C34-C38, C40: the fcitx engine inside a real fcitx instance. What reaches the
// application is recorded at the input contexts; what should reach it comes
// from a second key handler over the same files, driven by the same events.
#include "McBopomofo.h"

#include <fcitx-config/rawconfig.h>
#include <fcitx-utils/eventdispatcher.h>
#include <fcitx-utils/i18n.h>
#include <fcitx-utils/log.h>
#include <fcitx-utils/utf8.h>
#include <fcitx/focusgroup.h>
#include <fcitx/inputcontextmanager.h>
#include <fcitx/inputmethodgroup.h>
#include <fcitx/inputmethodmanager.h>
#include <fcitx/inputpanel.h>
#include <fcitx/userinterfacemanager.h>

#include <dirent.h>
#if __has_feature(address_sanitizer)
#include <sanitizer/allocator_interface.h>
#endif

#include <deque>
#include <exception>
#include <filesystem>
#include <set>

#include <notifications_public.h>

#include "UserPhrasesLM.h"
#include "kdict.h"

namespace fs = std::filesystem;

// ---- the messages, in the language of the session ------------------------------
// Instead of gettext, from the .po files of the working tree. In the language
// "brackets" a message is its number and its arguments, each in brackets and in
// the order they have in the message, so that a shown text can be told apart.
namespace vfi18n {
struct Catalog {
  std::map<std::string, std::string> text;  // what gettext would find
  std::set<std::string> known;              // what the file speaks of at all
};
std::map<std::string, Catalog> gCatalogs;
std::string gLang;  // "" when nothing is translated
std::set<std::string> gAsked;
std::map<std::string, int> gNumber;
std::map<std::string, std::string> gBrackets;

std::string unquote(const std::string& l) {
  std::string o;
  size_t a = l.find('"'), b = l.rfind('"');
  if (a == std::string::npos || b <= a) return o;
  for (size_t i = a + 1; i < b; ++i) {
    if (l[i] != '\\' || i + 1 >= b) {
      o += l[i];
      continue;
    }
    switch (l[++i]) {
      case 'n': o += '\n'; break;
      case 't': o += '\t'; break;
      default: o += l[i];
    }
  }
  return o;
}
Catalog readPo(const std::string& path) {
  Catalog c;
  std::ifstream in(path);
  std::string id, str, l;
  int in_ = 0;  // 1 in a msgid, 2 in a msgstr
  bool fuzzy = false, nextFuzzy = false;
  auto flush = [&] {
    if (!id.empty()) {
      c.known.insert(id);
      if (!fuzzy && !str.empty()) c.text[id] = str;
    }
    id.clear();
    str.clear();
  };
  while (std::getline(in, l)) {
    if (l.rfind("#,", 0) == 0) nextFuzzy = l.find("fuzzy") != std::string::npos;
    else if (l.rfind("msgid ", 0) == 0) {
      flush();
      fuzzy = nextFuzzy;
      nextFuzzy = false;
      in_ = 1;
      id = unquote(l);
    } else if (l.rfind("msgstr ", 0) == 0) {
      in_ = 2;
      str = unquote(l);
    } else if (!l.empty() && l[0] == '"') {
      (in_ == 1 ? id : str) += unquote(l);
    } else if (l.empty() || l[0] == '#') {
      continue;
    } else {
      in_ = 0;
    }
  }
  flush();
  return c;
}
const std::string& look(const std::string& s) {
  gAsked.insert(s);
  if (gLang.empty()) return *gAsked.find(s);
  if (gLang != "brackets") {
    auto& t = gCatalogs[gLang].text;
    auto it = t.find(s);
    return it == t.end() ? *gAsked.find(s) : it->second;
  }
  auto it = gBrackets.find(s);
  if (it != gBrackets.end()) return it->second;
  int n = static_cast<int>(gNumber.size());
  gNumber[s] = n;
  std::string o = (s[0] == '#' ? "# ⟪" : "⟪") + std::to_string(n);
  for (size_t i = 0; i < s.size(); ++i) {
    size_t e = s.find('}', i);
    if (s[i] == '{' && e != std::string::npos) {
      o += "⟦" + s.substr(i, e - i + 1) + "⟧";
      i = e;
    }
  }
  return gBrackets[s] = o + "⟫";
}
}  // namespace vfi18n
namespace fcitx {
std::string translateDomain(const char* d, const std::string& s) { return std::string(d) == "fcitx5-mcbopomofo" && !s.empty() ? vfi18n::look(s) : s; }
const char* translateDomain(const char* d, const char* s) { return std::string(d) == "fcitx5-mcbopomofo" && *s ? vfi18n::look(s).c_str() : s; }
}  // namespace fcitx

namespace {

using fcitx::KeyState;
using fcitx::KeyStates;
using FKey = fcitx::Key;

struct Null : std::streambuf {
  int overflow(int c) override { return c == EOF ? 0 : c; }
} gNull;
std::ostream gNullStream(&gNull);

string env(const char* n) {
  const char* v = getenv(n);
  return v ? v : "";
}
string dataDir() { return env("XDG_DATA_DIRS") + "/fcitx5/data"; }
string userDir() { return env("XDG_DATA_HOME") + "/fcitx5/mcbopomofo"; }
string confPath() { return env("XDG_CONFIG_HOME") + "/fcitx5/conf/mcbopomofo.conf"; }
// System data is mapped: a new file, never the old one changed.
void putFile(const string& p, const string& s) {
  writeFile(p + ".new", s);
  fs::rename(p + ".new", p);
}
string slurp(const string& p) {
  std::ifstream f(p, std::ios::binary);
  std::stringstream ss;
  ss << f.rdbuf();
  return ss.str();
}

// ---- configuration as the user thinks of it ---------------------------------
const vector<string> kConfLayouts = {"standard", "eten", "hsu", "et26", "hanyupinyin", "ibm"};
const int kConfLayoutIndex[6] = {0, 1, 3, 4, 5, 2};  // into kLayoutNames
const vector<string> kConfCandLayouts = {"Not Set", "Vertical", "Horizontal"};
const vector<string> kConfKeys = {"123456789", "asdfghjkl", "asdfzxcvb"};
const vector<string> kConfCtrlEnter = {"disabled", "output_bpmf_reading", "output_html_ruby_text"};
using Conf = std::map<string, string>;
const Conf kDefaultConf = {{"BopomofoKeyboardLayout", "standard"}, {"CandidateLayout", "Not Set"}, {"SelectionKeys", "123456789"}, {"SelectionKeysCount", "9"}, {"SelectPhrase", "before_cursor"}, {"MoveCursorAfterSelection", "False"}, {"AllowMovingCursorWhenChoosingCandidates", "False"}, {"EscKeyClearsEntireComposingBuffer", "False"}, {"ShiftLetterKeys", "directly_output_uppercase"}, {"KeyHandlerCtrlEnter", "disabled"}, {"OpenUserPhraseFilesWith", "xdg-open"}, {"AddScriptHookPath", "/usr/share/fcitx5/data/mcbopomofo-add-phrase-hook.sh"}, {"AddScriptHookEnabled", "False"}, {"HalfWidthPunctuationEnable", "False"}, {"AssociatedPhrasesEnabled", "False"}};
size_t idxOf(const vector<string>& v, const string& s) { return static_cast<size_t>(std::find(v.begin(), v.end(), s) - v.begin()); }
bool on(const Conf& c, const string& k) { return c.at(k) == "True"; }
string drawOption(Rng& r, const string& k) {
  if (k == "BopomofoKeyboardLayout") return r.chance(1, 2) ? "standard" : r.pick(kConfLayouts);
  if (k == "CandidateLayout") return r.pick(kConfCandLayouts);
  if (k == "SelectionKeys") return r.pick(kConfKeys);
  if (k == "SelectionKeysCount") return std::to_string(4 + r.below(6));
  if (k == "SelectPhrase") return r.chance(1, 2) ? "before_cursor" : "after_cursor";
  if (k == "ShiftLetterKeys") return r.chance(1, 2) ? "directly_output_uppercase" : "put_lowercase_to_buffer";
  if (k == "KeyHandlerCtrlEnter") return r.pick(kConfCtrlEnter);
  if (k == "OpenUserPhraseFilesWith") return r.pick(vector<string>{"xdg-open", "", "gedit", "/opt/my editor"});
  if (k == "AddScriptHookPath") return r.pick(vector<string>{"", "/tmp/hook.sh", "/usr/local/bin/hook with space", "hook.sh", "./scripts/hook.sh", "~/hook.sh"});
  return r.chance(1, 2) ? "True" : "False";
}

// ---- keys -------------------------------------------------------------------
struct Press {
  fcitx::KeySym sym;
  KeyStates st;
  int code = 60;
  bool release = false;
};
Press plainKey(char c) {
  Press p{static_cast<fcitx::KeySym>(static_cast<unsigned char>(c)), KeyStates()};
  static const string shifted = "!@#$%^&*()_+{}|:\"<>?~";
  if (c >= '1' && c <= '9') p.code = 10 + (c - '1');
  if (c == '0') p.code = 19;
  size_t sh = shifted.find(c);
  if ((c >= 'A' && c <= 'Z') || sh != string::npos) {
    p.st = KeyStates(KeyState::Shift);
    if (sh < 9) p.code = 10 + static_cast<int>(sh);
    if (sh == 9) p.code = 19;
  }
  if (c == ' ') p.code = 65;
  return p;
}
Press named(fcitx::KeySym s, KeyStates st = KeyStates()) {
  Press p{s, st};
  if (s == FcitxKey_Return) p.code = 36;
  if (s == FcitxKey_KP_Enter) p.code = 104;
  return p;
}
string keyText(const Press& p) { return FKey(p.sym, p.st).toString() + (p.code >= 10 && p.code <= 18 ? "#" + std::to_string(p.code - 9) : "") + (p.release ? "^" : ""); }

// What a physical key means to the key handler.
Key meaning(const FKey& k) {
  auto s = k.sym();
  if (k.states() == KeyStates() && s >= 0x20 && s <= 0x7e) return Key::asciiKey(static_cast<char>(s));
  bool sh = k.states().test(KeyState::Shift), ct = k.states().test(KeyState::Ctrl);
  if (ct && !sh) {
    static const std::map<fcitx::KeySym, char> own = {{FcitxKey_comma, ','}, {FcitxKey_period, '.'}, {FcitxKey_1, '!'}, {FcitxKey_slash, '/'}, {FcitxKey_semicolon, ';'}, {FcitxKey_apostrophe, '\''}, {FcitxKey_backslash, '\\'}};
    auto it = own.find(s);
    if (it != own.end()) return Key::asciiKey(it->second, false, true);
  }
  using N = Key::KeyName;
  static const std::map<fcitx::KeySym, std::pair<char, bool>> ascii = {
      {FcitxKey_BackSpace, {Key::BACKSPACE, false}}, {FcitxKey_Return, {Key::RETURN, false}}, {FcitxKey_KP_Enter, {Key::RETURN, true}}, {FcitxKey_Escape, {Key::ESC, false}}, {FcitxKey_space, {Key::SPACE, false}}, {FcitxKey_Delete, {Key::DELETE, false}}, {FcitxKey_KP_Delete, {Key::DELETE, true}}, {FcitxKey_Tab, {Key::TAB, false}}, {FcitxKey_KP_0, {'0', true}}, {FcitxKey_KP_1, {'1', true}}, {FcitxKey_KP_2, {'2', true}}, {FcitxKey_KP_3, {'3', true}}, {FcitxKey_KP_4, {'4', true}}, {FcitxKey_KP_5, {'5', true}}, {FcitxKey_KP_6, {'6', true}}, {FcitxKey_KP_7, {'7', true}}, {FcitxKey_KP_8, {'8', true}}, {FcitxKey_KP_9, {'9', true}}, {FcitxKey_KP_Decimal, {'.', true}}, {FcitxKey_KP_Add, {'+', true}}, {FcitxKey_KP_Subtract, {'-', true}}, {FcitxKey_KP_Multiply, {'*', true}}, {FcitxKey_KP_Divide, {'/', true}}};
  auto a = ascii.find(s);
  if (a != ascii.end()) return Key::asciiKey(a->second.first, sh, ct, a->second.second);
  static const std::map<fcitx::KeySym, std::pair<N, bool>> moves = {{FcitxKey_Left, {N::LEFT, false}}, {FcitxKey_KP_Left, {N::LEFT, true}}, {FcitxKey_Right, {N::RIGHT, false}}, {FcitxKey_KP_Right, {N::RIGHT, true}}, {FcitxKey_Home, {N::HOME, false}}, {FcitxKey_KP_Home, {N::HOME, true}}, {FcitxKey_End, {N::END, false}}, {FcitxKey_KP_End, {N::END, true}}, {FcitxKey_Up, {N::UP, false}}, {FcitxKey_KP_Up, {N::UP, true}}, {FcitxKey_Down, {N::DOWN, false}}, {FcitxKey_KP_Down, {N::DOWN, true}}};
  auto m = moves.find(s);
  if (m != moves.end()) return Key::namedKey(m->second.first, sh, ct, m->second.second);
  return Key{};
}

// ---- the application's side --------------------------------------------------
struct IC : fcitx::InputContext {
  IC(fcitx::InputContextManager& m, const string& n) : InputContext(m, n) { created(); }
  ~IC() override { destroy(); }
  const char* frontend() const override { return "verif"; }
  void commitStringImpl(const string& s) override { got.push_back(s); }
  void deleteSurroundingTextImpl(int, unsigned) override {}
  void forwardKeyImpl(const fcitx::ForwardKeyEvent&) override {}
  void updatePreeditImpl() override {
    shown = inputPanel().clientPreedit();
    ++preeditUpdates;
  }
  vector<string> got, want;
  vector<string> maybe;  // may be delivered or not
  fcitx::Text shown;
  size_t preeditUpdates = 0, uiUpdates = 0;
  string panelBefore;
  string name;

  string panelText() {
    auto& p = inputPanel();
    string o = p.preedit().toString() + "|" + p.auxUp().toString() + "|" + p.auxDown().toString();
    if (auto l = p.candidateList()) {
      auto* c = dynamic_cast<fcitx::CommonCandidateList*>(l.get());
      o += "|" + std::to_string(l->cursorIndex()) + "/" + std::to_string(l->size());
      for (int i = 0; i < l->size(); ++i) o += "," + l->candidate(i).text().toString();
      if (c) o += "@" + std::to_string(c->currentPage());
    }
    return o;
  }
};

// ---- the expected behaviour --------------------------------------------------
class Headers : public LanguageModelLoader::LocalizedStrings {
 public:
  string userPhraseFileHeader() override { return "# user\n"; }
  string excludedPhraseFileHeader() override { return "# excluded\n"; }
};
class Reloader : public UserPhraseAdder {
 public:
  std::shared_ptr<LanguageModelLoader> loader;
  vector<std::pair<string, string>> added;
  void addUserPhrase(const std::string_view& r, const std::string_view& p) override {
    added.emplace_back(r, p);
    // the engine has written it
    loader->getLM()->loadUserPhrases(loader->userPhrasesPath().c_str(), loader->excludedPhrasesPath().c_str());
  }
};

bool isWindow(Kind k) { return k == CHOOSE || k == DICT || k == CHARINFO || k == ASSOC || k == ASSOCPLAIN || k == FEATURE || k == DATE; }

struct Ref : World {
  std::shared_ptr<LanguageModelLoader> loader;
  std::shared_ptr<Reloader> rel;
  Conf live = kDefaultConf;
  vector<std::unique_ptr<InputState>> grave;  // a state may be used after it is left
  IC* cur = nullptr;
  vector<vector<string>> started;
  // window
  size_t page = 0;
  long hi = 0;
  bool hiUnsettled = false, pageUnsettled = false;
  size_t shiftPs = 9;
  bool filesEdited = false;  // the user's files

  Ref() {
    strict = false;
    loader = std::make_shared<LanguageModelLoader>(std::make_unique<Headers>());
    rel = std::make_shared<Reloader>();
    rel->loader = loader;
    lm = loader->getLM();
    kh = std::make_unique<KeyHandler>(lm, rel, std::make_unique<Strings>());
    kh->setOnAddNewPhrase([this](const string& p) {
      if (on(live, "AddScriptHookEnabled")) {
        string path = live.at("AddScriptHookPath");
        if (path.empty()) path = kDefaultConf.at("AddScriptHookPath");
        started.push_back({"/bin/sh", path, p, "in " + userDir()});
      }
    });
  }
  void enter(std::unique_ptr<InputState> next) {
    grave.push_back(std::move(st));
    InputState* prev = grave.back().get();
    st = std::move(next);
    if (!st) st = std::make_unique<InputStates::Empty>();
    ++states;
    if (is<InputStates::Empty>()) {
      if (auto* ne = dynamic_cast<InputStates::NotEmpty*>(prev)) give(ne->composingBuffer);
    } else if (is<InputStates::EmptyIgnoringPrevious>()) {
      st = std::make_unique<InputStates::Empty>();
    } else if (auto* c = is<InputStates::Committing>()) {
      give(c->text);
    }
    page = 0;
    hi = 0;
    hiUnsettled = pageUnsettled = false;
  }
  void give(const string& s) {
    if (!s.empty() && cur) cur->want.push_back(s);
  }
  KeyHandler::StateCallback enterCb() {
    return [this](std::unique_ptr<InputState> n) { enter(std::move(n)); };
  }
  bool plain() const { return kh->inputMode() == InputMode::PlainBopomofo; }

  // what is composed, as the application shows it
  string text() const {
    if (auto* ne = is<InputStates::NotEmpty>()) return ne->composingBuffer;
    if (auto* e = is<InputStates::EnclosingNumber>()) return e->composingBuffer();
    if (auto* c = is<InputStates::ChineseNumber>()) return c->composingBuffer();
    return "";
  }
  size_t cursor() const {
    if (auto* ne = is<InputStates::NotEmpty>()) return ne->cursorIndex;
    return text().size();
  }

  bool shiftWindow() const {
    auto* a = is<InputStates::AssociatedPhrases>();
    return is<InputStates::AssociatedPhrasesPlain>() || (a && a->useShiftKey);
  }
  vector<string> entries() const {
    vector<string> o;
    if (auto* c = is<InputStates::ChoosingCandidate>()) {
      std::map<string, int> n;
      for (auto& x : c->candidates) ++n[x.value];
      for (auto& x : c->candidates) {
        string t = x.value;
        if (n[x.value] > 1) {
          string rd = x.reading;
          for (auto& ch : rd)
            if (ch == '-') ch = ' ';
          t += " (" + rd + ")";
        }
        o.push_back(t);
      }
    } else if (auto* d = is<InputStates::SelectingDictionary>()) {
      o = d->menu;
    } else if (auto* s = is<InputStates::ShowingCharInfo>()) {
      o = {"#" + std::to_string(s->selectedPhrase.size()), "#" + std::to_string(chars(s->selectedPhrase).size())};
    } else if (auto* a = is<InputStates::AssociatedPhrases>()) {
      for (auto& x : a->candidates) o.push_back(x.value);
    } else if (auto* a = is<InputStates::AssociatedPhrasesPlain>()) {
      for (auto& x : a->candidates) o.push_back(x.value);
    } else if (auto* f = is<InputStates::SelectingFeature>()) {
      for (auto& x : f->features) o.push_back(x.name);
    } else if (auto* dm = is<InputStates::SelectingDateMacro>()) {
      o = dm->menu;
    }
    return o;
  }
  string selKeys() const { return live.at("SelectionKeys").substr(0, static_cast<size_t>(std::stoi(live.at("SelectionKeysCount")))); }
  size_t ps() const { return shiftWindow() ? shiftPs : selKeys().size(); }
  fcitx::CandidateLayoutHint hint() const {
    Kind k = kind();
    if (k == DICT || k == CHARINFO || k == FEATURE || k == DATE) return fcitx::CandidateLayoutHint::Vertical;
    if (auto* c = is<InputStates::ChoosingCandidate>())
      for (auto& x : c->candidates)
        if (chars(x.value).size() > 8) return fcitx::CandidateLayoutHint::Vertical;
    const string& l = live.at("CandidateLayout");
    return l == "Vertical" ? fcitx::CandidateLayoutHint::Vertical : l == "Horizontal" ? fcitx::CandidateLayoutHint::Horizontal : fcitx::CandidateLayoutHint::NotSet;
  }

  void pick(size_t g) {
    vf::count("picked");
    auto cb = enterCb();
    if (auto* c = is<InputStates::ChoosingCandidate>()) {
      Cand cand = c->candidates[g];
      kh->candidateSelected(cand, c->originalCursor, cb);
    } else if (auto* d = is<InputStates::SelectingDictionary>()) {
      kh->dictionaryServiceSelected(d->selectedPhrase, g, d, cb);
    } else if (auto* a = is<InputStates::AssociatedPhrases>()) {
      Cand cand = a->candidates[g];
      kh->candidateAssociatedPhraseSelected(a->prefixCursorIndex, cand, a->prefixReading, a->prefixValue, cb);
    } else if (auto* a = is<InputStates::AssociatedPhrasesPlain>()) {
      Cand cand = a->candidates[g];
      kh->candidateSelected(cand, 0, cb);
    } else if (auto* f = is<InputStates::SelectingFeature>()) {
      enter(f->nextState(g));
    } else if (auto* dm = is<InputStates::SelectingDateMacro>()) {
      enter(std::make_unique<InputStates::Committing>(dm->menu[g]));
    }
  }

  // A key while a window is open; false if it goes on to the composition.
  // The entry that Return and its like pick: the highlighted one, or the first
  // of the page if the user interface has turned to a page without a highlight.
  size_t chosen() { return hi >= 0 ? static_cast<size_t>(hi) : page * ps(); }
  bool windowKey(const FKey& key, const FKey& raw) {
    auto es = entries();
    size_t n = es.size(), p = ps(), first = page * p;
    size_t onPage = std::min(p, n - first), pages = (n + p - 1) / p;
    Kind k = kind();
    bool sw = shiftWindow();
    auto st0 = key.states() & KeyStates{KeyState::Shift, KeyState::Ctrl, KeyState::Alt, KeyState::Super};
    auto isKey = [&](fcitx::KeySym s) { return key.sym() == s && st0 == KeyStates(); };
    auto isShift = [&](fcitx::KeySym s) { return key.sym() == s && st0 == KeyStates(KeyState::Shift); };
    // selection keys
    if (sw) {
      if (raw.states().test(KeyState::Shift) && raw.code() >= 10 && raw.code() <= 18) {
        size_t i = static_cast<size_t>(raw.code() - 10);
        if (i < onPage) pick(first + i);
        return true;
      }
    } else {
      string keys = selKeys();
      for (size_t i = 0; i < onPage && i < keys.size(); ++i)
        if (isKey(static_cast<fcitx::KeySym>(keys[i])) || (live.at("SelectionKeys") == "123456789" && isKey(static_cast<fcitx::KeySym>(FcitxKey_KP_1 + i)))) {
          pick(first + i);
          return true;
        }
    }
    bool left = isShift(FcitxKey_Left), right = isShift(FcitxKey_Right);
    if (on(live, "AllowMovingCursorWhenChoosingCandidates")) {
      left = left || isKey(FcitxKey_j);
      right = right || isKey(FcitxKey_k);
    }
    if ((left || right) && !plain() && k == CHOOSE) {
      size_t c = kh->candidateCursorIndex();
      if (right) ++c;
      else if (c > 0) --c;
      kh->setCandidateCursorIndex(c);
      auto in = kh->buildInputtingState();
      enter(kh->buildChoosingCandidateState(in.get(), kh->candidateCursorIndex()));
      vf::count("cursor_moved_in_window");
      return true;
    }
    bool cancel = isKey(FcitxKey_Escape) || isKey(FcitxKey_BackSpace);
    if (!plain() && isKey(FcitxKey_question)) {
      if (k == CHOOSE && kh->hasDictionaryServices()) {
        auto* c = is<InputStates::ChoosingCandidate>();
        size_t at = chosen();
        string phrase = c->candidates[at].value;
        enter(kh->buildSelectingDictionaryState(std::make_unique<InputStates::ChoosingCandidate>(*c), phrase, at));
        vf::count("looked_up");
        return true;
      }
      if (k == DICT || k == CHARINFO) cancel = true;
    }
    if (!plain() && k == CHOOSE && raw.code() == 36 && raw.states().test(KeyState::Shift)) {
      auto* c = is<InputStates::ChoosingCandidate>();
      size_t at = chosen();
      string rd = c->candidates[at].reading, v = c->candidates[at].value;
      auto next = kh->buildAssociatedPhrasesStateFromCandidateChoosingState(std::make_unique<InputStates::ChoosingCandidate>(*c), c->originalCursor, rd, v, at);
      if (next) {
        enter(std::move(next));
        vf::count("associated_from_window");
      }
      return true;
    }
    if (sw ? isShift(FcitxKey_Return) : (isKey(FcitxKey_Return) || isKey(FcitxKey_KP_Enter))) {
      pick(chosen());
      return true;
    }
    if (cancel) {
      if (auto* s = is<InputStates::ShowingCharInfo>()) {
        enter(std::make_unique<InputStates::SelectingDictionary>(*s->previousState));
        return true;
      }
      auto back = [&](InputState* prev, size_t at) {
        if (auto* c = dynamic_cast<InputStates::ChoosingCandidate*>(prev)) {
          enter(std::make_unique<InputStates::ChoosingCandidate>(*c));
          hi = static_cast<long>(at);
          page = at / ps();
          vf::count("came_back");
        } else if (auto* m = dynamic_cast<InputStates::Marking*>(prev)) {
          enter(std::make_unique<InputStates::Marking>(*m));
        } else if (auto* i = dynamic_cast<InputStates::Inputting*>(prev)) {
          enter(std::make_unique<InputStates::Inputting>(*i));
        }
      };
      if (auto* d = is<InputStates::SelectingDictionary>()) {
        back(d->previousState.get(), d->selectedCandidateIndex);
        return true;
      }
      if (auto* a = is<InputStates::AssociatedPhrases>()) {
        if (a->useShiftKey) return false;
        back(a->previousState.get(), a->selectedCandidateIndex);
        return true;
      }
      auto* c = is<InputStates::ChoosingCandidate>();
      kh->candidatePanelCancelled(c ? c->originalCursor : 0, enterCb());
      return true;
    }
    auto nextPage = [&] {
      if (pages > 1) {
        page = (page + 1) % pages;
        hi = static_cast<long>(page * p);
        vf::count("pages_turned");
      }
      return true;
    };
    auto prevPage = [&] {
      if (pages > 1) {
        page = (page + pages - 1) % pages;
        hi = static_cast<long>(page * p);
        vf::count("pages_turned");
      } else {
        hiUnsettled = true;
      }
      return true;
    };
    auto move = [&](long by) {
      if (hi < 0) {
        hiUnsettled = pageUnsettled = true;
        return true;
      }
      long total = static_cast<long>(n);
      hi = (hi + by + total) % total;
      page = static_cast<size_t>(hi) / p;
      vf::count("highlight_moved");
      return true;
    };
    if (isKey(FcitxKey_space)) {
      if (k == ASSOC && sw) return false;
      return nextPage();
    }
    auto any = [&](std::initializer_list<fcitx::KeySym> l) {
      for (auto s : l)
        if (isKey(s)) return true;
      return false;
    };
    bool U = any({FcitxKey_Up, FcitxKey_KP_Up}), D = any({FcitxKey_Down, FcitxKey_KP_Down}), L = any({FcitxKey_Left, FcitxKey_KP_Left}), R = any({FcitxKey_Right, FcitxKey_KP_Right});
    bool pu = any({FcitxKey_Page_Up, FcitxKey_KP_Page_Up}), pd = any({FcitxKey_Page_Down, FcitxKey_KP_Page_Down});
    if (hint() == fcitx::CandidateLayoutHint::Vertical) {
      if (D) return move(1);
      if (U) return move(-1);
      if (R || pd) return nextPage();
      if (L || pu) return prevPage();
    } else {
      if (R) return move(1);
      if (L) return move(-1);
      if (D || pd) return nextPage();
      if (U || pu) return prevPage();
    }
    if (k == ASSOC) return raw.isModifier();
    if (k == ASSOCPLAIN) {
      if (raw.isModifier()) return true;
      enter(std::make_unique<InputStates::Empty>());
      return false;
    }
    if (k == CHOOSE) kh->handleCandidateKeyForTraditionalBopomofoIfRequired(meaning(key), [&] { pick(chosen()); }, enterCb(), err());
    return true;
  }
  bool keyPressed(IC* ic, const FKey& key, const FKey& raw) {
    if (key.states().test(KeyState::Alt) || key.states().test(KeyState::Super)) return false;
    leaveOther(ic);
    bool acc = false;
    if (isWindow(kind())) {
      acc = true;
      if (windowKey(key, raw)) return true;
    }
    return kh->handle(meaning(key), st.get(), enterCb(), err()) || acc;
  }
  // There is one composition at a time. One left in another application is
  // delivered there.
  void leaveOther(IC* ic) {
    if (cur == ic) return;
    kh->reset();
    if (kind() != EMPTY) {
      vf::count("taken_over");
      enter(std::make_unique<InputStates::Empty>());
    }
    cur = ic;
  }
  void gone(IC* ic) {
    if (cur != ic) return;
    kh->reset();
    grave.push_back(std::move(st));
    st = std::make_unique<InputStates::Empty>();
    cur = nullptr;
  }
  void activated(const string& im, IC* ic) {
    leaveOther(ic);
    InputMode mode = im == "mcbopomofo-plain" ? InputMode::PlainBopomofo : InputMode::McBopomofo;
    if (mode != kh->inputMode()) loader->loadModelForMode(mode);
    Settings s;
    s.mode = mode;
    s.layout = kConfLayoutIndex[idxOf(kConfLayouts, live.at("BopomofoKeyboardLayout"))];
    s.selectAfter = live.at("SelectPhrase") == "after_cursor";
    s.moveAfter = on(live, "MoveCursorAfterSelection");
    s.putLower = live.at("ShiftLetterKeys") == "put_lowercase_to_buffer";
    s.escClears = on(live, "EscKeyClearsEntireComposingBuffer");
    s.assoc = on(live, "AssociatedPhrasesEnabled");
    s.half = on(live, "HalfWidthPunctuationEnable");
    s.ctrlEnter = static_cast<int>(idxOf(kConfCtrlEnter, live.at("KeyHandlerCtrlEnter")));
    apply(s);
    loader->reloadUserModelsIfNeeded();
    if (filesEdited) {
      loader->getLM()->loadUserPhrases(loader->userPhrasesPath().c_str(), loader->excludedPhrasesPath().c_str());
      string repl = userDir() + "/phrases-replacement.txt";
      bool there = fs::exists(repl);
      loader->getLM()->setPhraseReplacementEnabled(there);
      if (there) loader->getLM()->loadPhraseReplacementMap(repl.c_str());
    }
  }
  void left(IC* ic, bool silently) {
    if (cur != ic) return;
    kh->reset();
    if (silently) {
      grave.push_back(std::move(st));
      st = std::make_unique<InputStates::Empty>();
    } else {
      enter(std::make_unique<InputStates::Empty>());
    }
  }
};

// ---- between fcitx and the engine --------------------------------------------
struct Shim : fcitx::InputMethodEngine {
  explicit Shim(fcitx::AddonManager* m) : inst(m->instance()) {}
  fcitx::Instance* inst;
  std::unique_ptr<McBopomofoEngine> eng;
  std::unique_ptr<Ref> ref;
  std::exception_ptr thrown;
  size_t keysSeen = 0;
  bool accepted = false, wantAccepted = false;
  Kind before = EMPTY;
  vector<vector<string>> started, wantStarted;

  template <typename F>
  void guarded(F f) {
    if (!eng || thrown) return;
    try {
      f();
    } catch (...) {
      thrown = std::current_exception();
    }
  }
  // what the engine starts, then what it should have
  template <typename F, typename H>
  void both(F engine, H model) {
    guarded([&] {
      gStarted.clear();
      engine();
      started.insert(started.end(), gStarted.begin(), gStarted.end());
      gStarted.clear();
      if (ref) {
        model();
        ref->started.insert(ref->started.end(), gStarted.begin(), gStarted.end());
        wantStarted.insert(wantStarted.end(), ref->started.begin(), ref->started.end());
        ref->started.clear();
        ref->grave.clear();
      }
      gStarted.clear();
    });
  }
  void keyEvent(const fcitx::InputMethodEntry& e, fcitx::KeyEvent& k) override {
    ++keysSeen;
    auto* ic = static_cast<IC*>(k.inputContext());
    FKey key = k.key(), raw = k.rawKey();
    bool release = k.isRelease();
    if (ref) before = ref->kind();
    both([&] { eng->keyEvent(e, k); }, [&] { wantAccepted = !release && ref->keyPressed(ic, key, raw); });
    accepted = k.accepted();
  }
  void activate(const fcitx::InputMethodEntry& e, fcitx::InputContextEvent& ev) override {
    if (vf::G().verbose) fprintf(stderr, "    [activate %s]\n", e.uniqueName().c_str());
    both([&] { eng->activate(e, ev); }, [&] { ref->activated(e.uniqueName(), static_cast<IC*>(ev.inputContext())); });
  }
  static bool silent(const fcitx::InputContextEvent& ev) { return ev.type() == fcitx::EventType::InputContextFocusOut || ev.type() == fcitx::EventType::InputContextReset; }
  void deactivate(const fcitx::InputMethodEntry& e, fcitx::InputContextEvent& ev) override {
    if (vf::G().verbose) fprintf(stderr, "    [deactivate %s]\n", e.uniqueName().c_str());
    both([&] { eng->deactivate(e, ev); }, [&] { ref->left(static_cast<IC*>(ev.inputContext()), silent(ev)); });
  }
  void reset(const fcitx::InputMethodEntry& e, fcitx::InputContextEvent& ev) override {
    both([&] { eng->reset(e, ev); }, [&] { ref->left(static_cast<IC*>(ev.inputContext()), silent(ev)); });
  }
};
Shim* gShim = nullptr;
struct Tip {
  string id, summary, body;
};
vector<Tip> gTips;
struct Notifications : fcitx::AddonInstance {
  void showTip(const string& id, const string&, const string&, const string& summary, const string& body, int32_t) { gTips.push_back({id, summary, body}); }
  FCITX_ADDON_EXPORT_FUNCTION(Notifications, showTip);
};
struct TipsFactory : fcitx::AddonFactory {
  fcitx::AddonInstance* create(fcitx::AddonManager*) override { return new Notifications; }
};
struct Factory : fcitx::AddonFactory {
  fcitx::AddonInstance* create(fcitx::AddonManager* m) override { return gShim = new Shim(m); }
};
fcitx::Instance* gInst = nullptr;

struct Files {
  Dict d, pd;
  string user, excluded;
};
// A dictionary with something to choose from.
void enrich(Rng& r, Dict& d, bool lengthy) {
  double s = -30;
  auto add = [&](const string& k, const string& v) {
    auto& l = d.t[k];
    for (auto& x : l)
      if (x.value == v) return;
    l.push_back({v, s -= 0.01});
  };
  for (auto& k : d.syl)
    if (r.chance(1, 2))
      for (uint64_t n = r.below(r.chance(1, 4) ? 40 : 12); n; --n) add(k, r.pick(pool()));
  if (lengthy) {
    string k = r.pick(d.syl), v;
    for (uint64_t n = 8 + r.below(4); n; --n) v += r.pick(pool());
    add(k, v);
  }
}
Files drawFiles(Rng& r, const string& prop) {
  Files f;
  f.d = makeDict(r, prop == "C35" && r.chance(1, 2) ? "C23" : "");
  enrich(r, f.d, r.chance(1, 4));
  for (uint64_t n = prop == "C35" ? 6 : 0; n; --n) {
    string k = r.pick(f.d.syl);
    auto* v = f.d.find(k);
    if (!v || v->size() < 6) continue;
    Dict::Assoc a;
    a.v = {(*v)[4 + r.below(v->size() - 4)].value, r.pick(pool())};
    a.r = {k, r.pick(f.d.syl)};
    a.score = -2;
    if (chars(a.v[0]).size() == 1) f.d.assoc.push_back(a);
  }
  f.pd = makeDict(r, "");
  enrich(r, f.pd, r.chance(1, 8));
  f.pd.assoc.clear();
  // Few readings of more than one syllable in the plain data
  for (auto it = f.pd.t.begin(); it != f.pd.t.end();) it = it->first[0] != '_' && it->first.find('-') != string::npos ? f.pd.t.erase(it) : std::next(it);
  for (uint64_t i = r.below(4); i; --i) {
    string key = r.pick(f.d.syl);
    for (uint64_t k = r.below(3); k; --k) key += "-" + r.pick(f.d.syl);
    f.user += r.pick(pool()) + (r.chance(1, 2) ? r.pick(pool()) : "") + " " + key + "\n";
  }
  return f;
}
void install(Rng& r, const Files& f) {
  fs::create_directories(dataDir());
  putFile(dataDir() + "/mcbopomofo-data.txt", dictText(f.d));
  putFile(dataDir() + "/mcbopomofo-data-plain-bpmf.txt", dictText(f.pd));
  // the plain mode's associations come from the same file
  Dict both = f.d;
  for (auto& k : f.pd.syl)
    if (auto* v = f.pd.find(k))
      if (r.chance(1, 2)) {
        Dict::Assoc a;
        a.v = {chars((*v)[0].value)[0], r.pick(pool())};
        a.r = {k, r.pick(f.pd.syl)};
        a.score = -3;
        both.assoc.push_back(a);
      }
  putFile(dataDir() + "/mcbopomofo-associated-phrases-v2.txt", assocText(both));
  string svc = dataDir() + "/mcbopomofo-dictionary-service.json";
  std::error_code ec;
  fs::remove(svc, ec);
  if (r.chance(3, 4)) writeFile(svc, "{\"services\":[{\"name\":\"A\",\"url_template\":\"https://a.example/(encoded)\"},{\"name\":\"B\",\"url_template\":\"https://b.example/?q=(encoded)\"}]}");
  fs::remove_all(userDir(), ec);
  fs::create_directories(userDir());
  if (r.chance(3, 4)) writeFile(userDir() + "/data.txt", "# mine\n" + f.user);
  fs::remove(confPath(), ec);
}

const vector<string> kIms = {"mcbopomofo", "mcbopomofo-plain"};

struct Session {
  Rng& r;
  string prop;
  Files f;
  string trail;
  std::unique_ptr<fcitx::FocusGroup> group;
  std::deque<std::unique_ptr<IC>> ics;
  IC* foc = nullptr;
  string im = "mcbopomofo";
  string last;         // what happened
  string lastTags;     // whom differences concern

  Session(Rng& rr, const string& p) : r(rr), prop(p) {}
  virtual ~Session() {
    for (auto& ic : ics) ic.reset();
    ics.clear();
    group.reset();
    gShim->ref.reset();
    gShim->eng.reset();
    gShim->thrown = nullptr;
  }
  Ref& ref() { return *gShim->ref; }
  McBopomofoEngine& eng() { return *gShim->eng; }
  void note(const string& s) {
    vf::note("  " + s);
    trail += s + "; ";
    last = s;
  }
  Conf drawConf() {
    Conf c = kDefaultConf;
    for (auto& kv : c)
      if (r.chance(1, 2)) kv.second = drawOption(r, kv.first);
    return c;
  }
  static fcitx::RawConfig raw(const Conf& c) {
    fcitx::RawConfig rc;
    for (auto& kv : c) rc.setValueByPath(kv.first, kv.second);
    return rc;
  }
  virtual void prepare() {}
  void start() {
    f = drawFiles(r, prop);
    install(r, f);
    prepare();
    Conf c = drawConf();
    bool fromFile = r.chance(1, 2);
    if (fromFile) {
      string t;
      for (auto& kv : c) t += kv.first + "=" + quoteIni(kv.second) + "\n";
      fs::create_directories(fs::path(confPath()).parent_path());
      writeFile(confPath(), t);
    }
    gShim->eng = std::make_unique<McBopomofoEngine>(gInst);
    gShim->ref = std::make_unique<Ref>();
    if (!fromFile) eng().setConfig(raw(c));
    ref().live = c;
    string s;
    for (auto& kv : c)
      if (kv.second != kDefaultConf.at(kv.first)) s += kv.first + "=" + kv.second + " ";
    vf::note("configuration: " + s);
    trail += s;
    group = std::make_unique<fcitx::FocusGroup>("g", gInst->inputContextManager());
    size_t n = 1 + r.below(prop == "C34" ? 3 : 2);
    // with several applications in use at a time
    several = prop == "C34" && n > 1 && r.chance(1, 3) ? 1 + r.below(2) : 0;
    if (several) vf::note("several in use");
    for (size_t i = 0; i < n; ++i) {
      ics.push_back(std::make_unique<IC>(gInst->inputContextManager(), "app" + std::to_string(i)));
      auto& ic = *ics.back();
      ic.name = "app" + std::to_string(i);
      fcitx::CapabilityFlags fl;
      if (r.chance(4, 5)) fl |= fcitx::CapabilityFlag::Preedit;
      if (r.chance(1, 10)) fl |= fcitx::CapabilityFlag::ClientUnfocusCommit;
      ic.setCapabilityFlags(fl);
      if (several == 0 || (several == 1 && r.chance(1, 2))) ic.setFocusGroup(group.get());
      gInst->setCurrentInputMethod(&ic, kIms[r.chance(1, 3)], false);
    }
    focus(ics[0].get());
  }
  static string quoteIni(const string& s) { return s.find(' ') != string::npos || s.empty() ? "\"" + s + "\"" : s; }

  // -- events
  // With files edited now and then, what they give is judged throughout.
  void tag(const string& tags) { lastTags = prop == "C30" && ref().filesEdited ? tags + " C30" : tags; }
  void begin(const string& tags) {
    tag(tags);
    for (auto& ic : ics) {
      ic->panelBefore = ic->panelText();
      ic->uiUpdates = 0;
    }
    gShim->started.clear();
    gShim->wantStarted.clear();
  }
  void rethrow() {
    if (gShim->thrown) {
      auto e = gShim->thrown;
      gShim->thrown = nullptr;
      std::rethrow_exception(e);
    }
  }
  void expectUnfocus(IC* foc) {
    if (ref().cur != foc || !foc->hasFocus()) return;
    string t = ref().text();
    if (t.empty()) return;
    bool client = foc->capabilityFlags().test(fcitx::CapabilityFlag::Preedit) && !foc->capabilityFlags().test(fcitx::CapabilityFlag::ClientUnfocusCommit);
    if (!client) return;
    Kind k = ref().kind();
    if (k == ENCL || k == CNUM) foc->maybe.push_back(t);
    else foc->want.push_back(t);
    vf::count("left_while_composing");
  }
  void focus(IC* to) {
    begin("C34");
    note(to ? "focus " + to->name : "unfocus");
    if (!to) {
      for (auto& ic : ics)
        if (ic->hasFocus()) {
          expectUnfocus(ic.get());
          ic->focusOut();
        }
    } else if (foc && foc != to) {
      // an application of the same group loses the focus to the next
      if (foc->focusGroup() && foc->focusGroup() == to->focusGroup()) {
        expectUnfocus(foc);
        if (r.chance(1, 2)) foc->focusOut();
      } else if (r.chance(1, 2)) {
        expectUnfocus(foc);
        foc->focusOut();
      }
      if (to->focusGroup())
        for (auto& ic : ics)
          if (ic.get() != foc && ic.get() != to && ic->hasFocus() && ic->focusGroup() == to->focusGroup()) expectUnfocus(ic.get());
    }
    if (to) to->focusIn();
    foc = to;
    compare();
    vf::count("focus_changes");
  }
  // Another application that has the focus as well is used.
  uint64_t several = 0;
  void useAnother() {
    IC* to = r.pick(ics).get();
    if (!to->hasFocus() || to == foc) return;
    note("on to " + to->name);
    foc = to;
    vf::count("used_without_focus_change");
  }
  void quit() {
    if (ics.size() < 2) return;
    size_t i = r.below(ics.size());
    IC* ic = ics[i].get();
    begin("C34");
    note("end of " + ic->name + (ic == ref().cur && ref().kind() != EMPTY ? " while composing" : ""));
    if (ic == ref().cur && ref().kind() != EMPTY) vf::count("ended_while_composing");
    ref().gone(ic);
    if (foc == ic) foc = nullptr;
    auto dying = std::move(ics[i]);
    ics.erase(ics.begin() + static_cast<long>(i));
    dying.reset();
    compare();
  }
  void resetIc() {
    begin("C34");
    note("reset");
    if (foc) foc->reset(fcitx::ResetReason::Client);
    compare();
    vf::count("resets");
  }
  void switchIm() {
    if (!foc) return;
    begin("C34 C36");
    string to = r.pick(kIms);
    note("switch to " + to);
    gInst->setCurrentInputMethod(foc, to, r.chance(1, 2));
    compare();
    vf::count("switches");
  }
  virtual void press(const Press& p) {
    if (!foc) focus(r.pick(ics).get());
    begin("");
    note(keyText(p));
    size_t seen = gShim->keysSeen;
    fcitx::KeyEvent e(foc, FKey(p.sym, p.st, p.code), p.release);
    foc->keyEvent(e);
    vf::count("keys");
    bool reached = gShim->keysSeen > seen;
    if (!reached) {
      vf::count("taken_by_fcitx");
      tag("C34");
      compare();
      return;
    }
    Kind k = gShim->before;
    tag(isWindow(k) || ref().kind() == DICT || ref().kind() == FEATURE || ref().kind() == CHOOSE ? "C35 C34 C36" : "C34 C36");
    rethrow();
    if (!p.release)
      JUDGE(isWindow(k) ? "C36 C35" : "C36 C34", gShim->accepted == gShim->wantAccepted, "after " << last << " in " << kKindNames[k] << ": the key is " << (gShim->accepted ? "taken" : "passed on") << ", expected " << (gShim->wantAccepted ? "taken" : "passed on"));
    else JUDGE("C36", !gShim->accepted, "the release of a key is taken");
    if (!gShim->accepted) vf::count("passed_on");
    compare();
    vf::count(string("in_") + kKindNames[ref().kind()]);
  }
  void type(char c) { press(plainKey(c)); }

  // -- the judgement
  static string names(const vector<string>& v) { return "[" + vf::S(v, "][") + "]"; }
  void compare() {
    rethrow();
    const string& T = lastTags;
    Ref& m = ref();
    for (auto& icp : ics) {
      IC& ic = *icp;
      string at = "after " + last + ", in " + ic.name + ": ";
      bool owner = &ic == m.cur;
      if (ic.maybe.size() && ic.got.size() == ic.want.size() + 1) ic.want.push_back(ic.maybe[0]);
      ic.maybe.clear();
      JUDGE(T, ic.got == ic.want, at << "delivered " << names(ic.got) << ", expected " << names(ic.want));
      vf::count("commits", ic.got.size());
      ic.got.clear();
      ic.want.clear();
      string text = owner ? m.text() : "";
      bool client = ic.capabilityFlags().test(fcitx::CapabilityFlag::Preedit);
      auto& p = ic.inputPanel();
      const fcitx::Text& pre = client ? p.clientPreedit() : p.preedit();
      const fcitx::Text& other = client ? p.preedit() : p.clientPreedit();
      JUDGE(T, pre.toString() == text, at << "the composition shown is " << vf::jstr(pre.toString()) << ", expected " << vf::jstr(text));
      JUDGE(T, other.toString().empty(), at << "the composition is also shown elsewhere: " << vf::jstr(other.toString()));
      if (client) {
        JUDGE(T, ic.shown.toString() == text, at << "the application shows " << vf::jstr(ic.shown.toString()) << ", expected " << vf::jstr(text));
        JUDGE(T, text.empty() || ic.shown.cursor() == static_cast<int>(m.cursor()), at << "the application's cursor is at " << ic.shown.cursor() << ", expected " << m.cursor());
      }
      if (!text.empty()) {
        JUDGE(T, pre.cursor() == static_cast<int>(m.cursor()), at << "the cursor is at " << pre.cursor() << ", expected " << m.cursor() << " in " << text);
        vf::count("compositions_shown");
        auto* mk = m.is<InputStates::Marking>();
        string hl;
        for (size_t i = 0; i < pre.size(); ++i)
          if (pre.formatAt(static_cast<int>(i)).test(fcitx::TextFormatFlag::HighLight)) hl += pre.stringAt(static_cast<int>(i));
        JUDGE(T, hl == (mk ? mk->markedText : ""), at << "highlighted text is " << vf::jstr(hl) << ", expected " << vf::jstr(mk ? mk->markedText : ""));
        if (mk) vf::count("marked");
      }
      auto* ne = owner ? m.is<InputStates::NotEmpty>() : nullptr;
      string aux = p.auxDown().toString();
      JUDGE(T, aux.empty() == !(ne && !ne->tooltip.empty()), at << "the hint shown is " << vf::jstr(aux) << ", expected " << (ne ? ne->tooltip : "none"));
      if (!aux.empty())
        if (auto* mk = m.is<InputStates::Marking>())
          if (ne->tooltip.rfind("MARKED", 0) == 0) JUDGE(T, aux.find(mk->markedText) != string::npos, at << "the hint " << aux << " does not hold the marked text " << mk->markedText);
      window(ic, owner, at);
      texts(ic, owner, at);
      if (ic.panelText() != ic.panelBefore) JUDGE(T, ic.uiUpdates > 0, at << "the panel changed but the user interface was not told");
    }
    JUDGE(T.find("C36") != string::npos ? "C36" : T, gShim->started == gShim->wantStarted, "after " << last << ": programs started: " << (gShim->started.empty() ? "none" : names(gShim->started[0])) << ", expected " << (gShim->wantStarted.empty() ? "none" : names(gShim->wantStarted[0])));
    vf::count("programs_started", gShim->started.size());
    vf::count("comparisons");
  }
  virtual void texts(IC&, bool, const string&) {}
  void window(IC& ic, bool owner, const string& at) {
    Ref& m = ref();
    const string T = (has(lastTags, "C35") ? "C35 C36 C34" : lastTags + " C35") + (has(lastTags, "C30") ? " C30" : "");
    auto list = ic.inputPanel().candidateList();
    if (!owner || !isWindow(m.kind())) {
      JUDGE(T, !list || list->size() == 0, at << "a window is shown that should not be: " << list->candidate(0).text().toString());
      return;
    }
    auto es = m.entries();
    string where = at + kKindNames[m.kind()] + ": ";
    JUDGE(T, list != nullptr, where << "no window is shown, expected " << names(es));
    auto* l = dynamic_cast<fcitx::CommonCandidateList*>(list.get());
    if (!l) throw Abandon{};
    JUDGE(T, l->totalSize() == static_cast<int>(es.size()), where << l->totalSize() << " entries, expected " << names(es));
    if (m.shiftWindow()) {
      int ps = l->pageSize();
      JUDGE(T, ps == 9 || ps == static_cast<int>(m.selKeys().size()), where << "pages of " << ps << " entries");
      m.shiftPs = static_cast<size_t>(ps);
    }
    size_t ps = m.ps();
    JUDGE(T, l->pageSize() == static_cast<int>(ps), where << "pages of " << l->pageSize() << " entries, expected " << ps);
    if (m.pageUnsettled) {
      m.page = static_cast<size_t>(std::max(0, l->currentPage()));
      m.pageUnsettled = false;
    }
    if (m.hiUnsettled) {
      m.hi = l->cursorIndex() < 0 ? -1 : l->globalCursorIndex();
      m.hiUnsettled = false;
    }
    JUDGE(T, l->currentPage() == static_cast<int>(m.page), where << "page " << l->currentPage() << " is shown, expected " << m.page << " of " << names(es));
    size_t first = m.page * ps, n = std::min(ps, es.size() - first);
    JUDGE(T, l->size() == static_cast<int>(n), where << l->size() << " entries on the page, expected " << n);
    for (size_t i = 0; i < n; ++i) {
      string t = l->candidate(static_cast<int>(i)).text().toString();
      const string& e = es[first + i];
      bool same = e[0] == '#' && m.kind() == CHARINFO ? prop == "C38" || t.size() > e.size() && t.substr(t.size() - e.size() + 1) == e.substr(1) : t == e;
      JUDGE(T, same, where << "entry " << first + i << " is " << t << ", expected " << e);
      string lab = l->label(static_cast<int>(i)).toString();
      string want = m.shiftWindow() ? string(1, static_cast<char>('1' + i)) : string(1, m.selKeys()[i]);
      string low = lab;
      for (auto& c : low) c = static_cast<char>(tolower(c));
      JUDGE(T, low.find(want) != string::npos, where << "entry " << i << " of the page is labelled " << lab << " but picked with " << want);
    }
    if (m.hi >= 0) JUDGE(T, l->cursorIndex() == static_cast<int>(static_cast<size_t>(m.hi) - first), where << "entry " << l->cursorIndex() << " of the page is highlighted, expected " << static_cast<size_t>(m.hi) - first << " of " << names(es));
    JUDGE(T, l->layoutHint() == m.hint(), where << "the window's layout is " << static_cast<int>(l->layoutHint()) << ", expected " << static_cast<int>(m.hint()));
    vf::count("windows_compared");
    if (es.size() > ps) vf::count("windows_with_pages");
  }

  // -- what a user does
  string sylKeys(const Syl& s) {
    int lay = kConfLayoutIndex[idxOf(kConfLayouts, ref().live.at("BopomofoKeyboardLayout"))];
    string k = lay < 5 ? keysOf(layouts()[static_cast<size_t>(lay)], s) : refPinyin(s, true);
    if (k.find("ü") != string::npos) k.clear();
    if (s.p[3] < 0) k += ' ';
    return k;
  }
  void typeSyllable() {
    const Dict& d = ref().plain() ? f.pd : f.d;
    const Syl& s = r.chance(1, 40) ? r.pick(realSyllables()) : r.pick(d.sylP);
    for (char c : sylKeys(s)) {
      Kind k = ref().kind();
      if (k != EMPTY && k != INPUT && k != MARK && k != ASSOC && k != ASSOCPLAIN && !(k == CHOOSE && ref().plain())) return;
      if (c == ' ' && (k == CHOOSE || k == ASSOCPLAIN)) return;
      type(c);
    }
    vf::count("syllables");
  }
  Press shifted(fcitx::KeySym s) { return named(s, KeyStates(KeyState::Shift)); }
  Press ctrl(fcitx::KeySym s) { return named(s, KeyStates(KeyState::Ctrl)); }
  Press ordinary() {
    switch (r.below(20)) {
      case 0: return named(FcitxKey_BackSpace);
      case 1: return named(FcitxKey_Delete);
      case 2: return named(FcitxKey_Return);
      case 3: return named(FcitxKey_Escape);
      case 4: return named(FcitxKey_Tab);
      case 5: return named(r.chance(1, 2) ? FcitxKey_Left : FcitxKey_Right);
      case 6: return named(r.chance(1, 2) ? FcitxKey_Home : FcitxKey_End);
      case 7: return shifted(r.chance(2, 3) ? FcitxKey_Left : FcitxKey_Right);
      case 8: return named(FcitxKey_Down);
      case 9: return plainKey('`');
      case 10: return plainKey(static_cast<char>('A' + r.below(26)));
      case 11: return plainKey(r.pick(vector<char>{'<', '>', '?', '!', ':', '"', ',', '.'}));
      case 12: return r.chance(1, 2) ? shifted(FcitxKey_space) : plainKey(' ');
      case 13: return ctrl(FcitxKey_Return);
      case 14: return shifted(FcitxKey_Return);
      case 15: return ctrl(r.pick(vector<fcitx::KeySym>{FcitxKey_comma, FcitxKey_period, FcitxKey_1, FcitxKey_slash, FcitxKey_semicolon, FcitxKey_apostrophe}));
      case 16: return r.chance(1, 3) ? ctrl(FcitxKey_backslash) : plainKey(static_cast<char>('a' + r.below(26)));
      default: return plainKey(static_cast<char>(33 + r.below(94)));
    }
  }
  // any physical key with modifiers, but for those fcitx or the keyboard keeps
  Press anyKey() {
    static const vector<fcitx::KeySym> syms = {FcitxKey_BackSpace, FcitxKey_Return, FcitxKey_KP_Enter, FcitxKey_Escape, FcitxKey_Delete, FcitxKey_KP_Delete, FcitxKey_Tab, FcitxKey_Left, FcitxKey_KP_Left, FcitxKey_Right, FcitxKey_KP_Right, FcitxKey_Home, FcitxKey_KP_Home, FcitxKey_End, FcitxKey_KP_End, FcitxKey_Up, FcitxKey_KP_Up, FcitxKey_Down, FcitxKey_KP_Down, FcitxKey_KP_0, FcitxKey_KP_1, FcitxKey_KP_2, FcitxKey_KP_3, FcitxKey_KP_4, FcitxKey_KP_5, FcitxKey_KP_6, FcitxKey_KP_7, FcitxKey_KP_8, FcitxKey_KP_9, FcitxKey_KP_Decimal, FcitxKey_KP_Add, FcitxKey_KP_Subtract, FcitxKey_KP_Multiply, FcitxKey_KP_Divide, FcitxKey_Page_Up, FcitxKey_Page_Down, FcitxKey_KP_Page_Up, FcitxKey_KP_Page_Down, FcitxKey_F1, FcitxKey_F5, FcitxKey_F12, FcitxKey_Insert, FcitxKey_Print, FcitxKey_Pause, FcitxKey_Menu, FcitxKey_eacute, FcitxKey_dead_acute, FcitxKey_EuroSign, FcitxKey_Hangul, FcitxKey_Num_Lock, FcitxKey_Control_L, FcitxKey_Shift_L};
    KeyStates st;
    auto mods = [&] {
      switch (r.below(8)) {
        case 0: st |= KeyState::Shift; break;
        case 1: st |= KeyState::Ctrl; break;
        case 2: st |= KeyState::Alt; break;
        case 3: st |= KeyState::Super; break;
        case 4: st |= KeyState::Ctrl; st |= KeyState::Shift; break;
        case 5: st |= KeyState::Ctrl; st |= KeyState::Alt; break;
        default: break;
      }
      if (r.chance(1, 4)) st |= KeyState::NumLock;
    };
    switch (r.below(5)) {
      case 0: {  // letters and digits with Ctrl, Alt, Super
        Press p = plainKey(static_cast<char>(r.chance(1, 2) ? 'a' + r.below(26) : 33 + r.below(94)));
        p.st |= r.chance(1, 2) ? KeyState::Ctrl : r.chance(1, 2) ? KeyState::Alt : KeyState::Super;
        return p;
      }
      case 1: {
        Press p = plainKey(static_cast<char>(32 + r.below(95)));
        if (r.chance(1, 2)) p.st |= KeyState::NumLock;
        return p;
      }
      default: {
        mods();
        fcitx::KeySym s = r.pick(syms);
        Press p = named(s, st);
        if (s == FcitxKey_KP_Enter && st.test(KeyState::Shift)) p.st = KeyStates();
        if (FKey(s).isModifier()) p.st = KeyStates();
        p.release = r.chance(1, 15);
        return p;
      }
    }
  }
  void windowAction() {
    Ref& m = ref();
    bool sw = m.shiftWindow();
    size_t n = m.entries().size();
    if (m.hi < 0) vf::count("actions_without_highlight");
    switch (r.below(16)) {
      case 0:
      case 1:
      case 2: {  // a selection key
        size_t i = r.below(r.chance(1, 6) ? 9 : std::min(m.ps(), n));
        if (sw) {
          static const string sh = "!@#$%^&*(";
          press(plainKey(sh[i]));
        } else if (r.chance(1, 4)) {
          press(named(static_cast<fcitx::KeySym>(FcitxKey_KP_1 + i)));
        } else {
          const string& keys = m.live.at("SelectionKeys");
          type(keys[i]);
        }
        vf::count("selection_keys");
        return;
      }
      case 3:
      case 4: type(' '); return;
      case 5: press(named(r.pick(vector<fcitx::KeySym>{FcitxKey_Page_Up, FcitxKey_Page_Down, FcitxKey_KP_Page_Up, FcitxKey_KP_Page_Down}))); return;
      case 6:
        if (prop == "C35") return click();
        [[fallthrough]];
      case 7:
        if (prop == "C35") return uiPage();
        [[fallthrough]];
      case 8: press(named(r.chance(1, 2) ? FcitxKey_Escape : FcitxKey_BackSpace)); return;
      case 9:
        if (sw) return press(shifted(FcitxKey_Return));
        return press(named(prop != "C34" && r.chance(1, 4) ? FcitxKey_KP_Enter : FcitxKey_Return));
      case 10: return type('?');
      case 11:
        if (m.live.at("AllowMovingCursorWhenChoosingCandidates") == "True" && r.chance(1, 2)) return type(r.chance(1, 2) ? 'j' : 'k');
        return press(shifted(r.chance(1, 2) ? FcitxKey_Left : FcitxKey_Right));
      case 12: return press(shifted(FcitxKey_Return));
      case 13:
        if (r.chance(1, 3)) return press(ordinary());
        [[fallthrough]];
      default: {
        static const vector<fcitx::KeySym> moves = {FcitxKey_Up, FcitxKey_Down, FcitxKey_Left, FcitxKey_Right};
        static const vector<fcitx::KeySym> kp = {FcitxKey_KP_Up, FcitxKey_KP_Down, FcitxKey_KP_Left, FcitxKey_KP_Right};
        for (uint64_t c = 1 + r.below(r.chance(1, 4) ? 14 : 3); c && isWindow(ref().kind()); --c) press(named(r.pick(prop != "C34" && r.chance(1, 4) ? kp : moves)));
      }
    }
  }
  void click() {
    auto list = foc->inputPanel().candidateList();
    if (!list || !list->size()) return;
    size_t i = r.below(static_cast<uint64_t>(list->size()));
    begin("C35 C34");
    note("click " + std::to_string(i));
    Kind k = ref().kind();
    (void)k;
    size_t g = ref().page * ref().ps() + i;
    gShim->both([&] { list->candidate(static_cast<int>(i)).select(foc); }, [&] {
      ref().cur = foc;
      ref().pick(g);
    });
    compare();
    vf::count("clicks");
  }
  void uiPage() {
    auto list = foc->inputPanel().candidateList();
    auto* p = list ? list->toPageable() : nullptr;
    auto* c = dynamic_cast<fcitx::CommonCandidateList*>(list.get());
    if (!p || !c) return;
    begin("C35");
    if (r.chance(1, 2)) {
      if (!p->hasNext()) return;
      note("next page button");
      p->next();
      ++ref().page;
    } else {
      if (!p->hasPrev()) return;
      note("previous page button");
      p->prev();
      --ref().page;
    }
    ref().hi = c->cursorIndex() < 0 ? -1 : c->globalCursorIndex();
    foc->updateUserInterface(fcitx::UserInterfaceComponent::InputPanel);
    compare();
    vf::count("ui_paging");
  }
  // A plain-mode or associated-phrases key that would end a window without a
  // highlight is not settled; neither is a look-up.
  void configure() {
    Conf part;
    for (auto& kv : kDefaultConf)
      if (r.chance(1, 4)) part[kv.first] = drawOption(r, kv.first);
    // effective at the latest with the next activation
    focus(nullptr);
    string s;
    for (auto& kv : part) s += kv.first + "=" + kv.second + " ";
    note("configure " + s);
    for (auto& kv : part) ref().live[kv.first] = kv.second;
    if (r.chance(1, 3)) {
      // edited behind the engine's back
      fcitx::RawConfig all;
      eng().getConfig()->save(all);
      string t;
      for (auto& kv : ref().live) t += kv.first + "=" + quoteIni(kv.second) + "\n";
      fs::create_directories(fs::path(confPath()).parent_path());
      writeFile(confPath(), t);
      eng().reloadConfig();
    } else {
      eng().setConfig(raw(part));
      savedConf("after setting the configuration");
    }
    liveConf("after " + last);
    focus(r.pick(ics).get());
    vf::count("configured");
  }
  void sameConf(const fcitx::RawConfig& rc, const string& when) {
    for (auto& kv : ref().live) {
      auto* v = rc.valueByPath(kv.first);
      JUDGE("C36", v && *v == kv.second, when << ": " << kv.first << " is " << (v ? *v : "missing") << ", expected " << kv.second);
    }
    vf::count("configurations_compared");
  }
  void liveConf(const string& when) {
    fcitx::RawConfig rc;
    eng().getConfig()->save(rc);
    sameConf(rc, when);
  }
  void savedConf(const string& when) {
    McBopomofoConfig c;
    fcitx::readAsIni(c, "conf/mcbopomofo.conf");
    fcitx::RawConfig rc;
    c.save(rc);
    sameConf(rc, when + ", in the file");
  }
  // The user's files are edited while nothing is composed.
  int edits = 0;
  void editFiles() {
    focus(nullptr);
    string what;
    auto time = [&](const string& p) { fs::last_write_time(p, fs::file_time_type::clock::now() - std::chrono::hours(24 * 365) + std::chrono::seconds(++edits)); };
    auto reading = [&] { return r.pick(r.chance(1, 2) ? f.d.syl : f.pd.syl); };
    auto offered = [&](const string& k) {
      auto* v = r.chance(1, 2) ? f.d.find(k) : f.pd.find(k);
      return v && !v->empty() && r.chance(2, 3) ? r.pick(*v).value : r.pick(pool());
    };
    for (auto* n : {"data.txt", "exclude-phrases.txt"})
      if (r.chance(1, 2)) {
        string t, path = userDir() + "/" + n;
        for (uint64_t i = r.below(8); i; --i) {
          string k = reading();
          t += (n[0] == 'd' ? r.pick(pool()) : offered(k)) + " " + k + "\n";
        }
        if (r.chance(1, 2)) putFile(path, t);
        else writeFile(path, t);
        time(path);
        what += string(" ") + n;
      }
    string repl = userDir() + "/phrases-replacement.txt";
    if (r.chance(1, 2)) {
      std::error_code ec;
      if (r.chance(1, 4)) {
        fs::remove(repl, ec);
      } else {
        string t;
        for (uint64_t i = r.below(8); i; --i) t += offered(reading()) + " " + r.pick(pool()) + "\n";
        putFile(repl, t);
        time(repl);
      }
      what += " phrases-replacement.txt";
    }
    note("edited" + what);
    ref().filesEdited = true;
    focus(r.pick(ics).get());
    vf::count("files_edited");
    if (ref().plain()) vf::count("files_edited_plain");
  }
  // From an entry on a later page to its phrases, and back
  void associatedOfLater() {
    auto* c = ref().is<InputStates::ChoosingCandidate>();
    if (!c || ref().plain() || ref().hi < 0) return;
    vector<size_t> at;
    for (size_t g = ref().ps(); g < c->candidates.size(); ++g)
      for (auto& a : f.d.assoc)
        if (a.v.size() > 1 && a.v[0] == c->candidates[g].value && a.r[0] == c->candidates[g].reading) {
          at.push_back(g);
          break;
        }
    if (at.empty()) return;
    long to = static_cast<long>(r.pick(at));
    auto key = ref().hint() == fcitx::CandidateLayoutHint::Vertical ? FcitxKey_Down : FcitxKey_Right;
    for (size_t n = c->candidates.size(); n && ref().kind() == CHOOSE && ref().hi >= 0 && ref().hi != to; --n) press(named(key));
    if (ref().kind() != CHOOSE || ref().hi != to) return;
    press(shifted(FcitxKey_Return));
    if (ref().kind() != ASSOC) return;
    vf::count("associated_of_later");
    press(named(r.chance(1, 2) ? FcitxKey_Escape : FcitxKey_BackSpace));
  }
  void toggle() {
    bool half = r.chance(1, 2);
    auto* a = gInst->userInterfaceManager().lookupAction(half ? "mcbopomofo-half-width-punctuation" : "mcbopomofo-associated-phrases");
    JUDGE("C36", a != nullptr, "an action is missing");
    if (!foc) focus(r.pick(ics).get());
    begin("C36");
    const string key = half ? "HalfWidthPunctuationEnable" : "AssociatedPhrasesEnabled";
    bool to = !on(ref().live, key);
    note(key + (to ? " on" : " off"));
    ref().live[key] = to ? "True" : "False";
    gShim->both([&] { a->activate(foc); }, [&] {
      if (half) ref().kh->setHalfWidthPunctuationEnabled(to);
      else ref().kh->setAssociatedPhrasesEnabled(to);
    });
    compare();
    string label = a->shortText(foc);
    if (half) JUDGE("C36", (label.find("Half") != string::npos) == to, "half-width punctuation is " << (to ? "on" : "off") << " but labelled " << label);
    else JUDGE("C36", (label.find("On") != string::npos) == to, "associated phrases are " << (to ? "on" : "off") << " but labelled " << label);
    liveConf("after " + last);
    savedConf("after " + last);
    vf::count("toggled");
  }
  void openFile() {
    bool user = r.chance(1, 2);
    auto* a = gInst->userInterfaceManager().lookupAction(user ? "mcbopomofo-user-phrases-edit" : "mcbopomofo-user-excluded-phrases-edit");
    JUDGE("C36", a != nullptr, "an action is missing");
    if (!foc) focus(r.pick(ics).get());
    begin("C36");
    note(user ? "edit user phrases" : "edit excluded phrases");
    string label = a->shortText(foc);
    JUDGE("C36", label.find(user ? "User" : "Excluded") != string::npos, "the menu entry for " << (user ? "user" : "excluded") << " phrases is labelled " << vf::jstr(label));
    gShim->both([&] { a->activate(foc); }, [&] {
      string with = ref().live.at("OpenUserPhraseFilesWith");
      if (with.empty()) with = "xdg-open";
      ref().started.push_back({with, userDir() + (user ? "/data.txt" : "/exclude-phrases.txt")});
    });
    compare();
    vf::count("files_opened");
  }
  void restart() {
    focus(nullptr);
    note("restart");
    gShim->eng.reset();
    gShim->eng = std::make_unique<McBopomofoEngine>(gInst);
    Conf c = ref().live;
    gShim->ref.reset();
    gShim->ref = std::make_unique<Ref>();
    ref().live = c;
    ref().filesEdited = edits > 0;
    liveConf("after a restart");
    focus(r.pick(ics).get());
    vf::count("restarts");
  }
  void addPhrase() {
    size_t lines = slurp(userDir() + "/data.txt").size();
    size_t had = ref().rel->added.size();
    for (uint64_t n = 1 + r.below(5); n && (ref().kind() == INPUT || ref().kind() == MARK); --n) press(shifted(r.chance(4, 5) ? FcitxKey_Left : FcitxKey_Right));
    if (ref().kind() != MARK) return;
    if (r.chance(1, 3)) return type('?');
    press(named(FcitxKey_Return));
    string now = slurp(userDir() + "/data.txt");
    if (ref().rel->added.size() > had) {
      auto& a = ref().rel->added.back();
      string want = a.second + " " + a.first + "\n";
      JUDGE("C34 C36", now.size() > lines && now.size() >= want.size() && now.substr(now.size() - want.size()) == want, "the added phrase " << want << " is not at the end of the user's file");
      vf::count("phrases_added");
    } else {
      JUDGE("C34 C36", now.size() == lines, "the user's file changed but nothing was added");
    }
  }
  void step() {
    gFakeNow += r.chance(1, 20) ? 3600.0 * static_cast<double>(r.below(30)) : 1;
    Kind k = foc ? ref().kind() : EMPTY;
    if (several && r.chance(1, 15)) return useAnother();
    unsigned big = prop == "C34" ? 12 : prop == "C36" ? 30 : 60;
    if (r.chance(1, big)) {
      switch (r.below(6)) {
        case 0: return resetIc();
        case 1: return switchIm();
        case 2: return focus(nullptr);
        case 3:
          if (prop == "C34" && r.chance(1, 5)) return quit();
          if (prop == "C34" && r.chance(1, 2)) return useAnother();
          return focus(r.pick(ics).get());
        default: return focus(r.pick(ics).get());
      }
    }
    if (prop == "C35" && r.chance(1, 50)) return configure();
    if (prop == "C30" && r.chance(1, 12)) return editFiles();
    if (prop == "C36") {
      if (r.chance(1, 40)) return configure();
      if (r.chance(1, 40)) return toggle();
      if (r.chance(1, 60)) return editFiles();
      if (r.chance(1, 60)) return openFile();
      if (r.chance(1, 150)) return restart();
      if (r.chance(1, 3)) {
        return press(anyKey());
      }
    }
    if (prop == "C35" && k == CHOOSE && r.chance(1, 8)) associatedOfLater();
    if (foc) k = ref().kind();
    if (isWindow(k)) return windowAction();
    if (k == ENCL || k == CNUM) return r.chance(1, 6) ? press(ordinary()) : type(r.chance(1, 8) ? '.' : static_cast<char>('0' + r.below(10)));
    if (r.chance(1, 2)) return typeSyllable();
    if (k == INPUT && r.chance(1, prop == "C35" ? 2 : 8)) return r.chance(1, 2) && !ref().plain() ? type(' ') : press(named(FcitxKey_Down));
    if (k == INPUT && r.chance(1, 8)) return addPhrase();
    if (prop == "C35" && r.chance(1, 4)) return press(r.chance(1, 2) ? ctrl(FcitxKey_backslash) : plainKey('`'));
    press(ordinary());
  }
  void run() {
    start();
    size_t n = vf::thorough() ? 60 + r.below(200) : 40 + r.below(100);
    for (size_t i = 0; i < n; ++i) step();
    focus(nullptr);
  }
};

void model(uint64_t idx, Rng& r) {
  gFakeNow = 1.7e9 + static_cast<double>(r.below(100000000));
  string trail;
  {
    Session s(r, vf::G().prop);
    try {
      s.run();
    } catch (const Abandon&) {
    } catch (const Abandoned&) {
    }
    trail = s.trail;
  }
  gFakeNow = 0;
  vf::distinct(trail);
  if (idx < 2) vf::sample(trail.substr(0, 1400));
}

// ---- C37: anything goes ---------------------------------------------------------
struct Wild : Session {
  bool sound = true;  // the data are well-formed
  std::unique_ptr<fcitx::FocusGroup> group2;
  int born = 0;
  size_t gen = 0;
  Conf live = kDefaultConf;
  string imNow = "mcbopomofo";
  Wild(Rng& rr) : Session(rr, "C37") {}
  ~Wild() override {
    for (auto& ic : ics) ic.reset();
    ics.clear();
    group2.reset();
  }
  string junkBytes(size_t n) {
    string o;
    while (n--) o += static_cast<char>(r.below(256));
    return o;
  }
  string garbage() {
    static const string head = "# format org.openvanilla.mcbopomofo.sorted\n";
    switch (r.below(8)) {
      case 0: return "";
      case 1: return head;
      case 2: return head + junkBytes(r.below(200));
      case 3: return junkBytes(r.below(200));
      case 4: return head + "x y -1\nz";
      case 5: {
        string t = dictText(f.d);
        return t.substr(0, r.below(t.size()));
      }
      case 6: return head + "a \xe4\xb8 -3\nb \xff -2\n";
      default: return head + "\n\n \n  \n";
    }
  }
  void dataFile(const string& n, const string& good) {
    std::error_code ec;
    string p = dataDir() + "/" + n;
    switch (r.below(4)) {
      case 0: note(n + " missing"); fs::remove_all(p, ec); sound = false; break;
      case 1: note(n + " garbage"); fs::remove_all(p, ec); putFile(p, garbage()); sound = false; break;
      default: note(n + " replaced"); fs::remove_all(p, ec); putFile(p, good);
    }
    vf::count("system_files_changed");
  }
  void systemFile() {
    switch (r.below(4)) {
      case 0: return dataFile("mcbopomofo-data.txt", dictText(f.d));
      case 1: return dataFile("mcbopomofo-data-plain-bpmf.txt", dictText(f.pd));
      case 2: return dataFile("mcbopomofo-associated-phrases-v2.txt", assocText(f.d));
      default: {
        static const vector<string> js = {"", "{", "[]", "{\"services\":3}", "{\"services\":[{}]}", "{\"services\":[{\"name\":\"\",\"url_template\":\"(encoded)\"}]}", "null", "{\"services\":[null,1,\"x\",{\"name\":1,\"url_template\":2}]}"};
        writeFile(dataDir() + "/mcbopomofo-dictionary-service.json", r.chance(1, 4) ? junkBytes(r.below(60)) : r.pick(js));
      }
    }
  }
  virtual void userFile() {
    static const vector<string> names = {"data.txt", "exclude-phrases.txt", "phrases-replacement.txt"};
    string n = r.pick(names), p = userDir() + "/" + n;
    note("change " + n);
    std::error_code ec;
    switch (r.below(6)) {
      case 0: fs::remove_all(p, ec); break;
      case 1: fs::remove_all(p, ec); fs::create_directories(p, ec); break;
      case 2:
        if (!fs::is_directory(p, ec)) writeFile(p, junkBytes(r.below(100)));
        sound = false;
        break;
      default: {
        fs::remove_all(p, ec);
        fs::create_directories(userDir(), ec);
        string t;
        for (uint64_t i = r.below(6); i; --i) {
          string key = r.pick(f.d.syl);
          for (uint64_t k = r.below(3); k; --k) key += "-" + r.pick(f.d.syl);
          t += r.pick(pool()) + r.pick(pool()) + " " + key + "\n";
        }
        writeFile(p, t);
      }
    }
    vf::count("user_files_changed");
  }
  string value(const string& k) {
    if (r.chance(7, 8)) return drawOption(r, k);
    static const vector<string> bad = {"", "0", "-1", "10", "99999999999999999999", "nonsense", "true", "\xff\xfe"};
    return r.pick(bad);
  }
  void setting() {
    Conf part;
    for (auto& kv : kDefaultConf)
      if (r.chance(1, 3)) part[kv.first] = value(kv.first);
    string t;
    for (auto& kv : part) t += kv.first + "=" + kv.second + " ";
    switch (r.below(3)) {
      case 0:
        note("set " + t);
        eng().setConfig(raw(part));
        break;
      case 1: {
        note("reload " + t);
        string s;
        for (auto& kv : part) s += kv.first + "=" + quoteIni(kv.second) + "\n";
        if (r.chance(1, 4)) s += junkBytes(r.below(50));
        std::error_code ec;
        fs::create_directories(fs::path(confPath()).parent_path());
        fs::remove_all(confPath(), ec);
        if (r.chance(7, 8)) writeFile(confPath(), s);
        eng().reloadConfig();
        break;
      }
      default:
        note("keep the settings");
        eng().save();
        eng().reloadConfig();
    }
    fcitx::RawConfig rc;
    eng().getConfig()->save(rc);
    if (auto* v = rc.valueByPath("BopomofoKeyboardLayout")) live["BopomofoKeyboardLayout"] = *v;
    vf::count("settings");
  }
  IC* anyIc() { return r.pick(ics).get(); }
  void newIc() {
    string n = "app" + std::to_string(born++);
    ics.push_back(std::make_unique<IC>(gInst->inputContextManager(), n));
    auto& ic = *ics.back();
    ic.name = n;
    capability(ic);
    switch (r.below(4)) {
      case 0: break;
      case 1: ic.setFocusGroup(group2.get()); break;
      default: ic.setFocusGroup(group.get());
    }
    if (r.chance(1, 2)) gInst->setCurrentInputMethod(&ic, r.pick(kIms), r.chance(1, 2));
    if (!foc) foc = &ic;
    vf::count("contexts");
  }
  void capability(IC& ic) {
    fcitx::CapabilityFlags fl;
    if (r.chance(3, 4)) fl |= fcitx::CapabilityFlag::Preedit;
    if (r.chance(1, 6)) fl |= fcitx::CapabilityFlag::ClientUnfocusCommit;
    if (r.chance(1, 20)) fl |= fcitx::CapabilityFlag::Password;
    if (r.chance(1, 10)) fl |= fcitx::CapabilityFlag::ClientSideInputPanel;
    if (r.chance(1, 20)) fl |= fcitx::CapabilityFlag::Disable;
    ic.setCapabilityFlags(fl);
  }
  void press(const Press& p) override {
    if (!foc->hasFocus() && r.chance(9, 10)) foc->focusIn();
    note(keyText(p) + "@" + foc->name);
    fcitx::KeyEvent e(foc, FKey(p.sym, p.st, p.code), p.release);
    bool taken = foc->keyEvent(e);
    pressed(taken);
    vf::count("keys");
    check();
  }
  virtual void pressed(bool) {}
  virtual void check() {
    rethrow();
    size_t windows = 0, texts = 0;
    for (auto& icp : ics) {
      IC& ic = *icp;
      if (sound)
        for (auto& g : ic.got) JUDGE("C37", validUtf8(g), "after " << last << ": broken text " << vf::jstr(g) << " is delivered");
      vf::count("commits", ic.got.size());
      ic.got.clear();
      for (auto* t : {&ic.inputPanel().preedit(), &ic.inputPanel().clientPreedit()}) {
        string x = t->toString();
        if (sound) JUDGE("C37", validUtf8(x), "after " << last << ": broken text " << vf::jstr(x) << " is shown");
        JUDGE("C37", t->cursor() <= static_cast<int>(x.size()) && t->cursor() >= -1, "after " << last << ": the cursor is at " << t->cursor() << " in " << vf::jstr(x));
        texts += !x.empty();
      }
      if (auto l = ic.inputPanel().candidateList()) {
        for (int i = 0; i < l->size(); ++i) (void)l->candidate(i).text().toString(), (void)l->label(i).toString();
        JUDGE("C37", l->cursorIndex() < l->size(), "after " << last << ": the highlight is at " << l->cursorIndex() << " of " << l->size());
        ++windows;
      }
    }
    vf::count("windows", windows);
    vf::count("texts", texts);
  }
  void typeLetters() {
    int lay = kConfLayoutIndex[std::min<size_t>(5, idxOf(kConfLayouts, live.at("BopomofoKeyboardLayout")))];
    bool pl = imNow != "mcbopomofo" && r.chance(3, 4);
    const Syl& s = r.pick(pl ? f.pd.sylP : f.d.sylP);
    string k = lay < 5 ? keysOf(layouts()[static_cast<size_t>(lay)], s) : refPinyin(s, true);
    if (k.find("ü") != string::npos) k.clear();
    if (s.p[3] < 0) k += ' ';
    for (char c : k) type(letter(c));
    vf::count("syllables");
  }
  virtual char letter(char c) { return c; }
  Press oddKey() {
    Press p = r.chance(1, 2) ? anyKey() : plainKey(static_cast<char>(32 + r.below(95)));
    static const vector<fcitx::KeySym> odd = {FcitxKey_None, FcitxKey_VoidSymbol, FcitxKey_Cancel, static_cast<fcitx::KeySym>(0x01002500), static_cast<fcitx::KeySym>(0x7f), static_cast<fcitx::KeySym>(0x80), static_cast<fcitx::KeySym>(0x1), FcitxKey_ISO_Left_Tab, FcitxKey_AudioPlay};
    if (r.chance(1, 6)) p.sym = r.pick(odd);
    if (r.chance(1, 20)) p.sym = static_cast<fcitx::KeySym>(r.below(0x110000));
    if (r.chance(1, 6)) p.code = r.chance(1, 2) ? static_cast<int>(r.below(256)) : r.chance(1, 2) ? -1 : 0x7fffffff;
    if (r.chance(1, 4)) p.code = 10 + static_cast<int>(r.below(9));
    if (r.chance(1, 12)) p.st |= KeyState::CapsLock;
    if (r.chance(1, 10)) p.st = KeyStates(static_cast<uint32_t>(r.below(256)));
    if (r.chance(1, 20)) p.st |= KeyState::Virtual;
    if (r.chance(1, 8)) p.release = true;
    return p;
  }
  void windowThing(IC* ic) {
    auto list = ic->inputPanel().candidateList();
    if (!list) return;
    switch (r.below(12)) {
      case 0:
      case 1: {
        if (!list->size()) return;
        int i = static_cast<int>(r.below(static_cast<uint64_t>(list->size())));
        note("click " + std::to_string(i) + "@" + ic->name);
        gShim->guarded([&] { list->candidate(i).select(ic); });
        vf::count("clicks");
        break;
      }
      case 2:
      case 3:
        if (auto* p = list->toPageable()) {
          note("page@" + ic->name);
          if (r.chance(1, 2) && p->hasNext()) p->next();
          else if (p->hasPrev()) p->prev();
          if (r.chance(1, 2)) ic->updateUserInterface(fcitx::UserInterfaceComponent::InputPanel);
          vf::count("ui_paging");
        }
        break;
      case 4:
        if (auto* m = list->toCursorMovable()) {
          note("cursor@" + ic->name);
          if (r.chance(1, 2)) m->nextCandidate();
          else m->prevCandidate();
        }
        break;
      case 5:
        if (auto* c = dynamic_cast<fcitx::CommonCandidateList*>(list.get()))
          if (r.chance(1, 2)) {
            note("no highlight@" + ic->name);
            c->setGlobalCursorIndex(-1);
          }
        break;
      default: {
        static const vector<Press> keys = {named(FcitxKey_Return), named(FcitxKey_KP_Enter), named(FcitxKey_Return, KeyStates(KeyState::Shift)), plainKey('?'), named(FcitxKey_Escape), named(FcitxKey_BackSpace), named(FcitxKey_Up), named(FcitxKey_Down), named(FcitxKey_Left), named(FcitxKey_Right), plainKey(' '), named(FcitxKey_Page_Down), named(FcitxKey_Page_Up), plainKey('1'), plainKey('2'), plainKey('4'), plainKey('9'), plainKey('!'), plainKey('@'), plainKey('('), plainKey('a'), plainKey('j'), plainKey('k'), named(FcitxKey_Left, KeyStates(KeyState::Shift)), named(FcitxKey_Right, KeyStates(KeyState::Shift)), named(FcitxKey_KP_1), named(FcitxKey_KP_Down)};
        foc = ic;
        press(r.pick(keys));
        return;
      }
    }
    check();
  }
  void event() {
    gFakeNow += r.chance(1, 10) ? 3600.0 * static_cast<double>(r.below(200)) : 1;
    if (r.chance(1, 12)) foc = anyIc();
    IC* ic = foc;
    if (r.chance(1, 3) && ic->inputPanel().candidateList()) return windowThing(ic);
    switch (r.below(60)) {
      case 0:
        ic = anyIc();
        note("focus " + ic->name);
        ic->focusIn();
        if (r.chance(3, 4)) foc = ic;
        vf::count("focus_changes");
        break;
      case 1:
        ic = anyIc();
        note("unfocus " + ic->name);
        ic->focusOut();
        vf::count("focus_changes");
        break;
      case 2:
        ic = anyIc();
        note("reset " + ic->name);
        ic->reset(fcitx::ResetReason::Client);
        vf::count("resets");
        break;
      case 3:
        imNow = r.pick(kIms);
        note("switch " + ic->name + " to " + imNow);
        gInst->setCurrentInputMethod(ic, imNow, r.chance(1, 2));
        vf::count("switches");
        break;
      case 4:
        note("toggle " + ic->name);
        if (r.chance(1, 2)) gInst->toggle();
        else if (r.chance(1, 2)) gInst->activate();
        else gInst->enumerate(r.chance(1, 2));
        vf::count("switches");
        break;
      case 5:
        if (ics.size() < 5) {
          note("new context");
          newIc();
        }
        break;
      case 6:
        if (ics.size() > 1) {
          size_t i = r.below(ics.size());
          note("destroy " + ics[i]->name);
          if (foc == ics[i].get()) foc = nullptr;
          ics.erase(ics.begin() + static_cast<long>(i));
          if (!foc) foc = ics[0].get();
          vf::count("destroyed");
        }
        break;
      case 7:
        ic = anyIc();
        note("capabilities of " + ic->name);
        capability(*ic);
        vf::count("capability_changes");
        break;
      case 8: ic->setFocusGroup(r.chance(1, 3) ? nullptr : r.chance(1, 2) ? group.get() : group2.get()); break;
      case 9: setting(); break;
      case 10: {
        static const vector<string> acts = {"mcbopomofo-half-width-punctuation", "mcbopomofo-associated-phrases", "mcbopomofo-user-phrases-edit", "mcbopomofo-user-excluded-phrases-edit"};
        string n = r.pick(acts);
        note(n);
        if (auto* a = gInst->userInterfaceManager().lookupAction(n)) gShim->guarded([&] { a->activate(ic); });
        vf::count("actions");
        break;
      }
      case 11:
        if (r.chance(1, 2)) systemFile();
        else userFile();
        break;
      case 12:
        note("ask");
        (void)gInst->inputMethodEntry(ic);
        if (auto* e = gInst->inputMethodEntry(ic)) {
          (void)eng().subMode(*e, *ic);
          (void)eng().subModeIcon(*e, *ic);
          (void)eng().subModeLabel(*e, *ic);
          (void)eng().listInputMethods();
          (void)eng().getSubConfig("x");
        }
        break;
      case 13: ic = anyIc(); note("panel of " + ic->name + " closed"); ic->inputPanel().reset(); break;
      case 14: {
        // fcitx's own leave: the window goes but the engine isn't told
        note("restart");
        for (auto& i : ics) i->focusOut();
        for (auto& i : ics) i->inputPanel().reset();
        gShim->eng.reset();
        gShim->eng = std::make_unique<McBopomofoEngine>(gInst);
        vf::count("restarts");
        break;
      }
      case 15:
      case 16:
      case 17:
      case 18: press(oddKey()); return;
      case 19:
      case 20:
      case 21:
      case 22:
      case 23: {
        for (uint64_t n = 1 + r.below(4); n; --n) press(named(r.chance(4, 5) ? FcitxKey_Left : FcitxKey_Right, KeyStates(KeyState::Shift)));
        press(r.chance(1, 2) ? named(FcitxKey_Return) : plainKey('?'));
        return;
      }
      case 24:
      case 25: press(r.chance(1, 2) ? named(FcitxKey_backslash, KeyStates(KeyState::Ctrl)) : plainKey('`')); return;
      case 26:
      case 27:
      case 28:
      case 29:
      case 30:
      case 31: press(ordinary()); return;
      case 32:
      case 33:
      case 34:
      case 35: press(r.chance(1, 2) ? plainKey(' ') : named(FcitxKey_Down)); return;
      case 36: press(named(FcitxKey_Return, KeyStates(KeyState::Shift))); return;
      default: typeLetters(); return;
    }
    check();
  }
  void run() {
    f = drawFiles(r, r.chance(1, 2) ? "C35" : "C37");
    install(r, f);
    for (uint64_t n = r.chance(1, 4) ? 1 + r.below(3) : 0; n; --n) r.chance(2, 3) ? systemFile() : userFile();
    gShim->eng = std::make_unique<McBopomofoEngine>(gInst);
    Conf c = drawConf();
    gShim->eng->setConfig(raw(c));
    live = c;
    group = std::make_unique<fcitx::FocusGroup>("g", gInst->inputContextManager());
    group2 = std::make_unique<fcitx::FocusGroup>("h", gInst->inputContextManager());
    for (uint64_t n = 1 + r.below(3); n; --n) newIc();
    foc->focusIn();
    size_t n = vf::thorough() ? 80 + r.below(300) : 60 + r.below(120);
    for (size_t i = 0; i < n; ++i) event();
    for (auto& ic : ics) ic->focusOut();
    check();
  }
};
void wild(uint64_t idx, Rng& r) {
  gFakeNow = 1.7e9 + static_cast<double>(r.below(100000000));
  string trail;
  {
    Wild s(r);
    s.run();
    trail = s.trail;
  }
  gFakeNow = 0;
  vf::distinct(trail);
  if (idx < 2) vf::sample(trail.substr(0, 1400));
}


// ---- C40: what it uses stays bounded ------------------------------------------------
int gSeeksLeft = -1;  // the one after these fails
bool seekFails() {
  if (gSeeksLeft < 0 || gSeeksLeft-- > 0) return false;
  vf::count("faults");
  errno = EIO;
  return true;
}
extern "C" int fseek(FILE* f, long off, int whence) { return seekFails() ? -1 : fseeko(f, off, whence); }
extern "C" long ftell(FILE* f) { return seekFails() ? -1 : ftello(f); }

struct Usage {
  int64_t bytes = 0, fds = 0, maps = 0, tasks = 0;
};
Usage usage() {
  Usage u;
  auto entries = [](const char* dir) {
    int64_t n = 0;
    if (DIR* d = opendir(dir)) {
      while (readdir(d)) ++n;
      closedir(d);
    }
    return n;
  };
  u.fds = entries("/proc/self/fd");
  u.tasks = entries("/proc/self/task");
  {
    // files of the input method that are mapped
    std::ifstream in("/proc/self/maps");
    string l;
    while (getline(in, l)) u.maps += l.find(".txt") != string::npos || l.find(".json") != string::npos;
  }
#if __has_feature(address_sanitizer)
  u.bytes = static_cast<int64_t>(__sanitizer_get_current_allocated_bytes());
#endif
  return u;
}

struct Steady : Wild {
  bool inner;
  Conf first;
  Steady(Rng& rr, bool in) : Wild(rr), inner(in) {}
  void set() {
    install(r, f);
    for (uint64_t n = r.chance(1, 3) ? 1 + r.below(3) : 0; n; --n) r.chance(2, 3) ? systemFile() : userFile();
  }
  void begin() {
    f = drawFiles(r, r.chance(1, 2) ? "C35" : "C37");
    first = drawConf();
    group = std::make_unique<fcitx::FocusGroup>("g", gInst->inputContextManager());
    group2 = std::make_unique<fcitx::FocusGroup>("h", gInst->inputContextManager());
    if (inner) gShim->eng = std::make_unique<McBopomofoEngine>(gInst);
  }
  // The same things happen, from the same beginning.
  void cycle(const Rng& from, size_t n) {
    r = from;
    set();
    sound = true;
    born = 0;
    imNow = "mcbopomofo";
    gSeeksLeft = r.chance(1, 4) ? static_cast<int>(r.below(6)) : -1;
    if (!inner) gShim->eng = std::make_unique<McBopomofoEngine>(gInst);
    eng().setConfig(raw(first));
    live = first;
    for (uint64_t k = 1 + r.below(3); k; --k) newIc();
    foc->focusIn();
    for (size_t i = 0; i < n; ++i) {
      event();
      vf::count("events");
    }
    for (auto& ic : ics) ic->focusOut();
    foc = nullptr;
    for (auto& ic : ics) ic.reset();
    ics.clear();
    if (!inner) gShim->eng.reset();
    gSeeksLeft = -1;
    gTips.clear();
    gTips.shrink_to_fit();
    string().swap(trail);
    string().swap(last);
    for (auto* v : {&gStarted, &gShim->started, &gShim->wantStarted}) {
      v->clear();
      v->shrink_to_fit();
    }
    if (inner) gFakeNow += 86400.0 * 40;  // what was learned is forgotten
  }
};
void steady(uint64_t idx, Rng& r) {
  gFakeNow = 1.7e9 + static_cast<double>(r.below(100000000));
  Rng own(r.next());
  string head;
  try {
    Steady s(own, idx % 2 == 0);
    s.begin();
    const Rng from = own;
    size_t n = 30 + r.below(vf::thorough() ? 120 : 50);
    static const char* names[4] = {"bytes", "open files", "mapped files", "threads"};
    // A resource that is not given back grows every time; anything that is kept
    // for later stops growing.
    const int kWarm = 2, kTimes = 8;
    int64_t grown[4] = {0, 0, 0, 0};
    bool suspect[4] = {true, true, true, true};
    for (int c = 0; c < kWarm + kTimes; ++c) {
      vf::G().trace.clear();
      Usage a = usage();
      s.cycle(from, n);
      head = vf::G().trace.substr(0, 700);
      Usage b = usage();
      if (c < kWarm) continue;
      int64_t d[4] = {b.bytes - a.bytes, b.fds - a.fds, b.maps - a.maps, b.tasks - a.tasks};
      bool any = false;
      for (int k = 0; k < 4; ++k) {
        grown[k] += d[k];
        suspect[k] = suspect[k] && d[k] > 0;
        any = any || suspect[k];
      }
      vf::count("cycles");
      if (d[0] == 0) vf::count("cycles_without_any_growth");
      if (!any) break;
      vf::count("cycles_with_growth");
    }
    for (int k = 0; k < 4; ++k)
      JUDGE("C40", !suspect[k], "doing the same " << kTimes << " times (" << n << " events, " << (idx % 2 == 0 ? "in one life" : "in a new life each") << ") took more " << names[k] << " each time, " << grown[k] << " altogether");
  } catch (const Abandon&) {
  }
  gFakeNow = 0;
  vf::distinct(head);
  if (idx < 2) vf::sample(head);
}
vf::Reg c40("C40", 2400, 40000, steady);

// ---- C42: the same again gives the same ----------------------------------------------
void defaultGroup() {
  auto& imm = gInst->inputMethodManager();
  auto g = imm.currentGroup();
  g.inputMethodList().clear();
  for (auto& n : kIms) g.inputMethodList().push_back(fcitx::InputMethodGroupItem(n));
  g.setDefaultInputMethod("mcbopomofo");
  imm.setGroup(g);
}
struct Recorded : Wild {
  string record;
  int64_t stamps = 0;
  Recorded(Rng& rr) : Wild(rr) {}
  void put(const string& s) {
    record += s;
    record += '\n';
    vf::note("    " + s);
  }
  // The harness's own changes are far apart in time, as a user's are.
  void userFile() override {
    Wild::userFile();
    for (auto* n : {"data.txt", "exclude-phrases.txt", "phrases-replacement.txt"}) {
      struct stat sb;
      string p = userDir() + "/" + n;
      if (::stat(p.c_str(), &sb) == 0 && sb.st_mtim.tv_sec > 1700000000) {
        struct timespec ts[2] = {{0, UTIME_OMIT}, {1000000 + 10 * ++stamps, 0}};
        if (utimensat(AT_FDCWD, p.c_str(), ts, 0) != 0) _exit(4);
      }
    }
  }
  string local(string s) {
    const string& d = vf::G().scratch;
    for (size_t i; (i = s.find(d)) != string::npos;) s.replace(i, d.size(), "@");
    return s;
  }
  void check() override {
    for (auto& icp : ics) {
      IC& ic = *icp;
      auto& p = ic.inputPanel();
      string t = ic.name + ":";
      for (auto& g : ic.got) t += " commit " + vf::jstr(g);
      for (auto* x : {&p.preedit(), &p.clientPreedit(), &p.auxUp(), &p.auxDown()})
        if (!x->empty()) {
          t += " text";
          for (size_t i = 0; i < x->size(); ++i) t += " " + vf::jstr(x->stringAt(static_cast<int>(i))) + "/" + std::to_string(static_cast<uint32_t>(x->formatAt(static_cast<int>(i))));
          t += " at " + std::to_string(x->cursor());
        }
      if (auto l = p.candidateList()) {
        t += " window " + std::to_string(static_cast<int>(l->layoutHint())) + " at " + std::to_string(l->cursorIndex());
        for (int i = 0; i < l->size(); ++i) t += " " + l->label(i).toString() + vf::jstr(l->candidate(i).text().toString());
      }
      put(t);
    }
    for (auto& s : gShim->started) put("started " + local(vf::S(s)));
    gShim->started.clear();
    for (auto& t : gTips) put("notice " + t.id + t.summary + t.body);
    gTips.clear();
    Wild::check();
  }
  void pressed(bool taken) override { put(taken ? "taken" : "passed on"); }
  void finish() {
    for (auto* n : {"data.txt", "exclude-phrases.txt", "phrases-replacement.txt"}) {
      string p = userDir() + "/" + n;
      std::error_code ec;
      put(string(n) + " " + (fs::is_regular_file(p, ec) ? vf::jstr(slurp(p)) : "none"));
    }
    fcitx::RawConfig rc;
    eng().getConfig()->save(rc);
    for (auto& kv : kDefaultConf)
      if (auto* v = rc.valueByPath(kv.first)) put(kv.first + "=" + *v);
  }
};
void again(uint64_t idx, Rng& r) {
  const Rng from = r;
  double at = 1.7e9 + static_cast<double>(Rng(r).below(100000000));
  string first;
  const int kTimes = getenv("VF_ONCE") ? 1 : 2;
  for (int k = 0; k < kTimes; ++k) {
    Rng mine = from;
    gFakeNow = at;
    defaultGroup();
    gStarted.clear();
    gShim->started.clear();
    gTips.clear();
    vf::note(k ? "-- again" : "-- first");
    string rec, trail;
    {
      Recorded s(mine);
      try {
        s.run();
        s.finish();
      } catch (const Abandon&) {
      }
      rec = s.record;
      trail = s.trail;
    }
    gFakeNow = 0;
    if (k == 0) {
      first = rec;
      vf::distinct(trail);
      if (idx < 2) vf::sample(trail.substr(0, 1400));
      vf::G().results.emplace_back(idx, vf::fnv(rec));
      vf::count("results", static_cast<uint64_t>(std::count(rec.begin(), rec.end(), '\n')));
      if (const char* f = getenv("VF_RECORD")) writeFile(f, rec);
    } else {
      if (rec != first) {
        size_t i = 0;
        while (i < rec.size() && i < first.size() && rec[i] == first[i]) ++i;
        size_t b = i ? first.rfind('\n', i - 1) + 1 : 0;
        JUDGE("C42", false, "the same events after a new start gave " << rec.substr(b, rec.find('\n', i) - b).substr(0, 600) << " instead of " << first.substr(b, first.find('\n', i) - b).substr(0, 600));
      }
      vf::count("repeated");
    }
  }
}
vf::Reg c42("C42", 2000, 40000, again);

// ---- C43: the same in every locale ---------------------------------------------------
// Each locale is a process of its own, started as fcitx starts (setlocale with
// what the environment says); their records are compared.
struct Abroad : Recorded {
  Abroad(Rng& rr) : Recorded(rr) {}
  char letter(char c) override { return c >= 'a' && c <= 'z' && r.chance(1, 12) ? static_cast<char>(c - 32) : c; }
  void probe() {
    string t = dictText(f.d);
    McBopomofoLM lm;
    lm.loadLanguageModel(std::make_unique<ParselessPhraseDB>(t.data(), t.size(), true));
    for (auto& kv : f.d.t) {
      string o = "unigrams " + kv.first;
      for (auto& u : lm.getUnigrams(kv.first)) o += " " + u.value() + " " + std::to_string(static_cast<long long>(std::llround(u.score() * 1e9)));
      put(o);
      vf::count("scores");
    }
    for (int i = 0; i < 20; ++i) put("word " + lm.getReading(r.pick(pool())));
    for (int i = 0; i < 30; ++i) {
      string y = refPinyin(r.pick(f.d.sylP), true);
      for (auto& c : y)
        if (c >= 'a' && c <= 'z' && r.chance(1, 2)) c = static_cast<char>(c - 32);
      put(y + " " + Formosa::Mandarin::BPMF::FromHanyuPinyin(y).composedString());
      vf::count("spellings");
    }
    InputMacroController macros;
    for (auto* d : {"YESTERDAY", "TODAY", "TOMORROW"})
      for (auto* x : {"_SHORT", "_MEDIUM", "_MEDIUM_ROC", "_MEDIUM_CHINESE", "_MEDIUM_JAPANESE", "_WEEKDAY_SHORT", "_WEEKDAY", "_WEEKDAY_JAPANESE", "2_WEEKDAY"}) put(macros.handle(string("MACRO@DATE_") + d + x));
    for (auto* y : {"LAST", "THIS", "NEXT"})
      for (auto* x : {"PLAIN", "PLAIN_WITH_ERA", "ROC", "JAPANESE", "GANZHI", "CHINESE_ZODIAC"}) put(macros.handle(string("MACRO@") + y + "_YEAR_" + x));
    for (auto* x : {"TIME_NOW_SHORT", "TIME_NOW_MEDIUM", "TIMEZONE_STANDARD", "TIMEZONE_GENERIC_SHORT"}) put(macros.handle(string("MACRO@") + x));
  }
};
void abroad(uint64_t idx, Rng& r) {
  gFakeNow = 1.7e9 + static_cast<double>(Rng(r).below(100000000));
  defaultGroup();
  gStarted.clear();
  gShim->started.clear();
  gTips.clear();
  string rec, trail;
  {
    Abroad s(r);
    try {
      s.run();
      s.finish();
      s.probe();
    } catch (const Abandon&) {
    }
    rec = s.record;
    trail = s.trail;
  }
  gFakeNow = 0;
  vf::distinct(trail);
  if (idx < 2) vf::sample(trail.substr(0, 1400));
  vf::G().results.emplace_back(idx, vf::fnv(rec));
  vf::count("results", static_cast<uint64_t>(std::count(rec.begin(), rec.end(), '\n')));
  if (const char* f = getenv("VF_RECORD")) writeFile(f, rec);
}
vf::Reg c43("C43", 900, 16000, abroad);

// ---- C38: the messages -----------------------------------------------------------
const vector<string>& languages() {
  static const vector<string> l = [] {
    vector<string> o = {"", "brackets"};
    string po = env("VERIF_REPO") + "/po", n;
    std::ifstream in(po + "/LINGUAS");
    while (in >> n) {
      vfi18n::gCatalogs[n] = vfi18n::readPo(po + "/" + n + ".po");
      o.push_back(n);
    }
    return o;
  }();
  return l;
}
bool within(const string& t, const string& w) { return t.find(w) != string::npos; }
string lower(string s) {
  for (auto& c : s) c = static_cast<char>(tolower(static_cast<unsigned char>(c)));
  return s;
}
// A message in brackets: its number and its arguments.
struct Msg {
  int n = -1;
  vector<string> args;
};
bool parseMsg(const string& t, Msg& m) {
  static const string a = "⟪", b = "⟫", c = "⟦", d = "⟧";
  if (t.size() < a.size() + b.size() || t.compare(0, a.size(), a) != 0 || t.compare(t.size() - b.size(), b.size(), b) != 0) return false;
  size_t i = a.size(), end = t.size() - b.size();
  size_t j = i;
  while (j < end && isdigit(static_cast<unsigned char>(t[j]))) ++j;
  if (j == i) return false;
  m.n = std::stoi(t.substr(i, j - i));
  i = j;
  while (i < end) {
    if (t.compare(i, c.size(), c) != 0) return false;
    int depth = 1;
    i += c.size();
    size_t from = i;
    while (i < end) {
      if (t.compare(i, c.size(), c) == 0) ++depth;
      if (t.compare(i, d.size(), d) == 0 && !--depth) break;
      ++i;
    }
    if (i >= end) return false;
    m.args.push_back(t.substr(from, i - from));
    i += d.size();
  }
  return true;
}

// What one process has seen: a message means one thing.
struct Meanings {
  std::map<string, string> of;  // meaning -> text
  void means(const string& what, const string& text) {
    auto it = of.emplace(what, text).first;
    JUDGE("C38", it->second == text, "\"" << what << "\" is said as " << vf::jstr(text) << " and as " << vf::jstr(it->second));
    for (auto& kv : of) JUDGE("C38", kv.first == what || kv.second != text, vf::jstr(text) << " says both \"" << what << "\" and \"" << kv.first << "\"");
  }
};

struct Lingual : Session {
  string lang;
  Meanings hints;
  explicit Lingual(Rng& rr, const string& l) : Session(rr, "C38"), lang(l) {}
  string in() const { return lang.empty() ? "untranslated" : "in " + lang; }
  // any text shown: whole, valid, and of this language
  void sane(const string& t, const string& what) {
    JUDGE("C38", !t.empty(), what << " is empty, " << in());
    JUDGE("C38", fcitx::utf8::validate(t), what << " is not valid UTF-8, " << in() << ": " << vf::jstr(t));
    vf::count("texts");
    vf::count("texts_" + (lang.empty() ? string("untranslated") : lang));
  }
  void whole(const string& t, const string& what) { JUDGE("C38", !within(t, "{") && !within(t, "}"), what << " has a place that was not filled, " << in() << ": " << vf::jstr(t)); }
  void known() {
    for (auto& id : vfi18n::gAsked)
      for (auto& c : vfi18n::gCatalogs) JUDGE("C38", c.second.known.count(id), "the message " << vf::jstr(id) << " is not in the catalog of " << c.first);
  }
  // message without arguments
  void simple(const string& t, const string& what) {
    sane(t, what);
    whole(t, what);
    if (lang == "brackets") {
      Msg m;
      JUDGE("C38", parseMsg(t, m) && m.args.empty(), what << " is not a translatable message: " << vf::jstr(t));
    }
  }
  void texts(IC& ic, bool owner, const string& at) override {
    if (!owner) return;
    Ref& m = ref();
    auto* ne = m.is<InputStates::NotEmpty>();
    string aux = ic.inputPanel().auxDown().toString();
    if (ne && !ne->tooltip.empty()) hint(aux, ne->tooltip, at + "the hint");
    auto list = ic.inputPanel().candidateList();
    auto* l = dynamic_cast<fcitx::CommonCandidateList*>(list.get());
    if (!l) return;
    if (auto* d = m.is<InputStates::SelectingDictionary>()) dictionary(*l, d->selectedPhrase, at + "the menu");
    if (auto* c = m.is<InputStates::ShowingCharInfo>()) charInfo(*l, c->selectedPhrase, at + "the character information");
  }
  void hint(const string& t, const string& meaning, const string& what) {
    static const string sep = "|";
    sane(t, what);
    Msg m;
    if (lang == "brackets") JUDGE("C38", parseMsg(t, m), what << " is not a translatable message: " << vf::jstr(t));
    if (meaning.rfind("BETWEEN ", 0) == 0) {
      string two = meaning.substr(8);
      string a = two.substr(0, two.find(' ')), b = two.substr(two.find(' ') + 1);
      size_t pa = t.find(a);
      JUDGE("C38", pa != string::npos && within(t, b), what << " is " << vf::jstr(t) << ", it should hold " << a << " and " << b << ", " << in());
      if (lang.empty()) JUDGE("C38", t.find(b, pa + a.size()) != string::npos, what << " is " << vf::jstr(t) << ", it should hold " << a << " before " << b);
      if (lang == "brackets") {
        JUDGE("C38", (m.args == vector<string>{a, b}), what << " is " << vf::jstr(t) << ", it should hold " << a << " and " << b);
        hints.means("between", std::to_string(m.n));
      }
      vf::count("hints_between");
      return;
    }
    if (meaning.rfind("MARKED ", 0) != 0) throw Abandon{};
    size_t q2 = meaning.rfind(sep), q1 = meaning.rfind(sep, q2 - 1);
    auto* mk = ref().is<InputStates::Marking>();
    if (!mk || q1 == string::npos || q2 == string::npos) throw Abandon{};
    string marked = mk->markedText, status = meaning.substr(q2 + 1), rd = meaning.substr(7 + marked.size() + 1, q2 - 7 - marked.size() - 1);
    if (meaning != "MARKED " + marked + sep + rd + sep + status) throw Abandon{};
    string n = status.find(' ') != string::npos ? status.substr(status.find(' ') + 1) : "";
    string kind = status.substr(0, status.find(' '));
    if (kind == "PRESS") n.clear();
    size_t pm = t.find(marked);
    JUDGE("C38", pm != string::npos && within(t, rd), what << " is " << vf::jstr(t) << ", it should hold " << marked << " and " << rd << ", " << in());
    JUDGE("C38", within(t, n), what << " is " << vf::jstr(t) << ", it should hold " << n << ", " << in());
    if (!within(marked + rd, "{") && !within(marked + rd, "}")) whole(t, what);
    // The key to press is named when it does something, and then only.
    if (lang != "brackets" && !within(lower(marked), "enter")) JUDGE("C38", within(lower(t), "enter") == (kind == "PRESS"), what << " is " << vf::jstr(t) << " when the phrase can" << (kind == "PRESS" ? "" : "not") << " be added, " << in());
    if (lang.empty()) {
      size_t pr = t.find(rd, pm + marked.size());
      JUDGE("C38", pr != string::npos, what << " is " << vf::jstr(t) << ", it should hold " << marked << " before " << rd);
      if (pr == t.rfind(rd) && pm == t.rfind(marked)) hints.means(kind, t.substr(pr + rd.size()));
    } else if (lang == "brackets") {
      Msg st;
      JUDGE("C38", m.args.size() == 3 && m.args[0] == marked && m.args[1] == rd, what << " is " << vf::jstr(t) << ", it should hold " << marked << " and " << rd);
      JUDGE("C38", parseMsg(m.args[2], st), what << " is " << vf::jstr(t) << ", what it says of the phrase is not a translatable message");
      JUDGE("C38", st.args == (n.empty() ? vector<string>{} : vector<string>{n}), what << " is " << vf::jstr(t) << ", what it says of the phrase should hold " << (n.empty() ? "nothing" : n));
      hints.means(kind, std::to_string(st.n));
      hints.means("marked", std::to_string(m.n));
    } else {
      // what is left without the phrase and its readings
      string left = t;
      if (t.rfind(marked) != pm || t.rfind(rd) != t.find(rd)) return vf::count("hints_unclear");
      left.replace(pm, marked.size(), "M");
      size_t pr = left.find(rd);
      if (pr != string::npos) hints.means(kind, left.replace(pr, rd.size(), "R"));
    }
    vf::count("hints_" + kind);
  }
  void dictionary(fcitx::CommonCandidateList& l, const string& phrase, const string& what) {
    vector<string> all;
    for (int i = 0; i < l.totalSize(); ++i) all.push_back(l.candidateFromAll(i).text().toString());
    for (auto& t : all) {
      sane(t, what);
      if (!within(phrase, "{") && !within(phrase, "}")) whole(t, what);
    }
    std::set<string> different(all.begin(), all.end());
    JUDGE("C38", different.size() == all.size(), what << " has the same entry twice: " << names(all));
    if (hasServices)
      for (string s : {"Lexicon Prima", "Lexicon Altera"}) {
        size_t n = 0;
        for (auto& t : all) {
          size_t p = t.find(phrase);
          if (p == string::npos || !within(t, s)) continue;
          if (lang == "brackets") {
            Msg m;
            JUDGE("C38", parseMsg(t, m) && (m.args == vector<string>{phrase, s}), what << " has the entry " << vf::jstr(t));
          }
          ++n;
        }
        JUDGE("C38", n == 1, what << " for " << phrase << " has " << n << " entries for " << s << ": " << names(all) << ", " << in());
      }
    if (lang == "brackets")
      for (auto& t : all) {
        Msg m;
        JUDGE("C38", parseMsg(t, m), what << " has an entry that is not a translatable message: " << vf::jstr(t));
      }
    vf::count("dictionary_menus");
  }
  void charInfo(fcitx::CommonCandidateList& l, const string& phrase, const string& what) {
    vector<string> nums = {std::to_string(phrase.size()), std::to_string(chars(phrase).size())}, kinds;
    JUDGE("C38", l.totalSize() == 2, what << " has " << l.totalSize() << " entries");
    for (int i = 0; i < 2; ++i) {
      string t = l.candidateFromAll(i).text().toString();
      string w = what + " of " + phrase;
      sane(t, w);
      whole(t, w);
      Msg m;
      if (lang == "brackets") {
        JUDGE("C38", parseMsg(t, m) && m.args == vector<string>{nums[static_cast<size_t>(i)]}, w << " is " << vf::jstr(t) << ", it should hold " << nums[static_cast<size_t>(i)]);
        hints.means("info " + std::to_string(i), std::to_string(m.n));
      } else {
        size_t p = t.rfind(nums[static_cast<size_t>(i)]);
        JUDGE("C38", p != string::npos, w << " is " << vf::jstr(t) << ", it should hold " << nums[static_cast<size_t>(i)] << ", " << in());
        hints.means("info " + std::to_string(i), t.replace(p, nums[static_cast<size_t>(i)].size(), "N"));
      }
    }
    vf::count("character_informations");
  }
  bool hasServices = false, bare = false;
  void prepare() override {
    if (bare) {
      std::error_code ec;
      fs::remove_all(userDir(), ec);
    }
    string svc = dataDir() + "/mcbopomofo-dictionary-service.json";
    hasServices = fs::exists(svc);
    if (hasServices) writeFile(svc, "{\"services\":[{\"name\":\"Lexicon Prima\",\"url_template\":\"https://a.example/(encoded)\"},{\"name\":\"Lexicon Altera\",\"url_template\":\"https://b.example/?q=(encoded)\"}]}");
  }
  // -- menus, tips
  static const char* actionName(int i) {
    static const char* const n[] = {"mcbopomofo-half-width-punctuation", "mcbopomofo-associated-phrases", "mcbopomofo-user-phrases-edit", "mcbopomofo-user-excluded-phrases-edit"};
    return n[i];
  }
  void labels() {
    if (!foc) focus(r.pick(ics).get());
    std::set<string> seen;
    for (int i = 0; i < 4; ++i) {
      auto* a = gInst->userInterfaceManager().lookupAction(actionName(i));
      JUDGE("C38", a != nullptr, actionName(i) << " is missing");
      string t = a->shortText(foc), what = string("the label of ") + actionName(i);
      simple(t, what);
      JUDGE("C38", seen.insert(lower(t)).second, what << " is " << vf::jstr(t) << ", like another, " << in());
      if (i < 2) {
        bool is = on(ref().live, i ? "AssociatedPhrasesEnabled" : "HalfWidthPunctuationEnable");
        for (auto& kv : labelsSeen)
          if (kv.first.first == i && kv.first.second != is) JUDGE("C38", kv.second.count(t) == 0, what << " is " << vf::jstr(t) << " whether it is on or off, " << in());
        labelsSeen[{i, is}].insert(t);
        if (lang.empty()) JUDGE("C38", within(lower(t), i ? "on" : "half") == is || (i && !within(lower(t), "off") == is), what << " is " << vf::jstr(t) << " when it is " << (is ? "on" : "off"));
      }
    }
    vf::count("menus");
  }
  std::map<std::pair<int, bool>, std::set<string>> labelsSeen;
  void toggled() {
    if (!foc) focus(r.pick(ics).get());
    int i = r.chance(1, 2);
    auto* a = gInst->userInterfaceManager().lookupAction(actionName(i));
    JUDGE("C38", a != nullptr, actionName(i) << " is missing");
    begin("C36");
    const string key = i ? "AssociatedPhrasesEnabled" : "HalfWidthPunctuationEnable";
    bool to = !on(ref().live, key);
    note(key + (to ? " on" : " off"));
    ref().live[key] = to ? "True" : "False";
    gTips.clear();
    gShim->both([&] { a->activate(foc); }, [&] {
      if (i) ref().kh->setAssociatedPhrasesEnabled(to);
      else ref().kh->setHalfWidthPunctuationEnabled(to);
    });
    compare();
    JUDGE("C38", gTips.size() == 1, "after " << last << ": " << gTips.size() << " notices, " << in());
    const Tip& t = gTips[0];
    simple(t.summary, "the title of the notice");
    simple(t.body, "the notice");
    const string mode = i && to ? (ref().plain() ? ", plain" : ", smart") : "";
    tips.means(key + (to ? " on" : " off") + mode, t.body);
    titles.means(key + (to ? " on" : " off"), t.summary);
    if (lang.empty()) {
      string all = lower(t.summary + " " + t.body);
      if (i) JUDGE("C38", within(all, "disabled") == !to, "after " << last << " the notice says " << t.summary << ": " << t.body);
      else JUDGE("C38", within(all, "half") == to && within(all, "full") == !to, "after " << last << " the notice says " << t.summary << ": " << t.body);
    }
    // The key is named where it is one.
    if (i && lang != "brackets") JUDGE("C38", within(lower(t.body), "enter") == (to && !ref().plain()), "after " << last << (ref().plain() ? ", plain" : "") << " the notice says " << t.body << ", " << in());
    vf::count("notices");
    labels();
  }
  Meanings tips, titles;
  // -- files made for the user
  void header(int k) {
    string name = k ? "exclude-phrases.txt" : "data.txt", what = "the new " + name;
    string t = slurp(userDir() + "/" + name);
    sane(t, what);
    JUDGE("C38", t.back() == '\n', what << " does not end with a new line, " << in() << ": " << vf::jstr(t));
    std::stringstream ss(t);
    size_t translated = 0, comments = 0, examples = 0;
    for (string l; std::getline(ss, l);) {
      if (l.empty()) continue;
      JUDGE("C38", l[0] == '#', what << " has a line that is not a comment, " << in() << ": " << vf::jstr(l));
      size_t p = l.find_first_not_of("# ");
      if (p == string::npos) continue;
      string rest = l.substr(p);
      ++comments;
      Msg m;
      if (lang == "brackets" && parseMsg(rest, m)) ++translated;
      size_t sp = rest.find(' ');
      if (sp == string::npos) continue;
      string v = rest.substr(0, sp), rd = rest.substr(sp + 1);
      if (rd.find(' ') != string::npos || rd.compare(0, 2, "ㄅ", 2) != 0) continue;
      JUDGE("C38", chars(v).size() == static_cast<size_t>(std::count(rd.begin(), rd.end(), '-')) + 1, what << " has the example " << vf::jstr(rest));
      writeFile(vf::G().scratch + "/example.txt", rest + "\n");
      McBopomofo::UserPhrasesLM lm;
      lm.open((vf::G().scratch + "/example.txt").c_str());
      JUDGE("C38", lm.hasUnigrams(rd), what << " has the example " << vf::jstr(rest) << ", which does not work");
      ++examples;
    }
    JUDGE("C38", examples >= 1, what << " shows no example, " << in() << ": " << vf::jstr(t));
    if (lang == "brackets") JUDGE("C38", translated + examples == comments && translated >= 3, what << " has comments that are not translatable: " << vf::jstr(t));
    McBopomofo::UserPhrasesLM lm;
    lm.open((userDir() + "/" + name).c_str());
    for (auto k2 : {"ㄒㄧㄠˇ-ㄇㄞˋ-ㄓㄨˋ-ㄧㄣ", "ㄐㄧㄚ-ㄘˊ"}) JUDGE("C38", !lm.hasUnigrams(k2), what << " has phrases from the start, " << in() << ": " << vf::jstr(t));
    JUDGE("C38", slurp(userDir() + "/data.txt") != slurp(userDir() + "/exclude-phrases.txt"), "the two new files say the same, " << in());
    vf::count("headers");
  }
  void startOver() {
    focus(nullptr);
    note("restart");
    gShim->eng.reset();
    bool gone[2] = {};
    for (int k = 0; k < 2; ++k)
      if (r.chance(1, 2)) {
        std::error_code ec;
        fs::remove(userDir() + (k ? "/exclude-phrases.txt" : "/data.txt"), ec);
        gone[k] = true;
      }
    if (gone[0] && gone[1] && r.chance(1, 2)) {
      std::error_code ec;
      fs::remove_all(userDir(), ec);
    }
    gShim->eng = std::make_unique<McBopomofoEngine>(gInst);
    for (int k = 0; k < 2; ++k)
      if (gone[k]) header(k);
    Conf c = ref().live;
    gShim->ref.reset();
    gShim->ref = std::make_unique<Ref>();
    ref().live = c;
    focus(r.pick(ics).get());
    options();
    vf::count("restarts");
  }
  // -- what the configuration window says
  void options() {
    fcitx::RawConfig rc;
    eng().getConfig()->dumpDescription(rc);
    std::set<string> seen, described;
    for (auto& type : rc.subItems()) {
      auto sub = rc.get(type);
      if (!sub) continue;
      for (auto& o : sub->subItems()) {
        auto opt = sub->get(o);
        auto* d = opt ? opt->valueByPath("Description") : nullptr;
        JUDGE("C38", d != nullptr, "the option " << o << " has no description");
        string what = "the description of " + o;
        simple(*d, what);
        JUDGE("C38", seen.insert(*d).second, what << " is that of another, " << in() << ": " << *d);
        described.insert(o);
        if (o == "UserDataDir") {
          auto* x = opt->valueByPath("External");
          JUDGE("C38", x && within(*x, userDir()), what << " opens " << (x ? *x : "nothing") << ", expected " << userDir());
        }
        auto e = opt->get("Enum"), ei = opt->get("EnumI18n");
        if (!e) continue;
        size_t nv = e->subItems().size();
        JUDGE("C38", ei && ei->subItems().size() == nv, "the values of " << o << " have " << (ei ? ei->subItems().size() : 0) << " descriptions, expected " << nv);
        std::set<string> vs;
        for (auto& i : ei->subItems()) {
          auto* v = ei->valueByPath(i);
          simple(v ? *v : "", "a value of " + o);
          JUDGE("C38", vs.insert(*v).second, "two values of " << o << " are described as " << *v << ", " << in());
        }
        vf::count("value_lists");
      }
    }
    for (auto& kv : kDefaultConf)
      if (kv.first != "HalfWidthPunctuationEnable" && kv.first != "AssociatedPhrasesEnabled") JUDGE("C38", described.count(kv.first), "the option " << kv.first << " is not described");
    vf::count("option_lists");
  }
  void step38() {
    Kind k = foc ? ref().kind() : EMPTY;
    if (r.chance(1, 25)) return toggled();
    if (r.chance(1, 60)) return labels();
    if (r.chance(1, 80)) return startOver();
    if (r.chance(1, 60)) return switchIm();
    if (r.chance(1, 60)) return focus(r.pick(ics).get());
    if (k == MARK) {
      switch (r.below(8)) {
        case 0: return type('?');
        case 1: return press(named(FcitxKey_Return));
        case 2: return press(ordinary());
        default: return press(shifted(r.chance(3, 4) ? FcitxKey_Left : FcitxKey_Right));
      }
    }
    if (k == DICT && r.chance(1, 2)) return press(named(r.chance(1, 2) ? FcitxKey_Return : FcitxKey_Down));
    if (isWindow(k)) return windowAction();
    if (r.chance(1, 30)) {
      // something long, to mark all of or to walk through
      for (int i = 0; i < 9; ++i) typeSyllable();
      bool mark = r.chance(1, 2);
      for (int i = 0; i < 9 && (ref().kind() == INPUT || ref().kind() == MARK); ++i) press(mark ? shifted(FcitxKey_Left) : named(FcitxKey_Left));
      return;
    }
    if (k == INPUT) {
      switch (r.below(10)) {
        case 0: return press(shifted(FcitxKey_Left));
        case 1: return press(named(r.chance(2, 3) ? FcitxKey_Left : FcitxKey_Right));
        case 2: return r.chance(1, 4) ? type(static_cast<char>('A' + r.below(26))) : press(shifted(r.chance(1, 2) ? FcitxKey_Left : FcitxKey_Right));
        case 3: return press(ordinary());
        case 4: return r.chance(1, 2) ? press(named(FcitxKey_Down)) : type('?');
        default: return typeSyllable();
      }
    }
    return step();
  }
  void run() {
    bare = r.chance(1, 2);
    start();
    if (bare) {
      // made by the first engine; then the second one
      header(0);
      header(1);
    }
    options();
    labels();
    size_t n = vf::thorough() ? 100 + r.below(200) : 60 + r.below(100);
    for (size_t i = 0; i < n; ++i) step38();
    focus(nullptr);
    known();
  }
};
void lingual(uint64_t idx, Rng& r) {
  gFakeNow = 1.7e9 + static_cast<double>(r.below(100000000));
  auto& ls = languages();
  // one language for a process: eight of them share the cases in turn
  vfi18n::gLang = ls[idx % 8 % ls.size()];
  string trail;
  {
    Lingual s(r, vfi18n::gLang);
    try {
      s.run();
    } catch (const Abandon&) {
    } catch (const Abandoned&) {
    }
    trail = vfi18n::gLang + ": " + s.trail;
  }
  gFakeNow = 0;
  vf::distinct(trail);
  if (idx < 4) vf::sample(trail.substr(0, 1400));
}

vf::Reg c38("C38", 2400, 40000, lingual);
// ---- C45: registered and installed as in the repository ------------------------------
string repoDir() { return env("VERIF_REPO").empty() ? "/repo" : env("VERIF_REPO"); }
string fileText(const string& p) {
  std::ifstream f(p, std::ios::binary);
  std::stringstream ss;
  ss << f.rdbuf();
  return ss.str();
}
void installed(uint64_t idx, Rng& r) {
  gSeeksLeft = -1;
  putFile(dataDir() + "/mcbopomofo-data.txt", fileText(repoDir() + "/data/data-plain-bpmf.txt"));
  putFile(dataDir() + "/mcbopomofo-data-plain-bpmf.txt", fileText(repoDir() + "/data/data-plain-bpmf.txt"));
  putFile(dataDir() + "/mcbopomofo-associated-phrases-v2.txt", fileText(repoDir() + "/data/associated-phrases-v2.txt"));
  putFile(dataDir() + "/mcbopomofo-dictionary-service.json", fileText(repoDir() + "/data/dictionary_service.json"));
  std::map<string, vector<Val>> rows;
  std::stringstream in(fileText(repoDir() + "/data/data-plain-bpmf.txt"));
  string l;
  vector<string> keys;
  while (getline(in, l)) {
    std::stringstream ls(l);
    string k, v;
    double s = 0;
    if (l[0] == '#' || l[0] == '_' || !(ls >> k >> v >> s)) continue;
    Syl y = parseText(k);
    if (text(y) != k || (y.p[0] < 0 && y.p[1] < 0 && y.p[2] < 0)) continue;
    if (rows[k].empty()) keys.push_back(k);
    rows[k].push_back({v, s});
  }
  VCHECK(keys.size() > 1000, "cannot read the data (harness)");
  auto& imm = gInst->inputMethodManager();
  defaultGroup();
  const string& im = kIms[idx % 2];
  auto* e = imm.entry(im);
  VCHECK(e->addon() == "mcbopomofo", im << " belongs to [" << e->addon() << "]");
  VCHECK(e->languageCode() == "zh_TW", im << " is for [" << e->languageCode() << "]");
  VCHECK(e->isConfigurable(), im << " cannot be configured");
  VCHECK(!e->name().empty() && !e->label().empty() && chars(e->label()).size() <= 2, im << " is called [" << e->name() << "] [" << e->label() << "]");
  VCHECK(imm.entry(kIms[0])->name() != imm.entry(kIms[1])->name() && imm.entry(kIms[0])->label() != imm.entry(kIms[1])->label(), "the two input methods look alike");
  for (const char* size : {"24x24", "32x32", "64x64"})
    for (const char* pre : {"", "org.fcitx.Fcitx5."}) VCHECK(fs::exists(repoDir() + "/data/" + size + "/apps/" + pre + e->icon() + ".png"), "there is no icon " << pre << e->icon() << " of " << size);
  auto* info = gInst->addonManager().addonInfo("mcbopomofo");
  VCHECK(info && info->category() == fcitx::AddonCategory::InputMethod && info->isConfigurable() && info->onDemand(), "the addon is registered otherwise");
  gShim->eng = std::make_unique<McBopomofoEngine>(gInst);
  fcitx::FocusGroup group("g", gInst->inputContextManager());
  {
    IC ic(gInst->inputContextManager(), "a");
    ic.setCapabilityFlags(fcitx::CapabilityFlag::Preedit);
    ic.setFocusGroup(&group);
    ic.focusIn();
    gInst->setCurrentInputMethod(&ic, im, false);
    VCHECK(gInst->inputMethod(&ic) == im, "the input method in use is " << gInst->inputMethod(&ic));
    auto press = [&](const FKey& k) {
      fcitx::KeyEvent d(&ic, k, false), u(&ic, k, true);
      bool t = ic.keyEvent(d);
      ic.keyEvent(u);
      return t;
    };
    for (size_t n = 0; n < 20; ++n) {
      const string& k = r.pick(keys);
      vector<Val> want;
      for (auto& v : rows[k])
        if (std::none_of(want.begin(), want.end(), [&](auto& x) { return x.value == v.value; })) want.push_back(v);
      std::stable_sort(want.begin(), want.end(), [](auto& a, auto& b) { return a.score > b.score; });
      Syl y = parseText(k);
      string ks = keysOf(layouts()[0], y) + (y.p[3] < 0 ? " " : "");
      ic.got.clear();
      for (char c : ks) VCHECK(press(FKey(static_cast<fcitx::KeySym>(c))), "the key " << c << " is not taken by " << im);
      vf::count("typed_as_installed");
      vf::distinct(im + k);
      auto list = ic.inputPanel().candidateList();
      if (idx % 2 == 0) {
        VCHECK(ic.shown.toString() == want[0].value, im << ": typing " << k << " shows [" << ic.shown.toString() << "] and not [" << want[0].value << "]");
        press(FKey(FcitxKey_Return));
        VCHECK(ic.got.size() == 1 && ic.got[0] == want[0].value, im << ": " << k << " commits " << vf::S(ic.got, " "));
      } else if (want.size() == 1) {
        VCHECK(ic.got.size() == 1 && ic.got[0] == want[0].value, im << ": typing " << k << " commits " << vf::S(ic.got, " "));
      } else {
        VCHECK(list && list->size() >= 1, im << ": typing " << k << " offers nothing");
        for (int i = 0; i < list->size(); ++i) VCHECK(list->candidate(i).text().toString() == want[static_cast<size_t>(i)].value, im << ": entry " << i << " for " << k << " is [" << list->candidate(i).text().toString() << "] and not [" << want[static_cast<size_t>(i)].value << "]");
        size_t i = r.below(static_cast<uint64_t>(list->size()));
        list->candidate(static_cast<int>(i)).select(&ic);
        VCHECK(ic.got.size() == 1 && ic.got[0] == want[i].value, im << ": choosing [" << want[i].value << "] commits " << vf::S(ic.got, " "));
      }
    }
    ic.focusOut();
  }
  gShim->eng.reset();
  vf::sample(im + ": " + e->name() + " " + e->label());
}
vf::Reg c45("C45", 32, 400, installed);
vf::Reg c37("C37", 6000, 100000, wild);
vf::Reg c34("C34", 5000, 60000, model), c35("C35", 5000, 60000, model), c36("C36", 5000, 60000, model), c30("C30", 1500, 20000, model);

}  // namespace

int main(int argc, char** argv) {
  for (int i = 1; i < argc; ++i)
    if (string(argv[i]) == "--list") return vf::mainLoop(argc, argv);
  if (const char* l = getenv("VF_LOCALE")) {
    const char* got = setlocale(LC_ALL, "");
    if (!got || string(got) != l) {
      fprintf(stderr, "no locale %s\n", l);
      _exit(3);
    }
  }
  fcitx::Log::setLogStream(gNullStream);
  string share = env("XDG_DATA_DIRS") + "/fcitx5";
  fs::create_directories(share + "/addon");
  fs::create_directories(share + "/inputmethod");
  fs::create_directories(dataDir());
  writeFile(share + "/addon/mcbopomofo.conf", "[Addon]\nName=mcbopomofo\nCategory=InputMethod\nVersion=1\nLibrary=mcbopomofo\nType=StaticLibrary\nOnDemand=True\nConfigurable=True\n");
  writeFile(share + "/addon/notifications.conf", "[Addon]\nName=notifications\nCategory=Module\nVersion=1\nLibrary=notifications\nType=StaticLibrary\n");
  for (auto& n : kIms) writeFile(share + "/inputmethod/" + n + ".conf", "[InputMethod]\nName=" + n + "\nLabel=m\nLangCode=zh_TW\nAddon=mcbopomofo\nConfigurable=True\n");
  for (int i = 1; i + 1 < argc; ++i)
    if (string(argv[i]) == "--prop" && string(argv[i + 1]) == "C45") {
      // the registrations of the repository, but for the kind of library
      auto shipped = [&](const string& in, const string& out) {
        string t = fileText(repoDir() + "/src/" + in);
        for (auto [a, b] : {std::pair<string, string>{"@PROJECT_VERSION@", "1.0"}, {"Type=SharedLibrary", "Type=StaticLibrary"}})
          for (size_t p; (p = t.find(a)) != string::npos;) t.replace(p, a.size(), b);
        writeFile(share + out, t);
      };
      shipped("mcbopomofo-addon.conf.in.in", "/addon/mcbopomofo.conf");
      shipped("mcbopomofo.conf.in.in", "/inputmethod/mcbopomofo.conf");
      shipped("mcbopomofo-plain.conf.in.in", "/inputmethod/mcbopomofo-plain.conf");
    }
  char a0[] = "h", a1[] = "--disable=all", a2[] = "--enable=mcbopomofo,notifications";
  char* av[] = {a0, a1, a2, nullptr};
  fcitx::Instance inst(3, av);
  gInst = &inst;
  Factory factory;
  TipsFactory tipsFactory;
  fcitx::StaticAddonRegistry reg{{"mcbopomofo", &factory}, {"notifications", &tipsFactory}};
  inst.addonManager().registerDefaultLoader(&reg);
  fcitx::EventDispatcher d;
  d.attach(&inst.eventLoop());
  d.schedule([&] {
    auto& imm = inst.inputMethodManager();
    auto g = imm.currentGroup();
    g.inputMethodList().clear();
    for (auto& n : kIms) g.inputMethodList().push_back(fcitx::InputMethodGroupItem(n));
    g.setDefaultInputMethod("mcbopomofo");
    imm.setGroup(g);
    inst.addonManager().addon("mcbopomofo", true);
    if (!gShim || !imm.entry("mcbopomofo") || !imm.entry("mcbopomofo-plain") || !inst.addonManager().addon("notifications")) {
      fprintf(stderr, "cannot set fcitx up\n");
      _exit(3);
    }
    static fcitx::FocusGroup keeper("keeper", inst.inputContextManager());  // fcitx leaves when the last group goes
    static auto watcher = inst.watchEvent(fcitx::EventType::InputContextUpdateUI, fcitx::EventWatcherPhase::PostInputMethod, [](fcitx::Event& ev) {
      auto& e = static_cast<fcitx::InputContextUpdateUIEvent&>(ev);
      if (e.component() == fcitx::UserInterfaceComponent::InputPanel) ++static_cast<IC*>(e.inputContext())->uiUpdates;
    });
    _exit(vf::mainLoop(argc, argv));
  });
  inst.exec();
  fprintf(stderr, "fcitx did not run\n");
  return 3;
}
