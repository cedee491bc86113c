// C45: the files that are installed, as they are in the repository, through the
// real code: what each row says can be found, typed, offered and chosen.
#include <fcitx-utils/log.h>

#include <filesystem>
#include <fstream>
#include <unordered_map>

#include "DictionaryService.h"
#include "Engine/AssociatedPhrasesV2.h"
#include "kdict.h"

namespace {
namespace fs = std::filesystem;

struct Null : std::streambuf {
  int overflow(int c) override { return c == EOF ? 0 : c; }
} gNull;
std::ostream gNullStream(&gNull);

string repo() {
  const char* e = getenv("VERIF_REPO");
  return string(e ? e : "/repo") + "/data/";
}
vector<string> lines(const string& p) {
  std::ifstream f(p, std::ios::binary);
  vector<string> v;
  string l;
  while (getline(f, l)) v.push_back(l);
  if (v.size() < 50) {
    fprintf(stderr, "cannot read %s\n", p.c_str());
    _exit(3);
  }
  return v;
}
vector<string> fields(const string& s, char sep) {
  vector<string> o{""};
  for (char c : s)
    if (c == sep) o.emplace_back();
    else o.back() += c;
  return o;
}
bool number(const string& s, double* d) {
  static const locale_t c = newlocale(LC_ALL_MASK, "C", nullptr);
  char* e = nullptr;
  *d = strtod_l(s.c_str(), &e, c);
  return !s.empty() && *e == 0 && std::isfinite(*d);
}
string quoted(const vector<string>& v) {
  string o;
  for (auto& s : v) o += (o.empty() ? "[" : " [") + s + "]";
  return o;
}

const char* const kHeader = "# format org.openvanilla.mcbopomofo.sorted";

// ---- the rows, read by themselves ------------------------------------------
struct Rows {
  vector<string> keys;
  std::unordered_map<string, vector<Val>> of;  // in the order of the file
};
struct Assoc {
  vector<string> v, r;
  double score;
};

struct Shipped {
  Rows rows;
  vector<string> syllables, specials;
  vector<Assoc> assoc;
  std::unordered_map<string, vector<size_t>> byPrefix;  // v-r-v-r- of a proper prefix
  std::unordered_map<string, vector<size_t>> byValue;   // the value of a proper prefix
  vector<string> prefixes, valuePrefixes;
  vector<string> bad;
  Shipped() {
    auto l = lines(repo() + "data-plain-bpmf.txt");
    if (l[0] != kHeader) bad.push_back("data-plain-bpmf.txt does not begin with the header");
    for (size_t i = 1; i < l.size(); ++i) {
      auto f = fields(l[i], ' ');
      double s = 0;
      if (f.size() != 3 || f[0].empty() || f[1].empty() || !number(f[2], &s) || !validUtf8(l[i])) {
        bad.push_back("data-plain-bpmf.txt line " + std::to_string(i + 1) + ": [" + l[i] + "]");
        continue;
      }
      auto& v = rows.of[f[0]];
      if (v.empty()) {
        rows.keys.push_back(f[0]);
        (f[0][0] == '_' ? specials : syllables).push_back(f[0]);
      }
      v.push_back({f[1], s});
    }
    l = lines(repo() + "associated-phrases-v2.txt");
    if (l[0] != kHeader) bad.push_back("associated-phrases-v2.txt does not begin with the header");
    for (size_t i = 1; i < l.size(); ++i) {
      auto f = fields(l[i], ' ');
      Assoc a;
      bool ok = f.size() == 2 && number(f[1], &a.score) && validUtf8(l[i]);
      if (ok) {
        auto p = fields(f[0], '-');
        ok = p.size() % 2 == 0 && p.size() >= 4;
        for (size_t j = 0; ok && j < p.size(); j += 2) {
          ok = chars(p[j]).size() == 1 && !p[j + 1].empty() && (p[j + 1][0] == '_' || text(parseText(p[j + 1])) == p[j + 1]);
          a.v.push_back(p[j]);
          a.r.push_back(p[j + 1]);
        }
      }
      if (!ok) {
        bad.push_back("associated-phrases-v2.txt line " + std::to_string(i + 1) + ": [" + l[i] + "]");
        continue;
      }
      string k, v;
      for (size_t j = 0; j + 1 < a.v.size(); ++j) {
        k += a.v[j] + "-" + a.r[j] + "-";
        v += a.v[j];
        auto& x = byPrefix[k];
        if (x.empty()) prefixes.push_back(k);
        x.push_back(assoc.size());
      }
      // by value alone only the first character can be looked up
      auto& x = byValue[a.v[0]];
      if (x.empty()) valuePrefixes.push_back(a.v[0]);
      x.push_back(assoc.size());
      assoc.push_back(a);
    }
  }
};
const Shipped& shipped() {
  static Shipped s;
  return s;
}
std::shared_ptr<McBopomofoLM> model() {
  static std::shared_ptr<McBopomofoLM> lm;
  if (!lm) {
    lm = std::make_shared<McBopomofoLM>();
    lm->loadLanguageModel((repo() + "data-plain-bpmf.txt").c_str());
    lm->loadAssociatedPhrasesV2((repo() + "associated-phrases-v2.txt").c_str());
  }
  return lm;
}

// What a key of the dictionary has to offer: each value once, best first.
vector<Val> offered(const string& key) {
  vector<Val> o;
  auto it = shipped().rows.of.find(key);
  if (it == shipped().rows.of.end()) return o;
  for (auto& v : it->second)
    if (std::none_of(o.begin(), o.end(), [&](auto& x) { return x.value == v.value; })) o.push_back(v);
  return o;
}
vector<string> ranked(const string& key) {
  auto v = offered(key);
  std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.score > b.score; });
  vector<string> o;
  for (auto& x : v) o.push_back(x.value);
  return o;
}

struct Typist : World {
  explicit Typist(const Settings& s) {
    lm = model();
    kh = std::make_unique<KeyHandler>(lm, adder, std::make_unique<Strings>());
    apply(s);
    strict = true;
  }
  bool press(Key k) { return kh->handle(k, st.get(), cb(), err()); }
  void type(const string& s) {
    for (char c : s) press(Key::asciiKey(c));
  }
  vector<string> window() {
    vector<string> o;
    if (auto* c = is<InputStates::ChoosingCandidate>())
      for (auto& x : c->candidates) o.push_back(x.value);
    else if (auto* a = is<InputStates::AssociatedPhrases>())
      for (auto& x : a->candidates) o.push_back(x.value);
    return o;
  }
  void choose(size_t i) {
    if (auto* c = is<InputStates::ChoosingCandidate>()) {
      auto x = c->candidates[i];
      kh->candidateSelected(x, c->originalCursor, cb());
    } else if (auto* a = is<InputStates::AssociatedPhrases>()) {
      auto x = a->candidates[i];
      kh->candidateAssociatedPhraseSelected(a->prefixCursorIndex, x, string(a->prefixReading), string(a->prefixValue), cb());
    }
  }
  string text() {
    auto* n = is<InputStates::NotEmpty>();
    return n ? n->composingBuffer : "";
  }
};

// The keys for a syllable in a layout; none if it cannot be typed there.
string keysFor(int layout, const Syl& s) {
  string k;
  if (layout == 5) {
    if (s.p[0] < 0 && s.p[1] < 0 && s.p[2] < 0) return "";
    k = BPMF::FromComposedString(text(s)).HanyuPinyinString(true, false);
    if (k.empty() || BPMF::FromHanyuPinyin(k) != BPMF::FromComposedString(text(s))) return "";
    if (s.p[3] < 0) k += " ";
    for (char c : k)
      if (static_cast<unsigned char>(c) >= 0x80) return "";
    return k;
  }
  const Layout& l = layouts()[static_cast<size_t>(layout)];
  if (!(l.shared ? typeableShared(s) : complete(s) || true)) return "";
  k = keysOf(l, s);
  if (s.p[3] < 0 || (s.p[0] < 0 && s.p[1] < 0 && s.p[2] < 0)) k += " ";  // a lone tone mark waits for more
  return k;
}

// ---- the cases ---------------------------------------------------------------
void syllable(Rng& r, const string& key) {
  vf::count("readings");
  auto want = offered(key);
  auto got = model()->getUnigrams(key);
  VCHECK(model()->hasUnigrams(key), "[" << key << "] is in the file and not known");
  VCHECK(got.size() == want.size(), "[" << key << "] has " << want.size() << " different values in the file, and " << got.size() << " are found");
  for (size_t i = 0; i < got.size(); ++i) VCHECK(got[i].value() == want[i].value && got[i].score() == want[i].score, "value " << i << " of [" << key << "] is [" << got[i].value() << "] " << got[i].score() << ", in the file [" << want[i].value << "] " << want[i].score);
  vf::count("rows", want.size());
  if (key[0] == '_') return;
  Syl s = parseText(key);
  VCHECK(text(s) == key && BPMF::FromComposedString(key).composedString() == key, "[" << key << "] is no syllable");
  auto names = ranked(key);
  size_t typed = 0;
  for (int l = 0; l < 6; ++l) {
    string k = keysFor(l, s);
    if (k.empty()) continue;
    Settings set;
    set.mode = InputMode::PlainBopomofo;
    set.layout = l;
    Typist t(set);
    t.type(k);
    ++typed;
    if (names.size() == 1) {
      VCHECK(t.commits.size() == 1 && t.commits[0] == names[0], kLayoutNames[l] << ": typing [" << k << "] for " << key << " commits " << quoted(t.commits) << " and not [" << names[0] << "]");
      continue;
    }
    VCHECK(t.window() == names, kLayoutNames[l] << ": typing [" << k << "] for " << key << " offers " << quoted(t.window()) << " and not " << quoted(names));
    size_t i = r.below(names.size());
    t.choose(i);
    VCHECK(t.commits.size() == 1 && t.commits[0] == names[i], kLayoutNames[l] << ": choosing [" << names[i] << "] commits " << quoted(t.commits));
  }
  VCHECK(typed > 0, "[" << key << "] cannot be typed in any layout");
  vf::count("readings_typed", typed);
  // and in a sentence, where the best is taken
  Typist t{Settings()};
  t.type(keysFor(0, s));
  VCHECK(t.text() == names[0], "typing " << key << " gives [" << t.text() << "] and not [" << names[0] << "]");
}

// The keys of punctuation: which row a key stands for in a layout.
void punctuation(Rng& r, int l, char c, bool half, bool ctrl) {
  const auto& of = shipped().rows.of;
  bool readingKey = l < 5 ? validKey(layouts()[static_cast<size_t>(l)], c) : (c >= 'a' && c <= 'z') || (c >= '1' && c <= '5');
  if (c == '`' || (readingKey && !ctrl)) return;  // ` opens the list of symbols
  string ch(1, c), name = kLayoutNames[l];
  vector<string> order;
  if (ctrl) {
    order = {"_ctrl_punctuation_" + ch};
  } else {
    if (half) order = {"_half_punctuation_" + name + "_" + ch, "_half_punctuation_" + ch};
    order.push_back("_punctuation_" + name + "_" + ch);
    order.push_back("_punctuation_" + ch);
  }
  string key;
  for (auto& k : order)
    if (key.empty() && of.count(k)) key = k;
  if (key.empty()) return;
  auto names = ranked(key);
  Settings set;
  set.layout = l;
  set.half = half;
  {
    Typist t(set);
    t.press(Key::asciiKey(c, false, ctrl));
    VCHECK(t.text() == names[0], name << (half ? " (half width)" : "") << (ctrl ? " with Ctrl" : "") << ": [" << c << "] gives [" << t.text() << "] and not [" << names[0] << "], the first of " << key);
    t.press(Key::namedKey(Key::KeyName::DOWN));
    VCHECK(t.window() == names, name << ": " << key << " offers " << quoted(t.window()) << " and not " << quoted(names));
    size_t i = r.below(names.size());
    t.choose(i);
    VCHECK(t.text() == names[i], name << ": choosing [" << names[i] << "] of " << key << " gives [" << t.text() << "]");
  }
  set.mode = InputMode::PlainBopomofo;
  Typist t(set);
  t.press(Key::asciiKey(c, false, ctrl));
  if (names.size() == 1) VCHECK(t.commits.size() == 1 && t.commits[0] == names[0], name << ": [" << c << "] commits " << quoted(t.commits) << " and not [" << names[0] << "]");
  else VCHECK(t.window() == names, name << ": [" << c << "] offers " << quoted(t.window()) << " and not " << quoted(names));
  vf::count("punctuation_typed");
  vf::distinct("p" + name + ch + (half ? "h" : "") + (ctrl ? "c" : ""));
}

void special(const string& key) {
  // every row that begins with an underscore is of a kind that keys stand for
  auto names = ranked(key);
  auto after = [&](const char* p) -> string {
    string q = p;
    return key.compare(0, q.size(), q) == 0 ? key.substr(q.size()) : "";
  };
  if (string n = after("_number_"); !n.empty()) {
    Typist t{Settings()};
    t.st = std::make_unique<InputStates::EnclosingNumber>("");
    t.type(n);
    t.press(Key::asciiKey(Key::RETURN));
    if (names.size() == 1) VCHECK(t.commits.size() == 1 && t.commits[0] == names[0], "the enclosed number " << n << " commits " << quoted(t.commits) << " and not [" << names[0] << "]");
    else VCHECK(t.window() == names, "the enclosed number " << n << " offers " << quoted(t.window()) << " and not " << quoted(names));
    vf::count("numbers_typed");
  } else if (string c = after("_letter_"); c.size() == 1) {
    Settings set;
    set.putLower = true;
    Typist t(set);
    t.press(Key::asciiKey(c[0]));
    if (c[0] >= 'A' && c[0] <= 'Z') VCHECK(t.text() == names[0], "the letter " << c << " gives [" << t.text() << "] and not [" << names[0] << "]");
    vf::count("letters_typed");
  } else if (key == "_punctuation_list") {
    Typist t{Settings()};
    t.press(Key::asciiKey('`'));
    VCHECK(t.window() == names, "the list of symbols offers " << quoted(t.window()) << " and not " << quoted(names));
    vf::count("lists_opened");
  } else {
    bool known = false;
    for (const char* p : {"_punctuation_", "_half_punctuation_", "_ctrl_punctuation_"}) {
      string c = after(p);
      if (c.empty()) continue;
      if (c.size() == 1) known = true;
      for (auto* l : kLayoutNames)
        if (c.size() == strlen(l) + 2 && c.compare(0, strlen(l) + 1, string(l) + "_") == 0) known = true;
    }
    VCHECK(known, "no key stands for [" << key << "]");
  }
}

using Phrase = AssociatedPhrasesV2::Phrase;
void continuation(const string& what, const vector<Phrase>& got, const vector<size_t>& rows) {
  // best first, each value once, with the readings of the best
  auto all = rows;
  const auto& as = shipped().assoc;
  std::stable_sort(all.begin(), all.end(), [&](size_t a, size_t b) { return as[a].score > as[b].score; });
  vector<size_t> want;
  std::set<string> seen;
  for (size_t i : all)
    if (seen.insert(vf::S(as[i].v, "")).second) want.push_back(i);
  VCHECK(got.size() == want.size(), what << " is continued by " << want.size() << " phrases in the file, and " << got.size() << " are found");
  for (size_t i = 0; i < got.size(); ++i) VCHECK(got[i].value == vf::S(as[want[i]].v, "") && got[i].readings == as[want[i]].r, what << ": phrase " << i << " is [" << got[i].value << "] " << quoted(got[i].readings) << ", in the file [" << vf::S(as[want[i]].v, "") << "] " << quoted(as[want[i]].r));
  vf::count("associated_found", want.size());
}

void associated(Rng& r, const string& prefix) {
  auto& rows = shipped().byPrefix.at(prefix);
  auto& a = shipped().assoc[rows[0]];
  size_t n = static_cast<size_t>(std::count(prefix.begin(), prefix.end(), '-'));
  // a reading may hold a hyphen of its own; count pairs by text instead
  string k;
  n = 0;
  while (k != prefix) {
    k += a.v[n] + "-" + a.r[n] + "-";
    ++n;
  }
  vector<string> v(a.v.begin(), a.v.begin() + static_cast<ptrdiff_t>(n)), rd(a.r.begin(), a.r.begin() + static_cast<ptrdiff_t>(n));
  continuation("[" + vf::S(v, "") + "] " + quoted(rd), model()->findAssociatedPhrasesV2(vf::S(v, ""), rd), rows);
  vf::count("prefixes");
  if (n != 1 || !r.chance(1, 4)) return;
  // typed: the first character, then what follows it
  auto names = ranked(rd[0]);
  auto at = std::find(names.begin(), names.end(), v[0]);
  if (at == names.end() || rd[0][0] == '_') return;
  Typist t{Settings()};
  Syl s = parseText(rd[0]);
  t.type(keysFor(0, s));
  t.press(Key::namedKey(Key::KeyName::DOWN));
  t.choose(static_cast<size_t>(at - names.begin()));
  VCHECK(t.text() == v[0], "choosing [" << v[0] << "] for " << rd[0] << " gives [" << t.text() << "]");
  t.press(Key::asciiKey(Key::RETURN, true));
  auto got = model()->findAssociatedPhrasesV2(v[0], rd);
  vector<string> values;
  for (auto& p : got) values.push_back(p.value);
  VCHECK(t.window() == values, "after [" << v[0] << "] " << quoted(t.window()) << " are offered and not " << quoted(values));
  size_t i = r.below(values.size());
  bool typeable = true;
  for (auto& x : got[i].readings) typeable = typeable && shipped().rows.of.count(x);
  t.choose(i);
  if (typeable) {
    bool each = true;
    for (size_t j = 0; j < got[i].readings.size(); ++j) {
      auto nm = ranked(got[i].readings[j]);
      each = each && std::find(nm.begin(), nm.end(), chars(values[i])[j]) != nm.end();
    }
    if (each) {
      VCHECK(t.text() == values[i], "choosing the phrase [" << values[i] << "] gives [" << t.text() << "]");
      vf::count("phrases_chosen");
    }
  }
}

void services(Rng& r) {
  // names and addresses, read from the file by the shape it has
  std::ifstream f(repo() + "dictionary_service.json", std::ios::binary);
  std::stringstream ss;
  ss << f.rdbuf();
  string j = ss.str();
  vector<std::pair<string, string>> want;
  auto field = [&](size_t from, const char* name, size_t* end) -> string {
    string q = string("\"") + name + "\": \"";
    size_t a = j.find(q, from);
    if (a == string::npos) return "";
    size_t b = j.find('"', a + q.size());
    *end = b;
    return j.substr(a + q.size(), b - a - q.size());
  };
  for (size_t at = 0;;) {
    size_t e = 0;
    string n = field(at, "name", &e);
    if (n.empty()) break;
    string u = field(e, "url_template", &e);
    want.emplace_back(n, u);
    at = e;
  }
  VCHECK(want.size() >= 2 && j.find("\\") == string::npos, "dictionary_service.json cannot be read (harness)");
  static bool placed = false;
  if (!placed) {
    string dir = string(getenv("XDG_DATA_DIRS")) + "/fcitx5/data";
    fs::create_directories(dir);
    fs::copy_file(repo() + "dictionary_service.json", dir + "/mcbopomofo-dictionary-service.json", fs::copy_options::overwrite_existing);
    placed = true;
  }
  DictionaryServices s;
  s.load();
  string word = r.pick(vector<string>{"字", "輸入法", "𠀀", "A b", "丼&=/?#"});
  auto menu = s.menuForPhrase(word);
  VCHECK(menu.size() == want.size() + 1, "the menu has " << menu.size() << " entries for the " << want.size() << " services installed and the character information");
  string enc;
  for (unsigned char c : word) {
    char b[8];
    if (isalnum(c) && c < 0x80) snprintf(b, sizeof b, "%c", c);
    else snprintf(b, sizeof b, "%%%02X", c);
    enc += b;
  }
  InputStates::Inputting in("x", 1);
  for (size_t i = 0; i < want.size(); ++i) {
    VCHECK(menu[i + 1].find(want[i].first) != string::npos, "entry " << i + 1 << " is [" << menu[i + 1] << "] and not for [" << want[i].first << "]");
    VCHECK(want[i].second.compare(0, 8, "https://") == 0 && want[i].second.find("(encoded)") != string::npos, "the address of [" << want[i].first << "] is [" << want[i].second << "]");
    gStarted.clear();
    s.lookup(word, i + 1, &in, [](std::unique_ptr<InputState>) {});
    string u = want[i].second;
    for (size_t p; (p = u.find("(encoded)")) != string::npos;) u.replace(p, 9, enc);
    VCHECK(gStarted.size() == 1 && !gStarted[0].empty() && gStarted[0].back() == u, "looking [" << word << "] up in " << want[i].first << " starts " << (gStarted.empty() ? "nothing" : quoted(gStarted[0])) << " and not [" << u << "]");
    vf::count("services_opened");
  }
}

void c45(uint64_t idx, Rng& r) {
  const Shipped& s = shipped();
  const size_t parts = 60;
  if (idx == 0) VCHECK(s.bad.empty(), s.bad.size() << " rows are damaged, the first in " << s.bad[0]);
  size_t part = idx % parts;
  for (size_t i = part; i < s.rows.keys.size(); i += parts) {
    syllable(r, s.rows.keys[i]);
    if (s.rows.keys[i][0] == '_') special(s.rows.keys[i]);
    vf::distinct(s.rows.keys[i]);
  }
  size_t n = 0;
  for (int l = 0; l < 6; ++l)
    for (int c = 33; c < 127; ++c)
      for (int m = 0; m < 3; ++m)
        if (n++ % parts == part) punctuation(r, l, static_cast<char>(c), m == 1, m == 2);
  for (size_t i = part; i < s.prefixes.size(); i += parts) {
    associated(r, s.prefixes[i]);
    vf::distinct(s.prefixes[i]);
  }
  for (size_t i = part; i < s.valuePrefixes.size(); i += parts) continuation("[" + s.valuePrefixes[i] + "]", model()->findAssociatedPhrasesV2(s.valuePrefixes[i], {}), s.byValue.at(s.valuePrefixes[i]));
  if (part % 8 == 0) services(r);
  vf::sample("part " + std::to_string(part) + ": readings like " + s.rows.keys[part] + ", prefixes like " + s.prefixes[part]);
}
vf::Reg r45("C45", 60, 240, c45);
}  // namespace

int main(int argc, char** argv) {
  fcitx::Log::setLogStream(gNullStream);
  return vf::mainLoop(argc, argv);
}
