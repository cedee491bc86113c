// Monitor for the dictionary services: C32. The configuration file lies in a
// scratch XDG tree, processes are recorded instead of started.
#include <fcitx-utils/log.h>
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#include <filesystem>
#include <fstream>
#include <memory>

#include "DictionaryService.h"
#include "InputState.h"
#include "common.h"

using namespace McBopomofo;
using std::string;
using std::vector;
using vf::Rng;

static vector<vector<string>> gStarted;
namespace fcitx {
void startProcess(const std::vector<std::string>& args, const std::string&) { gStarted.push_back(args); }
}  // namespace fcitx

namespace {

struct Null : std::streambuf {
  int overflow(int c) override { return c == EOF ? 0 : c; }
} gNull;
std::ostream gNullStream(&gNull);

struct Entry {
  string name, url;
  bool maybe = false;  // not settled whether it counts
};

string quote(const string& s) {
  string o = "\"";
  for (unsigned char c : s) {
    char b[8];
    if (c == '"' || c == '\\') {
      o += '\\';
      o += static_cast<char>(c);
    } else if (c < 0x20) {
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += static_cast<char>(c);
    }
  }
  return o + "\"";
}

const vector<string> kNames = {"萌典", "Wiktionary", "教育部 \"國語\" 辭典", "{0}", "A%sB", "name\\x", "x", "國語小字典", "{}{}", "\n", "很長的名字很長的名字很長的名字很長的名字"};
const vector<string> kUrls = {"https://www.moedict.tw/(encoded)",
                              "https://example.org/?q=(encoded)&lang=zh",
                              "https://example.org/(encoded)/page#(encoded)",
                              "(encoded)",
                              "https://example.org/plain",
                              "https://example.org/(encoded",
                              "https://example.org/(ENCODED)/(encoded)?a=%20(encoded)(encoded)",
                              "((encoded))",
                              "",
                              "https://例え.jp/(encoded)/終"};
const vector<string> kWords = {"測試", "a", "A-Z_0.9~", "𠮷", "a b&c=d#e%f+g", "(encoded)", "x(encoded)y", "\xff\x80", "", "/?:@", "%E4%BD", "\n\t", "臺灣ㄅ", "-", "'\"<>\\^`{|}"};

struct Config {
  string text;
  bool exists = true;
  vector<Entry> entries;
};

Config drawConfig(Rng& r) {
  Config c;
  unsigned kind = static_cast<unsigned>(r.below(20));
  if (kind == 0) {
    c.exists = false;
    return c;
  }
  if (kind < 4) {
    static const vector<string> bad = {"", " ", "{", "[]", "null", "5", "\"services\"", "{\"services\": null}", "{\"services\": 5}", "{\"services\": {}}",
                                       "{\"services\": \"x\"}", "{\"services\": true}", "{\"service\": []}", "{}", "{\"services\": []", "[{\"services\": []}]",
                                       "\xff\xfe\x01", "{\"services\": {\"name\": \"a\", \"url_template\": \"b\"}}", "{'services': [5"};
    c.text = r.pick(bad);
    return c;
  }
  vector<string> els;
  int n = static_cast<int>(r.below(7));
  for (int i = 0; i < n; ++i) {
    string name = r.pick(kNames), url = r.pick(kUrls);
    if (r.chance(1, 5)) {
      url.clear();
      for (int k = static_cast<int>(r.below(6)); k > 0; --k) url += r.chance(1, 3) ? "(encoded)" : r.pick(kWords).substr(0, 3);
      // no broken texts in the configuration
      if (!std::all_of(url.begin(), url.end(), [](unsigned char ch) { return ch < 0x80; })) url = "ü(encoded)";
    }
    if (r.chance(1, 5)) {
      static const vector<string> badEl = {"null", "5", "\"x\"", "[]", "{}", "true", "{\"name\": \"only name\"}", "{\"url_template\": \"https://only/(encoded)\"}",
                                           "{\"name\": null, \"url_template\": \"https://n/(encoded)\"}", "{\"name\": \"n\", \"url_template\": null}",
                                           "{\"name\": null, \"url_template\": null}", "[[\"name\", \"url_template\"]]"};
      els.push_back(r.pick(badEl));
      vf::count("invalid_entries");
      continue;
    }
    if (r.chance(1, 16)) {
      els.push_back("{\"name\": 5, \"url_template\": " + quote(url) + "}");
      c.entries.push_back({"5", url, true});
      continue;
    }
    string e = r.chance(1, 2) ? "{\"name\": " + quote(name) + ", \"url_template\": " + quote(url) + "}"
                              : "{\"url_template\": " + quote(url) + ", \"extra\": [1, {}], \"name\": " + quote(name) + "}";
    els.push_back(e);
    c.entries.push_back({name, url});
    vf::count("valid_entries");
  }
  c.text = r.chance(1, 2) ? "{\n  \"version\": 1, \"services\": [" : "{\"services\":[";
  for (size_t i = 0; i < els.size(); ++i) c.text += (i ? ",\n" : "") + els[i];
  c.text += "]}";
  if (r.chance(1, 2)) c.text += "\n";
  if (r.chance(1, 8)) {
    // cut short
    size_t end = c.text.find_last_of('}');
    c.text.resize(r.below(end));
    c.entries.clear();
    vf::count("cut_short");
  }
  return c;
}

string decode(const string& s, bool* ok) {
  string o;
  for (size_t i = 0; i < s.size(); ++i) {
    if (s[i] == '%') {
      if (i + 2 >= s.size() + 0 && i + 2 > s.size() - 1) {
        *ok = false;
        return o;
      }
      if (!isxdigit(static_cast<unsigned char>(s[i + 1])) || !isxdigit(static_cast<unsigned char>(s[i + 2]))) {
        *ok = false;
        return o;
      }
      o += static_cast<char>(strtol(s.substr(i + 1, 2).c_str(), nullptr, 16));
      i += 2;
    } else if (static_cast<unsigned char>(s[i]) < 0x80 && (isalnum(static_cast<unsigned char>(s[i])) || strchr("-_.~", s[i]))) {
      o += s[i];
    } else {
      *ok = false;  // not allowed unencoded
      return o;
    }
  }
  return o;
}

// The address a template gives for a word: every marker replaced by the same
// encoded word, nothing else changed.
string judgeUrl(const string& tmpl, const string& word, const string& url) {
  vector<string> parts;
  size_t i = 0, fixed = 0;
  const string mark = "(encoded)";
  while (true) {
    size_t k = tmpl.find(mark, i);
    parts.push_back(tmpl.substr(i, k == string::npos ? string::npos : k - i));
    fixed += parts.back().size();
    if (k == string::npos) break;
    i = k + mark.size();
  }
  size_t n = parts.size() - 1;
  if (n == 0) return url == tmpl ? "" : "the template has no marker but was changed";
  if (url.size() < fixed || (url.size() - fixed) % n) return "not the template with the word in its place";
  size_t len = (url.size() - fixed) / n, at = 0;
  for (size_t p = 0; p < parts.size(); ++p) {
    if (url.compare(at, parts[p].size(), parts[p]) != 0) return "not the template with the word in its place";
    at += parts[p].size();
    if (p == n) break;
    bool ok = true;
    if (decode(url.substr(at, len), &ok) != word || !ok) return "the word is not encoded properly";
    at += len;
  }
  return "";
}

std::unique_ptr<InputStates::SelectingDictionary> window(const string& word, const vector<string>& menu, Rng& r) {
  std::unique_ptr<InputStates::NotEmpty> prev;
  if (r.chance(1, 2)) {
    vector<InputStates::ChoosingCandidate::Candidate> cs;
    cs.emplace_back("ㄅ", word);
    prev = std::make_unique<InputStates::ChoosingCandidate>("前" + word, 0, 0, cs);
  } else {
    prev = std::make_unique<InputStates::Marking>("前" + word, 0, "tip", 0, "前", word, "", "ㄅ-ㄆ", true);
  }
  return std::make_unique<InputStates::SelectingDictionary>(std::move(prev), word, 3, menu);
}

void services(uint64_t idx, Rng& r) {
  fcitx::Log::setLogStream(gNullStream);
  string dir = string(getenv("XDG_DATA_DIRS")) + "/fcitx5/data";
  string path = dir + "/mcbopomofo-dictionary-service.json";
  std::error_code ec;
  std::filesystem::create_directories(dir);
  std::filesystem::remove_all(path, ec);
  Config c = drawConfig(r);
  vf::note(c.exists ? c.text : "no configuration");
  if (c.exists) {
    std::ofstream f(path, std::ios::binary);
    f << c.text;
  } else if (r.chance(1, 2)) {
    std::filesystem::create_directories(path);
  }
  DictionaryServices s;
  VCHECK(!s.hasServices(), "services before loading");
  s.load();
  VCHECK(s.hasServices(), "no services after loading");
  for (int k = 0; k < 4; ++k) {
    string word = r.pick(kWords);
    if (r.chance(1, 4)) {
      word.clear();
      for (int i = static_cast<int>(r.below(10)); i > 0; --i) word += static_cast<char>(r.below(256));
    }
    vector<string> menu = s.menuForPhrase(word);
    VCHECK(!menu.empty(), "empty menu");
    // Match the menu with the entries; the built-in service is the first.
    vector<Entry> offered;
    size_t m = 1;
    size_t optional = static_cast<size_t>(std::count_if(c.entries.begin(), c.entries.end(), [](const Entry& e) { return e.maybe; }));
    size_t sure = c.entries.size() - optional;
    VCHECK(menu.size() - 1 >= sure && menu.size() - 1 <= c.entries.size(),
           menu.size() - 1 << " services offered besides the built-in one, " << sure << " configured");
    bool with = menu.size() - 1 == c.entries.size();
    for (auto& e : c.entries) {
      if (e.maybe && !with) continue;
      VCHECK(m < menu.size(), "service missing: " << e.name);
      VCHECK(menu[m].find(word) != string::npos && menu[m].find(e.name) != string::npos,
             "menu entry " << m << " is " << vf::jstr(menu[m]) << ", for the word " << vf::jstr(word) << " and the service " << vf::jstr(e.name));
      offered.push_back(e);
      ++m;
    }
    if (optional && !with && menu.size() - 1 != sure) continue;
    VCHECK(menu[0] == s.menuForPhrase("other")[0] || menu[0].find(word) != string::npos, "built-in service is not the first");
    vf::count("menus");
    for (size_t i = 0; i < offered.size() + 3; ++i) {
      auto state = window(word, menu, r);
      std::unique_ptr<InputState> next;
      int called = 0;
      gStarted.clear();
      // The state is replaced while the callback runs, as in the engine.
      std::unique_ptr<InputState> cur = std::move(state);
      InputState* raw = cur.get();
      s.lookup(word, i, raw, [&](std::unique_ptr<InputState> n) {
        ++called;
        next = std::move(n);
        cur.reset();
      });
      if (i == 0) {
        VCHECK(gStarted.empty(), "the built-in service started a program");
        VCHECK(called == 1, "the built-in service led nowhere");
        auto* info = dynamic_cast<InputStates::ShowingCharInfo*>(next.get());
        VCHECK(info != nullptr, "the built-in service does not show the information");
        VCHECK(info->selectedPhrase == word, "information about another word");
        VCHECK(info->composingBuffer == "前" + word, "the composition changed");
        VCHECK(info->previousState && info->previousState->previousState, "the window before is lost");
        VCHECK(info->previousState->menu == menu && info->previousState->selectedPhrase == word && info->previousState->selectedCandidateIndex == 3,
               "the window before changed");
        VCHECK(info->previousState->previousState->composingBuffer == "前" + word, "the state before changed");
        vf::count("builtin_lookups");
      } else if (i <= offered.size()) {
        VCHECK(gStarted.size() == 1, gStarted.size() << " programs started");
        VCHECK(gStarted[0].size() == 2 && !gStarted[0][0].empty(), "command of " << gStarted[0].size() << " words");
        string bad = judgeUrl(offered[i - 1].url, word, gStarted[0][1]);
        VCHECK(bad.empty(), "service " << offered[i - 1].url << " for " << vf::jstr(word) << " opened " << vf::jstr(gStarted[0][1]) << ": " << bad);
        VCHECK(called == 1 && dynamic_cast<InputStates::Empty*>(next.get()), "the window stays after opening a service");
        vf::count("lookups");
        if (offered[i - 1].url.find("(encoded)") == string::npos) vf::count("no_marker");
      } else {
        VCHECK(gStarted.empty() && called == 0, "a service that is not there did something");
        vf::count("out_of_range");
      }
    }
  }
  vf::distinct(c.text);
  if (idx < 4) vf::sample(c.text);
}
vf::Reg r32("C32", 12000, 400000, services);

}  // namespace

int main(int argc, char** argv) { return vf::mainLoop(argc, argv); }
