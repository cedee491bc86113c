// Independent tables of Bopomofo symbols, keys and spellings.
#pragma once
#include <algorithm>
#include <fstream>

#include "Mandarin.h"
#include "common.h"

namespace {
using Formosa::Mandarin::BopomofoKeyboardLayout;
using Formosa::Mandarin::BopomofoReadingBuffer;
using Formosa::Mandarin::BPMF;
using std::string;
using std::vector;

// ---- independent reference -------------------------------------------------
const vector<string> kCons = {"ㄅ", "ㄆ", "ㄇ", "ㄈ", "ㄉ", "ㄊ", "ㄋ", "ㄌ", "ㄍ", "ㄎ", "ㄏ", "ㄐ", "ㄑ", "ㄒ", "ㄓ", "ㄔ", "ㄕ", "ㄖ", "ㄗ", "ㄘ", "ㄙ"};
const vector<string> kMid = {"ㄧ", "ㄨ", "ㄩ"};
const vector<string> kVow = {"ㄚ", "ㄛ", "ㄜ", "ㄝ", "ㄞ", "ㄟ", "ㄠ", "ㄡ", "ㄢ", "ㄣ", "ㄤ", "ㄥ", "ㄦ"};
const vector<string> kTone = {"ˊ", "ˇ", "ˋ", "˙"};
const vector<BPMF::Component> cCons = {BPMF::B, BPMF::P, BPMF::M, BPMF::F, BPMF::D, BPMF::T, BPMF::N, BPMF::L, BPMF::G, BPMF::K, BPMF::H, BPMF::J, BPMF::Q, BPMF::X, BPMF::ZH, BPMF::CH, BPMF::SH, BPMF::R, BPMF::Z, BPMF::C, BPMF::S};
const vector<BPMF::Component> cMid = {BPMF::I, BPMF::U, BPMF::UE};
const vector<BPMF::Component> cVow = {BPMF::A, BPMF::O, BPMF::ER, BPMF::E, BPMF::AI, BPMF::EI, BPMF::AO, BPMF::OU, BPMF::AN, BPMF::EN, BPMF::ANG, BPMF::ENG, BPMF::ERR};
const vector<BPMF::Component> cTone = {BPMF::Tone2, BPMF::Tone3, BPMF::Tone4, BPMF::Tone5};

struct Syl {
  int p[4] = {-1, -1, -1, -1};  // consonant, medial, vowel, tone (index or -1)
  bool operator==(const Syl& o) const { return std::equal(p, p + 4, o.p); }
  bool empty() const { return p[0] < 0 && p[1] < 0 && p[2] < 0 && p[3] < 0; }
  int n() const { return (p[0] >= 0) + (p[1] >= 0) + (p[2] >= 0) + (p[3] >= 0); }
};
const vector<string>* kParts[4] = {&kCons, &kMid, &kVow, &kTone};
const vector<BPMF::Component>* cParts[4] = {&cCons, &cMid, &cVow, &cTone};

string text(const Syl& s) {
  string o;
  for (int i = 0; i < 4; ++i)
    if (s.p[i] >= 0) o += (*kParts[i])[static_cast<size_t>(s.p[i])];
  return o;
}
BPMF make(const Syl& s) {
  BPMF b;
  for (int i = 0; i < 4; ++i)
    if (s.p[i] >= 0) b += BPMF((*cParts[i])[static_cast<size_t>(s.p[i])]);
  return b;
}
// Observed syllable back to the reference form; fails on values that are none.
Syl observed(const BPMF& b) {
  Syl s;
  BPMF::Component c[4] = {b.consonantComponent(), b.middleVowelComponent(), b.vowelComponent(), b.toneMarkerComponent()};
  bool has[4] = {b.hasConsonant(), b.hasMiddleVowel(), b.hasVowel(), b.hasToneMarker()};
  for (int i = 0; i < 4; ++i) {
    if (c[i]) {
      auto it = std::find(cParts[i]->begin(), cParts[i]->end(), c[i]);
      VCHECK(it != cParts[i]->end(), "syllable holds component value " << c[i] << " that stands for no symbol");
      s.p[i] = static_cast<int>(it - cParts[i]->begin());
    }
    VCHECK(has[i] == (c[i] != 0), "syllable denies or invents part " << i);
  }
  VCHECK(b.isEmpty() == s.empty(), "syllable isEmpty() is wrong");
  return s;
}

Syl parseText(const string& t) {
  // as many whole symbols as there are, later ones replacing earlier of a kind
  Syl s;
  size_t i = 0;
  while (i < t.size()) {
    bool hit = false;
    for (int k = 0; k < 4 && !hit; ++k)
      for (size_t j = 0; j < kParts[k]->size() && !hit; ++j) {
        const string& x = (*kParts[k])[j];
        if (t.compare(i, x.size(), x) == 0) {
          s.p[k] = static_cast<int>(j);
          i += x.size();
          hit = true;
        }
      }
    if (!hit) break;
  }
  return s;
}

// Hanyu Pinyin spelling by the table of finals; "" when the pair is none.
string refPinyin(const Syl& s, bool v) {
  static const char* const kInit[21] = {"b", "p", "m", "f", "d", "t", "n", "l", "g", "k", "h", "j", "q", "x", "zh", "ch", "sh", "r", "z", "c", "s"};
  // rows: none, i, u, ue; columns: none + 13 vowels; "with initial/without"
  static const char* const kFin[4][14] = {
      {"i/", "a/a", "o/o", "e/e", "", "ai/ai", "ei/ei", "ao/ao", "ou/ou", "an/an", "en/en", "ang/ang", "eng/eng", "/er"},
      {"i/yi", "ia/ya", "/yo", "", "ie/ye", "/yai", "", "iao/yao", "iu/you", "ian/yan", "in/yin", "iang/yang", "ing/ying", ""},
      {"u/wu", "ua/wa", "uo/wo", "", "", "uai/wai", "ui/wei", "", "", "uan/wan", "un/wen", "uang/wang", "ong/weng", ""},
      {"v/yu", "", "", "", "ve/yue", "", "", "", "", "van/yuan", "vn/yun", "", "iong/yong", ""}};
  string f = kFin[s.p[1] + 1][s.p[2] + 1];
  size_t slash = f.find('/');
  if (slash == string::npos) return "";
  string o;
  if (s.p[0] >= 0) {
    o = f.substr(0, slash);
    bool jqx = s.p[0] >= 11 && s.p[0] <= 13;
    if (s.p[1] < 0 && s.p[2] < 0 && s.p[0] < 14) return "";
    if (o.empty()) return "";
    if (o[0] == 'v') {
      bool nl = s.p[0] == 6 || s.p[0] == 7;
      if (jqx) o[0] = 'u';
      else if (!nl) return "";
      else if (o == "ve") o = "ue";
      else if (!v) o = "ü" + o.substr(1);
    } else if (o == "iong" && !jqx) {
      return "";
    }
    o = kInit[s.p[0]] + o;
  } else {
    o = f.substr(slash + 1);
  }
  if (o.empty()) return "";
  if (s.p[3] >= 0) o += static_cast<char>('2' + s.p[3]);
  return o;
}

struct Layout {
  const char* name;
  bool shared;  // keys stand for several symbols
  string keys[4];
  const BopomofoKeyboardLayout* layout;
};
const vector<Layout>& layouts() {
  static const vector<Layout> l = {
      {"Standard", false, {"1qaz2wsxedcrfv5tgbyhn", "ujm", "8ik,9ol.0p;/-", "6347"}, BopomofoKeyboardLayout::StandardLayout()},
      {"ETen", false, {"bpmfdtnlvkhg7c,./j;'s", "exu", "aorwiqzy890-=", "2341"}, BopomofoKeyboardLayout::ETenLayout()},
      {"IBM", false, {"1234567890-qwertyuiop", "asd", "fghjkl;zxcvbn", "m,./"}, BopomofoKeyboardLayout::IBMLayout()},
      {"Hsu", true, {"bpmfdtnlgkhjvcjvcrzas", "exu", "yhgeiawomnkll", "dfjs"}, BopomofoKeyboardLayout::HsuLayout()},
      {"ETen26", true, {"bpmfdtnlvkhgvcgycjqws", "exu", "aorwiqzpmntlh", "fjkd"}, BopomofoKeyboardLayout::ETen26Layout()}};
  return l;
}
string keysOf(const Layout& l, const Syl& s) {
  string o;
  for (int i = 0; i < 4; ++i)
    if (s.p[i] >= 0) o += l.keys[i][static_cast<size_t>(s.p[i])];
  return o;
}
bool validKey(const Layout& l, char k) {
  for (auto& p : l.keys)
    if (k && p.find(k) != string::npos) return true;
  return false;
}

// A complete syllable: has a medial or vowel, or is one of the seven
// consonants that stand alone. The lone ㄝ, ㄟ, ㄥ cannot be typed where keys
// are shared.
bool complete(const Syl& s) {
  if (s.p[1] < 0 && s.p[2] < 0) return s.p[0] >= 14;
  return true;
}
bool typeableShared(const Syl& s) {
  if (!complete(s)) return false;
  if (s.p[0] < 0 && s.p[1] < 0 && (s.p[2] == 3 || s.p[2] == 5 || s.p[2] == 11)) return false;
  return true;
}

const vector<Syl>& realSyllables() {
  static vector<Syl> v;
  if (v.empty()) {
    const char* e = getenv("VERIF_REPO");
    std::ifstream f(string(e ? e : "/repo") + "/data/data-plain-bpmf.txt");
    std::set<string> seen;
    string l;
    while (getline(f, l)) {
      string k = l.substr(0, l.find(' '));
      if (k.empty() || k[0] == '#' || k[0] == '_' || !seen.insert(k).second) continue;
      Syl s = parseText(k);
      if (text(s) == k) v.push_back(s);
    }
    if (v.size() < 1000) {
      fprintf(stderr, "cannot read the syllable table\n");
      _exit(3);
    }
  }
  return v;
}
}  // namespace
