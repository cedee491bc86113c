// Monitors for Bopomofo syllables and the reading buffer: C16, C17.
#include "bpmf.h"

using vf::Rng;

namespace {

string show(const Syl& s) { return "[" + text(s) + "]"; }

// ---- C16 -------------------------------------------------------------------
void checkSyllable(const Syl& s, bool real) {
  BPMF b = make(s);
  VCHECK(observed(b) == s, "syllable " << show(s) << " holds other components");
  string t = b.composedString();
  VCHECK(t == text(s), "syllable " << show(s) << " is shown as [" << t << "]");
  VCHECK(BPMF::FromComposedString(t) == b, "[" << t << "] is read back as another syllable");
  std::ostringstream os;
  os << b;
  VCHECK(os.str() == t, "printed form differs");
  for (auto& l : layouts()) {
    string k = l.layout->keySequenceFromSyllable(b);
    VCHECK(k == keysOf(l, s), l.name << " types " << show(s) << " as " << k << " instead of " << keysOf(l, s));
    BPMF back = l.layout->syllableFromKeySequence(k);
    if (!l.shared || (real && typeableShared(s)))
      VCHECK(back == b, l.name << " reads " << k << " as [" << back.composedString() << "] instead of " << show(s));
    observed(back);
    vf::count("key_sequences");
  }
  for (bool v : {false, true}) {
    string p = b.HanyuPinyinString(true, v);
    string plain = b.HanyuPinyinString(false, v);
    observed(BPMF::FromHanyuPinyin(p));
    string want = refPinyin(s, v);
    if (real && complete(s) && !want.empty()) {
      VCHECK(p == want, show(s) << " is spelled " << p << " instead of " << want);
      string noTone = want;
      if (s.p[3] >= 0) noTone.pop_back();
      VCHECK(plain == noTone, show(s) << " is spelled " << plain << " instead of " << noTone);
      BPMF back = BPMF::FromHanyuPinyin(p);
      VCHECK(back == b, p << " is read as [" << back.composedString() << "] instead of " << show(s));
      string up = p;
      for (auto& c : up)
        if (c >= 'a' && c <= 'z') c = static_cast<char>(c - 32);
      if (up.find("Ü") == string::npos && up.find("ü") == string::npos)
        VCHECK(BPMF::FromHanyuPinyin(up) == b, up << " is not read as " << show(s));
      if (s.p[3] < 0) VCHECK(BPMF::FromHanyuPinyin(p + "1") == b, p << "1 is not read as " << show(s));
      vf::count("pinyin_spellings");
    }
  }
}

void caseSyllable(uint64_t idx, Rng& r) {
  if (idx < 22) {
    for (int m = -1; m < 3; ++m)
      for (int v = -1; v < 13; ++v)
        for (int t = -1; t < 4; ++t) {
          Syl s;
          s.p[0] = static_cast<int>(idx) - 1;
          s.p[1] = m;
          s.p[2] = v;
          s.p[3] = t;
          checkSyllable(s, false);
          vf::distinct(text(s));
          vf::count("syllables");
        }
    return;
  }
  if (idx == 22) {
    for (auto& s : realSyllables()) {
      checkSyllable(s, true);
      vf::count("real_syllables");
    }
    return;
  }
  // putting syllables together
  auto rnd = [&] {
    Syl s;
    for (int i = 0; i < 4; ++i)
      if (r.chance(1, 2)) s.p[i] = static_cast<int>(r.below(kParts[i]->size()));
    return s;
  };
  for (int n = 0; n < 40; ++n) {
    Syl a = rnd(), b = rnd(), c = a;
    bool over = false;
    BPMF::Component mask = 0;
    static const BPMF::Component m[4] = {BPMF::ConsonantMask, BPMF::MiddleVowelMask, BPMF::VowelMask, BPMF::ToneMarkerMask};
    for (int i = 0; i < 4; ++i) {
      over |= a.p[i] >= 0 && b.p[i] >= 0;
      if (b.p[i] >= 0) c.p[i] = b.p[i];
      if (a.p[i] >= 0) mask = static_cast<BPMF::Component>(mask | m[i]);
    }
    BPMF x = make(a), y = make(b), z = x + y;
    VCHECK(observed(z) == c, show(a) << "+" << show(b) << " is [" << z.composedString() << "]");
    VCHECK(x.isOverlappingWith(y) == over, "overlap of " << show(a) << " and " << show(b));
    VCHECK(x.maskType() == mask, "parts of " << show(a));
    VCHECK((x == y) == (a == b) && (x != y) == !(a == b), "equality of " << show(a) << " and " << show(b));
    VCHECK(x.belongsToJQXClass() == (a.p[0] >= 11 && a.p[0] <= 13), "JQX class of " << show(a));
    VCHECK(x.belongsToZCSRClass() == (a.p[0] >= 14), "ZCSR class of " << show(a));
    vf::count("sums");
  }
  // text that may or may not be a syllable, in a buffer of exactly its size
  string trail;
  for (int n = 0; n < 60; ++n) {
    string t;
    size_t pieces = r.below(10);
    for (size_t i = 0; i < pieces; ++i) {
      const vector<string>& p = *kParts[r.below(4)];
      t += r.pick(p);
    }
    switch (r.below(6)) {
      case 0: t += static_cast<char>(0xe0 + r.below(16)); break;
      case 1: t += static_cast<char>(0xc0 + r.below(32)); break;
      case 2: for (uint64_t k = 1 + r.below(4); k; --k) t += static_cast<char>(r.below(256)); break;
      case 3: if (!t.empty()) t.resize(t.size() - 1 - r.below(std::min<size_t>(t.size(), 3))); break;
      case 4: if (!t.empty()) t[r.below(t.size())] = static_cast<char>(r.below(256)); break;
      default: break;
    }
    string e(t);
    e.reserve(32);  // force the heap
    string exact;
    exact.reserve(std::max<size_t>(t.size(), 16));
    exact = t;
    if (exact.size() >= 16) exact.shrink_to_fit();
    vf::note("read " + vf::jstr(exact));
    BPMF b = BPMF::FromComposedString(exact);
    Syl s = observed(b), want = parseText(t);
    VCHECK(s == want, vf::jstr(t) << " is read as [" << b.composedString() << "] instead of " << show(want));
    vf::count("texts_read");
    trail += t;
    // arbitrary Latin text as pinyin: any syllable, but a whole one
    string p;
    static const string kL = "abcdefghijklmnopqrstuvwxyz12345'ZCSüY ";
    for (uint64_t k = r.below(9); k; --k) p += kL[r.below(kL.size())];
    vf::note("pinyin " + vf::jstr(p));
    observed(BPMF::FromHanyuPinyin(p));
    vf::count("pinyin_read");
  }
  vf::distinct(trail);
  if (idx == 23) vf::sample("22x4x14x5 syllables and the shipped readings; random text such as " + vf::jstr(trail.substr(0, 120)));
}

// ---- C17 -------------------------------------------------------------------
struct Model {
  int layout = 0;  // index, 5 = pinyin
  Syl s;           // exact unless fuzzy
  bool fuzzy = false;
  string pinyin;
};

void checkBuffer(const BopomofoReadingBuffer& b, Model& m) {
  string shown = b.composedString();
  Syl s = observed(b.syllable());
  VCHECK(b.isEmpty() == shown.empty(), "the reading is " << (b.isEmpty() ? "empty" : "not empty") << " while [" << shown << "] is shown");
  VCHECK(b.hasToneMarker() == (s.p[3] >= 0), "hasToneMarker is wrong for " << show(s));
  VCHECK(b.hasToneMarkerOnly() == (s.p[3] >= 0 && s.n() == 1), "hasToneMarkerOnly is wrong for " << show(s));
  VCHECK(b.standardLayoutQueryString() == keysOf(layouts()[0], s), "standard keys of " << show(s) << " given as " << b.standardLayoutQueryString());
  if (m.layout == 5) {
    VCHECK(shown == m.pinyin, "pinyin shows [" << shown << "], typed [" << m.pinyin << "]");
  } else {
    VCHECK(shown == text(s), "the reading " << show(s) << " is shown as [" << shown << "]");
    if (!m.fuzzy) VCHECK(s == m.s, "the reading is " << show(s) << ", expected " << show(m.s));
    m.s = s;
  }
  vf::count("states");
}

void caseBuffer(uint64_t idx, Rng& r) {
  static std::map<string, Syl> byPinyin;
  if (byPinyin.empty())
    for (auto& s : realSyllables()) {
      string p = refPinyin(s, true);
      if (complete(s) && !p.empty()) byPinyin.emplace(p, s);
    }
  auto layoutPtr = [&](int i) { return i == 5 ? BopomofoKeyboardLayout::HanyuPinyinLayout() : layouts()[static_cast<size_t>(i)].layout; };
  auto layoutName = [&](int i) { return i == 5 ? string("HanyuPinyin") : string(layouts()[static_cast<size_t>(i)].name); };
  Model m;
  m.layout = static_cast<int>(r.below(6));
  BopomofoReadingBuffer b(layoutPtr(m.layout));
  string hist = layoutName(m.layout) + ":";
  checkBuffer(b, m);
  int steps = 30 + static_cast<int>(r.below(60));
  unsigned switchRate = static_cast<unsigned>(r.below(3)) * 4;  // of 64
  auto log = [&](const string& x) {
    hist += x + " ";
    vf::note(x);
  };
  auto typeKey = [&](char k) {
    log(string("key ") + k);
    BopomofoReadingBuffer before = b;
    if (m.layout == 5) {
      char lk = static_cast<char>(k >= 'A' && k <= 'Z' ? k + 32 : k);
      bool toned = !m.pinyin.empty() && m.pinyin.back() >= '2' && m.pinyin.back() <= '5';
      bool want = (lk >= 'a' && lk <= 'z' && !toned) || (lk >= '2' && lk <= '5' && !m.pinyin.empty());
      VCHECK(b.isValidKey(k) == want, "pinyin key '" << k << "' after [" << m.pinyin << "] is " << (want ? "refused" : "taken"));
      VCHECK(b.combineKey(k) == want, "combineKey and isValidKey differ");
      if (want) {
        m.pinyin += lk;
        vf::count("keys_taken");
      } else {
        vf::count("keys_refused");
      }
    } else {
      const Layout& l = layouts()[static_cast<size_t>(m.layout)];
      bool want = validKey(l, k);
      VCHECK(b.isValidKey(k) == want, l.name << " key '" << k << "' is " << (want ? "refused" : "taken"));
      VCHECK(b.combineKey(k) == want, "combineKey and isValidKey differ");
      if (want) {
        vf::count("keys_taken");
        if (!l.shared) {
          for (int i = 0; i < 4; ++i)
            if (l.keys[i].find(k) != string::npos) m.s.p[i] = static_cast<int>(l.keys[i].find(k));
          m.fuzzy = false;
        } else {
          m.fuzzy = true;
          VCHECK(!b.isEmpty(), "a key was taken but the reading is empty");
        }
      } else {
        vf::count("keys_refused");
        VCHECK(b.syllable() == before.syllable(), "a refused key changed the reading");
      }
    }
    checkBuffer(b, m);
    m.fuzzy = false;
  };
  for (int i = 0; i < steps; ++i) {
    uint64_t op = r.below(64);
    if (op < switchRate) {
      int to = static_cast<int>(r.below(6));
      log("layout " + layoutName(to));
      b.setKeyboardLayout(layoutPtr(to));
      VCHECK(b.keyboardLayout() == layoutPtr(to), "the layout did not change");
      bool wasPinyin = m.layout == 5;
      m.layout = to;
      if (to == 5) {
        // keeping what was typed in pinyin or starting afresh are both fine
        string shown = b.composedString();
        VCHECK(shown.empty() || (wasPinyin && shown == m.pinyin), "changing to pinyin shows [" << shown << "]");
        m.pinyin = shown;
        m.s = Syl();
      } else if (wasPinyin) {
        m.pinyin.clear();
        m.s = observed(b.syllable());
      }
      checkBuffer(b, m);
      vf::count(wasPinyin ? "left_pinyin" : "layout_changes");
      continue;
    }
    if (op < 12) {
      log("backspace");
      Syl was = m.s;
      b.backspace();
      if (m.layout == 5) {
        if (!m.pinyin.empty()) m.pinyin.pop_back();
        checkBuffer(b, m);
      } else {
        const Layout& l = layouts()[static_cast<size_t>(m.layout)];
        for (int k = 3; k >= 0; --k)
          if (m.s.p[k] >= 0) {
            m.s.p[k] = -1;
            break;
          }
        Syl want = m.s;
        m.fuzzy = l.shared;
        checkBuffer(b, m);
        m.fuzzy = false;
        if (l.shared) {
          VCHECK(m.s.n() < was.n() || was.empty(), "backspace on " << show(was) << " leaves " << show(m.s));
          if (was.p[3] >= 0 && (want.p[1] >= 0 || (want.p[2] >= 0 && want.p[0] >= 0)) && typeableShared(want)) {
            bool real = std::find(realSyllables().begin(), realSyllables().end(), want) != realSyllables().end();
            if (real) {
              VCHECK(m.s == want, "backspace on " << show(was) << " leaves " << show(m.s));
              vf::count("tone_removed");
            }
          }
        }
      }
      vf::count("backspaces");
      continue;
    }
    if (op < 15) {
      log("clear");
      b.clear();
      m.s = Syl();
      m.pinyin.clear();
      VCHECK(b.isEmpty(), "cleared but not empty");
      checkBuffer(b, m);
      vf::count("clears");
      continue;
    }
    if (op < 30) {
      // a whole real syllable from an empty reading
      b.clear();
      m.s = Syl();
      m.pinyin.clear();
      log("clear, syllable");
      Syl s = r.pick(realSyllables());
      if (m.layout == 5) {
        string p = refPinyin(s, true);
        if (!complete(s) || p.empty()) continue;
        for (char c : p) typeKey(r.chance(1, 8) && c >= 'a' && c <= 'z' ? static_cast<char>(c - 32) : c);
        VCHECK(observed(b.syllable()) == s, "pinyin " << p << " gives [" << b.syllable().composedString() << "] instead of " << show(s));
      } else {
        const Layout& l = layouts()[static_cast<size_t>(m.layout)];
        if (l.shared && !typeableShared(s)) continue;
        for (char c : keysOf(l, s)) typeKey(c);
        VCHECK(observed(b.syllable()) == s, l.name << " keys " << keysOf(l, s) << " give [" << b.syllable().composedString() << "] instead of " << show(s));
      }
      vf::count("syllables_typed");
      continue;
    }
    char k;
    if (m.layout == 5) {
      bool toned = !m.pinyin.empty() && m.pinyin.back() >= '2' && m.pinyin.back() <= '5';
      k = r.chance(1, 8) ? static_cast<char>(0x20 + r.below(95)) : "abcdefghijklmnopqrstuvwxyz2345"[r.below(30)];
      if (toned && k >= '2' && k <= '5') continue;  // a second tone is left open
    } else {
      const Layout& l = layouts()[static_cast<size_t>(m.layout)];
      if (r.chance(1, 6)) k = static_cast<char>(0x20 + r.below(95));
      else {
        const string& ks = l.keys[r.below(4)];
        k = ks[r.below(ks.size())];
      }
    }
    typeKey(k);
    if (m.layout == 5 && byPinyin.count(m.pinyin)) {
      VCHECK(observed(b.syllable()) == byPinyin[m.pinyin], "pinyin " << m.pinyin << " gives [" << b.syllable().composedString() << "]");
      vf::count("pinyin_syllables");
    }
  }
  vf::distinct(hist);
  if (idx < 2) vf::sample(hist.substr(0, 600));
}

vf::Reg r16("C16", 1500, 60000, caseSyllable);
vf::Reg r17("C17", 6000, 300000, caseBuffer);

}  // namespace

int main(int argc, char** argv) { return vf::mainLoop(argc, argv); }
