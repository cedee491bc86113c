// Monitors for the key handling state machine: C18-C28 (and C12's learning as
// seen by the user). The real KeyHandler is driven the way the engine drives
// it; a reference model of readings, cursor, conversion and window state says
// what every key must do.
#include "kdict.h"

namespace {


// ---- the reference ----------------------------------------------------------
struct Node {
  size_t b, e;
  string value;
};
using Seg = vector<Node>;

string headOf(const Seg& s, size_t c) {
  string h;
  for (auto& n : s) {
    if (n.e <= c) h += n.value;
    else if (n.b < c) h += firstChars(n.value, c - n.b);
  }
  return h;
}

struct Model {
  const Dict* d;
  Settings set;
  std::shared_ptr<TableLM> tlm;
  ReadingGrid g;
  ReadingGrid::WalkResult w;
  BopomofoReadingBuffer rd;
  UserOverrideModel uom{500, 5400.0};
  vector<string> R;
  size_t c = 0;
  bool exact = true, untouched = true;  // untouched: no choice in force anywhere
  bool maybeOverridden = false;  // something unknown may have been suggested
  bool unsure = false;  // a choice was learned from a conversion known only by its text
  Kind kind = EMPTY;
  size_t anchor = 0;  // MARK
  size_t orig = 0;    // CHOOSE
  string number;      // ENCL, CNUM
  int style = 0;
  bool assocShift = false;
  string T;  // composed text as last seen (without the reading)
  vector<Seg> segs{Seg{}};
  size_t anchorKeep = 0;

  explicit Model(const Dict* dd) : d(dd), tlm(std::make_shared<TableLM>(dd)), g(tlm), rd(layoutOf(0)) {}

  bool has(const string& k) const { return d->has(k); }
  void clear() {
    g.clear();
    w = {};
    R.clear();
    c = 0;
    rd.clear();
    exact = untouched = true;
    T.clear();
    segs = {Seg{}};
  }
  void walk() { w = g.walk(); }
  Seg mirrorSeg() const {
    Seg s;
    size_t b = 0;
    for (auto& n : w.nodes) {
      s.push_back({b, b + n->spanningLength(), n->value()});
      b += n->spanningLength();
    }
    return s;
  }
  size_t actual(size_t i) const {
    size_t n = R.size();
    if (i > n) return n ? n - 1 : 0;
    if (i == n && i > 0) return i - 1;
    if (!set.selectAfter && i > 0) return i - 1;
    return i;
  }
  size_t actualOrEnd(size_t at) const { return at == R.size() && at ? at - 1 : at; }
  // Whether (i, off) leads nowhere is remembered: with few syllables there are
  // very many ways to get to each of them.
  void enumerate(const string& t, size_t i, size_t off, Seg& cur, vector<Seg>& out, std::set<std::pair<size_t, size_t>>& dead) const {
    if (out.size() > 300) return;
    if (i == R.size()) {
      if (off == t.size()) out.push_back(cur);
      return;
    }
    if (dead.count({i, off})) return;
    size_t had = out.size();
    string key;
    for (size_t l = 1; l <= 8 && i + l <= R.size(); ++l) {
      key += (l > 1 ? "-" : "") + R[i + l - 1];
      auto* v = look(*d, key);
      if (!v) continue;
      for (auto& x : *v)
        if (t.compare(off, x.value.size(), x.value) == 0) {
          cur.push_back({i, i + l, x.value});
          enumerate(t, i + l, off + x.value.size(), cur, out, dead);
          cur.pop_back();
        }
    }
    if (out.size() == had) dead.insert({i, off});
  }
  vector<Seg> all(const string& t) const {
    vector<Seg> out;
    Seg cur;
    std::set<std::pair<size_t, size_t>> dead;
    enumerate(t, 0, 0, cur, out, dead);
    return out;
  }
  double segScore(const Seg& s, bool top) const {
    double sc = 0;
    for (auto& n : s) {
      auto* v = look(*d, join(R, n.b, n.e));
      if (top && v->front().value != n.value) return -1e300;
      sc += v->front().score;
    }
    return sc;
  }
  double best() const {
    vector<double> b(R.size() + 1, -1e300);
    b[0] = 0;
    for (size_t i = 0; i < R.size(); ++i) {
      string key;
      for (size_t l = 1; l <= 8 && i + l <= R.size(); ++l) {
        key += (l > 1 ? "-" : "") + R[i + l - 1];
        if (auto* v = look(*d, key)) b[i + l] = std::max(b[i + l], b[i] + v->front().score);
      }
    }
    return b.back();
  }
  // candidates at reading index a: (begin, end, value, key) longer first
  struct C {
    size_t b, e;
    string key, value;
  };
  vector<C> candidates(size_t a) const {
    vector<C> o;
    for (size_t l = 8; l >= 1; --l)
      for (size_t b = 0; b + l <= R.size(); ++b) {
        if (!(b <= a && a < b + l)) continue;
        string key = join(R, b, b + l);
        if (auto* v = look(*d, key))
          for (auto& x : *v) o.push_back({b, b + l, key, x.value});
      }
    return o;
  }
  // associated phrases of a prefix
  std::multiset<string> assocOf(const vector<string>& rds, const string& value) const {
    std::multiset<string> o;
    auto v = chars(value);
    if (v.size() != rds.size()) return o;
    for (auto& a : d->assoc) {
      if (a.v.size() <= v.size()) continue;
      if (std::equal(v.begin(), v.end(), a.v.begin()) && std::equal(rds.begin(), rds.end(), a.r.begin())) o.insert(join(a.r, 0, a.r.size()) + "\t" + vf::S(a.v, ""));
    }
    return o;
  }
  struct AE {
    bool open = false;
    size_t b = 0;  // where the prefix begins
    string value, reading;
  };
  AE assocAt(const Seg& s) const {
    AE x;
    if (c < 1) return x;
    for (auto& n : s) {
      if (!(n.b <= c - 1 && c - 1 < n.e)) continue;
      auto v = chars(n.value);
      if (v.size() != n.e - n.b) return x;
      for (size_t b = n.b; b < c; ++b) {
        string val;
        for (size_t i = b; i < c; ++i) val += v[i - n.b];
        vector<string> rr(R.begin() + static_cast<ptrdiff_t>(b), R.begin() + static_cast<ptrdiff_t>(c));
        if (!assocOf(rr, val).empty()) {
          x.open = true;
          x.b = b;
          x.value = val;
          x.reading = join(R, b, c);
          return x;
        }
      }
    }
    return x;
  }
};

struct Outcome {
  bool handled = true;
  string commit;        // everything committed by this key, in order
  bool anyCommit = false;
  int err = 0;          // 0 no matter, 1 must be signalled, -1 must not
  bool tryAssoc = false;  // INPUT may turn into ASSOC
  bool assocShift = false;
  bool stateless = false;  // no state change expected
  string tags = "C18";
};

struct Driver {
  Rng& r;
  Dict d;
  World w;
  Model m;
  string prop;
  string trail;
  double now = 1.7e9;
  bool freshText = false;  // the text may legitimately differ from the mirror

  Driver(Rng& rr, const string& p, const string& dir) : r(rr), d(makeDict(rr, p)), m(&d), prop(p) {
    writeFile(dir + "/data.txt", dictText(d));
    writeFile(dir + "/assoc.txt", assocText(d));
    w.lm->loadLanguageModel((dir + "/data.txt").c_str());
    w.lm->loadAssociatedPhrasesV2((dir + "/assoc.txt").c_str());
    if (!w.lm->isDataModelLoaded() || !w.lm->isAssociatedPhrasesV2Loaded()) {
      fprintf(stderr, "cannot load the case's data\n");
      _exit(3);
    }
  }

  // -- settings
  void settings(bool all) {
    if (all) {
      Settings s;
      bool plain = prop == "C24" ? true : prop == "C22" || prop == "C23" || prop == "C20" || prop == "C21" || prop == "C12" || prop == "C26" || prop == "C38" ? false : r.chance(1, 4);
      if (prop == "C24" && r.chance(1, 10)) plain = false;
      s.mode = plain ? InputMode::PlainBopomofo : InputMode::McBopomofo;
      s.layout = static_cast<int>(r.chance(1, 2) ? 0 : r.below(6));
      s.selectAfter = r.chance(1, 2);
      s.moveAfter = r.chance(1, 2);
      s.putLower = r.chance(1, 2);
      s.escClears = r.chance(1, 4);
      s.ctrlEnter = static_cast<int>(prop == "C26" ? (r.chance(1, 8) ? 0 : 1 + r.below(2)) : r.below(3));
      s.assoc = prop == "C23" ? r.chance(2, 3) : r.chance(1, 3);
      s.half = r.chance(1, 3);
      m.set = s;
      m.rd = BopomofoReadingBuffer(layoutOf(s.layout));
    } else {
      m.set.assoc = r.chance(1, 2);
      m.set.half = r.chance(1, 2);
    }
    vf::note(string("settings: ") + (m.set.mode == InputMode::PlainBopomofo ? "plain" : "smart") + " " + kLayoutNames[m.set.layout] + (m.set.selectAfter ? " selectAfter" : "") + (m.set.moveAfter ? " moveAfter" : "") + (m.set.putLower ? " putLower" : "") + (m.set.escClears ? " escClears" : "") + (m.set.assoc ? " assoc" : "") + (m.set.half ? " half" : "") + " ctrlEnter=" + std::to_string(m.set.ctrlEnter));
    w.apply(m.set);
  }
  bool plain() const { return m.set.mode == InputMode::PlainBopomofo; }

  string shown() const {  // text with the reading, per the mirror or the last seen text
    return m.T;
  }

  // -- expectation helpers --------------------------------------------------
  void insert(const string& reading) {
    m.g.insertReading(reading);
    m.R.insert(m.R.begin() + static_cast<ptrdiff_t>(m.c), reading);
    ++m.c;
    m.walk();
    textMoved = true;
  }
  bool textMoved = false;      // the composition changed, so the text may
  bool needPlace = false;      // a chosen candidate has to be in place
  Model::C place{};
  bool anyPlacement = false;
  vector<Model::C> placements;
  string learnNote;
  bool learned = false;

  void commitAll(Outcome& o, const string& more = "") {
    o.commit += m.T.empty() && m.rd.isEmpty() ? more : withReading() + more;
    o.anyCommit = true;
    m.clear();
    m.kind = EMPTY;
  }
  string withReading() const {
    // text as shown: reading at the cursor
    string h = curHead();
    return h + m.rd.composedString() + m.T.substr(h.size());
  }
  string lastHead;  // head of the text at the cursor, as last checked
  string curHead() const { return lastHead; }

  bool maybeSuggested = false;
  void suggest() {
    maybeSuggested = m.unsure;
    auto s = m.uom.suggest(m.w, m.actual(m.c), now);
    if (s.empty()) return;
    vf::count("suggestions_taken");
    learned = true;
    m.untouched = false;
    m.g.overrideCandidate(m.actual(m.c), s.candidate, s.forceHighScoreOverride ? ReadingGrid::Node::OverrideType::kOverrideValueWithHighScore : ReadingGrid::Node::OverrideType::kOverrideValueWithScoreFromTopUnigram);
    m.walk();
  }
  void openPlain(Outcome& o, const string& key, bool withAssoc) {
    const vector<Val>& v = *look(d, key);
    o.tags = "C24 C18";
    if (v.size() == 1) {
      m.clear();
      m.kind = EMPTY;
      o.commit += v[0].value;
      o.anyCommit = true;
      if (withAssoc && m.set.assoc) plainAssoc(key, v[0].value);
    } else {
      m.kind = CHOOSE;
      m.orig = m.c;
    }
  }
  std::multiset<string> plainWant;
  void plainAssoc(const string& key, const string& value) {
    vector<string> rds;
    size_t b = 0;
    for (;;) {
      size_t e = key.find('-', b);
      rds.push_back(key.substr(b, e == string::npos ? e : e - b));
      if (e == string::npos) break;
      b = e + 1;
    }
    auto all = m.assocOf(rds, value);
    if (all.empty()) return;
    plainWant.clear();
    for (auto& x : all) {
      size_t eq = x.find('\t');
      string rr = x.substr(0, eq), vv = x.substr(eq + 1);
      plainWant.insert(rr.substr(key.size() + 1) + "\t" + vv.substr(value.size()));
    }
    m.kind = ASSOCPLAIN;
  }
  bool punct(Outcome& o, const string& key) {
    if (!m.has(key)) return false;
    if (!m.rd.isEmpty()) {
      o.err = 1;
      m.kind = INPUT;
      o.tags = "C27 C19 C18";
      return true;
    }
    insert(key);
    o.tags = "C19 C18";
    if (plain()) {
      openPlain(o, key, false);
    } else {
      m.kind = INPUT;
      if (m.set.assoc) {
        o.tryAssoc = true;
        o.assocShift = true;
      }
    }
    vf::count("punctuation_typed");
    return true;
  }

  // -- the specification of a key -------------------------------------------
  Outcome key(const Key& k) {
    Outcome o;
    bool ne = m.kind == INPUT || m.kind == MARK || m.kind == CHOOSE || m.kind == ASSOC || m.kind == DICT || m.kind == CHARINFO;
    if (k.ascii == '\\' && k.ctrlPressed) {
      o.tags = "C25 C19";
      if (ne) commitAll(o);
      m.clear();
      m.kind = FEATURE;
      return o;
    }
    if (m.kind == CNUM || m.kind == ENCL) return numberKey(k);
    char s = (k.ctrlPressed || k.shiftPressed || k.isFromNumberPad) ? 0 : k.ascii;
    bool used = false;
    if (m.rd.isValidKey(s)) {
      m.rd.combineKey(s);
      used = true;
      if (!m.rd.hasToneMarker()) {
        m.kind = INPUT;
        vf::count("reading_keys");
        return o;
      }
    }
    if ((m.rd.hasToneMarker() && !m.rd.hasToneMarkerOnly()) || (!m.rd.isEmpty() && s == ' ')) {
      string syl = m.rd.syllable().composedString();
      m.rd.clear();
      if (!m.has(syl)) {
        o.err = 1;
        m.kind = m.R.empty() ? EMPTY : INPUT;
        o.tags = "C27 C18 C19";
        vf::count("unknown_syllables");
        return o;
      }
      insert(syl);
      vf::count("syllables_typed");
      if (plain()) {
        openPlain(o, syl, true);
        return o;
      }
      suggest();
      m.kind = INPUT;
      if (m.set.assoc) {
        o.tryAssoc = true;
        o.assocShift = true;
      }
      return o;
    }
    if (used) {
      m.kind = INPUT;
      return o;
    }
    if (k.ascii == ' ' && k.shiftPressed) {
      o.tags = "C19 C18";
      vf::count("shift_space");
      if (m.set.putLower && !plain()) {
        insert(" ");
        m.kind = INPUT;
      } else {
        if (ne) commitAll(o);
        o.commit += " ";
        o.anyCommit = true;
        m.clear();
        m.kind = EMPTY;
      }
      return o;
    }
    if ((s == ' ' || k.name == Key::KeyName::DOWN) && ne && m.rd.isEmpty()) {
      o.tags = "C22 C18";
      m.orig = m.c;
      if (m.c == m.R.size() && m.set.selectAfter && m.set.moveAfter) setCursor(m.c - 1);
      m.kind = CHOOSE;
      vf::count("windows_opened");
      return o;
    }
    if (s == Key::ESC) {
      o.tags = "C20 C19 C27";
      if (!ne) return pass(o);
      vf::count("escapes");
      if (m.set.escClears) {
        m.clear();
        m.kind = EMPTY;
        return o;
      }
      if (!m.rd.isEmpty()) {
        m.rd.clear();
        m.kind = m.R.empty() ? EMPTY : INPUT;
      } else {
        m.kind = INPUT;
      }
      return o;
    }
    if (k.ascii == Key::TAB) return tab(k, o);
    if (k.isCursorKeys()) {
      o.tags = "C20 C27 C21";
      if (!ne) return pass(o);
      size_t from = m.kind == MARK ? m.anchor : m.c;
      if (!m.rd.isEmpty()) {
        o.err = 1;
        m.kind = INPUT;
        vf::count("cursor_refused");
        return o;
      }
      switch (k.name) {
        case Key::KeyName::LEFT:
          if (m.c) setCursor(m.c - 1);
          else o.err = 1;
          break;
        case Key::KeyName::RIGHT:
          if (m.c < m.R.size()) setCursor(m.c + 1);
          else o.err = 1;
          break;
        case Key::KeyName::HOME: setCursor(0); break;
        default: setCursor(m.R.size()); break;
      }
      if (o.err) vf::count("cursor_at_the_end");
      else vf::count("cursor_moves");
      if (k.shiftPressed && m.c != from) {
        m.kind = MARK;
        m.anchor = from;
        vf::count("markings");
      } else {
        m.kind = INPUT;
      }
      return o;
    }
    if (k.isDeleteKeys()) {
      o.tags = "C20 C27";
      if (!ne) return pass(o);
      if (m.rd.hasToneMarkerOnly()) {
        m.rd.clear();
      } else if (m.rd.isEmpty()) {
        if (k.ascii == Key::BACKSPACE && m.c > 0) {
          m.g.deleteReadingBeforeCursor();
          m.R.erase(m.R.begin() + static_cast<ptrdiff_t>(m.c) - 1);
          --m.c;
        } else if (k.ascii == Key::DELETE && m.c < m.R.size()) {
          m.g.deleteReadingAfterCursor();
          m.R.erase(m.R.begin() + static_cast<ptrdiff_t>(m.c));
        } else {
          o.err = 1;
          m.kind = INPUT;
          vf::count("deletions_at_the_end");
          return o;
        }
        textMoved = true;
        m.walk();
        vf::count("deletions");
      } else if (k.ascii == Key::BACKSPACE) {
        m.rd.backspace();
        vf::count("reading_backspaces");
      } else {
        o.err = 1;
      }
      if (m.rd.isEmpty() && m.R.empty()) {
        m.clear();
        m.kind = EMPTY;
      } else {
        m.kind = INPUT;
      }
      return o;
    }
    if (k.ascii == Key::RETURN) return enter(k, o, ne);
    if (s == '?' && m.kind == MARK) {
      m.kind = DICT;
      o.tags = "C21";
      return o;
    }
    if (s == '`' && m.has("_punctuation_list")) {
      o.tags = "C19 C22 C18";
      if (!m.rd.isEmpty()) {
        o.err = 1;
        o.stateless = true;
        return o;
      }
      insert("_punctuation_list");
      m.orig = m.c;
      if (m.set.selectAfter) setCursor(m.c - 1);
      m.kind = CHOOSE;
      vf::count("punctuation_lists");
      return o;
    }
    if (k.ascii) {
      string ch(1, k.ascii), ly = kLayoutNames[m.set.layout];
      if (k.ctrlPressed) {
        if (punct(o, "_ctrl_punctuation_" + ch)) return o;
        return pass(o);
      }
      if (m.set.half && (punct(o, "_half_punctuation_" + ly + "_" + ch) || punct(o, "_half_punctuation_" + ch))) return o;
      if (punct(o, "_punctuation_" + ly + "_" + ch) || punct(o, "_punctuation_" + ch)) return o;
      if (s >= 'A' && s <= 'Z') {
        o.tags = "C19 C27";
        if (m.set.putLower) {
          punct(o, "_letter_" + ch);
          vf::count("letters_composed");
          return o;
        }
        if (!ne) return pass(o);
        commitAll(o, ch);
        vf::count("letters_committed");
        return o;
      }
    }
    o.tags = "C27";
    if (ne) {
      if (m.kind == MARK) {
        o.stateless = true;
        return o;
      }
      o.err = 1;
      m.kind = INPUT;
      vf::count("refused");
      return o;
    }
    return pass(o);
  }
  Outcome& pass(Outcome& o) {
    o.handled = false;
    o.stateless = true;
    o.tags += " C27";
    vf::count("passed_on");
    return o;
  }
  void setCursor(size_t c) {
    m.c = c;
    m.g.setCursor(c);
  }

  Outcome numberKey(const Key& k) {
    Outcome o;
    o.tags = "C25";
    bool encl = m.kind == ENCL;
    vf::count("number_keys");
    if (k.ascii == Key::ESC) {
      m.kind = EMPTY;
      return o;
    }
    if (k.isDeleteKeys()) {
      if (m.number.empty()) {
        o.err = 1;
        o.stateless = true;
      } else {
        m.number.pop_back();
      }
      return o;
    }
    if (k.ascii == Key::RETURN || (encl && k.ascii == Key::SPACE)) {
      if (m.number.empty()) {
        m.kind = EMPTY;
        return o;
      }
      if (encl) {
        string key = "_number_" + m.number;
        auto* v = look(d, key);
        if (!v) {
          o.err = 1;
          o.stateless = true;
          vf::count("numbers_without_form");
          return o;
        }
        if (v->size() == 1) {
          o.commit = v->front().value;
          o.anyCommit = true;
          m.kind = EMPTY;
          vf::count("numbers_confirmed");
          return o;
        }
        insert(key);
        m.orig = m.c;
        if (m.set.selectAfter) setCursor(m.c - 1);
        m.kind = CHOOSE;
        o.tags = "C25 C22";
        vf::count("numbers_with_forms");
        return o;
      }
      string a = m.number, b;
      size_t dot = a.find('.');
      if (dot != string::npos) {
        b = a.substr(dot + 1);
        a.resize(dot);
      }
      o.commit = m.style == 2 ? SuzhouNumbers::Generate(a, b, "單位", true) : ChineseNumbers::Generate(a, b, m.style == 0 ? ChineseNumbers::ChineseNumberCase::LOWERCASE : ChineseNumbers::ChineseNumberCase::UPPERCASE);
      o.anyCommit = true;
      m.kind = EMPTY;
      vf::count("numbers_confirmed");
      return o;
    }
    size_t limit = encl ? 3 : 21;
    if ((k.ascii >= '0' && k.ascii <= '9') || (!encl && k.ascii == '.' && m.number.find('.') == string::npos && !m.number.empty())) {
      if (m.number.size() >= limit) {
        o.err = 1;
        o.stateless = true;
        vf::count("numbers_full");
      } else {
        m.number += k.ascii;
        vf::count("digits");
      }
      return o;
    }
    o.err = 1;
    o.stateless = true;
    vf::count("number_keys_refused");
    return o;
  }

  // Where may a candidate (key, value) be put when chosen at index a?
  vector<Model::C> placesOf(const string& key, const string& value, size_t a) {
    vector<Model::C> o;
    for (auto& x : m.candidates(a))
      if (x.key == key && x.value == value) o.push_back(x);
    return o;
  }
  // Mirrors a choice; learning included.
  void pin(size_t a, const string& key, const string& value, bool useMove) {
    placements = placesOf(key, value, a);
    needPlace = true;
    if (!m.exact) m.unsure = true;
    textMoved = true;
    m.untouched = false;
    auto prev = m.w;
    m.g.overrideCandidate(a, ReadingGrid::Candidate(key, value));
    m.walk();
    size_t acc = 0;
    auto it = m.w.findNodeAt(a, &acc);
    if (it == m.w.nodes.cend()) return;
    if ((*it)->currentUnigram().score() > -8) {
      m.uom.observe(prev, m.w, a, now);
      vf::count("choices_learned");
      learned = true;
    }
    (void)useMove;
  }

  Outcome& tab(const Key& k, Outcome& o) {
    o.tags = "C22 C27";
    if (m.rd.isEmpty() && m.R.empty()) return pass(o);
    if (m.kind != INPUT || !m.rd.isEmpty()) {
      o.err = 1;
      o.stateless = true;
      return o;
    }
    vf::count("rotations");
    size_t a = m.actual(m.c);
    auto cs = m.candidates(a);
    if (!m.exact || m.maybeOverridden) {
      m.unsure = true;
      m.exact = false;
      // any of the candidates may come next
      rotateAny = true;
      textMoved = true;
      m.untouched = false;
      placements = cs;
      needPlace = true;
      size_t keep = m.c;
      (void)keep;
      m.kind = INPUT;
      return o;
    }
    auto it = m.w.findNodeAt(a);
    const auto& n = **it;
    // the candidates in the order of the window
    auto gc = m.g.candidatesAt(a);
    size_t next = 0, cnt = gc.size();
    if (!n.isOverridden()) {
      if (gc[0].reading == n.reading() && gc[0].value == n.value()) next = k.shiftPressed ? cnt - 1 : (cnt > 1 ? 1 : 0);
    } else {
      for (size_t i = 0; i < cnt; ++i)
        if (gc[i].reading == n.reading() && gc[i].value == n.value()) {
          next = k.shiftPressed ? (i ? i - 1 : cnt - 1) : (i + 1) % cnt;
          vf::count("rotations_on");
          break;
        }
    }
    pin(a, gc[next].reading, gc[next].value, false);
    m.kind = INPUT;
    return o;
  }
  bool rotateAny = false;

  Outcome& enter(const Key& k, Outcome& o, bool ne) {
    o.tags = "C19 C27";
    if (!ne) return pass(o);
    if (!m.rd.isEmpty()) {
      o.err = 1;
      m.kind = INPUT;
      return o;
    }
    if (k.shiftPressed && !plain()) {
      o.tags = "C23";
      if (m.kind != INPUT) {
        o.err = 1;
        o.stateless = true;
        return o;
      }
      if (m.c < 1) {
        o.err = 1;
        o.stateless = true;
        return o;
      }
      o.tryAssoc = true;
      o.assocShift = false;
      vf::count("associations_asked");
      return o;
    }
    if (k.ctrlPressed && !plain()) {
      o.tags = "C26";
      if (m.set.ctrlEnter == 0) return pass(o);
      if (m.set.ctrlEnter == 1) {
        o.commit = join(m.R, 0, m.R.size());
        vf::count("readings_output");
      } else {
        vf::count("ruby_output");
        // one per possible segmentation; see finish()
        rubyWant.clear();
        rubyAny = m.segs.size() > 300;
        for (auto& s : m.segs) {
          string t;
          for (auto& n : s) {
            string key = join(m.R, n.b, n.e);
            if (key[0] == '_') {
              t += n.value;
            } else {
              t += "<ruby>" + n.value + "<rp>(</rp><rt>" + join(m.R, n.b, n.e, " ") + "</rt><rp>)</rp></ruby>";
            }
          }
          rubyWant.insert(t);
        }
        o.commit = "?ruby";
      }
      o.anyCommit = true;
      m.clear();
      m.kind = EMPTY;
      return o;
    }
    if (m.kind == MARK) {
      o.tags = "C21";
      auto* mk = w.is<InputStates::Marking>();
      if (mk->acceptable) {
        wantAdded = {mk->reading, mk->markedText};
        expectAdd = true;
        if (m.anchor == m.R.size() && m.c < m.anchor) setCursor(m.anchor);
        m.kind = INPUT;
        vf::count("phrases_added");
      } else {
        o.err = 1;
        vf::count("phrases_refused");
      }
      return o;
    }
    commitAll(o);
    vf::count("commits");
    return o;
  }
  std::set<string> rubyWant;
  bool rubyAny = false;
  std::pair<string, string> wantAdded;
  bool expectAdd = false;

  // -- checking --------------------------------------------------------------
  void begin(const string& what) {
    vf::note(what);
    trail += what + "\n";
    w.commits.clear();
    w.errors = w.states = 0;
    w.adder->added.clear();
    w.notified.clear();
    gStarted.clear();
    textMoved = needPlace = rotateAny = expectAdd = false;
    before = w.st.get();
    now += static_cast<double>(r.below(40));
    gFakeNow = now;
  }
  const InputState* before = nullptr;

  static string show(const vector<string>& v) { return "[" + vf::S(v, "][") + "]"; }

  // Compares what happened with what the outcome says.
  void finish(const Outcome& o, bool handled, const string& what) {
    const string& tg = o.tags;
    string got = vf::S(w.commits, "");
    JUDGE(tg + " C27", handled == o.handled, what << (handled ? " is consumed" : " is passed on to the application") << " while " << kKindNames[m.kind] << ", expected the opposite");
    if (o.commit == "?ruby") {
      JUDGE(tg + " C19", rubyWant.count(got) || rubyAny, what << " commits [" << got << "], expected ruby text such as [" << (rubyWant.empty() ? "" : *rubyWant.begin()) << "]");
    } else {
      JUDGE(tg + " C19" + (plain() ? " C24" : ""), got == o.commit, what << " commits [" << got << "] instead of [" << o.commit << "]");
    }
    if (o.anyCommit) vf::count("texts_committed");
    if (!o.handled) {
      JUDGE("C27", w.st.get() == before && w.states == 0 && w.errors == 0, what << " is passed on but changes something");
    }
    if (o.err == 1) {
      JUDGE(tg + " C27", w.errors > 0, what << " is refused without signalling an error");
      vf::count("errors_signalled");
    }
    if (o.stateless) JUDGE(tg + " C27", w.kind() == m.kind, what << " leads from " << kKindNames[m.kind] << " to " << kKindNames[w.kind()]);
    if (expectAdd) {
      JUDGE("C21", w.adder->added.size() == 1 && w.adder->added[0] == wantAdded, what << " adds " << w.adder->added.size() << " phrases, " << (w.adder->added.empty() ? string() : w.adder->added[0].second + " " + w.adder->added[0].first) << "; expected " << wantAdded.second << " " << wantAdded.first);
      JUDGE("C21", w.notified.size() == 1 && w.notified[0] == wantAdded.second, what << " does not report the phrase added");
    } else {
      JUDGE("C21", w.adder->added.empty() && w.notified.empty(), what << " adds the phrase " << w.adder->added[0].second << " unasked");
    }
    checkState(o, what);
  }

  bool sameTextHidden(const string& t) { return w.kh->buildInputtingState()->composingBuffer == t; }

  void checkState(const Outcome& o, const string& what) {
    Kind k = w.kind();
    string tg = o.tags + " C18";
    // associated phrases may or may not come up
    if (o.tryAssoc) {
      adoptText(o, what);
      bool any = false, may = false, must = true;
      Model::AE hit;
      auto* a = w.is<InputStates::AssociatedPhrases>();
      for (auto& s : m.segs) {
        auto e = m.assocAt(s);
        may |= e.open;
        must &= e.open;
        if (a && e.open && e.value == a->prefixValue && e.reading == a->prefixReading) any = true, hit = e;
      }
      if (m.segs.size() <= 300) {
        if (a) JUDGE("C23 " + o.tags, any, what << " offers associated phrases of " << a->prefixValue << " " << a->prefixReading << ", which is not what stands before the cursor");
        else if (must && may) JUDGE("C23 " + o.tags, false, what << " offers no associated phrases though there are some");
      }
      if (a) {
        m.kind = ASSOC;
        m.assocShift = o.assocShift;
        JUDGE("C23", a->useShiftKey == o.assocShift, what << ": wrong kind of associated phrases window");
        JUDGE("C23", a->prefixCursorIndex + 1 == m.c, what << ": associated phrases for the wrong place");
        checkAssocList(a->candidates, a->prefixReading, a->prefixValue, what);
        vf::count("associations_offered");
      } else if (!o.assocShift) {
        JUDGE("C23 C27", w.errors > 0, what << " finds no associated phrases but signals nothing");
        JUDGE("C23 C27", k == INPUT, what << " finds no associated phrases and leaves the composition");
      }
    }
    JUDGE(tg + (plain() ? " C24" : ""), k == m.kind, what << " leads to " << kKindNames[k] << " instead of " << kKindNames[m.kind]);
    switch (m.kind) {
      case EMPTY:
      case FEATURE:
      case DATE:
      case ASSOCPLAIN:
        JUDGE(tg + " C19 C24 C25", sameTextHidden("") && w.kh->candidateCursorIndex() == 0, what << ": the composition is not empty afterwards: [" << w.kh->buildInputtingState()->composingBuffer << "]");
        break;
      default: break;
    }
    switch (m.kind) {
      case ASSOCPLAIN: {
        std::multiset<string> got;
        for (auto& x : w.is<InputStates::AssociatedPhrasesPlain>()->candidates) got.insert(x.reading + "\t" + x.value);
        JUDGE("C24 C23", got == plainWant, what << ": the continuations offered are not those of the dictionary");
        vf::count("continuations_offered");
        break;
      }
      case FEATURE: {
        auto* f = w.is<InputStates::SelectingFeature>();
        static const vector<string> names = {"日期與時間", "標題數字", "中文數字", "大寫數字", "蘇州碼"};
        JUDGE("C25", f->features.size() == names.size(), "the feature menu has " << f->features.size() << " entries");
        for (size_t i = 0; i < names.size(); ++i) JUDGE("C25", f->features[i].name == names[i], "feature " << i << " is " << f->features[i].name);
        break;
      }
      case ENCL: {
        auto* x = w.is<InputStates::EnclosingNumber>();
        JUDGE("C25", x->number == m.number, what << ": number is [" << x->number << "] instead of [" << m.number << "]");
        JUDGE("C25", x->composingBuffer() == "[標題數字] " + m.number, what << " shows [" << x->composingBuffer() << "]");
        break;
      }
      case CNUM: {
        auto* x = w.is<InputStates::ChineseNumber>();
        static const char* const pre[3] = {"[中文數字] ", "[大寫數字] ", "[蘇州碼] "};
        JUDGE("C25", x->number == m.number, what << ": number is [" << x->number << "] instead of [" << m.number << "]");
        JUDGE("C25", static_cast<int>(x->style) == m.style && x->composingBuffer() == pre[m.style] + m.number, what << " shows [" << x->composingBuffer() << "]");
        break;
      }
      case INPUT:
      case MARK:
      case CHOOSE:
      case ASSOC:
      case DICT:
      case CHARINFO:
        if (!o.tryAssoc) adoptText(o, what);
        checkKind(o, what);
        break;
      default: break;
    }
  }

  void checkAssocList(const vector<Cand>& cs, const string& reading, const string& value, const string& what) {
    vector<string> rds;
    size_t b = 0;
    for (;;) {
      size_t e = reading.find('-', b);
      rds.push_back(reading.substr(b, e == string::npos ? e : e - b));
      if (e == string::npos) break;
      b = e + 1;
    }
    std::multiset<string> got, want = m.assocOf(rds, value);
    for (auto& x : cs) {
      got.insert(x.reading + "\t" + x.value);
      JUDGE("C23", x.value.compare(0, value.size(), value) == 0 && x.value.size() > value.size() && x.reading.compare(0, reading.size() + 1, reading + "-") == 0, what << ": associated phrase " << x.value << " " << x.reading << " does not continue " << value << " " << reading);
    }
    JUDGE("C23", got == want, what << ": the associated phrases of " << value << " " << reading << " are not those of the dictionary (" << got.size() << " instead of " << want.size() << ")");
  }

  // Judges the text shown and works out how it is divided.
  void adoptText(const Outcome& o, const string& what) {
    string tg = o.tags + " C18";
    auto* ne = w.is<InputStates::NotEmpty>();
    if (!ne) {
      // plain mode commits, or the state is judged by its kind later
      if (m.kind == INPUT || m.kind == MARK || m.kind == CHOOSE || m.kind == ASSOC) JUDGE(tg, false, what << " leads to " << kKindNames[w.kind()] << " instead of " << kKindNames[m.kind]);
      return;
    }
    JUDGE(tg + " C20", w.kh->candidateCursorIndex() == m.c, what << ": the cursor is at reading " << w.kh->candidateCursorIndex() << " of " << m.R.size() << " instead of " << m.c);
    string rdText = m.rd.composedString();
    const string& buf = ne->composingBuffer;
    string T;
    if (rdText.empty()) {
      T = buf;
    } else {
      JUDGE(tg + " C20", ne->cursorIndex >= rdText.size() && buf.compare(ne->cursorIndex - rdText.size(), rdText.size(), rdText) == 0, what << ": the reading [" << rdText << "] is not shown before the cursor in [" << buf << "] at " << ne->cursorIndex);
      T = buf.substr(0, ne->cursorIndex - rdText.size()) + buf.substr(ne->cursorIndex);
    }
    if (!textMoved) JUDGE(tg + " C20 C27", T == m.T, what << " changes the text from [" << m.T << "] to [" << T << "]");
    auto segs = m.all(T);
    JUDGE(tg + " C20", !segs.empty(), what << ": [" << T << "] is no conversion of the readings [" << join(m.R, 0, m.R.size(), " ") << "]");
    vf::count("texts_checked");
    if (needPlace) {
      vector<Seg> keep;
      vector<Model::C> where;
      for (auto& s : segs)
        for (auto& n : s)
          for (auto& p : placements)
            if (n.b == p.b && n.e == p.e && n.value == p.value) {
              if (keep.empty() || keep.back().size() != s.size() || !same(keep.back(), s)) keep.push_back(s);
              where.push_back(p);
            }
      JUDGE(tg + " C22", !where.empty() || segs.size() > 300, what << ": the choice is not in place in [" << T << "] of [" << join(m.R, 0, m.R.size(), " ") << "]");
      if (segs.size() <= 300) segs = keep;
      place = where.empty() ? Model::C{} : where[0];
      vf::count("choices_in_place");
    }
    if (maybeSuggested) m.maybeOverridden = true;
    if (m.exact && maybeSuggested && (headOf(m.mirrorSeg(), m.R.size()) != T || segs.size() > 1)) {
      m.exact = m.untouched = false;
      vf::count("learned_out_of_sight");
    }
    maybeSuggested = false;
    if (m.exact) {
      Seg ms = m.mirrorSeg();
      string mt = headOf(ms, m.R.size());
      if (mt != T) {
        if (learned) {
          // learning is a matter of C12
          JUDGE("C12", false, what << ": [" << T << "] is shown where what was learned says [" << mt << "]");
        }
        JUDGE(tg + (prop == "C12" ? "" : ""), false, what << ": [" << T << "] is shown instead of [" << mt << "] for [" << join(m.R, 0, m.R.size(), " ") << "]");
      }
      segs = {ms};
      if (m.untouched) {
        double best = m.best(), have = m.segScore(ms, true);
        JUDGE("C18", have >= best - 1e-6, what << ": [" << T << "] scores " << have << ", the best conversion " << best);
        vf::count("optimal_texts");
      }
    }
    m.segs = segs;
    m.T = T;
    // the cursor
    if (m.kind == DICT || m.kind == CHARINFO) return;
    bool fits = segs.size() > 300;
    vector<Seg> fit;
    for (auto& s : segs)
      if (headOf(s, m.c).size() + rdText.size() == ne->cursorIndex) {
        fits = true;
        fit.push_back(s);
      }
    JUDGE(tg + " C20", fits, what << ": the cursor stands at byte " << ne->cursorIndex << " of [" << buf << "], not after reading " << m.c << " (expected " << headOf(segs[0], m.c).size() + rdText.size() << ")");
    if (!fit.empty() && segs.size() <= 300) m.segs = fit;
    lastHead = T.substr(0, ne->cursorIndex - rdText.size());
    // warn when the cursor stands between syllables that share a character
    if (m.kind == INPUT && w.is<InputStates::Inputting>() && m.segs.size() == 1) {
      string want;
      for (auto& n : m.segs[0])
        if (n.b < m.c && m.c < n.e && chars(n.value).size() < n.e - n.b) want = "BETWEEN " + m.R[m.c - 1] + " " + m.R[m.c];
      JUDGE("C18 C20 C38", ne->tooltip == want, what << ": the hint is [" << ne->tooltip << "] instead of [" << want << "]");
      if (!want.empty()) vf::count("between_syllables");
    }
  }
  static bool same(const Seg& a, const Seg& b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i)
      if (a[i].b != b[i].b || a[i].e != b[i].e || a[i].value != b[i].value) return false;
    return true;
  }

  void checkKind(const Outcome& o, const string& what) {
    if (m.kind == MARK) {
      auto* k = w.is<InputStates::Marking>();
      size_t lo = std::min(m.anchor, m.c), hi = std::max(m.anchor, m.c);
      bool ok = m.segs.size() > 300;
      string wantMarked;
      for (auto& s : m.segs) {
        string a = headOf(s, lo), b = headOf(s, hi);
        wantMarked = b.substr(a.size());
        if (k->head == a && k->markedText == b.substr(a.size())) ok = true;
      }
      JUDGE("C21", ok, what << ": [" << k->markedText << "] is marked instead of [" << wantMarked << "]");
      JUDGE("C21", k->markStartGridCursorIndex == m.anchor, what << ": the marking begins at " << k->markStartGridCursorIndex << " instead of " << m.anchor);
      string rds = join(m.R, lo, hi);
      JUDGE("C21", k->reading == rds, what << ": the readings of the marked text are given as " << k->reading << " instead of " << rds);
      size_t n = hi - lo;
      bool exists = false;
      if (auto* v = look(d, rds))
        for (auto& x : *v) exists |= x.value == k->markedText;
      bool odd = k->markedText.empty() || k->markedText.find(' ') != string::npos || rds.find(' ') != string::npos;
      bool want = n >= 2 && n <= 6 && !exists && !odd;
      JUDGE("C21", k->acceptable == want, what << ": [" << k->markedText << "] " << rds << " is " << (k->acceptable ? "" : "not ") << "acceptable as a user phrase");
      string status = n < 2 ? "REQUIRED 2" : n > 6 ? "MAXIMUM 6" : exists ? "EXISTS" : want ? "PRESS ENTER" : "";
      if (!status.empty()) JUDGE("C21 C38", k->tooltip == "MARKED " + k->markedText + "|" + join(m.R, lo, hi, " ") + "|" + status, what << ": the hint says [" << k->tooltip << "]");
      else JUDGE("C21 C38", k->tooltip.find("PRESS ENTER") == string::npos, what << ": the hint invites to add a malformed phrase");
      vf::count("marks_checked");
    } else if (m.kind == CHOOSE) {
      auto* k = w.is<InputStates::ChoosingCandidate>();
      string tg = plain() ? "C24 C22" : "C22";
      JUDGE(tg, k->originalCursor == m.orig, what << ": the window would put the cursor back to " << k->originalCursor << " instead of " << m.orig);
      auto cs = m.candidates(m.actual(m.c));
      std::multiset<string> got, want;
      for (auto& x : k->candidates) got.insert(x.reading + "\t" + x.value);
      for (auto& x : cs) want.insert(x.key + "\t" + x.value);
      JUDGE(tg, got == want, what << ": " << got.size() << " candidates are offered, there are " << want.size());
      auto len = [](const string& s) { return std::count(s.begin(), s.end(), '-') - (s.find("_-") != string::npos ? 1 : 0); };
      for (size_t i = 1; i < k->candidates.size(); ++i) JUDGE(tg, len(k->candidates[i - 1].reading) >= len(k->candidates[i].reading), what << ": a shorter candidate comes before a longer one");
      // best first within the same readings
      std::map<string, vector<string>> order;
      for (auto& x : k->candidates) order[x.reading].push_back(x.value);
      for (auto& kv : order) {
        auto* v = look(d, kv.first);
        if (kv.second.size() != v->size()) continue;
        for (size_t i = 0; i < v->size(); ++i) JUDGE(tg, kv.second[i] == (*v)[i].value, what << ": candidates of " << kv.first << " are out of order");
      }
      vf::count("windows_checked");
    } else if (m.kind == DICT) {
      auto* k = w.is<InputStates::SelectingDictionary>();
      JUDGE("C21 C18", k->previousState && dynamic_cast<InputStates::NotEmpty*>(k->previousState.get())->composingBuffer == k->composingBuffer, what << ": the dictionary menu forgets the composition");
    }
    (void)o;
  }

  // -- operations ------------------------------------------------------------
  static string keyName(const Key& k) {
    string n;
    if (k.ctrlPressed) n += "Ctrl+";
    if (k.shiftPressed) n += "Shift+";
    if (k.isFromNumberPad) n += "KP_";
    if (k.ascii) {
      switch (k.ascii) {
        case 8: n += "Backspace"; break;
        case 9: n += "Tab"; break;
        case 13: n += "Enter"; break;
        case 27: n += "Esc"; break;
        case 32: n += "Space"; break;
        case 127: n += "Delete"; break;
        default: n += k.ascii < 32 ? "0x" + std::to_string(k.ascii) : string(1, k.ascii);
      }
    } else {
      static const char* const names[] = {"NUL", "Left", "Right", "Up", "Down", "Home", "End", "Unknown"};
      n += names[static_cast<int>(k.name)];
    }
    return n;
  }
  void press(const Key& k) {
    string what = keyName(k);
    begin("key " + what + " while " + kKindNames[m.kind]);
    learned = false;
    Key copy = k;
    bool h;
    Outcome o;
    if (m.kind == CHOOSE && plain()) {
      // the window gets the key first, as in the engine
      auto* c = w.is<InputStates::ChoosingCandidate>();
      size_t pick = r.below(c->candidates.size());
      Cand cand = c->candidates[pick];
      size_t oc = c->originalCursor;
      bool takes = m.rd.isValidKey(k.ascii) || m.has(string("_punctuation_") + kLayoutNames[m.set.layout] + "_" + k.ascii) || m.has(string("_punctuation_") + k.ascii) || (k.ascii >= 'A' && k.ascii <= 'Z' && m.has(string("_letter_") + k.ascii));
      if (takes) {
        choosePlain(o, cand);
        string first = o.commit;
        m.kind = EMPTY;
        Outcome o2 = key(k);
        // keys the empty composition has no use for end the choice only
        if (!o2.handled) {
          o2.handled = true;
          o2.stateless = false;
          m.kind = plainAfter;
        }
        o2.commit = first + o2.commit;
        o2.anyCommit = true;
        o2.tags += " C24";
        o = o2;
      } else {
        o.handled = false;
        o.tags = "C24";
      }
      h = w.kh->handleCandidateKeyForTraditionalBopomofoIfRequired(
          copy, [&] { w.kh->candidateSelected(cand, oc, w.cb()); }, w.cb(), w.err());
      vf::count("keys_over_window");
    } else {
      o = key(k);
      h = w.kh->handle(copy, w.st.get(), w.cb(), w.err());
    }
    vf::count("keys");
    finish(o, h, what);
  }
  Kind plainAfter = EMPTY;
  void choosePlain(Outcome& o, const Cand& c) {
    o.tags = "C24 C22 C19";
    o.commit = c.value;
    o.anyCommit = true;
    m.clear();
    m.kind = EMPTY;
    if (m.set.assoc) plainAssoc(c.reading, c.value);
    plainAfter = m.kind;
  }

  void select() {
    auto* k = w.is<InputStates::ChoosingCandidate>();
    size_t i = r.below(k->candidates.size());
    if (r.chance(1, 2)) i = r.below(std::min<size_t>(k->candidates.size(), 3));
    Cand cand = k->candidates[i];
    size_t oc = k->originalCursor;
    string what = "choosing " + cand.value + " " + cand.reading;
    begin(what);
    learned = false;
    Outcome o;
    if (plain()) {
      choosePlain(o, cand);
    } else {
      o.tags = "C22 C19";
      size_t a = m.actual(m.c);
      bool wasUnknownCursor = !m.exact;
      pin(a, cand.reading, cand.value, true);
      // where the cursor goes depends on which place the choice took
      vector<Model::C> pl = placements;
      m.kind = INPUT;
      if (m.set.assoc) {
        o.tryAssoc = true;
        o.assocShift = true;
      }
      w.kh->candidateSelected(cand, oc, w.cb());
      size_t end = 0;
      bool ok = false;
      size_t at = w.kh->candidateCursorIndex();
      if (m.set.moveAfter) {
        for (auto& p : pl) ok |= p.e == at, end = p.e;
        if (m.exact) {
          size_t acc = 0;
          m.w.findNodeAt(a, &acc);
          ok = at == acc;
          end = acc;
        }
        JUDGE("C22", ok, what << ": the cursor ends at " << at << " instead of after the choice, " << end);
        m.c = at;
      } else {
        JUDGE("C22", at == oc, what << ": the cursor ends at " << at << " instead of where it was, " << oc);
        m.c = oc;
      }
      (void)wasUnknownCursor;
      m.g.setCursor(m.c);
      vf::count("choices");
      finish(o, true, what);
      return;
    }
    w.kh->candidateSelected(cand, oc, w.cb());
    vf::count("choices");
    finish(o, true, what);
  }
  void cancel() {
    Outcome o;
    o.tags = "C22";
    size_t oc = 0;
    if (auto* k = w.is<InputStates::ChoosingCandidate>()) oc = k->originalCursor;
    begin(string("cancel while ") + kKindNames[m.kind]);
    string what = string("cancelling ") + kKindNames[m.kind];
    if (m.kind == CHOOSE) {
      if (plain()) {
        m.clear();
        m.kind = EMPTY;
        o.tags = "C24";
      } else {
        setCursor(m.orig);
        m.kind = INPUT;
      }
    } else {
      m.kind = EMPTY;
      o.tags = "C25 C18";
    }
    w.kh->candidatePanelCancelled(oc, w.cb());
    vf::count("cancels");
    finish(o, true, what);
  }
  void windowMove() {
    // Shift+Left/Right in the candidate window
    Outcome o;
    o.tags = "C22";
    bool right = r.chance(1, 2);
    begin(right ? "window cursor right" : "window cursor left");
    size_t cur = w.kh->candidateCursorIndex();
    JUDGE("C22", cur == m.c, "the window is at " << cur << " instead of " << m.c);
    if (right) ++cur;
    else if (cur) --cur;
    w.kh->setCandidateCursorIndex(cur);
    auto in = w.kh->buildInputtingState();
    w.onState(w.kh->buildChoosingCandidateState(in.get(), w.kh->candidateCursorIndex()));
    setCursor(right ? std::min(m.c + 1, m.R.size()) : m.c ? m.c - 1 : 0);
    m.orig = m.c;
    vf::count("window_moves");
    finish(o, true, "moving in the window");
  }
  // Shift+Enter in the candidate window
  std::unique_ptr<InputStates::ChoosingCandidate> assocBack;
  void windowAssoc() {
    Outcome o;
    o.tags = "C23";
    auto* k = w.is<InputStates::ChoosingCandidate>();
    size_t i = r.below(k->candidates.size());
    Cand cand = k->candidates[i];
    begin("associated phrases of candidate " + cand.value + " " + cand.reading);
    vector<string> rds;
    size_t b = 0;
    for (;;) {
      size_t e = cand.reading.find('-', b);
      rds.push_back(cand.reading.substr(b, e == string::npos ? e : e - b));
      if (e == string::npos) break;
      b = e + 1;
    }
    auto want = m.assocOf(rds, cand.value);
    auto prev = std::make_unique<InputStates::ChoosingCandidate>(*k);
    auto next = w.kh->buildAssociatedPhrasesStateFromCandidateChoosingState(std::move(prev), k->originalCursor, cand.reading, cand.value, i);
    if (want.empty()) {
      JUDGE("C23", next == nullptr, "associated phrases are offered for " << cand.value << ", which has none");
      return;
    }
    JUDGE("C23", next != nullptr, "no associated phrases are offered for " << cand.value);
    JUDGE("C23", !next->useShiftKey && next->prefixReading == cand.reading && next->prefixValue == cand.value && next->selectedCandidateIndex == i, "associated phrases for the wrong candidate");
    checkAssocList(next->candidates, cand.reading, cand.value, "the window");
    assocBack = std::make_unique<InputStates::ChoosingCandidate>(*k);
    fromWindow = true;
    w.onState(std::move(next));
    m.kind = ASSOC;
    m.assocShift = false;
    vf::count("associations_offered");
    finish(o, true, "asking for associated phrases");
  }
  bool fromWindow = false;
  void assocCancel() {
    // only windows not opened by themselves can be cancelled
    Outcome o;
    o.tags = "C23";
    begin("cancel associated phrases");
    auto* a = w.is<InputStates::AssociatedPhrases>();
    auto* prev = a->previousState.get();
    if (auto* c = dynamic_cast<InputStates::ChoosingCandidate*>(prev)) {
      w.onState(std::make_unique<InputStates::ChoosingCandidate>(*c));
      m.kind = CHOOSE;
    } else if (auto* i = dynamic_cast<InputStates::Inputting*>(prev)) {
      w.onState(std::make_unique<InputStates::Inputting>(*i));
      m.kind = INPUT;
    }
    vf::count("cancels");
    finish(o, true, "cancelling associated phrases");
  }
  void assocSelect() {
    auto* a = w.is<InputStates::AssociatedPhrases>();
    size_t i = r.below(a->candidates.size());
    Cand cand = a->candidates[i];
    string pr = a->prefixReading, pv = a->prefixValue;
    size_t at = a->prefixCursorIndex;
    bool window = dynamic_cast<InputStates::ChoosingCandidate*>(a->previousState.get()) != nullptr;
    string what = "choosing associated phrase " + cand.value + " " + cand.reading + " after " + pv;
    begin(what);
    learned = false;
    Outcome o;
    o.tags = "C23 C19";
    vector<string> restR;
    size_t b = pr.size() + 1;
    for (;;) {
      size_t e = cand.reading.find('-', b);
      restR.push_back(cand.reading.substr(b, e == string::npos ? e : e - b));
      if (e == string::npos) break;
      b = e + 1;
    }
    string restV = cand.value.substr(pv.size());
    auto restC = chars(restV);
    bool accepted = true, knownChars = true;
    for (size_t j = 0; j < restR.size(); ++j) {
      accepted &= m.has(restR[j]);
      if (auto* v = look(d, restR[j])) {
        bool f = false;
        for (auto& x : *v) f |= x.value == restC[j];
        knownChars &= f;
      }
    }
    bool whole = false;  // the phrase itself is in the dictionary
    if (auto* v = look(d, cand.reading))
      for (auto& x : *v) whole |= x.value == cand.value;
    // the places the prefix may take
    auto pl = placesOf(pr, pv, m.actualOrEnd(at));
    string oldT = m.T, oldHead = window ? string() : lastHead;
    size_t oldC = m.c;
    vector<string> oldR = m.R;
    // the text before the cursor has to be one reading per character for the
    // prefix to be found where it stands
    w.kh->candidateAssociatedPhraseSelected(at, cand, pr, pv, w.cb());
    m.kind = INPUT;
    size_t cur = w.kh->candidateCursorIndex();
    vf::count("associations_chosen");
    if (!accepted) {
      // not half inserted
      vf::count("associations_impossible");
      JUDGE("C23", w.kind() == INPUT, what << " leads to " << kKindNames[w.kind()]);
      JUDGE("C23", cur == oldC || window, what << " is impossible but moves the cursor from " << oldC << " to " << cur);
      m.c = cur;
      m.g.setCursor(cur);
      if (window) textMoved = true;  // the prefix itself may be put in place
      if (textMoved) m.exact = false, m.untouched = false;
      if (window) {
        // either nothing happens or only the prefix is chosen
      }
      finish(o, true, what);
      return;
    }
    // placements: after which the rest is inserted
    vector<string> okR;
    bool found = false;
    for (auto& p : pl) {
      if (p.e + restR.size() != cur) continue;
      vector<string> nr = oldR;
      nr.insert(nr.begin() + static_cast<ptrdiff_t>(p.e), restR.begin(), restR.end());
      okR = nr;
      found = true;
      place = p;
      if (!window && p.e == oldC) break;
    }
    if (pl.empty()) {
      // The prefix is a part of a longer phrase and no phrase on its own. It
      // can still be kept character by character, if the dictionary has them.
      vf::count("associations_within_phrases");
      vector<string> pc = chars(pv);
      bool keepable = pc.size() <= oldC;
      for (size_t j = 0; keepable && j < pc.size(); ++j) {
        bool f = false;
        if (auto* v = look(d, oldR[oldC - pc.size() + j]))
          for (auto& x : *v) f |= x.value == pc[j];
        keepable = f;
      }
      if (!keepable || !d.closed) {
        m.exact = false;
        throw Abandoned{};
      }
      place = Model::C{oldC - pc.size(), oldC, pr, pv};
      pl.push_back(place);
      okR = oldR;
      okR.insert(okR.begin() + static_cast<ptrdiff_t>(oldC), restR.begin(), restR.end());
      found = cur == oldC + restR.size();
    }
    JUDGE("C23", found, what << ": the cursor ends at " << cur << ", not after the phrase, which can only end at " << pl[0].e + restR.size());
    bool ambiguous = pl.size() > 1;
    if (!window) JUDGE("C23", place.e == oldC, what << ": the rest is not inserted at the cursor");
    m.R = okR;
    m.c = cur;
    rebuildMirror();
    textMoved = true;
    m.exact = false;
    m.untouched = false;
    finish(o, true, what);
    // all text around unchanged
    size_t pe = place.e;
    bool seen = m.segs.size() > 300;
    for (auto& s : m.segs) {
      string h1 = headOf(s, place.b), h2 = headOf(s, pe), h3 = headOf(s, pe + restR.size());
      bool ok = h2.substr(h1.size()) == pv;
      if (knownChars || whole) ok &= h3.substr(h2.size()) == restV;
      seen |= ok;
    }
    JUDGE("C23", seen || (window && ambiguous), what << ": [" << pv << "][" << restV << "] does not stand in [" << m.T << "]");
    if (!window && d.closed && (knownChars || whole)) {
      string want = oldHead + restV + oldT.substr(oldHead.size());
      // Where readings come twice, the same words in another order are worth
      // exactly as much, and which order is shown is not decided by anything.
      auto parts = [&](const string& t) {
        vector<vector<string>> p(3);
        size_t h = oldHead.size() - pv.size(), k = oldHead.size() + restV.size();
        if (t.size() != want.size()) return p;
        p[0] = chars(t.substr(0, h));
        p[1] = chars(t.substr(h, k - h));
        p[2] = chars(t.substr(k));
        vector<string> rs[3] = {vector<string>(oldR.begin(), oldR.begin() + static_cast<ptrdiff_t>(place.b)), {}, vector<string>(oldR.begin() + static_cast<ptrdiff_t>(place.e), oldR.end())};
        for (int i : {0, 2}) {
          std::set<string> u(rs[i].begin(), rs[i].end());
          if (u.size() < rs[i].size()) std::sort(p[static_cast<size_t>(i)].begin(), p[static_cast<size_t>(i)].end());
        }
        return p;
      };
      JUDGE("C23", m.T == want || parts(m.T) == parts(want), what << " turns [" << oldT << "] into [" << m.T << "] instead of [" << want << "]");
      vf::count("associations_exact");
    }
  }
  void rebuildMirror() {
    m.g.clear();
    for (auto& x : m.R) m.g.insertReading(x);
    m.g.setCursor(m.c);
    m.walk();
  }

  void featurePick() {
    auto* f = w.is<InputStates::SelectingFeature>();
    size_t i = r.below(f->features.size());
    Outcome o;
    o.tags = "C25";
    begin("feature " + std::to_string(i));
    m.number.clear();
    if (i == 0) m.kind = DATE;
    else if (i == 1) m.kind = ENCL;
    else m.kind = CNUM, m.style = static_cast<int>(i) - 2;
    w.onState(f->nextState(i));
    vf::count("features");
    finish(o, true, "choosing feature " + std::to_string(i));
    if (m.kind == DATE) {
      auto* dm = w.is<InputStates::SelectingDateMacro>();
      for (auto& x : dm->menu) JUDGE("C25", !x.empty(), "the date menu holds an empty entry");
    }
  }
  void leaveMenu() {
    // picking an entry of the date menu commits it as the engine does
    auto* dm = w.is<InputStates::SelectingDateMacro>();
    Outcome o;
    o.tags = "C25";
    if (dm && !dm->menu.empty() && r.chance(1, 2)) {
      string t = r.pick(dm->menu);
      begin("date entry " + t);
      o.commit = t;
      o.anyCommit = true;
      m.kind = EMPTY;
      w.onState(std::make_unique<InputStates::Committing>(t));
      finish(o, true, "choosing " + t);
    } else {
      cancel();
    }
  }
  void plainContinue() {
    auto* a = w.is<InputStates::AssociatedPhrasesPlain>();
    Outcome o;
    o.tags = "C24";
    if (r.chance(1, 2)) {
      string t = r.pick(a->candidates).value;
      begin("continuation " + t);
      o.commit = t;
      o.anyCommit = true;
      m.kind = EMPTY;
      w.onState(std::make_unique<InputStates::Committing>(t));
      finish(o, true, "choosing " + t);
    } else {
      // the engine empties the state before passing another key on
      begin("leaving continuations");
      m.kind = EMPTY;
      w.onState(std::make_unique<InputStates::Empty>());
      finish(o, true, "leaving the continuations");
    }
  }
  void dictionary() {
    auto* s = w.is<InputStates::SelectingDictionary>();
    Outcome o;
    o.tags = "C21 C19";
    string all = m.T;
    bool fromMark = dynamic_cast<InputStates::Marking*>(s->previousState.get()) != nullptr;
    if (r.chance(1, 2)) {
      begin("cancel dictionary menu");
      if (auto* mk = dynamic_cast<InputStates::Marking*>(s->previousState.get())) {
        w.onState(std::make_unique<InputStates::Marking>(*mk));
        m.kind = MARK;
      } else if (auto* c = dynamic_cast<InputStates::ChoosingCandidate*>(s->previousState.get())) {
        w.onState(std::make_unique<InputStates::ChoosingCandidate>(*c));
        m.kind = CHOOSE;
      }
      finish(o, true, "leaving the dictionary menu");
      return;
    }
    (void)fromMark;
    size_t i = r.below(s->menu.size());
    string phrase = s->selectedPhrase;
    begin("dictionary service " + std::to_string(i) + " for " + phrase);
    w.kh->dictionaryServiceSelected(phrase, i, w.st.get(), w.cb());
    vf::count("dictionary_lookups");
    if (gStarted.empty()) {
      m.kind = CHARINFO;
    } else {
      // the composition is delivered, once, and the browser opened
      o.commit = w.is<InputStates::Empty>() ? all : "";
      o.anyCommit = true;
      m.clear();
      m.kind = EMPTY;
      vf::count("web_lookups");
    }
    finish(o, true, "looking up " + phrase);
  }
  void windowDictionary() {
    auto* k = w.is<InputStates::ChoosingCandidate>();
    size_t i = r.below(k->candidates.size());
    Outcome o;
    o.tags = "C22";
    begin("dictionary menu for candidate " + std::to_string(i));
    w.onState(w.kh->buildSelectingDictionaryState(std::make_unique<InputStates::ChoosingCandidate>(*k), k->candidates[i].value, i));
    m.kind = DICT;
    finish(o, true, "opening the dictionary menu");
  }
  void charInfo() {
    auto* s = w.is<InputStates::ShowingCharInfo>();
    Outcome o;
    o.tags = "C21";
    begin("leave character information");
    w.onState(std::make_unique<InputStates::SelectingDictionary>(*s->previousState));
    m.kind = DICT;
    finish(o, true, "leaving character information");
  }
  void resetAll() {
    // deactivation: the framework side drops or delivers what is shown
    begin("reset");
    vf::count("resets");
    string all = m.kind == INPUT || m.kind == MARK || m.kind == CHOOSE || m.kind == ASSOC || m.kind == DICT || m.kind == CHARINFO ? w.is<InputStates::NotEmpty>()->composingBuffer : "";
    Outcome o;
    o.tags = "C19";
    o.commit = all;
    o.anyCommit = true;
    m.clear();
    m.kind = EMPTY;
    w.kh->reset();
    w.onState(std::make_unique<InputStates::Empty>());
    finish(o, true, "reset");
  }

  // keys that type a syllable under the present layout
  string sylKeys(const Syl& s) {
    string k;
    if (m.set.layout < 5) {
      k = keysOf(layouts()[static_cast<size_t>(m.set.layout)], s);
    } else {
      k = refPinyin(s, true);
      if (k.find("ü") != string::npos) k.clear();
    }
    if (s.p[3] < 0) k += ' ';
    return k;
  }
  void typeSyllable() {
    const Syl& s = r.chance(1, 40) ? r.pick(realSyllables()) : r.pick(d.sylP);
    typeKeys(s);
  }
  void typeKeys(const Syl& s) {
    for (char ch : sylKeys(s)) {
      if (m.kind != EMPTY && m.kind != INPUT && m.kind != MARK && m.kind != ASSOC && !(m.kind == CHOOSE && plain())) return;
      press(Key::asciiKey(ch));
    }
  }
  Key randomKey() {
    bool sh = r.chance(1, 8), ct = r.chance(1, 12), np = r.chance(1, 15);
    switch (r.below(10)) {
      case 0: return Key::asciiKey(static_cast<char>(32 + r.below(95)));
      case 1: return Key::asciiKey(static_cast<char>(32 + r.below(95)), sh, ct, np);
      case 2: return Key::asciiKey(r.pick(vector<char>{8, 9, 13, 27, 32, 127}), sh, ct, np);
      case 3: return Key::namedKey(r.pick(vector<Key::KeyName>{Key::KeyName::LEFT, Key::KeyName::RIGHT, Key::KeyName::UP, Key::KeyName::DOWN, Key::KeyName::HOME, Key::KeyName::END, Key::KeyName::UNKNOWN}), r.chance(1, 2), ct, np);
      case 4: return Key::asciiKey(kPunctKeys[r.below(kPunctKeys.size())], false, r.chance(1, 4), np);
      case 5: return Key::asciiKey(static_cast<char>('A' + r.below(26)));
      case 6: return Key::asciiKey(' ', r.chance(1, 2));
      case 7: return Key{};
      case 8: return Key::asciiKey('`');
      default: return Key::asciiKey(static_cast<char>('a' + r.below(26)));
    }
  }
  Key numKey() {
    switch (r.below(14)) {
      case 0: return Key::asciiKey(Key::BACKSPACE);
      case 1: return Key::asciiKey(Key::DELETE, false, false, r.chance(1, 2));
      case 2: return Key::asciiKey('.');
      case 3: return r.chance(1, 3) ? Key::asciiKey(Key::RETURN) : Key::asciiKey('0');
      case 4: return r.chance(1, 3) ? randomKey() : Key::asciiKey(static_cast<char>('0' + r.below(10)), false, false, true);
      case 5: return r.chance(1, 3) ? Key::asciiKey(Key::ESC) : Key::asciiKey(' ');
      case 6: return r.chance(1, 4) ? Key::asciiKey(Key::RETURN) : Key::asciiKey('0');
      default: return Key::asciiKey(static_cast<char>('0' + (m.kind == ENCL && r.chance(1, 2) ? r.below(2) : r.below(10))));
    }
  }
  Key cursorKey(bool shift) {
    static const vector<Key::KeyName> n = {Key::KeyName::LEFT, Key::KeyName::LEFT, Key::KeyName::LEFT, Key::KeyName::RIGHT, Key::KeyName::RIGHT, Key::KeyName::HOME, Key::KeyName::END};
    return Key::namedKey(r.pick(n), shift, false, r.chance(1, 10));
  }

  // one step of a composing session
  void step() {
    unsigned wType = 30, wRand = 6, wCursor = 10, wMark = 3, wDel = 4, wTab = 4, wSpace = 5, wPunct = 4, wEnter = 2, wShiftSp = 2, wGrave = 1, wAssoc = 2, wRuby = 1, wFeature = 1, wUpper = 2, wReset = 1, wPart = 4;
    if (prop == "C38") wCursor = 20, wMark = 15;
    if (prop == "C20") wCursor = 20, wDel = 20, wPart = 8, wRand = 3;
    if (prop == "C21") wMark = 25;
    if (prop == "C22") wSpace = 20, wTab = 20;
    if (prop == "C12") wSpace = 25, wRand = 0, wPunct = 0, wMark = 0, wEnter = 6, wTab = 2, wGrave = 0;
    if (prop == "C23") wAssoc = 20, wCursor = 15;
    if (prop == "C25") wFeature = 30;
    if (prop == "C26") wRuby = 12;
    if (prop == "C27") wRand = 60;
    if (prop == "C19") wEnter = 8, wUpper = 8, wShiftSp = 8, wPunct = 10;
    if (plain()) wCursor = 2, wMark = 1, wDel = 3, wTab = 1, wAssoc = 1;
    if (m.R.size() > 14) wDel += 40, wEnter += 10;
    struct It {
      unsigned w;
      int id;
    };
    vector<It> its = {{wType, 0}, {wRand, 1}, {wCursor, 2}, {wMark, 3}, {wDel, 4}, {wTab, 5}, {wSpace, 6}, {wPunct, 7}, {wEnter, 8}, {wShiftSp, 9}, {wGrave, 10}, {wAssoc, 11}, {wRuby, 12}, {wFeature, 13}, {wUpper, 14}, {wReset, 15}, {wPart, 16}};
    unsigned tot = 0;
    for (auto& x : its) tot += x.w;
    uint64_t z = r.below(tot);
    int id = 0;
    for (auto& x : its) {
      if (z < x.w) {
        id = x.id;
        break;
      }
      z -= x.w;
    }
    switch (id) {
      case 0: typeSyllable(); break;
      case 1: press(randomKey()); break;
      case 2: press(cursorKey(false)); break;
      case 3:
        for (uint64_t n = 1 + r.below(5); n; --n) {
          if (m.kind != INPUT && m.kind != MARK && m.kind != EMPTY) break;
          press(cursorKey(true));
        }
        if (m.kind == MARK && r.chance(1, 2)) press(r.chance(1, 3) ? Key::asciiKey('?') : Key::asciiKey(Key::RETURN));
        break;
      case 4: press(Key::asciiKey(r.chance(1, 3) ? Key::DELETE : Key::BACKSPACE)); break;
      case 5:
        for (uint64_t n = 1 + r.below(4), sh = r.below(2); n; --n) {
          if (m.kind != INPUT && m.kind != EMPTY) break;
          press(Key::asciiKey(Key::TAB, sh || r.chance(1, 5)));
        }
        break;
      case 6: press(r.chance(1, 3) ? Key::namedKey(Key::KeyName::DOWN) : Key::asciiKey(' ')); break;
      case 7: press(Key::asciiKey(kPunctKeys[r.below(kPunctKeys.size())], false, r.chance(1, 5))); break;
      case 8: press(Key::asciiKey(Key::RETURN, false, false, r.chance(1, 10))); break;
      case 9: press(Key::asciiKey(' ', true)); break;
      case 10: press(Key::asciiKey('`')); break;
      case 11: press(Key::asciiKey(Key::RETURN, true)); break;
      case 12: press(Key::asciiKey(Key::RETURN, false, true)); break;
      case 13: press(Key::asciiKey('\\', false, true)); break;
      case 14: press(Key::asciiKey(static_cast<char>('A' + r.below(26)))); break;
      case 15:
        if (r.chance(1, 4)) resetAll();
        else settings(false);
        break;
      default: {
        string k = sylKeys(r.pick(d.sylP));
        if (!k.empty()) press(Key::asciiKey(k[r.below(k.size())]));
      }
    }
  }

  void run(size_t steps) {
    settings(true);
    for (size_t i = 0; i < steps; ++i) {
      switch (m.kind) {
        case EMPTY:
          if (r.chance(1, 12)) settings(true);
          step();
          break;
        case INPUT: step(); break;
        case MARK:
          if (r.chance(1, 2)) press(cursorKey(true));
          else if (r.chance(1, 4)) press(Key::asciiKey(Key::RETURN));
          else if (r.chance(1, 6)) press(Key::asciiKey('?'));
          else if (r.chance(1, 6)) press(Key::asciiKey(Key::ESC));
          else step();
          break;
        case CHOOSE:
          if (plain()) {
            switch (r.below(8)) {
              case 0: cancel(); break;
              case 1: press(r.chance(1, 2) ? randomKey() : Key::asciiKey(kPunctKeys[r.below(kPunctKeys.size())])); break;
              case 2: typeSyllable(); break;
              default: select(); break;
            }
          } else {
            switch (r.below(12)) {
              case 0:
              case 1: cancel(); break;
              case 2:
              case 3: windowMove(); break;
              case 4:
                if (prop == "C23" || r.chance(1, 3)) windowAssoc();
                else select();
                break;
              case 5:
                if (prop == "C23") {
                  windowAssoc();
                  break;
                }
                if (r.chance(1, 3)) windowDictionary();
                else select();
                break;
              default: select(); break;
            }
          }
          break;
        case ASSOC:
          switch (r.below(4)) {
            case 0:
              if (!m.assocShift) {
                assocCancel();
                break;
              }
              step();
              break;
            case 1: step(); break;
            default: assocSelect(); break;
          }
          break;
        case ASSOCPLAIN: plainContinue(); break;
        case FEATURE:
          if (r.chance(1, 8)) cancel();
          else featurePick();
          break;
        case DATE: leaveMenu(); break;
        case ENCL:
        case CNUM: press(numKey()); break;
        case DICT: dictionary(); break;
        case CHARINFO: charInfo(); break;
        default: return;
      }
    }
  }
};

string caseDir() {
  string d = vf::G().scratch + "/case";
  mkdir(d.c_str(), 0755);
  return d;
}

void model(uint64_t idx, Rng& r) {
  gFakeNow = 1.7e9;
  Driver d(r, vf::G().prop, caseDir());
  try {
    d.run(vf::thorough() ? 60 + r.below(140) : 40 + r.below(80));
  } catch (const Abandon&) {
  } catch (const Abandoned&) {
    vf::count("ended_early");
  }
  gFakeNow = 0;
  vf::distinct(d.trail);
  if (idx < 2) vf::sample(d.trail.substr(0, 1400));
}

// ---- C28: anything goes -------------------------------------------------------
class ReloadingAdder : public UserPhraseAdder {
 public:
  std::function<void(const string&, const string&)> f;
  void addUserPhrase(const std::string_view& r, const std::string_view& p) override { f(string(r), string(p)); }
};

struct Wild {
  Rng& r;
  Dict d;
  World w;
  string dir, user, trail;
  std::shared_ptr<ReloadingAdder> adder = std::make_shared<ReloadingAdder>();
  Settings set;
  int layout = 0;
  bool convert = false;

  Wild(Rng& rr, const string& di) : r(rr), d(makeDict(rr, r.pick(vector<string>{"C28", "C23", "C24", "C12"}))), dir(di) {
    w.strict = false;
    w.kh = std::make_unique<KeyHandler>(w.lm, adder, std::make_unique<Strings>());
    w.kh->setOnAddNewPhrase([this](const string& p) { w.notified.push_back(p); });
    adder->f = [this](const string& rd, const string& ph) {
      vf::count("phrases_added");
      user += ph + " " + rd + "\n";
      loadUser();
    };
    w.lm->setMacroConverter([this](const string& s) { return s == "MACRO@DATE_TODAY_SHORT" ? string("2024年") : s; });
    loadMain();
    loadAssoc();
    if (r.chance(1, 2)) editUser();
    applySettings(true);
  }
  string junkBytes(size_t n) {
    string o;
    while (n--) o += static_cast<char>(r.below(256));
    return o;
  }
  string junk() {
    switch (r.below(8)) {
      case 0: return "";
      case 1: return junkBytes(r.below(12));
      case 2: return "\xe4\xb8";
      case 3: return string(1 + r.below(40), 'x');
      case 4: return r.chance(1, 2) ? "MACRO@DATE_TODAY_SHORT" : "MACRO@NONE";
      case 5: return "-";
      case 6: return "\xff\xfe\x80";
      default: return r.pick(pool()) + r.pick(pool()) + r.pick(pool());
    }
  }
  string strangeLines(size_t n) {
    vector<string> l;
    for (size_t i = 0; i < n; ++i) {
      string key = r.chance(2, 3) ? r.pick(d.syl) : junk();
      if (r.chance(1, 3)) key += "-" + r.pick(d.syl);
      if (r.chance(1, 12)) key = r.pick(vector<string>{"_punctuation_list", "_letter_A", "_number_1", "_punctuation_,", "_half_punctuation_,", " "});
      string line = key;
      if (r.chance(9, 10)) line += " " + (r.chance(1, 2) ? junk() : r.pick(pool()));
      if (r.chance(9, 10)) line += " " + r.pick(vector<string>{"-1.5", "0", "-99", "-", "1e6", "x", "-8.000000"});
      l.push_back(line);
    }
    std::sort(l.begin(), l.end());
    return vf::S(l, "\n");
  }
  size_t gen = 0;
  string fresh(const char* n, const string& text) {
    string p = dir + "/" + n + std::to_string(gen++ % 4);
    unlink(p.c_str());
    writeFile(p, text);
    return p;
  }
  void loadMain() {
    static const string head = "# format org.openvanilla.mcbopomofo.sorted\n";
    string t;
    switch (r.below(9)) {
      case 0: vf::note("  dictionary: none"); w.lm->loadLanguageModel((dir + "/missing").c_str()); return;
      case 1: t = head; break;
      case 2: t = ""; break;
      case 3: t = head + strangeLines(1 + r.below(30)); break;
      case 4: {
        // the real one with strange rows among its own
        string all = dictText(d).substr(head.size()) + strangeLines(1 + r.below(8)) + "\n";
        vector<string> l;
        size_t b = 0, e;
        while ((e = all.find('\n', b)) != string::npos) l.push_back(all.substr(b, e - b)), b = e + 1;
        std::sort(l.begin(), l.end());
        t = head + vf::S(l, "\n") + (r.chance(1, 2) ? "\n" : "");
        break;
      }
      default: t = dictText(d); break;
    }
    vf::note("  dictionary of " + std::to_string(t.size()) + " bytes");
    w.lm->loadLanguageModel(fresh("data", t).c_str());
    vf::count("data_loaded");
  }
  void loadAssoc() {
    if (r.chance(1, 8)) w.lm->loadAssociatedPhrasesV2((dir + "/missing").c_str());
    else w.lm->loadAssociatedPhrasesV2(fresh("assoc", r.chance(1, 8) ? string("# format org.openvanilla.mcbopomofo.sorted\n") + strangeLines(5) : assocText(d)).c_str());
    vf::count("data_loaded");
  }
  void loadUser() {
    string p = fresh("user", user);
    string ex;
    if (r.chance(1, 2))
      for (uint64_t i = r.below(6); i; --i) {
        auto it = d.t.begin();
        std::advance(it, static_cast<long>(r.below(d.t.size())));
        ex += r.pick(it->second).value + " " + it->first + "\n";
      }
    // everything of one reading, at times
    if (r.chance(1, 4)) {
      const string& s = r.pick(d.syl);
      for (auto& v : *d.find(s)) ex += v.value + " " + s + "\n";
    }
    w.lm->loadUserPhrases(p.c_str(), r.chance(1, 6) ? (dir + "/missing").c_str() : fresh("exclude", ex).c_str());
    vf::count("data_loaded");
  }
  void editUser() {
    for (uint64_t i = 1 + r.below(4); i; --i) {
      string key = r.pick(d.syl);
      for (uint64_t k = r.below(4); k; --k) key += "-" + r.pick(d.syl);
      user += (r.chance(1, 3) ? junk() : r.pick(pool()) + (r.chance(1, 2) ? r.pick(pool()) : "")) + " " + key + (r.chance(5, 6) ? "\n" : " ");
    }
    if (r.chance(1, 6)) user += junkBytes(r.below(30));
    if (r.chance(1, 5)) user.clear();
    loadUser();
  }
  void applySettings(bool mode) {
    auto s = set;
    if (mode) s.mode = r.chance(1, 3) ? InputMode::PlainBopomofo : InputMode::McBopomofo;
    if (mode) s.layout = static_cast<int>(r.below(6));  // as in the engine, only with nothing being typed
    s.selectAfter = r.chance(1, 2);
    s.moveAfter = r.chance(1, 2);
    s.putLower = r.chance(1, 2);
    s.escClears = r.chance(1, 2);
    s.assoc = r.chance(1, 2);
    s.half = r.chance(1, 3);
    s.ctrlEnter = static_cast<int>(r.below(3));
    set = s;
    w.apply(s);
    vf::count("settings_changed");
  }
  void note(const string& s) {
    vf::note("  " + s);
    trail += s + "; ";
  }
  Key randomKey() {
    bool sh = r.chance(1, 6), ct = r.chance(1, 10), np = r.chance(1, 12);
    switch (r.below(12)) {
      case 0: return Key::asciiKey(static_cast<char>(r.below(128)), sh, ct, np);
      case 1: return Key::asciiKey(r.pick(vector<char>{8, 9, 13, 27, 32, 127}), sh, ct, np);
      case 2:
      case 3: return Key::namedKey(r.pick(vector<Key::KeyName>{Key::KeyName::LEFT, Key::KeyName::RIGHT, Key::KeyName::UP, Key::KeyName::DOWN, Key::KeyName::HOME, Key::KeyName::END, Key::KeyName::UNKNOWN}), r.chance(1, 2), ct, np);
      case 4: return Key::asciiKey(kPunctKeys[r.below(kPunctKeys.size())], false, r.chance(1, 4), np);
      case 5: return Key::asciiKey(static_cast<char>('A' + r.below(26)));
      case 6: return Key::asciiKey(' ', r.chance(1, 4));
      case 7: return Key::asciiKey('`');
      case 8: return Key::asciiKey('\t', r.chance(1, 2));
      case 9: return Key::asciiKey('\r', r.chance(1, 2), r.chance(1, 3));
      case 10: return Key::asciiKey(static_cast<char>(r.below(256)), sh, ct, np);
      default: return Key::asciiKey(static_cast<char>('a' + r.below(26)));
    }
  }
  void press(const Key& k) {
    note(Driver::keyName(k));
    vf::count("keys");
    if (auto* c = w.is<InputStates::ChoosingCandidate>()) {
      // the engine lets a plain-mode key see the window first
      if (set.mode == InputMode::PlainBopomofo) {
        if (c->candidates.empty()) return;
        Cand cand = r.pick(c->candidates);
        size_t oc = c->originalCursor;
        w.kh->handleCandidateKeyForTraditionalBopomofoIfRequired(
            k, [&] { w.kh->candidateSelected(cand, oc, w.cb()); }, w.cb(), w.err());
      }
      return;
    }
    w.kh->handle(k, w.st.get(), w.cb(), w.err());
  }
  void typeSyllable() {
    const Syl& s = r.chance(1, 6) ? r.pick(realSyllables()) : r.pick(d.sylP);
    string keys;
    if (set.layout < 5) {
      keys = keysOf(layouts()[static_cast<size_t>(set.layout)], s);
    } else {
      keys = refPinyin(s, true);
    }
    if (s.p[3] < 0) keys += ' ';
    for (char c : keys) {
      if (w.kind() == CHOOSE && set.mode != InputMode::PlainBopomofo) break;
      press(Key::asciiKey(c));
    }
    vf::count("syllables");
  }
  void reset() {
    note("reset");
    w.kh->reset();
    if (r.chance(1, 2)) w.st = std::make_unique<InputStates::Empty>();
    else w.onState(std::make_unique<InputStates::Empty>());
    vf::count("resets");
  }
  void config() {
    switch (r.below(7)) {
      case 0:
        // input methods are switched through a reset
        reset();
        applySettings(true);
        if (r.chance(1, 2)) loadMain();
        note("mode");
        break;
      case 1: note("user data"); editUser(); break;
      case 2: note("dictionary"); loadMain(); break;
      case 3: note("associated phrases"); loadAssoc(); break;
      case 4:
        note("replacements");
        w.lm->loadPhraseReplacementMap(fresh("repl", r.pick(pool()) + " " + junk() + "\n" + r.pick(pool()) + " " + r.pick(pool()) + "\n").c_str());
        w.lm->setPhraseReplacementEnabled(r.chance(2, 3));
        break;
      case 5:
        note("converter");
        convert = r.chance(1, 2);
        w.lm->setExternalConverter([](const string& s) { return s + s; });
        w.lm->setExternalConverterEnabled(convert);
        break;
      default: note("settings"); applySettings(false); break;
    }
  }
  void inWindow() {
    auto st = w.kind();
    switch (st) {
      case CHOOSE: {
        auto* c = w.is<InputStates::ChoosingCandidate>();
        if (c->candidates.empty() || r.chance(1, 6)) {
          note("cancel");
          w.kh->candidatePanelCancelled(c->originalCursor, w.cb());
          return;
        }
        size_t i = r.below(c->candidates.size());
        Cand cand = c->candidates[i];
        size_t oc = c->originalCursor;
        if (r.chance(1, 8) && set.mode == InputMode::McBopomofo) {
          auto prev = std::make_unique<InputStates::ChoosingCandidate>(*c);
          auto n = w.kh->buildAssociatedPhrasesStateFromCandidateChoosingState(std::move(prev), oc, cand.reading, cand.value, i);
          note("associated phrases of " + cand.value);
          if (n) w.onState(std::move(n));
        } else if (r.chance(1, 10) && set.mode == InputMode::McBopomofo && w.kh->hasDictionaryServices()) {
          note("dictionaries for " + cand.value);
          w.onState(w.kh->buildSelectingDictionaryState(std::make_unique<InputStates::ChoosingCandidate>(*c), cand.value, i));
        } else if (r.chance(1, 6) && set.mode == InputMode::McBopomofo) {
          size_t cur = w.kh->candidateCursorIndex();
          if (r.chance(1, 2)) ++cur;
          else if (cur) --cur;
          note("window cursor");
          w.kh->setCandidateCursorIndex(cur);
          auto in = w.kh->buildInputtingState();
          w.onState(w.kh->buildChoosingCandidateState(in.get(), w.kh->candidateCursorIndex()));
        } else if (r.chance(1, 4) && set.mode == InputMode::PlainBopomofo) {
          press(randomKey());
        } else {
          note("choose " + cand.value);
          w.kh->candidateSelected(cand, oc, w.cb());
          vf::count("choices");
        }
        return;
      }
      case ASSOC: {
        auto* a = w.is<InputStates::AssociatedPhrases>();
        if (a->useShiftKey ? r.chance(1, 2) : r.chance(1, 4)) {
          if (a->useShiftKey) {
            press(randomKey());
          } else if (auto* c = dynamic_cast<InputStates::ChoosingCandidate*>(a->previousState.get())) {
            w.onState(std::make_unique<InputStates::ChoosingCandidate>(*c));
          } else if (auto* in = dynamic_cast<InputStates::Inputting*>(a->previousState.get())) {
            w.onState(std::make_unique<InputStates::Inputting>(*in));
          }
          return;
        }
        if (a->candidates.empty()) return;
        Cand cand = r.pick(a->candidates);
        note("associated phrase " + cand.value);
        string pr = a->prefixReading, pv = a->prefixValue;
        w.kh->candidateAssociatedPhraseSelected(a->prefixCursorIndex, cand, pr, pv, w.cb());
        vf::count("associations_chosen");
        return;
      }
      case ASSOCPLAIN: {
        auto* a = w.is<InputStates::AssociatedPhrasesPlain>();
        if (a->candidates.empty() || r.chance(1, 2)) {
          w.onState(std::make_unique<InputStates::Empty>());
          press(randomKey());
        } else {
          w.onState(std::make_unique<InputStates::Committing>(r.pick(a->candidates).value));
        }
        return;
      }
      case FEATURE: {
        auto* f = w.is<InputStates::SelectingFeature>();
        if (r.chance(1, 6)) return w.kh->candidatePanelCancelled(0, w.cb());
        size_t i = r.below(f->features.size());
        note("feature " + std::to_string(i));
        w.onState(f->nextState(i));
        vf::count("features");
        return;
      }
      case DATE: {
        auto* dm = w.is<InputStates::SelectingDateMacro>();
        if (dm->menu.empty() || r.chance(1, 2)) w.kh->candidatePanelCancelled(0, w.cb());
        else w.onState(std::make_unique<InputStates::Committing>(r.pick(dm->menu)));
        return;
      }
      case DICT: {
        auto* s = w.is<InputStates::SelectingDictionary>();
        if (s->menu.empty() || r.chance(1, 3)) {
          if (auto* mk = dynamic_cast<InputStates::Marking*>(s->previousState.get())) w.onState(std::make_unique<InputStates::Marking>(*mk));
          else if (auto* c = dynamic_cast<InputStates::ChoosingCandidate*>(s->previousState.get())) w.onState(std::make_unique<InputStates::ChoosingCandidate>(*c));
          return;
        }
        size_t i = r.below(s->menu.size());
        string phrase = s->selectedPhrase;
        note("dictionary " + std::to_string(i) + " for " + phrase);
        w.kh->dictionaryServiceSelected(phrase, i, w.st.get(), w.cb());
        vf::count("dictionary_lookups");
        return;
      }
      case CHARINFO: {
        auto* s = w.is<InputStates::ShowingCharInfo>();
        vf::count("character_information");
        w.onState(std::make_unique<InputStates::SelectingDictionary>(*s->previousState));
        return;
      }
      default: press(randomKey());
    }
  }
  void run(size_t steps) {
    for (size_t i = 0; i < steps; ++i) {
      gFakeNow += r.chance(1, 10) ? 3600.0 * static_cast<double>(r.below(200)) : 1;
      if (r.chance(1, 300)) gFakeNow -= 100000;
      Kind k = w.kind();
      if (r.chance(1, 25)) {
        config();
      } else if (k == EMPTY || k == INPUT || k == MARK) {
        switch (r.below(12)) {
          case 0:
            if (r.chance(1, 4)) {
              reset();
            } else {
              for (uint64_t n = 1 + r.below(5); n; --n) press(Key::namedKey(r.chance(3, 4) ? Key::KeyName::LEFT : Key::KeyName::HOME, true));
              if (r.chance(1, 2)) press(Key::asciiKey(r.chance(2, 3) ? '\r' : '?'));
            }
            break;
          case 1:
            note("associate");
            if (auto* in = w.is<InputStates::Inputting>()) w.kh->handleAssociatedPhrases(in, w.cb(), w.err(), r.chance(1, 2));
            break;
          case 2:
          case 3:
          case 4: typeSyllable(); break;
          case 5:
            if (k == EMPTY) press(Key::asciiKey('\\', false, true));
            else press(Key::asciiKey(' '));
            break;
          case 6: press(Key::namedKey(r.chance(1, 2) ? Key::KeyName::LEFT : Key::KeyName::RIGHT, r.chance(1, 2))); break;
          case 7:
            if (k == MARK) press(Key::asciiKey(r.chance(1, 2) ? '\r' : '?'));
            else press(Key::asciiKey('\t', r.chance(1, 2)));
            break;
          default: press(randomKey()); break;
        }
      } else if (k == ENCL || k == CNUM) {
        press(r.chance(4, 5) ? Key::asciiKey(r.chance(1, 8) ? '.' : r.chance(1, 12) ? '\r' : static_cast<char>('0' + r.below(10))) : randomKey());
      } else {
        inWindow();
      }
      // what a user interface does with any state
      if (auto* ne = w.is<InputStates::NotEmpty>()) {
        if (ne->cursorIndex > ne->composingBuffer.size()) vf::fail("the cursor is " + std::to_string(ne->cursorIndex) + " in a text of " + std::to_string(ne->composingBuffer.size()));
        vf::count("states_seen");
      }
    }
  }
};

void wild(uint64_t idx, Rng& r) {
  gFakeNow = 1.7e9;
  Wild d(r, caseDir());
  bool lengthy = r.chance(1, 60);
  d.run(lengthy ? 200 : vf::thorough() ? 60 + r.below(240) : 40 + r.below(100));
  if (lengthy) {
    d.reset();
    for (int i = 0; i < 150; ++i) d.typeSyllable();
    d.run(30);
    vf::count("long_compositions");
  }
  gStarted.clear();
  gFakeNow = 0;
  vf::distinct(d.trail);
  if (idx < 2) vf::sample(d.trail.substr(0, 1400));
}

vf::Reg c28("C28", 6000, 200000, wild);
vf::Reg c12("C12", 2500, 60000, model), c18("C18", 4000, 120000, model), c19("C19", 4000, 120000, model), c20("C20", 4000, 120000, model), c21("C21", 4000, 120000, model), c22("C22", 4000, 120000, model),
    c23("C23", 4000, 120000, model), c24("C24", 4000, 120000, model), c25("C25", 4000, 120000, model), c26("C26", 4000, 120000, model), c27("C27", 4000, 120000, model), c38("C38", 1500, 40000, model);

}  // namespace

int main(int argc, char** argv) { return vf::mainLoop(argc, argv); }
