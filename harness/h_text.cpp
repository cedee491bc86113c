// Monitors for text helpers: C13 UTF-8, C14 Chinese numerals, C15 Suzhou.
#include <algorithm>

#include "ChineseNumbers.h"
#include "StringUtils.h"
#include "SuzhouNumbers.h"
#include "UTF8Helper.h"
#include "common.h"

using std::string;
using std::vector;
using vf::Rng;

namespace {

// Well-formed UTF-8 byte sequences, table 3-7 of the Unicode standard.
size_t wellFormed(const string& s, size_t i) {
  auto b = [&](size_t k) -> unsigned { return i + k < s.size() ? static_cast<unsigned char>(s[i + k]) : 0x100; };
  auto in = [](unsigned x, unsigned lo, unsigned hi) { return x >= lo && x <= hi; };
  unsigned a = b(0);
  if (a < 0x80) return 1;
  if (in(a, 0xc2, 0xdf)) return in(b(1), 0x80, 0xbf) ? 2 : 0;
  if (in(a, 0xe0, 0xef)) {
    unsigned lo = a == 0xe0 ? 0xa0 : 0x80, hi = a == 0xed ? 0x9f : 0xbf;
    return in(b(1), lo, hi) && in(b(2), 0x80, 0xbf) ? 3 : 0;
  }
  if (in(a, 0xf0, 0xf4)) {
    unsigned lo = a == 0xf0 ? 0x90 : 0x80, hi = a == 0xf4 ? 0x8f : 0xbf;
    return in(b(1), lo, hi) && in(b(2), 0x80, 0xbf) && in(b(3), 0x80, 0xbf) ? 4 : 0;
  }
  return 0;
}

void checkText(const string& s) {
  vector<string> chars;
  size_t i = 0;
  while (i < s.size()) {
    size_t n = wellFormed(s, i);
    if (!n) break;
    chars.push_back(s.substr(i, n));
    i += n;
  }
  bool whole = i == s.size();
  size_t c = McBopomofo::CodePointCount(s);
  VCHECK(c == chars.size(), "count of " << vf::jstr(s) << " is " << c << ", expected " << chars.size());
  auto sp = McBopomofo::Split(s);
  VCHECK(sp == chars, "split of " << vf::jstr(s) << " is [" << vf::S(sp) << "]");
  string acc;
  size_t step = chars.size() > 64 ? chars.size() / 16 : 1;
  for (size_t k = 0; k <= chars.size() + 2; k += (k + 3 < chars.size() ? step : 1)) {
    acc.clear();
    for (size_t q = 0; q < k && q < chars.size(); ++q) acc += chars[q];
    string sub = McBopomofo::SubstringToCodePoints(s, k);
    VCHECK(sub == acc, "the first " << k << " characters of " << vf::jstr(s) << " are given as " << vf::jstr(sub));
    if (k < chars.size()) {
      string g = McBopomofo::GetCodePoint(s, k);
      VCHECK(g == chars[k], "character " << k << " of " << vf::jstr(s) << " is given as " << vf::jstr(g));
    } else {
      string g = McBopomofo::GetCodePoint(s, k);
      VCHECK(g.empty() || s.find(g) != string::npos, "character past the end is invented");
    }
  }
  VCHECK(McBopomofo::SubstringToCodePoints(s, static_cast<size_t>(-1)) == s.substr(0, i), "unbounded prefix of " << vf::jstr(s));
  vf::count(whole ? "valid_texts" : "invalid_texts");
  vf::count("characters", chars.size());
}

void caseUtf8(uint64_t idx, Rng& r) {
  static const vector<int> edge = {0x00, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xf5, 0xf8, 0xfc, 0xfe, 0xff};
  if (idx < 256) {
    // every string that begins with this byte: all second bytes, edge bytes after
    string s(1, static_cast<char>(idx));
    checkText(s);
    for (int b = 0; b < 256; ++b) {
      string t = s + static_cast<char>(b);
      checkText(t);
      for (int c : edge) {
        checkText(t + static_cast<char>(c));
        if (idx >= 0xe0)
          for (int d : {0x41, 0x80, 0xbf, 0xc2, 0xff}) checkText(t + static_cast<char>(c) + static_cast<char>(d));
      }
    }
    for (int n = 1; n <= 9; ++n) {
      checkText(s + string(static_cast<size_t>(n), '\x80'));
      checkText(s + string(static_cast<size_t>(n), '\xbf'));
      checkText("字" + s + string(static_cast<size_t>(n), '\x90') + "字");
    }
    vf::distinct(s);
    return;
  }
  static const vector<string> atoms = {"a", "字", "é", "𠮷", "ㄅ", "\xcc\x81", "\xef\xbb\xbf", "\xf4\x8f\xbf\xbf", "\xed\x9f\xbf", "\xee\x80\x80", "\xc2\x80", "\xdf\xbf", "\xe0\xa0\x80", "\xf0\x90\x80\x80", "\xff", "\xc0\x80", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xe4\xb8", "\xf0\x9f\x98", "\x80"};
  string s;
  size_t n = r.below(r.chance(1, 20) ? 400 : 14);
  bool bad = r.chance(1, 2);
  for (size_t i = 0; i < n; ++i) s += atoms[r.below(bad && r.chance(1, 4) ? atoms.size() : 14)];
  if (r.chance(1, 3) && !s.empty()) s.resize(r.below(s.size()) + 1);
  if (r.chance(1, 6) && !s.empty()) s[r.below(s.size())] = static_cast<char>(r.below(256));
  vf::note(vf::jstr(s));
  checkText(s);
  vf::distinct(s);
  vf::sample(s);
}
vf::Reg c13("C13", 150000, 4000000, caseUtf8);

// ------------------------------------------------------------- C14
const vector<string> kLow = {"〇", "一", "二", "三", "四", "五", "六", "七", "八", "九"};
const vector<string> kUp = {"零", "壹", "貳", "參", "肆", "伍", "陸", "柒", "捌", "玖"};
const vector<string> kHigh = {"萬", "億", "兆", "京", "垓", "秭", "穰", "溝", "澗", "正", "載"};

vector<string> chars(const string& s) {
  vector<string> v;
  size_t i = 0;
  while (i < s.size()) {
    size_t n = wellFormed(s, i);
    if (!n) vf::fail("the numeral is not valid text: " + vf::jstr(s));
    v.push_back(s.substr(i, n));
    i += n;
  }
  return v;
}

string stripLead(const string& s) {
  size_t p = s.find_first_not_of('0');
  return p == string::npos ? "" : s.substr(p);
}
string stripTail(const string& s) {
  size_t p = s.find_last_not_of('0');
  return p == string::npos ? "" : s.substr(0, p + 1);
}

// Reads a numeral back: digits of the integer part and the decimals.
void readBack(const string& num, const vector<string>& dg, const vector<string>& places, string* ip, string* dp) {
  vector<string> c = chars(num);
  size_t i = 0;
  auto digit = [&](const string& x) -> int {
    for (size_t k = 0; k < dg.size(); ++k)
      if (dg[k] == x) return static_cast<int>(k);
    return -1;
  };
  string result(52, '0');  // position p has weight 10^p
  ip->clear();
  dp->clear();
  string section(4, '0');
  bool any = false, zeroAllowed = true;
  long lastSection = 99;
  int lastPlace = 99;
  (void)zeroAllowed;
  if (c.empty()) vf::fail("empty numeral");
  bool onlyZero = c[0] == dg[0] && (c.size() == 1 || c[1] == "點");
  if (onlyZero) {
    i = 1;
  } else {
    while (i < c.size() && c[i] != "點") {
      int d = digit(c[i]);
      if (d == 0) {
        // a mark: must be followed by a digit
        if (i + 1 >= c.size() || digit(c[i + 1]) <= 0) vf::fail("zero mark not followed by a digit in " + num);
        if (i == 0) vf::fail("numeral begins with a zero mark: " + num);
        ++i;
        continue;
      }
      if (d > 0) {
        ++i;
        int place = 0;
        if (i < c.size()) {
          if (c[i] == places[2]) place = 1;
          if (c[i] == places[1]) place = 2;
          if (c[i] == places[0]) place = 3;
          if (place) ++i;
        }
        if (place >= lastPlace) vf::fail("places do not descend in " + num);
        lastPlace = place;
        section[static_cast<size_t>(place)] = static_cast<char>('0' + d);
        any = true;
        bool endOfSection = i >= c.size() || c[i] == "點";
        long sec = -1;
        if (endOfSection) sec = 0;
        if (!endOfSection)
          for (size_t k = 0; k < kHigh.size(); ++k)
            if (c[i] == kHigh[k]) sec = static_cast<long>(k + 1);
        if (sec >= 0) {
          if (!endOfSection) ++i;
          if (sec >= lastSection) vf::fail("magnitudes do not descend in " + num);
          lastSection = sec;
          for (size_t k = 0; k < 4; ++k) result[static_cast<size_t>(sec) * 4 + k] = section[k];
          section = "0000";
          lastPlace = 99;
        }
        continue;
      }
      vf::fail("unexpected " + c[i] + " in " + num);
    }
    if (section != "0000") vf::fail("unfinished section in " + num);
  }
  (void)any;
  std::reverse(result.begin(), result.end());
  *ip = stripLead(result);
  if (i < c.size()) {
    ++i;  // the point
    if (i == c.size()) vf::fail("decimal point without decimals: " + num);
    for (; i < c.size(); ++i) {
      int d = digit(c[i]);
      if (d < 0) vf::fail("unexpected " + c[i] + " in the decimals of " + num);
      *dp += static_cast<char>('0' + d);
    }
  }
}

// Standard form, built digit by digit from the most significant end.
string standard(const string& ip, const string& dp, const vector<string>& dg, const vector<string>& places) {
  string n = stripLead(ip), d = stripTail(dp), o;
  if (n.empty()) o = dg[0];
  bool wroteSomething = false, prevSectionEmpty = false;
  for (size_t i = 0; i < n.size();) {
    size_t sec = (n.size() - i - 1) / 4;
    size_t first = i;
    string body;
    bool zero = prevSectionEmpty;
    for (; i < n.size() && (n.size() - i - 1) / 4 == sec; ++i) {
      size_t place = (n.size() - i - 1) % 4;
      if (n[i] == '0') {
        zero = true;
        continue;
      }
      if (zero && (wroteSomething || !body.empty())) body += dg[0];
      zero = false;
      body += dg[static_cast<size_t>(n[i] - '0')] + (place ? places[3 - place] : "");
    }
    (void)first;
    prevSectionEmpty = body.empty();
    if (!body.empty()) {
      o += body + (sec ? kHigh[sec - 1] : "");
      wroteSomething = true;
    }
  }
  if (!d.empty()) {
    o += "點";
    for (char c : d) o += dg[static_cast<size_t>(c - '0')];
  }
  return o;
}

string randDigits(Rng& r, size_t maxLen) {
  string s;
  size_t n = r.below(maxLen + 1);
  if (r.chance(1, 8)) n = r.below(3);
  unsigned zeros = static_cast<unsigned>(r.below(9));
  bool small = r.chance(1, 3);
  for (size_t i = 0; i < n; ++i) s += r.below(8) < zeros ? '0' : static_cast<char>('1' + r.below(small ? 3 : 9));
  return s;
}

void checkChinese(const string& ip, const string& dp) {
  static const vector<string> lowPlaces = {"千", "百", "十"}, upPlaces = {"仟", "佰", "拾"};
  string low = ChineseNumbers::Generate(ip, dp, ChineseNumbers::ChineseNumberCase::LOWERCASE);
  string up = ChineseNumbers::Generate(ip, dp, ChineseNumbers::ChineseNumberCase::UPPERCASE);
  string a, b;
  readBack(low, kLow, lowPlaces, &a, &b);
  VCHECK(a == stripLead(ip) && b == stripTail(dp), "'" << ip << "." << dp << "' gives " << low << " which reads " << a << "." << b);
  readBack(up, kUp, upPlaces, &a, &b);
  VCHECK(a == stripLead(ip) && b == stripTail(dp), "'" << ip << "." << dp << "' gives " << up << " which reads " << a << "." << b);
  VCHECK(low == standard(ip, dp, kLow, lowPlaces), "'" << ip << "." << dp << "' gives " << low << ", standard form is " << standard(ip, dp, kLow, lowPlaces));
  auto lc = chars(low), uc = chars(up);
  VCHECK(lc.size() == uc.size(), low << " and " << up << " have different length");
  for (size_t i = 0; i < lc.size(); ++i) {
    string want = lc[i];
    for (size_t k = 0; k < 10; ++k)
      if (lc[i] == kLow[k]) want = kUp[k];
    for (size_t k = 0; k < 3; ++k)
      if (lc[i] == lowPlaces[k]) want = upPlaces[k];
    VCHECK(uc[i] == want, low << " and " << up << " differ at character " << i);
  }
  vf::count("numerals");
}

void caseChinese(uint64_t idx, Rng& r) {
  if (idx < 100) {
    // all integers below 20000 in slices, plain
    for (uint64_t n = idx * 200; n < idx * 200 + 200; ++n) checkChinese(std::to_string(n), "");
    vf::distinct(idx);
    return;
  }
  for (int k = 0; k < 20; ++k) {
    string ip = randDigits(r, r.chance(1, 5) ? 48 : 20), dp = r.chance(1, 2) ? "" : randDigits(r, 12);
    if (r.chance(1, 10)) ip = string(r.below(5), '0') + ip;
    if (ip.size() > 48) ip.resize(48);
    vf::note(ip + "." + dp);
    checkChinese(ip, dp);
    vf::distinct(ip + "." + dp);
    vf::sample(ip + "." + dp + " = " + ChineseNumbers::Generate(ip, dp, ChineseNumbers::ChineseNumberCase::LOWERCASE));
  }
}
vf::Reg c14("C14", 20000, 800000, caseChinese);

// ------------------------------------------------------------- C15
void checkSuzhou(const string& ip, const string& dp, const string& unit, bool vertical) {
  static const vector<string> vert = {"〇", "〡", "〢", "〣", "〤", "〥", "〦", "〧", "〨", "〩"};
  static const vector<string> hor = {"〇", "一", "二", "三"};
  string out = SuzhouNumbers::Generate(ip, dp, unit, vertical);
  string n = stripLead(ip), d = stripTail(dp);
  size_t magnitude = n.empty() ? 0 : n.size() - 1;
  string digits = n + d;
  if (n.empty()) digits = "0" + d;
  if (d.empty()) {
    digits = stripTail(n);
    if (digits.empty()) digits = "0";
  }
  string want;
  // ten, twenty and thirty have glyphs of their own
  if (d.empty() && (n == "10" || n == "20" || n == "30")) {
    want = (n == "10" ? "〸" : n == "20" ? "〹" : "〺") + unit;
  } else {
    size_t run = 0;
    for (char c : digits) {
      if (c >= '1' && c <= '3') {
        bool v = (run % 2 == 0) == vertical;
        want += v ? vert[static_cast<size_t>(c - '0')] : hor[static_cast<size_t>(c - '0')];
        ++run;
      } else {
        want += vert[static_cast<size_t>(c - '0')];
        run = 0;
      }
    }
    static const vector<string> group = {"", "万", "億", "兆", "京", "垓", "秭", "穰"};
    static const vector<string> inner = {"", "十", "百", "千"};
    string place = inner[magnitude % 4] + group[magnitude / 4];
    if (digits.size() > 1) want += "\n";
    want += place + unit;
  }
  VCHECK(out == want, "'" << ip << "." << dp << "' (" << unit << (vertical ? ", vertical first" : ", horizontal first") << ") gives " << vf::jstr(out) << ", expected " << vf::jstr(want));
  vf::count("numerals");
}

void caseSuzhou(uint64_t idx, Rng& r) {
  if (idx < 100) {
    for (uint64_t n = idx * 200; n < idx * 200 + 200; ++n)
      for (bool v : {false, true}) checkSuzhou(std::to_string(n), n % 3 ? "" : "5", "單位", v);
    vf::distinct(idx);
    return;
  }
  for (int k = 0; k < 20; ++k) {
    string ip = randDigits(r, r.chance(1, 5) ? 32 : 12), dp = r.chance(1, 2) ? "" : randDigits(r, 8);
    string unit = r.chance(1, 2) ? "" : r.chance(1, 2) ? "元" : "單位";
    bool v = r.chance(1, 2);
    vf::note(ip + "." + dp);
    checkSuzhou(ip, dp, unit, v);
    vf::distinct(ip + "." + dp + unit + (v ? "v" : "h"));
    vf::sample(ip + "." + dp + " = " + SuzhouNumbers::Generate(ip, dp, unit, v));
  }
}
vf::Reg c15("C15", 20000, 800000, caseSuzhou);
}  // namespace

int main(int argc, char** argv) { return vf::mainLoop(argc, argv); }
