// Monitor for date and time macros: C33. The clock and the time zone belong to
// the harness; dates are computed independently (civil calendar arithmetic) and
// compared with what each macro says.
#include <fcitx-utils/log.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unicode/calendar.h>
#include <unicode/smpdtfmt.h>
#include <unicode/basictz.h>
#include <unicode/timezone.h>
#include <unicode/tztrans.h>

#include <algorithm>
#include <cmath>
#include <filesystem>
#include <fstream>
#include <memory>

#include "InputMacro.h"
#include "InputState.h"
#include "LanguageModelLoader.h"
#include "common.h"

static double gNow = 0;  // 0: the real clock
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) {
  if (id == CLOCK_REALTIME && gNow != 0) {
    ts->tv_sec = static_cast<time_t>(std::floor(gNow));
    ts->tv_nsec = static_cast<long>((gNow - std::floor(gNow)) * 1e9);
    return 0;
  }
  return static_cast<int>(syscall(SYS_clock_gettime, id, ts));
}
extern "C" time_t time(time_t* t) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}

using namespace McBopomofo;
using std::string;
using std::vector;
using vf::Rng;

namespace {

// ---- civil calendar ---------------------------------------------------------
struct Civil {
  int64_t y;
  int m, d;
};
int64_t daysOf(int64_t y, int m, int d) {
  y -= m <= 2;
  int64_t era = (y >= 0 ? y : y - 399) / 400;
  int64_t yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
  return era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468;
}
Civil civil(int64_t z) {
  z += 719468;
  int64_t era = (z >= 0 ? z : z - 146096) / 146097, doe = z - era * 146097;
  int64_t yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
  int64_t mp = (5 * doy + 2) / 153;
  int d = static_cast<int>(doy - (153 * mp + 2) / 5 + 1), m = static_cast<int>(mp < 10 ? mp + 3 : mp - 9);
  return {yoe + era * 400 + (m <= 2), m, d};
}

string utf8(const icu::UnicodeString& u) {
  string s;
  u.toUTF8String(s);
  return s;
}

vector<int64_t> numbers(const string& s) {
  vector<int64_t> v;
  for (size_t i = 0; i < s.size();) {
    if (isdigit(static_cast<unsigned char>(s[i]))) {
      int64_t n = 0;
      while (i < s.size() && isdigit(static_cast<unsigned char>(s[i]))) n = n * 10 + (s[i++] - '0');
      v.push_back(n);
    } else {
      ++i;
    }
  }
  return v;
}
bool starts(const string& s, const string& p) { return s.compare(0, p.size(), p) == 0; }
bool ends(const string& s, const string& p) { return s.size() >= p.size() && s.compare(s.size() - p.size(), p.size(), p) == 0; }

struct Era {
  const char* name;
  int64_t first;  // first day
  int64_t year;   // its year 1
};
const vector<Era>& eras() {
  static const vector<Era> e = {{"明治", daysOf(1868, 9, 8), 1868},
                                {"大正", daysOf(1912, 7, 30), 1912},
                                {"昭和", daysOf(1926, 12, 25), 1926},
                                {"平成", daysOf(1989, 1, 8), 1989},
                                {"令和", daysOf(2019, 5, 1), 2019}};
  return e;
}
// All (era, year) names that some day of the year carries.
vector<std::pair<string, int64_t>> japaneseYears(int64_t y) {
  vector<std::pair<string, int64_t>> out;
  for (size_t i = 0; i < eras().size(); ++i) {
    int64_t first = eras()[i].first, last = i + 1 < eras().size() ? eras()[i + 1].first - 1 : INT64_MAX;
    if (daysOf(y, 12, 31) >= first && daysOf(y, 1, 1) <= last) out.emplace_back(eras()[i].name, y - eras()[i].year + 1);
  }
  return out;
}
std::pair<string, int64_t> japaneseYearOn(int64_t day) {
  const Era* e = &eras()[0];
  for (auto& x : eras())
    if (x.first <= day) e = &x;
  return {e->name, civil(day).y - e->year + 1};
}
bool isJapanese(const string& s, const std::pair<string, int64_t>& y) {
  if (!starts(s, y.first)) return false;
  string rest = s.substr(y.first.size());
  if (y.second == 1 && starts(rest, "元")) return true;
  string n = std::to_string(y.second);
  return starts(rest, n) && !isdigit(static_cast<unsigned char>(rest[n.size()]));
}
bool isRoc(const string& s, int64_t y) {
  string n = std::to_string(y > 1911 ? y - 1911 : 1912 - y);
  if (y <= 1911) return starts(s, "民國前" + n + "年") || starts(s, "民國前" + n + "/");
  return starts(s, "民國" + n + "年") || (y == 1912 && starts(s, "民國元年"));
}

const vector<string> kZones = {"Asia/Taipei",     "Asia/Tokyo",        "America/New_York",   "Europe/London",   "America/Sao_Paulo",
                               "Asia/Kathmandu",  "Pacific/Kiritimati", "Pacific/Pago_Pago", "Australia/Lord_Howe", "UTC",
                               "America/St_Johns", "Asia/Shanghai",    "Africa/Cairo",       "Pacific/Auckland", "America/Los_Angeles"};

const vector<string> kDays = {"YESTERDAY", "TODAY", "TOMORROW"};
const vector<string> kYears = {"LAST", "THIS", "NEXT"};

struct Names {
  vector<string> all;
  Names() {
    for (auto& d : kDays) {
      for (auto* x : {"SHORT", "MEDIUM", "MEDIUM_ROC", "MEDIUM_CHINESE", "MEDIUM_JAPANESE", "WEEKDAY_SHORT", "WEEKDAY", "WEEKDAY_JAPANESE"})
        all.push_back("MACRO@DATE_" + d + "_" + x);
      all.push_back("MACRO@DATE_" + d + "2_WEEKDAY");
    }
    for (auto& y : kYears)
      for (auto* x : {"PLAIN", "PLAIN_WITH_ERA", "ROC", "JAPANESE", "GANZHI", "CHINESE_ZODIAC"}) all.push_back("MACRO@" + y + "_YEAR_" + x);
    for (auto* x : {"TIME_NOW_SHORT", "TIME_NOW_MEDIUM", "TIMEZONE_STANDARD", "TIMEZONE_GENERIC_SHORT"}) all.push_back(string("MACRO@") + x);
  }
};
const vector<string>& names() {
  static Names n;
  return n.all;
}

string lunar(int64_t day) {
  static std::map<int64_t, string> cache;
  auto it = cache.find(day);
  if (it != cache.end()) return it->second;
  // noon in China on that civil day
  UErrorCode st = U_ZERO_ERROR;
  icu::Locale loc = icu::Locale::createCanonical("zh_Hant_TW@calendar=chinese");
  std::unique_ptr<icu::DateFormat> f(icu::DateFormat::createDateInstance(icu::DateFormat::kMedium, loc));
  f->adoptTimeZone(icu::TimeZone::createTimeZone("Etc/GMT-8"));
  icu::UnicodeString s;
  f->format((static_cast<double>(day) * 86400 + 4 * 3600) * 1000, s);
  (void)st;
  return cache[day] = utf8(s);
}

struct Moment {
  string zone;
  double now;
  int64_t day;   // local civil day
  int hour, minute, second;
};

// What is wrong with the text a macro gave, or nothing.
string judge(const string& macro, const string& got, const Moment& t) {
  string n = macro.substr(6);
  static const char* wd[] = {"四", "五", "六", "日", "一", "二", "三"};  // day 0 was a Thursday
  static const char* jwd[] = {"木", "金", "土", "日", "月", "火", "水"};
  if (starts(n, "DATE_")) {
    n = n.substr(5);
    int64_t day = t.day;
    for (size_t i = 0; i < 3; ++i)
      if (starts(n, kDays[i])) {
        day += static_cast<int64_t>(i) - 1;
        n = n.substr(kDays[i].size());
        break;
      }
    Civil c = civil(day);
    size_t w = static_cast<size_t>(((day % 7) + 7) % 7);
    string ymd = std::to_string(c.y) + "-" + std::to_string(c.m) + "-" + std::to_string(c.d);
    auto num = numbers(got);
    if (n == "_SHORT" || n == "_MEDIUM") {
      if (num != vector<int64_t>{c.y, c.m, c.d}) return "is not " + ymd;
      if (n == "_MEDIUM" && got != std::to_string(c.y) + "年" + std::to_string(c.m) + "月" + std::to_string(c.d) + "日") return "is not " + ymd;
      return "";
    }
    if (n == "_MEDIUM_ROC") {
      int64_t ry = c.y > 1911 ? c.y - 1911 : 1912 - c.y;
      if (!isRoc(got, c.y) || num != vector<int64_t>{ry, c.m, c.d}) return "is not the ROC date of " + ymd;
      return "";
    }
    if (n == "_MEDIUM_JAPANESE") {
      auto y = japaneseYearOn(day);
      vector<int64_t> want = {y.second, c.m, c.d};
      if (y.second == 1 && num.size() == 2) want.erase(want.begin());
      if (!isJapanese(got, y) || num != want) return "is not the Japanese date of " + ymd;
      return "";
    }
    if (n == "_MEDIUM_CHINESE") return got == lunar(day) ? "" : "is not the lunar date of " + ymd + ", " + lunar(day);
    if (n == "_WEEKDAY") return got == string("星期") + wd[w] ? "" : "is not the weekday of " + ymd;
    if (n == "2_WEEKDAY") return got == string("禮拜") + wd[w] ? "" : "is not the weekday of " + ymd;
    if (n == "_WEEKDAY_SHORT") return got == string("週") + wd[w] ? "" : "is not the weekday of " + ymd;
    if (n == "_WEEKDAY_JAPANESE") return got == string(jwd[w]) + "曜日" ? "" : "is not the Japanese weekday of " + ymd;
    return "unknown";
  }
  for (size_t i = 0; i < 3; ++i) {
    if (!starts(n, kYears[i] + "_YEAR_")) continue;
    n = n.substr(kYears[i].size() + 6);
    int64_t y = civil(t.day).y + static_cast<int64_t>(i) - 1;
    string ys = std::to_string(y);
    if (n == "PLAIN") return got == ys + "年" ? "" : "is not the year " + ys;
    if (n == "PLAIN_WITH_ERA") return got == "西元" + ys + "年" ? "" : "is not the year " + ys;
    if (n == "ROC") return isRoc(got, y) && ends(got, "年") && numbers(got).size() <= 1 ? "" : "is not the ROC year of " + ys;
    if (n == "JAPANESE") {
      for (auto& j : japaneseYears(y))
        if (isJapanese(got, j) && ends(got, "年") && numbers(got).size() <= 1) {
          if (i == 1 && j != japaneseYearOn(t.day)) continue;
          return "";
        }
      return "is not the Japanese year of " + ys;
    }
    static const char* gan[] = {"甲", "乙", "丙", "丁", "戊", "己", "庚", "辛", "壬", "癸"};
    static const char* zhi[] = {"子", "丑", "寅", "卯", "辰", "巳", "午", "未", "申", "酉", "戌", "亥"};
    static const char* elem[] = {"木", "火", "土", "金", "水"};
    static const char* animal[] = {"鼠", "牛", "虎", "兔", "龍", "蛇", "馬", "羊", "猴", "雞", "狗", "豬"};
    size_t g = static_cast<size_t>((((y - 1984) % 10) + 10) % 10), z = static_cast<size_t>((((y - 1984) % 12) + 12) % 12);
    if (n == "GANZHI") return got == string(gan[g]) + zhi[z] + "年" ? "" : "is not the cycle year of " + ys;
    if (n == "CHINESE_ZODIAC") return got == string(elem[g / 2]) + animal[z] + "年" ? "" : "is not the zodiac year of " + ys;
    return "unknown";
  }
  if (starts(n, "TIME_NOW_")) {
    auto num = numbers(got);
    vector<int64_t> want = {t.hour % 12 == 0 ? 12 : t.hour % 12, t.minute};
    if (n == "TIME_NOW_MEDIUM") want.push_back(t.second);
    bool pm = false, am = false;
    for (auto* x : {"中午", "下午", "晚上"}) pm = pm || got.find(x) != string::npos;
    for (auto* x : {"午夜", "凌晨", "清晨", "早上", "上午"}) am = am || got.find(x) != string::npos;
    if (num != want || pm == am || pm != (t.hour >= 12)) {
      char b[32];
      snprintf(b, sizeof b, "%02d:%02d:%02d", t.hour, t.minute, t.second);
      return string("is not ") + b;
    }
    return "";
  }
  if (starts(n, "TIMEZONE_")) {
    bool shorter = n == "TIMEZONE_GENERIC_SHORT";
    static std::map<std::pair<string, bool>, vector<string>> cache;
    string key = t.zone + std::to_string(t.now);
    if (!cache.count({key, shorter})) cache.clear();
    auto& names = cache[{key, shorter}];
    if (names.empty()) {
      std::unique_ptr<icu::TimeZone> tz(icu::TimeZone::createTimeZone(t.zone.c_str()));
      icu::Locale loc = icu::Locale::createCanonical("zh_Hant_TW");
      vector<icu::TimeZone::EDisplayType> ok =
          shorter ? vector<icu::TimeZone::EDisplayType>{icu::TimeZone::SHORT_GENERIC, icu::TimeZone::SHORT, icu::TimeZone::GENERIC_LOCATION}
                  : vector<icu::TimeZone::EDisplayType>{icu::TimeZone::LONG_GENERIC, icu::TimeZone::LONG};
      for (auto k : ok) {
        icu::UnicodeString u;
        tz->getDisplayName(0, k, loc, u);
        names.push_back(utf8(u));
      }
    }
    if (std::find(names.begin(), names.end(), got) != names.end()) return "";
    return "is no name of " + t.zone + ": " + vf::S(names);
  }
  return "unknown";
}

Moment setMoment(const string& zone, int64_t day, int sec, bool local) {
  icu::TimeZone* tz = icu::TimeZone::createTimeZone(zone.c_str());
  double now = static_cast<double>(day) * 86400 + sec;
  UErrorCode st = U_ZERO_ERROR;
  int32_t raw = 0, dst = 0;
  if (local) {
    tz->getOffset(now * 1000, true, raw, dst, st);
    now -= (raw + dst) / 1000;
  }
  if (now == 0) now = 1;
  tz->getOffset(now * 1000, false, raw, dst, st);
  int64_t off = (raw + dst) / 1000;
  int64_t l = static_cast<int64_t>(now) + off;
  Moment t;
  t.zone = zone;
  t.now = now;
  t.day = l >= 0 ? l / 86400 : -((-l + 86399) / 86400);
  int64_t s = l - t.day * 86400;
  t.hour = static_cast<int>(s / 3600);
  t.minute = static_cast<int>(s / 60 % 60);
  t.second = static_cast<int>(s % 60);
  icu::TimeZone::adoptDefault(tz);
  gNow = now;
  return t;
}

// A moment worth asking about.
Moment drawMoment(Rng& r) {
  string zone = r.pick(kZones);
  int64_t y = r.chance(1, 6) ? r.range(1905, 1969) : r.chance(1, 5) ? r.range(2040, 2200) : r.range(1970, 2039);
  int64_t day;
  switch (r.below(9)) {
    case 0: day = daysOf(y, 12, 31) + r.range(-1, 2); break;
    case 1: day = daysOf(y, 2, 28) + r.range(-1, 3); break;
    case 2: day = r.pick(eras()).first + r.range(-2, 2) + (r.chance(1, 3) ? r.range(-1, 1) * 365 : 0); break;
    case 3: {
      static const int len[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
      int m = static_cast<int>(r.below(12));
      day = daysOf(y, m + 1, len[m]) + r.range(0, 1);
      break;
    }
    case 4: {  // around lunar new years, and the days on which the clocks change
      static const int mm[] = {1, 2, 3, 4, 9, 10, 11};
      day = daysOf(y, mm[r.below(7)], 1) + r.range(0, 30);
      break;
    }
    case 5: {
      static const vector<string> summer = {"America/New_York", "Europe/London", "Australia/Lord_Howe", "America/St_Johns", "Pacific/Auckland", "America/Los_Angeles"};
      zone = r.pick(summer);
      day = daysOf(r.range(1975, 2036), 1, 1) + r.range(0, 364);
      std::unique_ptr<icu::TimeZone> tz(icu::TimeZone::createTimeZone(zone.c_str()));
      icu::TimeZoneTransition change;
      auto* b = dynamic_cast<icu::BasicTimeZone*>(tz.get());
      if (b != nullptr && b->getNextTransition(static_cast<double>(day) * 86400000, false, change)) {
        // the day there on which it happens, before which the other day's length is the usual one
        double local = change.getTime() + change.getFrom()->getRawOffset() + change.getFrom()->getDSTSavings();
        day = static_cast<int64_t>(std::floor(local / 86400000)) + r.range(-1, 1);
        vf::count("clock_changes");
      }
      break;
    }
    case 6: day = daysOf(1911 + r.range(0, 2), 1 + static_cast<int>(r.below(12)), 1 + static_cast<int>(r.below(28))); break;
    default: day = daysOf(y, 1, 1) + r.range(0, 364);
  }
  if (day < daysOf(1900, 1, 1)) day = daysOf(1900, 1, 1) + 400;
  int sec;
  switch (r.below(5)) {
    case 0: sec = static_cast<int>(r.below(3)); break;
    case 1: sec = 86399 - static_cast<int>(r.below(3)); break;
    case 2: sec = 43200 + static_cast<int>(r.range(-2, 2)); break;
    case 3: sec = static_cast<int>(r.below(4 * 3600)); break;
    default: sec = static_cast<int>(r.below(86400));
  }
  // Zones without a definite offset so far back, or that skipped a day.
  if (zone == "Pacific/Kiritimati" && day < daysOf(1996, 1, 1)) zone = "Asia/Taipei";
  if (day < daysOf(1970, 1, 3) && !(zone == "UTC" || zone == "Asia/Tokyo")) zone = "Asia/Tokyo";
  return setMoment(zone, day, sec, true);
}

string describe(const Moment& t) {
  Civil c = civil(t.day);
  char b[96];
  snprintf(b, sizeof b, "%lld-%02d-%02d %02d:%02d:%02d in %s", static_cast<long long>(c.y), c.m, c.d, t.hour, t.minute, t.second, t.zone.c_str());
  return b;
}

string notMacro(Rng& r) {
  string m = r.pick(names());
  switch (r.below(9)) {
    case 0: return m.substr(6);
    case 1: return m + (r.chance(1, 2) ? " " : "\n");
    case 2: return " " + m;
    case 3: return m.substr(0, m.size() - 1 - r.below(4));
    case 4: {
      for (auto& c : m) c = static_cast<char>(tolower(c));
      return m;
    }
    case 5: return "MACRO@";
    case 6: return m + m;
    case 7: {
      string s;
      for (int i = static_cast<int>(r.below(12)); i > 0; --i) s += static_cast<char>(r.below(256));
      return s;
    }
    default: {
      m[6 + r.below(m.size() - 6)] = '*';
      return m;
    }
  }
}

std::unique_ptr<LanguageModelLoader> gLoader;
struct Strings : LanguageModelLoader::LocalizedStrings {
  string userPhraseFileHeader() override { return "#\n"; }
  string excludedPhraseFileHeader() override { return "#\n"; }
};
struct Null : std::streambuf {
  int overflow(int c) override { return c == EOF ? 0 : c; }
} gNull;
std::ostream gNullStream(&gNull);

void loaderOnce() {
  if (gLoader) return;
  fcitx::Log::setLogStream(gNullStream);
  string dir = string(getenv("XDG_DATA_DIRS")) + "/fcitx5/data";
  std::filesystem::create_directories(dir);
  vector<string> lines;
  for (size_t i = 0; i < names().size(); ++i) lines.push_back("ㄅ" + std::to_string(i) + " " + names()[i] + " -8\n");
  lines.push_back("ㄆ MACRO@NO_SUCH_THING -8\n");
  std::sort(lines.begin(), lines.end());
  std::ofstream f(dir + "/mcbopomofo-data.txt");
  f << "# format org.openvanilla.mcbopomofo.sorted\n";
  for (auto& l : lines) f << l;
  f.close();
  gLoader = std::make_unique<LanguageModelLoader>(std::make_unique<Strings>());
  if (!gLoader->getLM()->isDataModelLoaded()) {
    fprintf(stderr, "harness: own data not loaded\n");
    _exit(4);
  }
}

void macros(uint64_t idx, Rng& r) {
  InputMacroController ctl;
  loaderOnce();
  string history;
  for (int k = 0; k < 6; ++k) {
    Moment t = drawMoment(r);
    string when = describe(t);
    vf::note(when);
    history += when + "\n";
    for (size_t i = 0; i < names().size(); ++i) {
      string got = ctl.handle(names()[i]);
      string bad = judge(names()[i], got, t);
      VCHECK(bad.empty(), names()[i] << " at " << when << " gave " << got << ", which " << bad);
      vf::count("expansions");
      if (r.chance(1, 12)) {
        // through the language model, as typed
        auto us = gLoader->getLM()->getUnigrams("ㄅ" + std::to_string(i));
        VCHECK(us.size() == 1, names()[i] << " at " << when << " is offered " << us.size() << " times");
        bad = judge(names()[i], us[0].value(), t);
        VCHECK(bad.empty(), names()[i] << " at " << when << " is offered as " << us[0].value() << ", which " << bad);
        vf::count("offered");
      }
    }
    for (int i = 0; i < 12; ++i) {
      string s = notMacro(r);
      if (std::find(names().begin(), names().end(), s) != names().end()) continue;
      string got = ctl.handle(s);
      VCHECK(got == s, "text that is no macro, " << vf::jstr(s) << ", became " << vf::jstr(got));
      vf::count("not_macros");
    }
    VCHECK(!gLoader->getLM()->hasUnigrams("ㄆ"), "an unsupported macro is offered");
    // The menu of the feature list: every entry an expansion of this moment.
    InputStates::SelectingDateMacro menu([&](string m) { return ctl.handle(m); });
    VCHECK(!menu.menu.empty(), "the menu is empty");
    for (auto& e : menu.menu) {
      bool ok = false;
      for (auto& nm : names())
        if (judge(nm, e, t).empty()) {
          ok = true;
          break;
        }
      VCHECK(ok, "menu entry " << e << " at " << when << " is not of this moment");
      vf::count("menu_entries");
    }
    vf::distinct(when);
  }
  if (idx < 3) vf::sample(history);
  gNow = 0;
}
vf::Reg r33("C33", 300, 12000, macros);

}  // namespace

int main(int argc, char** argv) { return vf::mainLoop(argc, argv); }
