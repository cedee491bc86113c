// Monitors for the user's files: C29 (added phrases), C30 (edits picked up), and
// for the installed ones: C41 (each input method uses its own data).
// The real LanguageModelLoader works on a scratch XDG tree; the bytes of the
// files and the answers of its language model are compared with a reference
// reading of what was put there.
#include <errno.h>
#include <fcitx-utils/log.h>
#include <fcitx-utils/standardpath.h>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>

#include <algorithm>
#include <filesystem>
#include <fstream>
#include <memory>
#include <optional>

#include "LanguageModelLoader.h"
#include "TimestampedPath.h"
#include "common.h"

using namespace McBopomofo;
using std::string;
using std::vector;
using vf::Rng;
namespace fs = std::filesystem;

// ---- a file system with coarse time stamps (FAT: 2 s), where asked for ------
static bool gCoarse = false;
static uint64_t gCoarseSeen = 0;
extern "C" int stat(const char* path, struct stat* sb) {
  int rc = static_cast<int>(syscall(SYS_newfstatat, AT_FDCWD, path, sb, 0));
  if (rc == 0 && gCoarse) {
    sb->st_mtim.tv_nsec = 0;
    sb->st_mtim.tv_sec &= ~1L;
    ++gCoarseSeen;
  }
  return rc;
}

namespace {

const vector<string> kReadings = {"ㄘㄜˋ-ㄕˋ", "ㄒㄧㄣ-ㄌㄧˋ", "ㄇㄠ", "ㄍㄡˇ", "ㄧ-ㄦˋ-ㄙㄢ", "ㄊㄞˊ-ㄨㄢ"};
const vector<string> kWords = {"測試", "策士", "新曆", "心力", "貓", "喵", "狗", "苟", "一二三", "逸兒散", "台灣", "臺灣", "𠮷野", "a1", "（笑）"};

struct Null : std::streambuf {
  int overflow(int c) override { return c == EOF ? 0 : c; }
};
Null gNull;
std::ostream gNullStream(&gNull);

string slurp(const string& p) {
  std::ifstream f(p, std::ios::binary);
  std::ostringstream os;
  os << f.rdbuf();
  return os.str();
}
void spit(const string& p, const string& s) {
  std::ofstream f(p, std::ios::binary | std::ios::trunc);
  f << s;
  f.close();
  if (!f) {
    fprintf(stderr, "cannot write %s\n", p.c_str());
    _exit(4);
  }
}
void must(bool ok, const char* what) {
  if (!ok) {
    fprintf(stderr, "harness: %s: %s\n", what, strerror(errno));
    _exit(4);
  }
}

// Lines the way the format is documented: "#" comments, blank lines, otherwise
// phrase and reading separated by blanks; what follows is ignored.
using Pairs = vector<std::pair<string, string>>;  // first, second column
bool parse(const string& text, Pairs* out) {
  size_t i = 0;
  while (i < text.size()) {
    size_t e = text.find_first_of("\r\n", i);
    if (e == string::npos) e = text.size();
    string l = text.substr(i, e - i);
    i = e + 1;
    size_t a = l.find_first_not_of(" \t");
    if (a == string::npos || l[a] == '#') continue;
    size_t b = l.find_first_of(" \t", a);
    if (b == string::npos) return false;
    size_t c = l.find_first_not_of(" \t", b);
    if (c == string::npos) return false;
    size_t d = l.find_first_of(" \t", c);
    if (d == string::npos) d = l.size();
    out->emplace_back(l.substr(a, b - a), l.substr(c, d - c));
  }
  return true;
}

class Strings : public LanguageModelLoader::LocalizedStrings {
 public:
  Strings(string u, string e) : u_(std::move(u)), e_(std::move(e)) {}
  string userPhraseFileHeader() override { return u_; }
  string excludedPhraseFileHeader() override { return e_; }

 private:
  string u_, e_;
};

struct World {
  string home, user, dir, data, excl, repl, share;
  string header[2];
  std::unique_ptr<LanguageModelLoader> loader;
  std::map<string, vector<string>> base[2];
  int mode = 0;
  // what the language model works with
  Pairs words, excluded, replaced;
  bool replacing = false;
  string history;
  Rng& r;

  void say(const string& s) {
    vf::note(s);
    history += s + "\n";
  }

  explicit World(Rng& rng) : r(rng) {
    const char* h = getenv("XDG_DATA_HOME");
    const char* d = getenv("XDG_DATA_DIRS");
    must(h && d, "environment");
    home = h;
    share = string(d) + "/fcitx5";
    user = home + "/fcitx5";
    dir = user + "/mcbopomofo";
    data = dir + "/data.txt";
    excl = dir + "/exclude-phrases.txt";
    repl = dir + "/phrases-replacement.txt";
    std::error_code ec;
    fs::remove_all(home, ec);
    fs::remove_all(share, ec);
    fs::create_directories(share + "/data");
    for (int m = 0; m < 2; ++m) {
      vector<string> lines;
      for (auto& rd : kReadings) {
        std::set<string> seen;
        for (int k = static_cast<int>(r.below(3)); k > 0; --k) {
          string w = r.pick(kWords);
          if (!seen.insert(w).second) continue;
          base[m][rd].push_back(w);
          lines.push_back(rd + " " + w + " -" + std::to_string(1 + r.below(9)) + ".5\n");
        }
      }
      std::sort(lines.begin(), lines.end());
      string t = "# format org.openvanilla.mcbopomofo.sorted\n";
      for (auto& l : lines) t += l;
      if (lines.empty()) t += "ㄅ ㄅ -1\n";
      spit(share + (m ? "/data/mcbopomofo-data-plain-bpmf.txt" : "/data/mcbopomofo-data.txt"), t);
    }
    header[0] = "# phrases of the user";
    header[1] = "# excluded\n# phrases\n";
    if (r.chance(2, 3)) header[0] += "\n";
    fcitx::Log::setLogStream(gNullStream);
  }

  // Users keep such files elsewhere and link to them.
  void link(const string& p, bool dangling = false) {
    string elsewhere = home + "/kept";
    fs::create_directories(elsewhere);
    string target = elsewhere + "/" + fs::path(p).filename().string();
    if (!dangling) fs::rename(p, target);
    fs::create_symlink(r.chance(1, 2) ? target : fs::relative(elsewhere, dir).string() + "/" + fs::path(p).filename().string(), p);
    say((dangling ? "dangling link " : "linked ") + p);
    vf::count(dangling ? "dangling_links" : "links");
  }
  void linkDir() {
    fs::rename(dir, home + "/keptdir");
    fs::create_symlink(home + "/keptdir", dir);
    say("linked the directory");
    vf::count("links");
  }

  string fileText(bool large) {
    string t;
    if (r.chance(1, 2)) t += "# comment\n\n";
    int n = static_cast<int>(large ? 300 + r.below(300) : r.below(5));
    for (int i = 0; i < n; ++i) {
      t += (r.chance(1, 8) ? " " : "") + r.pick(kWords) + (r.chance(1, 6) ? "\t" : " ") + r.pick(kReadings);
      if (r.chance(1, 10)) t += "  more";
      t += r.chance(1, 12) ? "\r\n" : "\n";
    }
    if (r.chance(1, 6)) t += "# last";
    if (!t.empty() && r.chance(1, 3))
      while (!t.empty() && (t.back() == '\n' || t.back() == '\r')) t.pop_back();
    return t;
  }
  string replText() {
    string t;
    for (int i = static_cast<int>(r.below(4)); i > 0; --i) {
      string a = r.pick(kWords), b = r.pick(kWords);
      t += a + " " + b + "\n";
    }
    return t;
  }

  void start() {
    mode = 0;
    loader.reset();
    loader = std::make_unique<LanguageModelLoader>(std::make_unique<Strings>(header[0], header[1]));
    words.clear();
    excluded.clear();
    replaced.clear();
    replacing = false;
  }
  void readAll() {
    words.clear();
    excluded.clear();
    must(parse(slurp(data), &words), "own file malformed");
    must(parse(slurp(excl), &excluded), "own file malformed");
  }
  void readRepl() {
    replaced.clear();
    replacing = fs::exists(repl);
    if (replacing) must(parse(slurp(repl), &replaced), "own file malformed");
  }

  // What a reading offers, as the documentation of the user files says.
  vector<string> offers(const string& rd) {
    std::set<string> ex;
    for (auto& p : excluded)
      if (p.second == rd) ex.insert(p.first);
    vector<string> out;
    std::set<string> seen;
    auto put = [&](const string& w) {
      if (ex.count(w)) return;
      string v = w;
      if (replacing)
        for (auto& p : replaced)
          if (p.first == w) v = p.second;  // the last one counts
      if (seen.insert(v).second) out.push_back(v);
    };
    for (auto& p : words)
      if (p.second == rd) put(p.first);
    for (auto& w : base[mode][rd]) put(w);
    return out;
  }
  void compare(const string& when) {
    for (auto& rd : kReadings) {
      vector<string> want = offers(rd), got;
      for (auto& u : loader->getLM()->getUnigrams(rd)) got.push_back(u.value());
      std::set<string> a(want.begin(), want.end()), b(got.begin(), got.end());
      VCHECK(a == b && got.size() == b.size(), when << ": " << rd << " offers " << vf::S(got) << ", expected " << vf::S(want));
      VCHECK(loader->getLM()->hasUnigrams(rd) == !want.empty(), when << ": " << rd << " known or not");
      vf::count("answers");
    }
  }
};

// ---- C29 -------------------------------------------------------------------
void additions(uint64_t, Rng& r) {
  World w(r);
  struct Coarse {
    explicit Coarse(bool on) { gCoarse = on; }
    ~Coarse() {
      vf::count("coarse_stamps", gCoarseSeen);
      gCoarse = false;
      gCoarseSeen = 0;
    }
  } coarse(r.chance(1, 3));
  int level = static_cast<int>(r.below(4));
  bool had[2] = {false, false};
  string before[2];
  if (level == 1) fs::create_directories(w.home);
  if (level == 2) fs::create_directories(w.user);
  if (level == 3) {
    fs::create_directories(w.dir);
    if (r.chance(1, 8)) w.linkDir();
    for (int k = 0; k < 2; ++k)
      if (r.chance(3, 4)) {
        had[k] = true;
        before[k] = w.fileText(r.chance(1, 12));
        if (k == 1 && r.chance(1, 2)) before[k] = "# nothing\n";
        if (r.chance(1, 10)) before[k] = "";
        spit(k ? w.excl : w.data, before[k]);
        if (r.chance(1, 5)) w.link(k ? w.excl : w.data);
      } else if (r.chance(1, 4)) {
        w.link(k ? w.excl : w.data, true);
      }
  }
  w.say(string(gCoarse ? "coarse time stamps, " : "") + "start with " + std::to_string(level) + " of the directories, data.txt: " + (had[0] ? before[0].substr(0, 300) : "absent"));
  w.start();
  VCHECK(w.loader->userDataPath() == w.dir, "user data path " << w.loader->userDataPath() << ", expected " << w.dir);
  VCHECK(w.loader->userPhrasesPath() == w.data && w.loader->excludedPhrasesPath() == w.excl, "paths of the user files");
  for (int k = 0; k < 2; ++k) {
    const string& p = k ? w.excl : w.data;
    VCHECK(fs::is_regular_file(p), "user file was not created: " << p);
    string now = slurp(p);
    if (had[k]) VCHECK(now == before[k], "existing user file " << p << " changed at start: " << now);
    else VCHECK(now == w.header[k], "new user file holds " << now);
    if (!had[k]) vf::count("created");
  }
  w.readAll();
  w.compare("after start");

  int n = 6 + static_cast<int>(r.below(20));
  for (int i = 0; i < n; ++i) {
    unsigned op = static_cast<unsigned>(r.below(20));
    if (op < 11) {
      string rd = r.pick(kReadings), wd = r.pick(kWords);
      if (r.chance(1, 3)) wd += r.pick(kWords);
      w.say("add " + wd + " " + rd);
      string was = slurp(w.data);
      struct stat sb;
      must(stat(w.data.c_str(), &sb) == 0, "stat");
      Pairs lines;
      must(parse(was, &lines), "own file malformed");
      w.loader->addUserPhrase(rd, wd);
      string now = slurp(w.data);
      struct stat after;
      must(stat(w.data.c_str(), &after) == 0, "stat");
      VCHECK(after.st_mode == sb.st_mode && after.st_uid == sb.st_uid && after.st_gid == sb.st_gid, "adding a phrase changed the permissions of the file");
      VCHECK(now.compare(0, was.size(), was) == 0, "adding a phrase changed what was in the file");
      lines.emplace_back(wd, rd);
      Pairs got;
      bool ok = parse(now, &got);
      VCHECK(ok && got == lines, "after adding, the file holds " << got.size() << " phrases instead of " << lines.size() << ", its end: "
                                                                 << now.substr(now.size() - std::min<size_t>(now.size(), 80)));
      VCHECK(!now.empty() && now.back() == '\n', "the added line is not ended");
      auto newlines = [](const string& s) { return std::count(s.begin(), s.end(), '\n'); };
      VCHECK(newlines(now) == newlines(was) + (was.empty() || was.back() == '\n' ? 1 : 2), "adding one phrase added " << newlines(now) - newlines(was) << " lines");
      vf::count(was.empty() || was.back() == '\n' ? "added" : "added_after_open_line");
      w.readAll();
      w.compare("after adding " + wd + " " + rd);
    } else if (op < 13) {
      w.say("restart");
      w.start();
      w.readAll();
      w.compare("after restart");
      vf::count("restarts");
    } else if (op < 15) {
      string t = slurp(w.data);
      if (!t.empty() && t.back() != '\n') t += "\n";
      t += r.pick(kWords) + " " + r.pick(kReadings);
      if (r.chance(1, 2)) t += "\n";
      w.say("edited by hand, " + string(t.back() == '\n' ? "ended" : "last line open"));
      spit(w.data, t);
      // A later time than anything before, as a hand edit has.
      struct timespec ts[2] = {{0, UTIME_OMIT}, {time(nullptr) + 100 + 10 * i, 0}};
      must(utimensat(AT_FDCWD, w.data.c_str(), ts, 0) == 0, "utimensat");
      if (r.chance(1, 2)) {
        w.loader->reloadUserModelsIfNeeded();
        w.readAll();
        w.compare("after an edit by hand");
      } else {
        continue;  // the next operation sees it first
      }
    } else if (op == 15) {
      w.say("mode");
      w.mode = 1 - w.mode;
      w.loader->loadModelForMode(w.mode ? McBopomofo::InputMode::PlainBopomofo : McBopomofo::InputMode::McBopomofo);
      w.loader->reloadUserModelsIfNeeded();
      w.readAll();
      w.compare("after switching mode");
    } else {
      // bring the model up to date first, so that answers must stay
      w.loader->reloadUserModelsIfNeeded();
      w.readAll();
      string rd = r.pick(kReadings), wd = r.pick(kWords) + "不";
      string was = slurp(w.data);
      struct stat sb;
      must(stat(w.data.c_str(), &sb) == 0, "stat");
      int kind = static_cast<int>(r.below(6));
      string aside = w.dir + "/aside";
      w.say("fault " + std::to_string(kind) + " while adding " + wd + " " + rd);
      if (kind == 0) {  // disk full: only part of the line fits
        signal(SIGXFSZ, SIG_IGN);
        struct rlimit old, lim;
        must(getrlimit(RLIMIT_FSIZE, &old) == 0, "getrlimit");
        lim = old;
        lim.rlim_cur = was.size() + r.below(wd.size() + rd.size() + 1);
        must(setrlimit(RLIMIT_FSIZE, &lim) == 0, "setrlimit");
        w.loader->addUserPhrase(rd, wd);
        must(setrlimit(RLIMIT_FSIZE, &old) == 0, "setrlimit");
      } else if (kind == 1) {  // read only file
        must(chmod(w.data.c_str(), 0444) == 0, "chmod");
        must(seteuid(65534) == 0, "seteuid");
        w.loader->addUserPhrase(rd, wd);
        must(seteuid(0) == 0, "seteuid");
        must(chmod(w.data.c_str(), 0644) == 0, "chmod");
      } else if (kind == 2) {  // gone
        fs::rename(w.data, aside);
        w.loader->addUserPhrase(rd, wd);
        VCHECK(!fs::exists(w.data) || slurp(w.data).find(wd) != string::npos, "a broken file was left behind");
        fs::remove(w.data);
        fs::rename(aside, w.data);
      } else if (kind == 3) {  // directory in its place
        fs::rename(w.data, aside);
        fs::create_directory(w.data);
        w.loader->addUserPhrase(rd, wd);
        VCHECK(fs::is_directory(w.data) && fs::is_empty(w.data), "directory in the place of the file was touched");
        fs::remove(w.data);
        fs::rename(aside, w.data);
      } else if (kind == 4) {  // full device
        fs::rename(w.data, aside);
        fs::create_symlink("/dev/full", w.data);
        w.loader->addUserPhrase(rd, wd);
        fs::remove(w.data);
        fs::rename(aside, w.data);
      } else {  // no directory at all
        string moved = w.user + "/moved";
        fs::rename(w.dir, moved);
        w.loader->addUserPhrase(rd, wd);
        w.loader->reloadUserModelsIfNeeded();
        std::error_code ec;
        fs::remove_all(w.dir, ec);
        fs::rename(moved, w.dir);
      }
      vf::count("faults");
      vf::count("fault_" + std::to_string(kind));
      string now = slurp(w.data);
      VCHECK(now == was, "a failed addition changed the file, its end now: " << now.substr(now.size() - std::min<size_t>(now.size(), 80)));
      for (auto& u : w.loader->getLM()->getUnigrams(rd)) VCHECK(u.value() != wd, "a phrase that could not be written counts as added");
      // the file is back: its contents are in force at the next use
      struct timespec ts[2] = {{0, UTIME_OMIT}, {time(nullptr) + 100 + 10 * i, 0}};
      bool untouched = kind < 2 || r.chance(1, 2);
      if (!untouched) must(utimensat(AT_FDCWD, w.data.c_str(), ts, 0) == 0, "utimensat");
      w.loader->reloadUserModelsIfNeeded();
      w.readAll();
      w.compare("after a failed addition");
    }
  }
  w.start();
  w.readAll();
  w.compare("after the last restart");
  vf::distinct(w.history);
  vf::sample(w.history.substr(0, 600));
}
vf::Reg r29("C29", 1600, 60000, additions);

// ---- C30 -------------------------------------------------------------------
int64_t gTick = 0;
// A new moment, different from every other one, later or earlier.
void stamp(const string& p, Rng& r) {
  ++gTick;
  struct timespec t;
  switch (r.below(4)) {
    case 0: t = {1700000000, static_cast<long>(gTick)}; break;             // nanoseconds apart
    case 1: t = {1700000000 + static_cast<time_t>(gTick), 0}; break;       // later
    case 2: t = {1600000000 - static_cast<time_t>(gTick), 0}; break;       // earlier
    default: t = {1500000000, static_cast<long>(gTick) * 1000}; break;     // microseconds apart
  }
  struct timespec ts[2] = {{0, UTIME_OMIT}, t};
  must(utimensat(AT_FDCWD, p.c_str(), ts, 0) == 0, "utimensat");
}
void keepTime(const string& p, const struct stat& sb) {
  struct timespec ts[2] = {{0, UTIME_OMIT}, sb.st_mtim};
  must(utimensat(AT_FDCWD, p.c_str(), ts, 0) == 0, "utimensat");
}

void edits(uint64_t, Rng& r) {
  World w(r);
  fs::create_directories(w.dir);
  bool large = r.chance(1, 3);
  spit(w.data, w.fileText(large));
  stamp(w.data, r);
  spit(w.excl, w.fileText(false));
  stamp(w.excl, r);
  if (r.chance(1, 2)) {
    spit(w.repl, w.replText());
    stamp(w.repl, r);
  }
  string names[3] = {w.data, w.excl, w.repl};
  if (r.chance(1, 10)) w.linkDir();
  for (auto& p : names)
    if (r.chance(1, 8) && fs::exists(p)) w.link(p);
  w.start();
  w.readAll();
  w.readRepl();
  w.compare("after start");
  // Whether what is loaded can be said; a deleted user file leaves its last
  // contents in force or not.
  bool sure = true;
  struct Saved {
    bool gone = false;
  } saved[3];
  int n = 10 + static_cast<int>(r.below(25));
  for (int i = 0; i < n; ++i) {
    unsigned op = static_cast<unsigned>(r.below(16));
    int f = static_cast<int>(r.below(3));
    const string& p = names[f];
    string aside = p + "~";
    auto text = [&] { return f == 2 ? w.replText() : w.fileText(f == 0 && large && r.chance(1, 2)); };
    if (op < 4) {  // the next use
      w.say("use");
      w.loader->reloadUserModelsIfNeeded();
      if (!saved[0].gone && !saved[1].gone) {
        w.readAll();
        sure = true;
      } else {
        sure = false;
      }
      w.readRepl();
      if (sure) w.compare("at the next use");
      vf::count("uses");
      continue;
    }
    if (saved[f].gone && op < 12) {
      if (r.chance(1, 2)) {
        w.say("restore " + p);
        fs::rename(aside, p);
        saved[f].gone = false;
        vf::count("restored");
      } else {
        w.say("write anew " + p);
        spit(p, text());
        stamp(p, r);
        fs::remove(aside);
        saved[f].gone = false;
        vf::count("recreated");
      }
    } else if (saved[f].gone) {
      continue;
    } else if (f == 2 && !fs::exists(p)) {
      w.say("create replacements");
      spit(p, text());
      stamp(p, r);
      vf::count("appeared");
    } else if (op < 7) {
      w.say("edit in place " + p);
      spit(p, text());
      stamp(p, r);
      vf::count("edited_in_place");
    } else if (op < 9) {
      w.say("replace " + p);
      // the file itself, the link to it, or what it is a link to
      string at = p;
      if (fs::is_symlink(p) && r.chance(1, 2)) {
        at = fs::canonical(p).string();
        vf::count("replaced_elsewhere");
      }
      spit(at + ".new", text());
      stamp(at + ".new", r);
      fs::rename(at + ".new", at);
      vf::count("replaced");
    } else if (op == 9) {
      w.say("touch " + p);
      stamp(p, r);
      vf::count("touched");
    } else if (op == 10) {
      w.say("remove " + p);
      fs::rename(p, aside);
      saved[f].gone = true;
      vf::count("removed");
    } else if (op == 11) {
      w.say("remove for good " + p);
      if (f == 2) {
        fs::remove(p);
        vf::count("removed");
      } else {
        continue;
      }
    } else if (op == 12) {
      // An edit nothing can notice: use first, then change without a trace.
      w.loader->reloadUserModelsIfNeeded();
      if (saved[0].gone || saved[1].gone || f == 2) {
        sure = sure && !saved[0].gone && !saved[1].gone;
        if (!saved[0].gone && !saved[1].gone) {
          w.readAll();
          sure = true;
        } else {
          sure = false;
        }
        w.readRepl();
        continue;
      }
      w.readAll();
      w.readRepl();
      sure = true;
      struct stat sb;
      must(stat(p.c_str(), &sb) == 0, "stat");
      string was = slurp(p);
      w.say("change without a trace " + p);
      spit(p + ".new", w.fileText(false));
      fs::rename(p + ".new", p);
      keepTime(p, sb);
      for (int k = 0; k < 2; ++k) {
        w.loader->reloadUserModelsIfNeeded();
        w.compare("nothing changed, but the answers did");
      }
      vf::count("no_reload_seen");
      spit(p + ".new", was);
      fs::rename(p + ".new", p);
      keepTime(p, sb);
    } else if (op == 13 && !saved[0].gone && !saved[1].gone) {
      string rd = r.pick(kReadings), wd = r.pick(kWords);
      w.say("add " + wd);
      w.loader->addUserPhrase(rd, wd);
      w.readAll();
      w.readRepl();
      sure = true;
      w.compare("after adding");
    } else {
      w.say("ask");
    }
    // Not used again yet: what was loaded stays in force, whatever happened to
    // the files.
    if (sure) w.compare("before the next use");
    vf::count("answers_before_use");
  }
  vf::distinct(w.history);
  vf::sample(w.history.substr(0, 600));
}

// Change detection by itself, on any kind of path.
void stamps(uint64_t, Rng& r) {
  string root = vf::G().scratch + "/ts";
  std::error_code ec;
  fs::remove_all(root, ec);
  fs::create_directories(root);
  vector<string> paths = {"",          root + "/a",        root + "/b",      root + "/link",       root + "/dangling",
                          root + "/d", root + "/d/inside", root + "/loop",   root + "/a/notadir",  root + "/closed/x",
                          root + "/empty", "/dev/null",    root + "/b2/../b"};
  fs::create_directories(root + "/closed");
  spit(root + "/closed/x", "x");
  must(chmod((root + "/closed").c_str(), 0) == 0, "chmod");
  fs::create_symlink("loop", root + "/loop");
  fs::create_symlink("a", root + "/link");
  fs::create_symlink("nowhere", root + "/dangling");
  struct Watch {
    TimestampedPath tp;
    string path;
    std::optional<struct timespec> last;  // none: did not exist or not asked
  };
  vector<Watch> ws;
  string history;
  must(seteuid(65534) == 0 && seteuid(0) == 0, "seteuid");
  auto now = [&](const string& p, bool* dir) -> std::optional<struct timespec> {
    struct stat sb;
    if (p.empty() || stat(p.c_str(), &sb) != 0) return std::nullopt;
    *dir = S_ISDIR(sb.st_mode);
    return sb.st_mtim;
  };
  auto same = [](const std::optional<struct timespec>& a, const std::optional<struct timespec>& b) {
    if (!a || !b) return !a && !b;
    return a->tv_sec == b->tv_sec && a->tv_nsec == b->tv_nsec;
  };
  int n = 60 + static_cast<int>(r.below(60));
  for (int i = 0; i < n; ++i) {
    unsigned op = static_cast<unsigned>(r.below(14));
    string a = root + "/" + (r.chance(1, 2) ? "a" : "b");
    string what;
    if (op == 0) {
      what = "write " + a;
      spit(a, "x");
      stamp(a, r);
    } else if (op == 1) {
      what = "rm " + a;
      fs::remove(a, ec);
    } else if (op == 2) {
      if (fs::exists(a)) stamp(a, r);
      what = "touch " + a;
    } else if (op == 3) {
      what = "dir";
      if (fs::exists(root + "/d")) {
        fs::remove_all(root + "/d");
      } else {
        fs::create_directories(root + "/d");
        stamp(root + "/d", r);
      }
    } else if (op == 4 && fs::exists(root + "/d")) {
      what = "inside";
      spit(root + "/d/inside", "y");
      stamp(root + "/d/inside", r);
      stamp(root + "/d", r);
    } else if (op == 5 || ws.empty()) {
      string p = r.pick(paths);
      what = "watch " + p;
      if (p.empty()) ws.push_back({TimestampedPath(), "", std::nullopt});
      else ws.push_back({TimestampedPath(p), p, std::nullopt});
    } else if (op == 6) {
      size_t k = r.below(ws.size());
      what = "copy watch";
      Watch c = ws[k];
      if (r.chance(1, 2)) {
        ws.push_back(c);
      } else {
        ws[r.below(ws.size())] = std::move(c);
      }
    } else if (op < 10) {
      Watch& w = ws[r.below(ws.size())];
      what = "check " + w.path;
      w.tp.checkTimestamp();
      bool d;
      w.last = now(w.path, &d);
      VCHECK(!w.tp.timestampDifferentFromLastCheck(), "different right after a check: " << w.path);
      vf::count("checks");
    } else {
      what = "ask";
    }
    vf::note(what);
    history += what + "\n";
    bool drop = r.chance(1, 5);
    if (drop) must(seteuid(65534) == 0, "seteuid");
    string bad;
    for (auto& w : ws) {
      bool dir = false;
      auto t = now(w.path, &dir);
      bool ex = w.tp.pathExists(), file = w.tp.pathIsFile(), diff = w.tp.timestampDifferentFromLastCheck();
      if (w.tp.path() != w.path) bad = "path() of " + w.path;
      if (ex != t.has_value()) bad = "pathExists of " + w.path + " is " + (ex ? "true" : "false");
      if (file != (t.has_value() && !dir)) bad = "pathIsFile of " + w.path + " is " + (file ? "true" : "false");
      if (diff != !same(t, w.last)) bad = "timestampDifferentFromLastCheck of " + w.path + " is " + (diff ? "true" : "false");
      vf::count(t ? "exists" : "exists_not");
      vf::count(diff ? "different" : "not_different");
      if (!bad.empty()) break;
    }
    if (drop) must(seteuid(0) == 0, "seteuid");
    VCHECK(bad.empty(), bad);
  }
  must(chmod((root + "/closed").c_str(), 0755) == 0, "chmod");
  vf::distinct(history);
}
vf::Reg r30("C30", 2000, 80000, [](uint64_t i, Rng& r) {
  if (i % 4 == 3) stamps(i, r);
  else edits(i, r);
});

// ---- C41 -------------------------------------------------------------------
struct Row {
  string reading, value;
  double score;
};
struct ARow {
  vector<string> values, readings;
  double score;
};

// Two system directories and the user's own; each may have any of the files.
class Installed {
 public:
  static constexpr const char* kNames[3] = {"mcbopomofo-data.txt", "mcbopomofo-data-plain-bpmf.txt", "mcbopomofo-associated-phrases-v2.txt"};
  string dirs[3];
  struct File {
    int state = 0;  // 0 none, 1 good, 2 empty, 3 only a header, 4 a directory
    vector<Row> rows;
    vector<ARow> arows;
  } files[3][3];  // by directory and name
  Rng& r;
  int serial = 0;

  explicit Installed(Rng& rng) : r(rng) {
    static const string home = getenv("XDG_DATA_HOME"), first = getenv("XDG_DATA_DIRS"), second = vf::G().scratch + "/share2";
    static const bool once = [] {
      must(setenv("XDG_DATA_DIRS", (first + ":" + second).c_str(), 1) == 0, "setenv");
      return true;
    }();
    (void)once;
    dirs[0] = home + "/fcitx5";
    dirs[1] = first + "/fcitx5";
    dirs[2] = second + "/fcitx5";
    std::error_code ec;
    fs::remove_all(home, ec);
    for (int d = 1; d < 3; ++d) fs::remove_all(dirs[d], ec);
    fcitx::Log::setLogStream(gNullStream);
  }
  string path(int d, int n) const { return dirs[d] + "/data/" + kNames[n]; }

  File draw(int n) {
    File f;
    unsigned k = static_cast<unsigned>(r.below(20));
    f.state = k < 5 ? 0 : k == 5 ? 2 : k == 6 ? 3 : k == 7 ? 4 : 1;
    if (f.state != 1) return f;
    if (n < 2) {
      for (auto& rd : kReadings) {
        std::set<string> seen;
        for (int i = static_cast<int>(r.below(4)); i > 0; --i) {
          string w = r.pick(kWords);
          // values that tell the files apart
          if (r.chance(1, 3)) w += std::to_string(++serial);
          if (r.chance(1, 15)) w = r.chance(1, 2) ? "MACRO@DATE_TODAY_SHORT" : "MACRO@NOT_SUPPORTED";
          if (!seen.insert(w).second) continue;
          f.rows.push_back({rd, w, w.compare(0, 6, "MACRO@") == 0 ? -8 : -static_cast<double>(1 + r.below(40)) / 4});
        }
      }
    } else {
      std::set<string> seen;
      for (int i = 1 + static_cast<int>(r.below(8)); i > 0; --i) {
        ARow a;
        a.values = {r.chance(1, 2) ? "測" : "台", r.chance(1, 2) ? "試" : "灣"};
        a.readings = {a.values[0] == "測" ? "ㄘㄜˋ" : r.chance(1, 2) ? "ㄊㄞˊ" : "ㄊㄞ", a.values[1] == "試" ? "ㄕˋ" : "ㄨㄢ"};
        if (r.chance(1, 2)) {
          a.values.push_back("第");
          a.readings.push_back("ㄉㄧˋ" + std::to_string(++serial));
        }
        a.score = -static_cast<double>(++serial) / 8;
        if (!seen.insert(key(a)).second) continue;
        f.arows.push_back(a);
      }
    }
    return f;
  }
  static string key(const ARow& a) {
    string k;
    for (size_t i = 0; i < a.values.size(); ++i) k += (i ? "-" : "") + a.values[i] + "-" + a.readings[i];
    return k;
  }
  string text(const File& f) {
    if (f.state == 2) return "";
    vector<string> lines;
    char b[64];
    for (auto& x : f.rows) {
      snprintf(b, sizeof b, " %.2f\n", x.score);
      lines.push_back(x.reading + " " + x.value + b);
    }
    for (auto& x : f.arows) {
      snprintf(b, sizeof b, " %.3f\n", x.score);
      lines.push_back(key(x) + b);
    }
    std::sort(lines.begin(), lines.end());
    string t = "# format org.openvanilla.mcbopomofo.sorted\n";
    for (auto& l : lines) t += l;
    return t;
  }
  // Put the file in its place at once, as a package manager does.
  void put(int d, int n, const File& f) {
    string p = path(d, n);
    fs::create_directories(dirs[d] + "/data");
    std::error_code ec;
    fs::remove_all(dirs[d] + "/aside", ec);
    if (fs::is_directory(p) || f.state == 4) {
      if (fs::exists(p)) fs::rename(p, dirs[d] + "/aside");
      fs::remove_all(dirs[d] + "/aside", ec);
    }
    if (f.state == 0) fs::remove_all(p, ec);
    else if (f.state == 4) fs::create_directory(p);
    else {
      spit(p + ".new", text(f));
      fs::rename(p + ".new", p);
    }
    files[d][n] = f;
    vf::note(string("install ") + (f.state == 0 ? "nothing" : f.state == 4 ? "a directory" : "a file") + " at " + p);
  }
  // The first directory with such a file has it.
  int where(int n) const {
    for (int d = 0; d < 3; ++d)
      if (files[d][n].state >= 1 && files[d][n].state <= 3) return d;
    return -1;
  }
  File current(int n) const { return where(n) < 0 ? File() : files[where(n)][n]; }
};

void sources(uint64_t, Rng& r) {
  Installed in(r);
  string history;
  bool userFiles = r.chance(1, 2);
  string user = in.dirs[0] + "/mcbopomofo";
  if (userFiles) {
    fs::create_directories(user);
    spit(user + "/data.txt", "我的 ㄇㄠ\n試測 ㄘㄜˋ-ㄕˋ\n");
    spit(user + "/exclude-phrases.txt", "喵 ㄇㄠ\n策士 ㄘㄜˋ-ㄕˋ\n");
  }
  for (int d = 0; d < 3; ++d)
    for (int n = 0; n < 3; ++n)
      if (r.chance(3, 5)) in.put(d, n, in.draw(n));

  std::unique_ptr<LanguageModelLoader> loader;
  Installed::File base, assoc;
  int mode = 0;
  auto start = [&] {
    vf::note("start");
    loader.reset();
    loader = std::make_unique<LanguageModelLoader>(std::make_unique<Strings>("# h\n", "# h\n"));
    mode = 0;
    base = in.current(0);
    assoc = in.current(2);
    vf::count("from_directory_" + std::to_string(in.where(0) + 1));
  };
  auto compare = [&](const string& when) {
    auto lm = loader->getLM();
    for (auto& rd : kReadings) {
      std::map<string, double> want;
      std::multiset<double> macros;
      double top = -1e300;
      for (auto& x : base.rows) {
        if (x.reading != rd) continue;
        if (userFiles && rd == "ㄇㄠ" && x.value == "喵") continue;
        if (userFiles && rd == "ㄘㄜˋ-ㄕˋ" && x.value == "策士") continue;
        if (x.value == "MACRO@NOT_SUPPORTED") continue;
        if (x.value == "MACRO@DATE_TODAY_SHORT") macros.insert(x.score);
        else want[x.value] = x.score;
        top = std::max(top, x.score);
      }
      if (userFiles && rd == "ㄇㄠ") want["我的"] = top > -1e300 ? top : 0;
      if (userFiles && rd == "ㄘㄜˋ-ㄕˋ") want["試測"] = 0;
      auto got = lm->getUnigrams(rd);
      std::multiset<double> gotMacros;
      size_t n = 0;
      for (auto& u : got) {
        auto it = want.find(u.value());
        if (it == want.end() && u.value().find('/') != string::npos && u.value().find('@') == string::npos) {
          gotMacros.insert(u.score());
          continue;
        }
        VCHECK(it != want.end(), when << ": " << rd << " offers " << u.value() << ", which is not in the file in force");
        VCHECK(u.score() >= it->second - 1e-6 && u.score() <= it->second + 1e-6, when << ": " << u.value() << " of " << rd << " has the score " << u.score());
        ++n;
        vf::count("offers");
      }
      VCHECK(n == want.size(), when << ": " << rd << " offers " << n << " of " << want.size());
      VCHECK(gotMacros == macros, when << ": " << rd << " offers " << gotMacros.size() << " macros of " << macros.size());
      if (!macros.empty()) vf::count("macros");
      VCHECK(lm->hasUnigrams(rd) == !(want.empty() && macros.empty()), when << ": " << rd << " known or not");
    }
    for (auto& w : kWords) {
      std::map<string, double> best;
      double top = -1e300;
      for (auto& x : base.rows)
        if (x.value == w) {
          best[x.reading] = x.score;
          top = std::max(top, x.score);
        }
      string got = lm->getReading(w);
      if (best.empty()) VCHECK(got.empty(), when << ": " << w << " is read " << got);
      else VCHECK(best.count(got) && best[got] == top, when << ": " << w << " is read " << got);
      vf::count(best.empty() ? "words_unknown" : "words_known");
    }
    for (auto& q : vector<std::pair<string, vector<string>>>{{"測", {}}, {"台", {}}, {"台", {"ㄊㄞˊ"}}, {"台灣", {"ㄊㄞ", "ㄨㄢ"}}, {"第", {}}}) {
      vector<const ARow*> m;
      vector<string> vals = q.first == "台灣" ? vector<string>{"台", "灣"} : vector<string>{q.first};
      for (auto& a : assoc.arows) {
        bool ok = a.values.size() > (q.second.empty() ? 0 : vals.size());
        for (size_t i = 0; ok && i < vals.size(); ++i) ok = a.values[i] == vals[i] && (q.second.empty() || a.readings[i] == q.second[i]);
        // without readings, any row that starts with the value
        if (ok) m.push_back(&a);
      }
      std::sort(m.begin(), m.end(), [](const ARow* a, const ARow* b) { return a->score > b->score; });
      vector<string> want, got;
      std::set<string> seen;
      for (auto* a : m) {
        string v;
        for (auto& x : a->values) v += x;
        if (seen.insert(v).second) want.push_back(v + "=" + vf::S(a->readings, "-"));
      }
      for (auto& p : lm->findAssociatedPhrasesV2(q.first, q.second)) got.push_back(p.value + "=" + p.combinedReading());
      VCHECK(got == want, when << ": associated phrases of " << q.first << "[" << vf::S(q.second) << "]: " << vf::S(got) << ", expected " << vf::S(want));
      vf::count(want.empty() ? "no_associated" : "associated");
    }
    VCHECK(lm->isDataModelLoaded() || base.rows.empty(), when << ": data is loaded but not said to be");
    VCHECK(!lm->isDataModelLoaded() || base.state == 1 || base.state == 3, when << ": no data, but said to be loaded");
    VCHECK(lm->isAssociatedPhrasesV2Loaded() || assoc.arows.empty(), when << ": associated phrases are loaded but not said to be");
    VCHECK(loader->userDataPath() == user && loader->userPhrasesPath() == user + "/data.txt" && loader->excludedPhrasesPath() == user + "/exclude-phrases.txt", when << ": paths of the user files");
    vf::count("compared");
  };
  start();
  compare("after start");
  int n = 6 + static_cast<int>(r.below(14));
  for (int i = 0; i < n; ++i) {
    unsigned op = static_cast<unsigned>(r.below(10));
    string what;
    if (op < 4) {
      mode = r.chance(1, 2) ? 0 : 1;
      what = mode ? "plain" : "smart";
      vf::note("mode " + what);
      loader->loadModelForMode(mode ? McBopomofo::InputMode::PlainBopomofo : McBopomofo::InputMode::McBopomofo);
      base = in.current(mode);
      vf::count(base.state == 1 ? "mode_with_data" : "mode_without_data");
      vf::count("mode_from_directory_" + std::to_string(in.where(mode) + 1));
    } else if (op < 8) {
      // Installed, updated or removed while in use: in force at the next
      // start or switch, not before.
      int d = static_cast<int>(r.below(3)), k = static_cast<int>(r.below(3));
      in.put(d, k, in.draw(k));
      what = "install " + std::to_string(d) + std::to_string(k) + std::to_string(in.files[d][k].state);
      vf::count("installed");
    } else if (op == 8) {
      loader->reloadUserModelsIfNeeded();
      what = "use";
    } else {
      what = "restart";
      start();
    }
    history += what + " ";
    compare("after " + what);
  }
  vf::distinct(history + std::to_string(in.serial));
  vf::sample(history);
}
vf::Reg r41("C41", 1600, 60000, sources);

}  // namespace

int main(int argc, char** argv) { return vf::mainLoop(argc, argv); }
