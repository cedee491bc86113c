// Monitor for the script that runs after a phrase was added: C39. The script of
// the working tree runs in a scratch directory with a git of its own (own home,
// own configuration, a bare repository beside it as the remote), and what it
// leaves behind is compared with what the user had written.
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <filesystem>
#include <fstream>
#include <sstream>

#include "UserPhrasesLM.h"
#include "common.h"

namespace fs = std::filesystem;
using std::string;
using std::vector;
using vf::Rng;

namespace {

string slurp(const string& p) {
  std::ifstream f(p, std::ios::binary);
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}
void append(const string& p, const string& s) { std::ofstream(p, std::ios::binary | std::ios::app) << s; }
vector<string> lines(const string& t) {
  vector<string> v;
  std::stringstream s(t);
  for (string l; std::getline(s, l);) v.push_back(l);
  return v;
}
[[noreturn]] void broken(const string& what) {
  fprintf(stderr, "harness: %s\n", what.c_str());
  _exit(3);
}

struct World {
  Rng& r;
  string top = vf::G().scratch + "/hook";
  string dir = top + "/home/.local/share/fcitx5/mcbopomofo", remote = top + "/remote.git", other = top + "/other", home = top + "/home", out = top + "/out";
  string script = string(getenv("VERIF_REPO") ? getenv("VERIF_REPO") : "/repo") + "/data/add-phrase-hook.sh";
  string trail;
  vector<string> own[2];     // lines of the two files as the user has them
  vector<string> theirs[2];  // lines pushed by the other machine
  bool identity = true, hasRemote = false, reachable = true, diverged = false;
  bool theirsNew[2] = {false, false}, ownNew[2] = {true, true};  // since the last exchange
  explicit World(Rng& rr) : r(rr) {}
  void say(const string& s) {
    trail += s + "\n";
    vf::note(s);
  }
  string file(int k) const { return dir + (k ? "/exclude-phrases.txt" : "/data.txt"); }
  pid_t spawn(const string& cwd, const vector<string>& args) {
    pid_t p = fork();
    if (p < 0) broken("fork");
    if (p == 0) {
      setpgid(0, 0);
      if (chdir(cwd.c_str())) _exit(126);
      int n = open("/dev/null", O_RDONLY), o = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
      dup2(n, 0);
      dup2(o, 1);
      dup2(o, 2);
      string path = string("PATH=") + getenv("PATH"), h = "HOME=" + home, ceil = "GIT_CEILING_DIRECTORIES=" + top, cfg = "XDG_CONFIG_HOME=" + home + "/.config", pwn = "PWNED=" + top + "/pwned";
      const char* env[] = {path.c_str(), h.c_str(), ceil.c_str(), cfg.c_str(), pwn.c_str(), "GIT_CONFIG_NOSYSTEM=1", "GIT_TERMINAL_PROMPT=0", "LC_ALL=C.UTF-8", "GIT_AUTHOR_DATE=2024-01-01T00:00:00Z", "GIT_COMMITTER_DATE=2024-01-01T00:00:00Z", nullptr};
      vector<char*> av;
      for (auto& a : args) av.push_back(const_cast<char*>(a.c_str()));
      av.push_back(nullptr);
      execvpe(av[0], av.data(), const_cast<char* const*>(env));
      _exit(127);
    }
    return p;
  }
  // exit status, or -1 when it had to be ended
  int await(pid_t p) {
    int st = 0;
    for (int i = 0; i < 3000; ++i) {
      pid_t q = waitpid(p, &st, WNOHANG);
      if (q == p) return WIFEXITED(st) ? WEXITSTATUS(st) : 128;
      usleep(i < 100 ? 1000 : 10000);
    }
    kill(-p, SIGKILL);
    waitpid(p, &st, 0);
    return -1;
  }
  int run(const string& cwd, const vector<string>& args) { return await(spawn(cwd, args)); }
  string git(const string& cwd, vector<string> args, bool must = true) {
    args.insert(args.begin(), "git");
    int rc = run(cwd, args);
    string o = slurp(out);
    if (rc && must) broken("git " + vf::S(args, " ") + ": " + o);
    while (!o.empty() && o.back() == '\n') o.pop_back();
    return rc ? "" : o;
  }
  void config() {
    std::ofstream f(home + "/.gitconfig");
    f << "[init]\n\tdefaultBranch = " << (r.chance(1, 2) ? "main" : "master") << "\n[user]\n\tuseConfigOnly = true\n[gc]\n\tauto = 0\n[core]\n\tfsync = none\n";
    if (identity) f << "\tname = x\n[user]\n\tname = Tester\n\temail = t@example.org\n";
  }
  void start() {
    fs::remove_all(top);
    fs::create_directories(dir);
    fs::create_directories(home);
    identity = r.chance(9, 10);
    config();
    for (int k = 0; k < 2; ++k) {
      own[k] = {"# header " + std::to_string(k), "#"};
      for (uint64_t n = r.below(4); n; --n) own[k].push_back(word() + " " + reading());
      for (auto& l : own[k]) append(file(k), l + "\n");
    }
    if (r.chance(1, 2)) {
      // set up by hand, with a remote
      say("repository with a remote");
      git(top, {"init", "-q", "--bare", "-b", "master", remote});
      git(dir, {"init", "-q", "-b", "master"});
      git(dir, {"remote", "add", "origin", remote});
      hasRemote = true;
    } else {
      say("no repository");
    }
  }
  string word() {
    static const vector<string> w = {"小麥", "注音", "輸入", "法", "字典", "麥子", "發音", "八方", "叭", "爸"};
    string s = r.pick(w);
    while (r.chance(1, 2)) s += r.pick(w);
    return s;
  }
  string odd() {
    static const vector<string> w = {"$(touch${IFS}$PWNED)", "`touch${IFS}$PWNED`", ";touch${IFS}$PWNED", "'\"", "\"", "'", "-x", "--amend", "-F/etc/hostname", "%s%n", "\\n", "a'b", "$HOME", "*", "&&touch", "|", "!!", "#一", "(五)", "a\\"};
    return r.pick(w);
  }
  string reading() {
    static const vector<string> w = {"ㄅㄚ", "ㄒㄧㄠˇ-ㄇㄞˋ", "ㄓㄨˋ-ㄧㄣ", "ㄈㄚˇ", "ㄗˋ-ㄉㄧㄢˇ"};
    return r.pick(w);
  }
  void judgeFiles(const string& when) {
    for (int k = 0; k < 2; ++k) {
      auto now = lines(slurp(file(k)));
      size_t i = 0;
      vector<string> rest;
      for (auto& l : now) {
        if (i < own[k].size() && l == own[k][i]) ++i;
        else rest.push_back(l);
      }
      VCHECK(i == own[k].size(), when << ": " << file(k).substr(dir.size() + 1) << " lost the line " << vf::jstr(own[k][i]) << ", it is now " << vf::jstr(slurp(file(k))));
      for (auto& l : rest) VCHECK(std::find(theirs[k].begin(), theirs[k].end(), l) != theirs[k].end(), when << ": a line that nobody wrote: " << vf::jstr(l));
      vf::count("files_compared");
    }
    McBopomofo::UserPhrasesLM lm;
    VCHECK(lm.open(file(0).c_str()), when << ": the user's phrases cannot be read");
    for (auto& l : own[0]) {
      if (l[0] == '#') continue;
      size_t sp = l.find(' ');
      string v = l.substr(0, sp), k = l.substr(sp + 1);
      bool there = false;
      for (auto& u : lm.getUnigrams(k)) there = there || u.value() == v;
      VCHECK(there, when << ": " << v << " is no longer among the user's phrases");
      vf::count("phrases_read");
    }
    VCHECK(!fs::exists(top + "/pwned"), when << ": the phrase was run as a command");
    for (auto& e : fs::directory_iterator(home)) {
      string n = e.path().filename().string();
      VCHECK(n == ".gitconfig" || n == ".local" || n == ".config", when << ": " << n << " appeared in the home directory");
    }
    for (auto& e : fs::directory_iterator(dir)) {
      string n = e.path().filename().string();
      VCHECK(n == ".git" || n == "data.txt" || n == "exclude-phrases.txt", when << ": " << n << " appeared among the user's files");
    }
  }
  void add(bool twice) {
    vector<string> said;
    for (int i = 0; i < (twice ? 2 : 1); ++i) {
      string p = r.chance(1, 3) ? odd() : word();
      int k = r.chance(1, 8) ? 1 : 0;
      string l = p + " " + reading();
      if (k == 0 && p[0] == '#') l = word() + " " + reading();
      own[k].push_back(l);
      append(file(k), l + "\n");
      ownNew[k] = true;
      said.push_back(p);
      say("add " + l);
    }
    vector<pid_t> ps;
    for (auto& p : said) {
      ps.push_back(spawn(dir, {"/bin/sh", script, p}));
      if (twice && r.chance(1, 2)) usleep(r.below(30000));
    }
    for (auto p : ps) VCHECK(await(p) != -1, "the script does not end");
    if (twice) vf::count("two_at_once");
    string log = slurp(out);
    string when = twice ? "after two scripts at once" : "after the script for " + vf::jstr(said[0]);
    vf::count("scripts_run");
    judgeFiles(when);
    VCHECK(fs::is_directory(dir + "/.git"), when << ": there is no repository");
    VCHECK(!fs::exists(dir + "/.git/rebase-merge") && !fs::exists(dir + "/.git/rebase-apply") && !fs::exists(dir + "/.git/MERGE_HEAD"), when << ": left in the middle of a merge");
    VCHECK(git(dir, {"symbolic-ref", "--short", "HEAD"}, false) == "master", when << ": not on the master branch");
    if (!identity) {
      vf::count("no_identity");
      return;
    }
    VCHECK(git(dir, {"status", "--porcelain"}).empty(), when << ": not everything is committed: " << git(dir, {"status", "--porcelain"}) << "; " << log);
    auto subjects = lines(git(dir, {"log", "--format=%s", "-n", "1", "--author=Tester"}));
    VCHECK(!subjects.empty() && std::any_of(said.begin(), said.end(), [&](const string& w) { return subjects[0] == "Add " + w; }), when << ": the newest commit is " << (subjects.empty() ? "none" : subjects[0]));
    vf::count("committed");
    if (!hasRemote || !reachable) return;
    for (int k = 0; k < 2; ++k)
      if (theirsNew[k] && ownNew[k]) diverged = true;
    for (int k = 0; k < 2; ++k) {
      auto kept = lines(git(remote, {"show", string("master:") + (k ? "exclude-phrases.txt" : "data.txt")}, false));
      for (auto& l : theirs[k]) VCHECK(std::find(kept.begin(), kept.end(), l) != kept.end(), when << ": the remote repository lost the other machine's line " << l);
    }
    if (diverged) {
      vf::count("diverged");
      return;
    }
    string here = git(dir, {"rev-parse", "HEAD"}), there = git(remote, {"rev-parse", "master"}, false);
    VCHECK(here == there, when << ": the remote repository does not have it: " << log);
    for (int k = 0; k < 2; ++k) {
      if (theirsNew[k]) {
        auto now = lines(slurp(file(k)));
        for (auto& l : theirs[k]) VCHECK(std::find(now.begin(), now.end(), l) != now.end(), when << ": the other machine's line is missing: " << l);
        vf::count("merged");
        // from now on these are in the user's file like his own
        own[k] = now;
      }
      theirsNew[k] = ownNew[k] = false;
    }
    vf::count("pushed");
  }
  void otherMachine() {
    if (!hasRemote || !reachable || !identity || git(remote, {"rev-parse", "-q", "--verify", "master"}, false).empty()) return;
    fs::remove_all(other);
    git(top, {"clone", "-q", "-b", "master", remote, other});
    int k = r.chance(1, 2) ? 1 : 0;
    string l = word() + "彼 " + reading();
    append(other + (k ? "/exclude-phrases.txt" : "/data.txt"), l + "\n");
    git(other, {"add", "."});
    git(other, {"-c", "user.name=Other", "-c", "user.email=o@example.org", "commit", "-q", "-m", "Add " + l});
    git(other, {"push", "-q", "origin", "master"});
    theirs[k].push_back(l);
    theirsNew[k] = true;
    say(string("the other machine adds ") + l + (k ? " to the exclusions" : ""));
    vf::count("other_machine");
  }
  void play() {
    start();
    for (uint64_t n = 3 + r.below(5); n; --n) {
      switch (r.below(10)) {
        case 0:
        case 1: otherMachine(); break;
        case 2:
          if (hasRemote) {
            reachable = !reachable;
            say(reachable ? "remote back" : "remote away");
            fs::rename(reachable ? remote + ".away" : remote, reachable ? remote : remote + ".away");
            break;
          }
          [[fallthrough]];
        case 3:
        case 4: add(true); break;
        default: add(false);
      }
    }
    fs::remove_all(top);
  }
};

void hook(uint64_t idx, Rng& r) {
  World w(r);
  w.play();
  vf::distinct(w.trail);
  if (idx < 4) vf::sample(w.trail);
}
vf::Reg r39("C39", 360, 4000, hook);

}  // namespace

int main(int argc, char** argv) { return vf::mainLoop(argc, argv); }
