// P11, path helpers: existence is reported exactly, a created directory is usable, a failure to create ends the program.
#include "tn.h"
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <filesystem>
static std::string RandName(Rng &r) { static const std::string cs = "abcXYZ019._- +~#%&()[]{}\xc3\xa9\xff$"; std::string s; size_t n = 1 + (r.coin(0.1) ? 200 + r.below(50) : r.below(12)); for (size_t i = 0; i < n; ++i) s += cs[r.below(cs.size())]; if (s == "." || s == "..") s = "x"; return s; }
template<typename F> int Child(F f) {   // the program as a whole: does it go on, or end and how (42: it went on)
  fflush(stdout); pid_t pid = fork();
  if (pid == 0) { f(); _exit(42); }
  int st; if (pid < 0 || waitpid(pid, &st, 0) != pid) _exit(71); return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st); }
int main(int argc, char **argv) {
  QuietCout q;
  return vmon::run(argc, argv, "p11", [](size_t c, Rng &r, Mon &m) {
    chmod(".", 0755); std::string top = "t" + std::to_string(c); if (mkdir(top.c_str(), 0777)) _exit(71); std::string base = top, why; size_t depth = r.below(3); for (size_t i = 0; i < depth; ++i) { base += "/" + RandName(r); if (mkdir(base.c_str(), 0777) && !IsDir(base)) _exit(71); }
    std::string p = base + "/" + RandName(r); if (r.coin(0.1)) p = "./" + p; bool abs = r.coin(0.1); if (abs) { char cwd[4000]; if (!getcwd(cwd, sizeof cwd)) _exit(71); p = std::string(cwd) + "/" + p; }
    int kind = (int) r.below(abs ? 9 : 11); bool exists = false, creatable = false, unpriv = false; size_t um = r.coin() ? 022 : r.coin() ? 0 : 077;
    switch (kind) {
      case 0: case 1: creatable = true; why = "absent"; if (r.coin(0.2)) p += "/"; break;
      case 2: { int f = open(p.c_str(), O_CREAT | O_WRONLY, 0644); if (f < 0) _exit(71); if (r.coin()) if (write(f, "x", 1)) {} close(f); exists = true; why = "a file"; break; }
      case 3: if (mkdir(p.c_str(), 0755)) _exit(71); exists = true; why = "a directory"; break;
      case 4: p += "/sub"; why = "missing parent"; break;
      case 5: if (symlink("nowhere", p.c_str())) _exit(71); why = "dangling link"; break;
      case 6: if (symlink(".", p.c_str())) _exit(71); exists = true; why = "link to a directory"; break;
      case 7: { int f = open(p.c_str(), O_CREAT, 0600); close(f); p += "/sub"; why = "parent is a file"; break; }
      case 8: p += std::string(300, 'n'); why = "name too long"; break;
      case 9: p = r.coin() ? "" : p + std::string(5000, '/') + "x"; why = "unusable name"; break;
      default: unpriv = true; chmod(base.c_str(), 0555); why = "no permission"; if (r.coin()) { if (mkdir(p.c_str(), 0500)) _exit(71); exists = true; why = "existing, not ours"; }
    }
    m.at(why + " " + p); auto drop = [&] { umask(um); if (unpriv) { if (setgid(65534) || setuid(65534)) _exit(71); } };
       int o = Child([&] { drop(); _exit(IsPathExist(p) ? 10 : 11); }); m.check(o == (exists ? 10 : 11), "existence", [&] { return why + ": " + std::to_string(o); });
    o = Child([&] { drop(); CreatPath(p); });
    if (creatable) { m.check(o == 42, "not-created", [&] { return why + " rc " + std::to_string(o); }); m.check(IsDir(p), "created-but-absent", why); struct stat s; if (stat(p.c_str(), &s) == 0) { m.check((s.st_mode & 0700) == 0700, "created-unusable", [&] { return std::to_string(s.st_mode); }); }
      std::string f = p + "/inside"; { std::ofstream of(f); of << "ok"; } { std::ifstream in(f); std::string t; in >> t; m.check(t == "ok", "created-unusable"); } m.count("created");
      o = Child([&] { drop(); _exit(IsPathExist(p) ? 10 : 11); }); m.check(o == 10, "existence-after-creation");
      o = Child([&] { drop(); CreatPath(p); }); m.check(o != 42 && o != 0 && o < 1000, "second-creation-unreported"); { std::ifstream in(f); std::string t; in >> t; m.check(t == "ok", "second-creation-destroys"); } }
    else { m.check(o != 42 && o != 0 && o < 1000, "failure-continues", [&] { return why + ": rc " + std::to_string(o); }); m.count("refused"); if (!exists && kind != 9) { struct stat s; m.check(lstat(p.c_str(), &s) != 0 || kind == 5, "failure-left-something", why); } }
    m.distinct(vmon::hash_str(p + why)); if (c % 97 == 0) m.sample(why);
    chmod(base.c_str(), 0755); std::error_code ec; std::filesystem::remove_all(top, ec);
  });
}
