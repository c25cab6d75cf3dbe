// Scratch directories for the checks of file operations.
#ifndef FSUTIL_HPP
#define FSUTIL_HPP
#include <mc.hpp>
namespace fsu {
    using S = std::string;
    struct Node { bool dir; S data; bool operator==(const Node& o) const { return dir == o.dir && data == o.data; } };
    using Tree = std::map<S,Node>;
    inline const S& root() { static S r; static pid_t p = 0; if (p != getpid()) { p = getpid(); const char* e = getenv("MC_SCRATCH"); if (!e || S(e).size() < 8) { fprintf(stderr, "no scratch directory\n"); _exit(3); } r = S(e) + "/p" + std::to_string(p); } return r; }
    inline void wipe(const S& p) { // only ever inside of the scratch directory
        if (p.compare(0, root().size(), root()) != 0) return; struct stat st; if (lstat(p.c_str(), &st) != 0) return;
        if (S_ISDIR(st.st_mode)) { chmod(p.c_str(), 0700); if (DIR* d = opendir(p.c_str())) { while (dirent* e = readdir(d)) { S n = e->d_name; if (n != "." && n != "..") wipe(p + "/" + n); } closedir(d); } rmdir(p.c_str()); } else unlink(p.c_str());
    }
    inline S slurp(const S& p) { S r; int fd = open(p.c_str(), O_RDONLY); if (fd < 0) return "?unreadable"; char b[65536]; ssize_t k; while ((k = ::read(fd, b, sizeof b)) > 0) r.append(b, k); close(fd); return r; }
    inline void put(const S& p, const S& data) { int fd = open(p.c_str(), O_WRONLY|O_CREAT|O_TRUNC, 0644); if (fd < 0) mc::fail("harness: cannot create " + p); size_t o = 0; while (o < data.size()) { ssize_t k = ::write(fd, data.data() + o, data.size() - o); if (k <= 0) break; o += k; } close(fd); }
    inline void walk(const S& base, const S& rel, Tree& t) { DIR* d = opendir((base + "/" + rel).c_str()); if (!d) return; while (dirent* e = readdir(d)) { S n = e->d_name; if (n == "." || n == "..") continue; S q = rel.empty() ? n : rel + "/" + n; struct stat st; if (lstat((base + "/" + q).c_str(), &st)) continue; if (S_ISDIR(st.st_mode)) { t[q] = {true, ""}; walk(base, q, t); } else t[q] = {false, S_ISREG(st.st_mode) ? slurp(base + "/" + q) : S("?special")}; } closedir(d); }
    inline Tree tree() { Tree t; walk(root(), "", t); return t; }
    // A fresh empty directory, made the working directory, removed at the end of the execution
    struct Dir { Dir() { wipe(root()); if (::mkdir(root().c_str(), 0755) != 0 || chdir(root().c_str()) != 0) { fprintf(stderr, "cannot create %s\n", root().c_str()); _exit(3); } } ~Dir() { if (chdir("/") != 0) {} wipe(root()); } };
}
#endif
