// files that several workers share: made once per run
#ifndef FIXTURE_HPP
#define FIXTURE_HPP
#include "vt.hpp"
#include <fcntl.h>
#include <functional>
#include <string>
#include <sys/file.h>
#include <sys/stat.h>
#include <unistd.h>
#include <dirent.h>

namespace fixture {
inline std::string slurp(const std::string& p) {
    std::string s;
    FILE* f = std::fopen(p.c_str(), "rb");
    if(!f) return s;
    static char b[65536];
    for(std::size_t n; (n = std::fread(b, 1, sizeof b, f)) > 0;) s.append(b, n);
    std::fclose(f);
    return s;
}
inline void spit(const std::string& p, const std::string& s) {
    ::unlink(p.c_str());
    FILE* f = std::fopen(p.c_str(), "wb");
    if(!f) return;
    std::fwrite(s.data(), 1, s.size(), f);
    std::fclose(f);
}
// the directory `name` in the run's scratch directory, filled by `make` in whichever process comes first
inline std::string once_dir(const std::string& name, const std::function<void(const std::string&)>& make) {
    std::string dir = vt::scratch_dir() + "/" + name;
    int lock = ::open((dir + ".lock").c_str(), O_CREAT | O_RDWR | O_CLOEXEC, 0644);
    ::flock(lock, LOCK_EX);
    struct stat sb;
    if(::stat((dir + ".done").c_str(), &sb) != 0) {
        ::mkdir(dir.c_str(), 0755);
        make(dir);
        spit(dir + ".done", "");
    }
    ::close(lock);
    return dir;
}
inline std::string open_fds() { // what is open, as text
    std::string s;
    DIR* d = ::opendir("/proc/self/fd");
    if(!d) return s;
    int self = ::dirfd(d);
    while(auto* e = ::readdir(d)) {
        if(e->d_name[0] == '.' || std::atoi(e->d_name) == self) continue;
        char b[300];
        auto n = ::readlink((std::string("/proc/self/fd/") + e->d_name).c_str(), b, sizeof b);
        s += std::string(e->d_name) + " -> " + std::string(b, n > 0 ? std::size_t(n) : 0) + "\n";
    }
    ::closedir(d);
    return s;
}
}
#endif
