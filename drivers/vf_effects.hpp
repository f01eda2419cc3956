// What a process has besides memory: read before and after a call, to see what the call left behind.
#pragma once
#include <dirent.h>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>
#include <xmmintrin.h>

#include <algorithm>
#include <cerrno>
#include <cfenv>
#include <clocale>
#include <csignal>
#include <cstdlib>
#include <ctime>
#include <exception>
#include <iostream>
#include <locale>
#include <map>
#include <new>
#include <string>

extern char** environ;

namespace vfio {

/** Output streams are followed through the file descriptors behind them. */
inline std::string size_of(int fd) {
    struct stat s {};
    return ::fstat(fd, &s) == 0 && S_ISREG(s.st_mode) ? std::to_string(s.st_size) : "-";
}

inline std::string listing(const std::string& dir, bool follow, std::size_t* n = nullptr) {
    std::vector<std::string> v;
    auto* d = ::opendir(dir.c_str());
    if (!d) return "?";
    auto own = std::to_string(::dirfd(d));
    while (auto* e = ::readdir(d)) {
        std::string name = e->d_name;
        if (name == "." || name == ".." || (follow && name == own)) continue;
        if (follow) {
            char buf[4096];
            auto k = ::readlink((dir + "/" + name).c_str(), buf, sizeof buf);
            std::string to(buf, k < 0 ? 0 : static_cast<std::size_t>(k));
            if (k < 0 || to.rfind("/proc/", 0) == 0) continue;     // the sanitizer reads its memory use from there, now and then
            name += "=" + to;
        }
        v.push_back(name);
    }
    ::closedir(d);
    std::sort(v.begin(), v.end());
    std::string s;
    for (auto& x : v) s += x + "|";
    if (n) *n = v.size();
    return s;
}

inline char random_state[256];   // where rand() keeps its numbers, so that they can be compared
inline unsigned csr() { return _mm_getcsr() & ~0x3fU; }   // without the flags that any inexact result raises

using State = std::map<std::string, std::string>;

inline State state_of_process() {
    State s;
    std::cout.flush();
    std::cerr.flush();
    std::clog.flush();
    std::fflush(stdout);
    std::fflush(stderr);
    s["bytes written to standard output"] = size_of(1);
    s["bytes written to standard error"] = size_of(2);
    char buf[4096];
    s["working directory"] = ::getcwd(buf, sizeof buf) ? buf : "?";
    s["open files"] = listing("/proc/self/fd", true);
    std::size_t threads = 0;
    listing("/proc/self/task", false, &threads);
    s["threads"] = std::to_string(threads);
    s["files in the working directory"] = listing(".", false);
    if (auto* t = std::getenv("TMPDIR")) s["temporary files"] = listing(t, false);
    auto mask = ::umask(0);
    ::umask(mask);
    s["umask"] = std::to_string(mask);
    std::string env;
    for (char** e = environ; e && *e; ++e) env += std::string(*e) + "\n";
    s["environment"] = env;
    s["C locale"] = std::setlocale(LC_ALL, nullptr);
    s["C++ locale"] = std::locale().name();
    s["rounding"] = std::to_string(std::fegetround());
    s["floating-point control"] = std::to_string(csr());
    std::string h;
    for (int i = 1; i < NSIG; ++i) {
        struct sigaction a {};
        if (::sigaction(i, nullptr, &a) == 0)
            h += std::to_string(reinterpret_cast<std::uintptr_t>(a.sa_handler)) + "/" + std::to_string(a.sa_flags) + " ";
    }
    s["signal handlers"] = h;
    sigset_t blocked;
    sigemptyset(&blocked);
    ::pthread_sigmask(SIG_SETMASK, nullptr, &blocked);
    std::string b;
    for (int i = 1; i < NSIG; ++i) b += sigismember(&blocked, i) == 1 ? '1' : '0';
    s["blocked signals"] = b;
    itimerval timer{};
    ::getitimer(ITIMER_REAL, &timer);
    s["timer"] = std::to_string(timer.it_value.tv_sec != 0 || timer.it_value.tv_usec != 0);
    for (int r : { RLIMIT_CORE, RLIMIT_CPU, RLIMIT_DATA, RLIMIT_FSIZE, RLIMIT_NOFILE, RLIMIT_STACK, RLIMIT_AS }) {
        rlimit l{};
        ::getrlimit(static_cast<__rlimit_resource>(r), &l);
        s["limit " + std::to_string(r)] = std::to_string(l.rlim_cur) + "/" + std::to_string(l.rlim_max);
    }
    s["terminate handler"] = std::to_string(reinterpret_cast<std::uintptr_t>(std::get_terminate()));
    s["new handler"] = std::to_string(reinterpret_cast<std::uintptr_t>(std::get_new_handler()));
    s["exceptions in flight"] = std::to_string(std::uncaught_exceptions()) + (std::current_exception() ? "+" : "-");
    s["random numbers"] = std::string(random_state, sizeof random_state);
    s["time zone"] = tzname[0] ? tzname[0] : "";
    auto stream = [&](const char* name, std::basic_ios<char>& os) {
        auto put = [&](const char* what, auto v) { s[std::string(name) + " " + what] = std::to_string(v); };
        put("flags", static_cast<long>(os.flags()));
        put("precision", os.precision());
        put("width", os.width());
        put("fill", static_cast<int>(os.fill()));
        put("state", static_cast<int>(os.rdstate()));
        put("exceptions", static_cast<int>(os.exceptions()));
        put("buffer", reinterpret_cast<std::uintptr_t>(os.rdbuf()));
        put("tie", reinterpret_cast<std::uintptr_t>(os.tie()));
        s[std::string(name) + " locale"] = os.getloc().name();
    };
    stream("cout", std::cout);
    stream("cerr", std::cerr);
    stream("clog", std::clog);
    stream("cin", std::cin);
    return s;
}

/** What differs, in words. */
inline std::string changes(const State& a, const State& b) {
    std::string s;
    for (auto& [k, v] : a) {
        auto it = b.find(k);
        if (it == b.end() || it->second != v)
            s += k + (k == "random numbers" ? ": drawn" : ": " + v.substr(0, 300) + " -> " + (it == b.end() ? "" : it->second.substr(0, 300))) + "; ";
    }
    return s;
}

/** Everything is made unlike what a program starts with, so that putting back a default is a change as well. */
inline void unusual() {
    if (std::setlocale(LC_ALL, "C.UTF-8")) std::cin.imbue(std::locale("C.UTF-8"));
    ::initstate(20201, random_state, sizeof random_state);
    ::umask(027);
    std::fesetround(FE_UPWARD);
    std::cout.setf(std::ios::boolalpha);
    std::cout.precision(3);
    std::cout.fill('*');
    std::cerr.setf(std::ios::hex, std::ios::basefield);
    std::cerr.precision(9);
    std::clog.precision(4);
    std::signal(SIGUSR1, SIG_IGN);
    std::signal(SIGPIPE, SIG_IGN);
    std::set_new_handler([] { throw std::bad_alloc{}; });
    ::setenv("CQASM", "value", 1);
}
}  // namespace vfio
