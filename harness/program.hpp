// A program of the library run in this process: its arguments, its exit code, what it prints.
#pragma once
#include "mc.hpp"
#include "utils/Logger.h"
#include <alloca.h>
#include <iostream>
#include <unistd.h>

// The harness declares the main function of the program to be program_main in the object file (it remains a main
// function to the compiler), and its own main function harness_main to be main there.
int harness_main(int, char **) __asm__("main");
namespace program {
int entry(int, char **) __asm__("program_main");
// The stack below holds this value all over: a variable that is never set reads as it.
__attribute__((noinline)) static void litter(uint32_t v) {
    const size_t n = 1 << 16;
    volatile uint32_t *p = (volatile uint32_t *) alloca(n * sizeof(uint32_t));
    for (size_t i = 0; i < n; ++i) p[i] = v;
}
struct Ran {
    int code = 0;
    bool thrown = false;          // an exception left main: the program ends with an error
    std::string out, err, what;
    bool failed() const { return thrown || code != 0; }
};
static Ran run(int (*entry)(int, char **), std::vector<std::string> a) {
    a.insert(a.begin(), "program");
    std::vector<char *> v;
    for (auto &x : a) v.push_back(&x[0]);
    v.push_back(nullptr);
    Ran r;
    std::stringstream o, e;
    auto *oo = std::cout.rdbuf(o.rdbuf()), *oe = std::cerr.rdbuf(e.rdbuf());
    try {
        r.code = entry((int) a.size(), v.data());
    } catch (const mc::Fail &) { std::cout.rdbuf(oo); std::cerr.rdbuf(oe); throw; }
    catch (const mc::Skip &) { std::cout.rdbuf(oo); std::cerr.rdbuf(oe); throw; }
    catch (const std::exception &x) { r.thrown = true; r.what = x.what(); }
    std::cout.rdbuf(oo);
    std::cerr.rdbuf(oe);
    r.out = o.str();
    r.err = e.str();
    mc::transition();
    return r;
}
static std::string line(const std::vector<std::string> &a) { std::string s; for (auto &x : a) s += (s.empty() ? "" : " ") + x; return s; }

// a file of its own in the scratch folder
struct File {
    std::string name;
    explicit File(const std::string &text) {
        char n[] = "/tmp/mcprogXXXXXX";
        int fd = mkstemp(n);
        mc::requireF(fd >= 0 && write(fd, text.data(), text.size()) == (ssize_t) text.size(), [] { return std::string("harness: no scratch file"); });
        close(fd);
        name = n;
    }
    ~File() { unlink(name.c_str()); }
};
}
