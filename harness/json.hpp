// A strict reader of the little JSON an experiment writes.
#pragma once
#include "mc.hpp"
#include <cstring>

struct Json {
    enum Kind { STR, NUM, BOOL, ARR, OBJ } kind = NUM;
    std::string s;
    std::vector<Json> a;
    std::vector<std::pair<std::string, Json>> o;
    const Json &at(const std::string &k) const {
        const Json *r = nullptr;
        for (auto &x : o) if (x.first == k) { mc::requireF(!r, [&] { return "the field " + k + " occurs twice"; }); r = &x.second; }
        mc::requireF(r, [&] { return "the field " + k + " is missing"; });
        return *r;
    }
    bool has(const std::string &k) const { for (auto &x : o) if (x.first == k) return true; return false; }
    const std::string &num() const { mc::requireF(kind == NUM, [&] { return "not a number: " + s; }); return s; }
    const std::string &str() const { mc::requireF(kind == STR, [&] { return "not a text: " + s; }); return s; }
    bool flag() const { mc::requireF(kind == BOOL, [&] { return "not a truth value: " + s; }); return s == "true"; }
    const std::vector<Json> &arr() const { mc::requireF(kind == ARR, [&] { return std::string("not a list"); }); return a; }
};
struct JsonReader {
    const std::string &t;
    size_t p = 0;
    void bad(const char *w) { auto q = p; mc::requireF(false, [&] { return mc::fmt("the record is not well-formed at %zu (%s): ", q, w) + t.substr(q > 30 ? q - 30 : 0, 60); }); }
    void ws() { while (p < t.size() && isspace((unsigned char) t[p])) ++p; }
    bool eat(char c) { ws(); if (p < t.size() && t[p] == c) { ++p; return true; } return false; }
    std::string text() {
        std::string r;
        if (!eat('"')) bad("text expected");
        while (p < t.size() && t[p] != '"') { if (t[p] == '\\' || t[p] == '\n') bad("text"); r += t[p++]; }
        if (!eat('"')) bad("text not closed");
        return r;
    }
    Json value() {
        Json j;
        ws();
        if (p >= t.size()) bad("value expected");
        if (t[p] == '"') { j.kind = Json::STR; j.s = text(); }
        else if (eat('[')) {
            j.kind = Json::ARR;
            if (eat(']')) return j;
            do j.a.push_back(value()); while (eat(','));
            if (!eat(']')) bad("] expected");
        } else if (eat('{')) {
            j.kind = Json::OBJ;
            if (eat('}')) return j;
            do { ws(); auto k = text(); if (!eat(':')) bad(": expected"); j.o.emplace_back(k, value()); } while (eat(','));
            if (!eat('}')) bad("} expected");
        } else if (t.compare(p, 4, "true") == 0 || t.compare(p, 5, "false") == 0) { j.kind = Json::BOOL; j.s = t[p] == 't' ? "true" : "false"; p += j.s.size(); }
        else { while (p < t.size() && (isdigit((unsigned char) t[p]) || strchr("+-.eE", t[p]))) j.s += t[p++]; if (j.s.empty()) bad("value expected"); }
        return j;
    }
    Json all() { auto j = value(); ws(); if (p != t.size()) bad("text after the record"); return j; }
};
