// Reader for the graph descriptions written by the library: statements "a -> b [attrs];" and "a [attrs];"
#pragma once
#include "common.h"
namespace H {
struct DotEdge { std::string a, b, attr; };
struct Dot {
    std::vector<DotEdge> edges;
    std::vector<std::pair<std::string, std::string>> nodes; // id, attributes
    explicit Dot(const std::string& s)
    {
        REQUIRE(s.find("digraph") != std::string::npos, "bad-text", "no digraph in the exported text");
        size_t depth = 0; for(char ch : s) { if(ch == '{') ++depth; if(ch == '}') { REQUIRE(depth > 0, "bad-text", "unbalanced braces"); --depth; } }
        REQUIRE(depth == 0, "bad-text", "unbalanced braces");
        size_t i = 0; const size_t n = s.size();
        auto skip = [&] { while(i < n && (isspace((unsigned char)s[i]) || s[i] == ';' || s[i] == ',')) ++i; };
        auto id = [&]() -> std::string {
            std::string r;
            if(i < n && s[i] == '"') { ++i; while(i < n && s[i] != '"') r += s[i++]; ++i; return r; }
            while(i < n && (isalnum((unsigned char)s[i]) || s[i] == '_' || s[i] == '.')) r += s[i++];
            return r;
        };
        auto attrs = [&]() -> std::string { skip(); std::string r; if(i < n && s[i] == '[') { ++i; while(i < n && s[i] != ']') r += s[i++]; ++i; } return r; };
        while(i < n) {
            skip();
            if(i >= n) break;
            if(s[i] == '{' || s[i] == '}') { ++i; continue; }
            std::string a = id();
            REQUIRE(!a.empty(), "bad-text", "unreadable statement at byte %zu", i);
            size_t j = i; while(j < n && (s[j] == ' ' || s[j] == '\t')) ++j;
            if(a == "digraph" || a == "subgraph") { i = j; id(); continue; }
            if(j < n && s[j] == '=') { i = j + 1; skip(); id(); continue; } // attribute assignment
            if(j + 1 < n && s[j] == '-' && s[j + 1] == '>') { i = j + 2; skip(); std::string b = id(); edges.push_back({a, b, attrs()}); continue; }
            i = j; nodes.push_back({a, attrs()});
        }
    }
};
inline std::string attr_value(const std::string& attr, const std::string& key)
{
    size_t p = attr.find(key); if(p == std::string::npos) return "";
    p = attr.find('=', p); if(p == std::string::npos) return ""; ++p;
    while(p < attr.size() && (attr[p] == ' ' || attr[p] == '"')) ++p;
    std::string r; while(p < attr.size() && attr[p] != '"' && attr[p] != ',' && attr[p] != ' ') r += attr[p++];
    return r;
}
}
