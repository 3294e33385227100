// The ways to write a list of triples: abbreviations, prefixes, short forms of values, white space, comments and final separators.
#pragma once
#include "model.h"
namespace gs {
struct Forms {
    const string E = "<http://e/", TY = "<http://www.w3.org/1999/02/22-rdf-syntax-ns#type>", five = tyLit("5", "integer"), half = tyLit("2.5", "decimal"), yes = tyLit("true", "boolean"), D = "<http://d/T>";
    const string A = E + "a>", B = E + "b>", P = E + "p>", Q = E + "q.r>", l = "\"l\"", en = "\"l\"@en";
    const string head = "PREFIX e: <http://e/> PREFIX e-2: <http://e/>\nprefix : <http://d/> ";
    Graph g{{A, P, B}, {A, P, A}, {B, P, A}, {A, Q, five}, {B, Q, yes}, {B, Q, five}, {A, Q, half}, {B, Q, B}, {A, TY, D}, {B, TY, A}, {B, P, l}, {A, P, en}, {D, P, B}};
    string spell(const string& t, int style, bool pred) const {   // style 0: in full, 1: short, 2: short with the other prefix
        if (!style || isVar(t)) return t;
        if (pred && t == TY) return "a";
        if (t == five) return "5"; if (t == half) return "2.5"; if (t == yes) return "true";
        if (t == D) return ":T";
        if (t.compare(0, E.size(), E) == 0) return (style == 1 ? "e:" : "e-2:") + t.substr(E.size(), t.size() - E.size() - 1);
        return t;
    }
    vector<string> bodies(const vector<T3>& v) const {
        vector<string> out; const char* SEP[] = {" ", "\n\t", " # <c> \"{\n"};
        for (int style = 0; style < 3; style++) for (int ws = 0; ws < 3; ws++) {
            if (ws && style != 1 && v.size() > 1) continue;
            const string w = SEP[ws];
            vector<string> part{spell(v[0].s, style, false) + w + spell(v[0].p, style, true) + w + spell(v[0].o, style, false)};
            for (size_t i = 1; i < v.size(); i++) {
                vector<string> n; string s = spell(v[i].s, style, false), p = spell(v[i].p, style, true), o = spell(v[i].o, style, false);
                for (auto& x : part) {
                    n.push_back(x + w + "." + w + s + w + p + w + o);
                    if (v[i].s == v[i - 1].s) { n.push_back(x + w + ";" + w + p + w + o); if (!ws) n.push_back(x + " ; ; " + p + " " + o); }
                    if (v[i].s == v[i - 1].s && v[i].p == v[i - 1].p) n.push_back(x + w + "," + w + o);
                }
                part = n;
            }
            for (auto& x : part) for (int end = 0; end < 4; end++) { if (ws && end != 1) continue; out.push_back(x + (end == 1 ? " ." : end == 2 ? " ;" : end == 3 ? " ; ." : "")); }
        }
        return out;
    }
};
} // namespace gs
