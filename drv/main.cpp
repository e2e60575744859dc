// Reads a program, executes it call by call, reports the effect of every call.
//   P <id>                          new program (drops all buffers)
//   D <den>                         values below are multiples of 1/den
//   B <name> <type> <n> <values>    buffer
//   C <op> <type> <lay> k=v ...     library call
// Output: one line per B group ("L" lines are echoed by the generator, not
// here) and per call:  <prog> <call#> {"post":{..},"thr":"..","ret":..,"oob":0}
#include "core.hpp"
#include <csignal>
#include <iostream>
#include <unistd.h>
using namespace vf;

template <class T> static void fill(Buf& b, std::istream& in, double den)
{
    T* p = reinterpret_cast<T*>(b.data());
    string w;
    for (size_t i = 0; i < b.n; ++i) {
        in >> w;
        if constexpr (std::is_same_v<T, std::int64_t>)
            p[i] = atol(w.c_str());
        else {
            auto f = Ctx::split(w, ',');
            double re = Ctx::num(f[0]) / den;
            double im = f.size() > 1 ? Ctx::num(f[1]) / den : 0.0;
            if constexpr (tlapack::is_complex<T>) {
                if (std::isnan(re)) im = re;
                p[i] = T(re, im);
            }
            else
                p[i] = T(re);
        }
    }
}
template <class T> static void dumpT(string& s, Buf& b, double den)
{
    T* p = reinterpret_cast<T*>(b.data());
    s += "[";
    for (size_t i = 0; i < b.n; ++i) {
        if (i) s += ",";
        put_val(s, p[i], den);
    }
    s += "]";
}
static void dump(string& s, Buf& b, double den)
{
    switch (b.t) {
        case 's': dumpT<float>(s, b, den); break;
        case 'd': dumpT<D>(s, b, den); break;
        case 'c': dumpT<std::complex<float>>(s, b, den); break;
        case 'z': dumpT<Z>(s, b, den); break;
        default: dumpT<std::int64_t>(s, b, den);
    }
}

int main(int argc, char** argv)
{
    unsigned tmo = argc > 1 ? atoi(argv[1]) : 20;
    std::ios::sync_with_stdio(false);
    string line, prog;
    Ctx c;
    long ncall = 0;
    while (std::getline(std::cin, line)) {
        if (line.empty() || line[0] == '#') continue;
        std::istringstream in(line);
        string k;
        in >> k;
        if (k == "P") {
            in >> prog;
            c.bufs.clear();
            c.den = 1;
            ncall = 0;
            alarm(tmo);
        }
        else if (k == "D")
            in >> c.den;
        else if (k == "B") {
            string name;
            Buf b;
            in >> name >> b.t >> b.n;
            b.alloc();
            switch (b.t) {
                case 's': fill<float>(b, in, c.den); break;
                case 'd': fill<D>(b, in, c.den); break;
                case 'c': fill<std::complex<float>>(b, in, c.den); break;
                case 'z': fill<Z>(b, in, c.den); break;
                default: fill<std::int64_t>(b, in, c.den);
            }
            c.bufs[name] = std::move(b);
        }
        else if (k == "C") {
            string op, t, l, w;
            in >> op >> t >> l;
            c.kv.clear();
            while (in >> w) {
                size_t e = w.find('=');
                c.kv[w.substr(0, e)] = w.substr(e + 1);
            }
            auto it = registry().find(op + " " + t + " " + l);
            if (it == registry().end()) {
                fprintf(stderr, "no such entry: %s %s %s\n", op.c_str(),
                        t.c_str(), l.c_str());
                return 3;
            }
            std::map<string, std::vector<unsigned char>> pre;
            for (auto& b : c.bufs) pre[b.first] = b.second.raw;
            // announce, so that a crash can be attributed
            printf("%s %ld ", prog.c_str(), ncall);
            fflush(stdout);
            string thr;
            c.ret = "0";
            c.scratch.clear();
            string same;
            try {
                // the same call, once with memory of its own
                std::uint64_t d0 = 0;
                string ret0;
                if (c.has("twin")) {
                    // 1: ... of its own memory; 2: ... with other junk around
                    string key = c.i("twin") == 2 ? "pz" : "wk", w = c.kv[key];
                    c.kv[key] = "0";
                    digest = 0;
                    it->second(c);
                    d0 = digest, ret0 = c.ret, c.ret = "0";
                    c.kv[key] = w;
                }
                digest = 0;
                it->second(c);
                if (c.has("twin"))
                    same = digest == d0 && ret0 == c.ret ? "1" : "0";
            }
            catch (const BadProgram& e) {
                fprintf(stderr, "bad program: %s in %s\n", e.what(),
                        line.c_str());
                return 3;
            }
            catch (const std::domain_error&) {
                thr = "domain";
            }
            catch (const std::runtime_error&) {
                thr = "runtime";
            }
            catch (const std::exception& e) {
                thr = "other";
            }
            string s = "{\"post\":{";
            bool first = true, oob = !c.scratch_ok();
            for (auto& b : c.bufs) {
                if (!b.second.guards_ok()) oob = true;
                if (b.second.raw == pre[b.first]) continue;
                if (!first) s += ",";
                first = false;
                s += "\"" + b.first + "\":";
                dump(s, b.second, c.den);
            }
            s += "},\"thr\":\"" + thr + "\",\"oob\":" + (oob ? "1" : "0") +
                 (same.empty() ? "" : ",\"same\":" + same) +
                 ",\"ret\":" + c.ret + "}\n";
            fputs(s.c_str(), stdout);
            ++ncall;
        }
    }
    fflush(stdout);
    return 0;
}
