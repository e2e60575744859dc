// Combinations of workspace requirements, as WorkInfo performs them.
#include "core.hpp"
using namespace vf;
namespace {
template <class T> void winfo_(Ctx& c)
{
    using tlapack::WorkInfo;
    WorkInfo w;
    string r = "[";
    bool first = true;
    for (auto& s : Ctx::split(c.str("seq"), '/')) {
        auto f = Ctx::split(s, ':');  // op:m:n:contig:vec
        size_t m = atol(f[1].c_str()), n = atol(f[2].c_str());
        WorkInfo q = f[4] == "1" ? WorkInfo(m) : WorkInfo(m, n);
        q.isContiguous = f[3] == "1";
        if (f[0] == "=") w = q;
        else if (f[0] == "t") w = w.transpose();
        else if (f[0] == "m") w.minMax(q);
        else if (f[0] == "+") w += q;
        else throw BadProgram(s);
        r += string(first ? "" : ",") + "[" + std::to_string(w.m) + "," + std::to_string(w.n) + "," + (w.isContiguous ? "1" : "0") + "]";
        if (w.size() != w.m * w.n) throw std::logic_error("size");
        first = false;
    }
    c.ret = r + "]";
}
VR0(winfo_, d, D)
}  // namespace
