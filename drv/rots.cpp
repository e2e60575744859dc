// Sequences of plane rotations.
#include "core.hpp"
#include <tlapack/lapack/rot_sequence.hpp>
#include <tlapack/lapack/rot_sequence3.hpp>
using namespace vf;
using namespace tlapack;
#define REAL real_type<T>

template <class T, char a, char d> void rot_sequence_(Ctx& c)
{
    auto A = c.M<T, lay<a>::v>("A");
    auto cc = c.V<REAL, dir<d>::v>("c");
    auto s = c.V<T, dir<d>::v>("s");
    c.setint(rot_sequence(c.side("side"), c.direc("direc"), cc, s, A));
}
template <class T, char a, char b> void rot_sequence3_(Ctx& c)
{
    auto A = c.M<T, lay<a>::v>("A");
    auto C = c.M<REAL, lay<b>::v>("C");
    auto S = c.M<T, lay<b>::v>("S");
    rot_sequence3(c.side("side"), c.direc("direc"), C, S, A);
}
#define ALLV(op) VR2(op, d, D, C, F) VR2(op, d, D, R, F) VR2(op, d, D, C, B) VR2(op, z, Z, C, F) VR2(op, z, Z, R, F) VR2(op, z, Z, R, B) \
    VR2(op, s, S, C, F) VR2(op, c, vf::C, C, F)
#define ALLM(op) VR2(op, d, D, C, C) VR2(op, d, D, R, R) VR2(op, d, D, C, R) VR2(op, z, Z, C, C) VR2(op, z, Z, R, R) VR2(op, z, Z, R, C) \
    VR2(op, s, S, C, C) VR2(op, c, vf::C, C, C)
ALLV(rot_sequence_) ALLM(rot_sequence3_)
