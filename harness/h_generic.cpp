#include "common.hpp"
#include "factorama/generic_prior_factor.hpp"
#include "factorama/generic_between_factor.hpp"
#include "factorama/linear_velocity_factor.hpp"

template <int N> void gprior()
{
    GenericVariable v(1, vvec("x", N));
    GenericPriorFactor f(2, &v, vvec("m", N), vsym("sigma", 0, 1));
    VarRef vs[] = {{&v, 0}};
    drive(f, vs, 1);
}
template <int N> void gbetween()
{
    GenericVariable a(1, vvec("x", N)), b(2, vvec("y", N)), m(3, vvec("m", N));
    GenericBetweenFactor f(4, &a, &b, &m, vsym("sigma", 0, 1));
    VarRef vs[] = {{&a, 0}, {&b, 0}, {&m, 0}};
    drive(f, vs, 3);
}
template <int N, int M> void gvel(int k)
{
    GenericVariable a(1, vvec("x", N)), b(2, vvec("y", N)), m(3, vvec("m", M));
    LinearVelocityFactor f(4, &a, &b, &m, vsym("dt", 0, 0), vsym("sigma", 0, 1), k);
    vint("offset", 0, k);
    VarRef vs[] = {{&a, 0}, {&b, 0}, {&m, 0}};
    drive(f, vs, 3);
}
#define G(n)                                                                                                           \
    extern "C" void h_generic_prior_##n() { gprior<n>(); }                                                             \
    extern "C" void h_generic_between_##n() { gbetween<n>(); }
G(1) G(2) G(3) G(4) G(6)
extern "C" void h_velocity_1_1() { gvel<1, 1>(0); }
extern "C" void h_velocity_3_3() { gvel<3, 3>(0); }
extern "C" void h_velocity_3_2() { gvel<3, 2>(0); }
extern "C" void h_velocity_3_2_1() { gvel<3, 2>(1); }
extern "C" void h_velocity_6_3_3() { gvel<6, 3>(3); }
extern "C" void h_velocity_5_2_2() { gvel<5, 2>(2); }
extern "C" void h_velocity_lm()
{
    LandmarkVariable a(1, vvec3("x")), b(2, vvec3("y"));
    GenericVariable m(3, vvec("m", 3));
    LinearVelocityFactor f(4, &a, &b, &m, vsym("dt", 0, 0), vsym("sigma", 0, 1));
    vint("offset", 0, 0);
    VarRef vs[] = {{&a, 0}, {&b, 0}, {&m, 0}};
    drive(f, vs, 3);
}
extern "C" void h_velocity_pose()
{
    SymPose a(1, "p", "w"), b(2, "o", "q");
    GenericVariable m(3, vvec("m", 3));
    LinearVelocityFactor f(4, &a.v, &b.v, &m, vsym("dt", 0, 0), vsym("sigma", 0, 1));
    VarRef vs[] = {{&a.v, a.v.dcm_CW().data()}, {&b.v, b.v.dcm_CW().data()}, {&m, 0}};
    drive(f, vs, 3);
}
extern "C" void h_prior_landmark()
{
    LandmarkVariable v(1, vvec3("x"));
    GenericPriorFactor f(2, &v, vvec("m", 3), vsym("sigma", 0, 1));
    VarRef vs[] = {{&v, 0}};
    drive(f, vs, 1);
}
extern "C" void h_between_landmark()
{
    LandmarkVariable a(1, vvec3("x")), b(2, vvec3("y"));
    GenericVariable m(3, vvec("m", 3));
    GenericBetweenFactor f(4, &a, &b, &m, vsym("sigma", 0, 1));
    VarRef vs[] = {{&a, 0}, {&b, 0}, {&m, 0}};
    drive(f, vs, 3);
}
