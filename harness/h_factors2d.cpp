#include "common.hpp"
#include "factorama/bearing_observation_factor_2d.hpp"
#include "factorama/range_bearing_factor_2d.hpp"
#include "factorama/pose_2d_prior_factor.hpp"
#include "factorama/pose_2d_between_factor.hpp"

static void far_enough(const Pose2DVariable& p, const Variable& l)
{
    Eigen::Vector2d d = l.value().head<2>() - p.pos_2d();
    vassume(d.squaredNorm(), 3, 1e-12);
}
extern "C" void h_bearing_2d()
{
    Pose2DVariable p(1, pose2("p", "t"));
    GenericVariable l(2, vvec("l", 2));
    far_enough(p, l);
    BearingObservationFactor2D f(3, &p, &l, vsym("m", 0, 0), vsym("sigma", 0, 1));
    VarRef vs[] = {{&p, 0}, {&l, 0}};
    drive(f, vs, 2);
}
extern "C" void h_range_bearing_2d()
{
    Pose2DVariable p(1, pose2("p", "t"));
    GenericVariable l(2, vvec("l", 2));
    far_enough(p, l);
    double rng = vsym("rg", 0, 1);
    RangeBearingFactor2D f(3, &p, &l, rng, vsym("m", 0, 0), vsym("sigma", 0, 1), vsym("sigma", 1, 1));
    VarRef vs[] = {{&p, 0}, {&l, 0}};
    drive(f, vs, 2);
}
extern "C" void h_pose2d_prior()
{
    Pose2DVariable p(1, pose2("p", "t"));
    Pose2DPriorFactor f(3, &p, vvec3("m"), vsym("sigma", 0, 1), vsym("sigma", 1, 1));
    VarRef vs[] = {{&p, 0}};
    drive(f, vs, 1);
}
static void between(bool local)
{
    Pose2DVariable a(1, pose2("p", "t")), b(2, pose2("o", "v"));
    GenericVariable m(3, vvec("m", 3));
    Pose2DBetweenFactor f(4, &a, &b, &m, vsym("sigma", 0, 1), vsym("sigma", 1, 1), local);
    VarRef vs[] = {{&a, 0}, {&b, 0}, {&m, 0}};
    drive(f, vs, 3);
}
extern "C" void h_pose2d_between() { between(false); }
extern "C" void h_pose2d_between_local() { between(true); }
