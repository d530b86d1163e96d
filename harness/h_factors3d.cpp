#include "common.hpp"
#include "factorama/pose_prior_factors.hpp"
#include "factorama/pose_between_factors.hpp"
#include "factorama/rotation_prior_factor.hpp"
#include "factorama/coordinate_transform_factor.hpp"
#include "factorama/plane_factor.hpp"
#include "factorama/plane_prior_factor.hpp"

extern "C" void h_pose_position_prior()
{
    SymPose pose(1, "p", "w");
    PosePositionPriorFactor f(3, &pose.v, vvec3("m"), vsym("sigma", 0, 1));
    VarRef vs[] = {{&pose.v, pose.v.dcm_CW().data()}};
    drive(f, vs, 1);
}
extern "C" void h_pose_orientation_prior()
{
    SymPose pose(1, "p", "w");
    PoseOrientationPriorFactor f(3, &pose.v, rot3("q"), vsym("sigma", 0, 1));
    VarRef vs[] = {{&pose.v, pose.v.dcm_CW().data()}};
    drive(f, vs, 1);
}
extern "C" void h_rotation_prior()
{
    SymRot rot(1, "w");
    RotationPriorFactor f(3, &rot.v, rot3("q"), vsym("sigma", 0, 1));
    VarRef vs[] = {{&rot.v, rot.v.rotation().data()}};
    drive(f, vs, 1);
}
static void pose_position_between(bool local, bool lm)
{
    SymPose a(1, "p", "w"), b(2, "o", "q");
    GenericVariable g(3, vvec("m", 3));
    LandmarkVariable l(3, vvec3("m"));
    Variable *m = lm ? (Variable *)&l : (Variable *)&g;
    PosePositionBetweenFactor f(4, &a.v, &b.v, m, vsym("sigma", 0, 1), local);
    VarRef vs[] = {{&a.v, a.v.dcm_CW().data()}, {&b.v, b.v.dcm_CW().data()}, {m, 0}};
    drive(f, vs, 3);
}
extern "C" void h_pose_position_between() { pose_position_between(false, false); }
extern "C" void h_pose_position_between_lm() { pose_position_between(true, true); }
extern "C" void h_pose_position_between_local() { pose_position_between(true, false); }
extern "C" void h_pose_orientation_between()
{
    SymPose a(1, "p", "w"), b(2, "o", "q");
    SymRot c(3, "c");
    PoseOrientationBetweenFactor f(4, &a.v, &b.v, &c.v, vsym("sigma", 0, 1));
    VarRef vs[] = {{&a.v, a.v.dcm_CW().data()}, {&b.v, b.v.dcm_CW().data()}, {&c.v, c.v.rotation().data()}};
    drive(f, vs, 3);
}
extern "C" void h_coordinate_transform()
{
    SymRot c(1, "w");
    GenericVariable o(2, vvec("o", 3)), s(3, vvec("s", 1));
    LandmarkVariable la(4, vvec3("a")), lb(5, vvec3("b"));
    CoordinateTransformFactor f(6, &c.v, &o, &s, &la, &lb, vsym("sigma", 0, 1));
    VarRef vs[] = {{&c.v, c.v.rotation().data()}, {&o, 0}, {&s, 0}, {&la, 0}, {&lb, 0}};
    drive(f, vs, 5);
}
extern "C" void h_plane()
{
    PlaneVariable pl(1, unit3("u"), vsym("d", 0, 0));
    LandmarkVariable l(2, vvec3("l"));
    PlaneFactor f(3, &l, &pl, vsym("sigma", 0, 1));
    VarRef vs[] = {{&l, 0}, {&pl, 0}};
    drive(f, vs, 2);
}
extern "C" void h_plane_generic()
{
    PlaneVariable pl(1, unit3("u"), vsym("d", 0, 0));
    GenericVariable l(2, vvec("l", 3));
    PlaneFactor f(3, &l, &pl, vsym("sigma", 0, 1));
    VarRef vs[] = {{&l, 0}, {&pl, 0}};
    drive(f, vs, 2);
}
extern "C" void h_plane_scaled()
{
    PlaneVariable pl(1, unit3("u"), vsym("d", 0, 0));
    LandmarkVariable l(2, vvec3("l"));
    Vector3d c = vvec3("c");
    PlaneFactor f(3, &l, &pl, vsym("sigma", 0, 1), true, vsym("r0", 0, 1), c);
    vassume((l.pos_W() - c).squaredNorm(), 3, 1e-12);
    VarRef vs[] = {{&l, 0}, {&pl, 0}};
    drive(f, vs, 2);
}
extern "C" void h_plane_prior()
{
    PlaneVariable pl(1, unit3("u"), vsym("d", 0, 0));
    Vector3d n = vvec3("n");
    vassume(n.squaredNorm(), 2, 0);
    PlanePriorFactor f(3, &pl, n, vsym("m", 0, 0), vsym("sigma", 0, 1), vsym("sigma", 1, 1));
    VarRef vs[] = {{&pl, 0}};
    drive(f, vs, 1);
}
