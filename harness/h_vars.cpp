// Contracts of the variable classes (C02, C03, C04): one operation from an arbitrary state satisfying the class invariant.
#include "vassert.hpp"

// what no operation changes, and what a clone shares with its original
struct Frame
{
    Variable& v;
    int prop, id, size, type;
    bool cst;
    Frame(int p, Variable& x) : v(x), prop(p), id(x.id()), size(x.size()), type(int(x.type())), cst(vchoose("constant", 2) == 1)
    {
        v.set_constant(cst);
    }
    bool same(const Variable& x) const { return x.id() == id && x.size() == size && int(x.type()) == type && x.is_constant() == cst; }
    void kept() const
    {
        if (prop == 2) VTRUE("C02", "id, type, size and constancy are kept", same(v));
        else VTRUE("C03", "id, type, size and constancy are kept", same(v));
    }
    void clone(const Variable& c) const
    {
        if (prop == 2) VTRUE("C02", "clone has the id, type, size and constancy of its original", same(c));
        else VTRUE("C03", "clone has the id, type, size and constancy of its original", same(c));
    }
};

// ---------------------------------------------------------------- C02: pose
static void pose_coherent(const PoseVariable& v)
{
    Eigen::Matrix3d E = exp3(v.rot_CW());
    VTOL("C02", "cached rotation = Exp(rotation vector)", "1e-12", v.dcm_CW().data(), E.data(), 9);
    VTRUE("C02", "value has six entries", v.value().size() == 6);
    Vector3d p = v.pos_W(), r = v.rot_CW();
    VEQ("C02", "pos_W() = first half of value()", p.data(), v.value().data(), 3);
    VEQ("C02", "rot_CW() = second half of value()", r.data(), v.value().data() + 3, 3);
}
extern "C" void v_pose()
{
    SymPose s(1, "p", "w");
    Frame fr(2, s.v);
    Vector3d p = vvec3("p");
    Eigen::Matrix3d R = exp3(vvec3("w"));
    VectorXd x = vvec("x", 6);
    Eigen::Matrix<double, 6, 1> x6 = x;
    Vector3d xp = x.head<3>(), xr = x.tail<3>();
    int op = vchoose("op", 6);
    if (op == 0) {
        s.v.apply_increment(x);
        p += xp;
        R = exp3(xr) * R;
    } else if (op == 1) {
        s.v.set_value_from_vector(x);
        VSAME("C02", "value after set", s.v.value(), x);
        p = xp;
        R = exp3(xr);
    } else if (op == 2) {
        s.v.set_pose_vector(x6);
        VSAME("C02", "value after set_pose_vector", s.v.value(), x);
        p = xp;
        R = exp3(xr);
    } else if (op == 3) {
        s.v.set_pos_W(xp);
        p = xp;
    } else if (op == 4) {
        // reading changes nothing
        (void)s.v.value();
        (void)s.v.dcm_CW();
        std::shared_ptr<Variable> c = s.v.clone();
        fr.clone(*c);
        c->apply_increment(x);
        c->set_constant(!fr.cst);
    } else {
        std::shared_ptr<Variable> c = s.v.clone();
        fr.clone(*c);
        s.v.apply_increment(x);
        s.v.set_constant(!fr.cst);
        fr.clone(*c);
        PoseVariable *cp = dynamic_cast<PoseVariable *>(c.get());
        VTRUE("C02", "clone is a pose", cp != nullptr);
        if (!cp) return;
        Vector3d cpos = cp->pos_W();
        VEQ("C02", "clone keeps the position", cpos.data(), p.data(), 3);
        VTOL("C02", "clone keeps the rotation", "1e-12", cp->dcm_CW().data(), R.data(), 9);
        pose_coherent(*cp);
        return;
    }
    fr.kept();
    Vector3d q = s.v.pos_W();
    VEQ("C02", "position", q.data(), p.data(), 3);
    VTOL("C02", "rotation", "1e-12", s.v.dcm_CW().data(), R.data(), 9);
    pose_coherent(s.v);
}
extern "C" void v_pose_ctor()
{
    VectorXd x = vvec("x", 6);
    Eigen::Matrix<double, 6, 1> x6 = x;
    PoseVariable v(7, x6);
    VSAME("C02", "value after construction", v.value(), x);
    VTRUE("C02", "id after construction", v.id() == 7 && !v.is_constant());
    pose_coherent(v);
}
extern "C" void v_pose_dcm()
{
    Eigen::Matrix3d Q = quat3("q");
    Vector3d p = vvec3("p");
    if (vchoose("op", 2)) {
        PoseVariable v(7, p, Q);
        VTRUE("C02", "id after construction", v.id() == 7 && !v.is_constant());
        Vector3d q = v.pos_W();
        VEQ("C02", "position after construction from a matrix", q.data(), p.data(), 3);
        VTOL("C02", "rotation after construction from a matrix", "1e-12", v.dcm_CW().data(), Q.data(), 9);
        pose_coherent(v);
    } else {
        SymPose s(1, "p", "w");
        Frame fr(2, s.v);
        s.v.set_dcm_CW(Q);
        fr.kept();
        Vector3d q = s.v.pos_W();
        VEQ("C02", "position after set_dcm", q.data(), p.data(), 3);
        VTOL("C02", "rotation after set_dcm", "1e-12", s.v.dcm_CW().data(), Q.data(), 9);
        pose_coherent(s.v);
    }
}
static void rot_coherent(const RotationVariable& v)
{
    VTRUE("C02", "value has three entries", v.value().size() == 3);
    if (v.value().size() != 3) return;
    Eigen::Matrix3d E = exp3(v.value());
    VTOL("C02", "rotation() = Exp(value())", "1e-12", v.rotation().data(), E.data(), 9);
}
extern "C" void v_rotation()
{
    SymRot s(1, "w");
    Frame fr(2, s.v);
    Eigen::Matrix3d R = exp3(vvec3("w"));
    VectorXd x = vvec("x", 3);
    int op = vchoose("op", 4);
    if (op == 0) {
        s.v.apply_increment(x);
        R = exp3(x) * R;
    } else if (op == 1) {
        s.v.set_value_from_vector(x);
        VSAME("C02", "value after set", s.v.value(), x);
        R = exp3(x);
    } else if (op == 2) {
        std::shared_ptr<Variable> c = s.v.clone();
        fr.clone(*c);
        c->apply_increment(x);
        c->set_constant(!fr.cst);
    } else {
        std::shared_ptr<Variable> c = s.v.clone();
        fr.clone(*c);
        s.v.apply_increment(x);
        s.v.set_constant(!fr.cst);
        fr.clone(*c);
        RotationVariable *cp = dynamic_cast<RotationVariable *>(c.get());
        VTRUE("C02", "clone is a rotation", cp != nullptr);
        if (!cp) return;
        VTOL("C02", "clone keeps the rotation", "1e-12", cp->rotation().data(), R.data(), 9);
        rot_coherent(*cp);
        return;
    }
    fr.kept();
    VTOL("C02", "rotation", "1e-12", s.v.rotation().data(), R.data(), 9);
    VTOL("C02", "dcm_AB() = rotation()", "1e-12", s.v.dcm_AB().data(), s.v.rotation().data(), 9);
    rot_coherent(s.v);
}
extern "C" void v_rotation_ctor()
{
    Eigen::Matrix3d Q = rot3("q");
    RotationVariable v(7, Q);
    VTRUE("C02", "id after construction", v.id() == 7 && !v.is_constant());
    VTOL("C02", "rotation after construction", "1e-12", v.rotation().data(), Q.data(), 9);
    rot_coherent(v);
}

// ---------------------------------------------------------------- C03: the other variables
template <class V> static void exact(V& v, int n, const char *)
{
    Frame fr(3, v);
    VectorXd x0 = v.value(), x = vvec("y", n), e = x0;
    int op = vchoose("op", 4);
    if (op == 0) {
        v.set_value_from_vector(x);
        e = x;
    } else if (op == 1) {
        v.apply_increment(x);
        for (int i = 0; i < n; i++) e[i] = x0[i] + x[i];
    } else if (op == 2) {
        std::shared_ptr<Variable> c = v.clone();
        fr.clone(*c);
        VSAME("C03", "clone equals original", c->value(), x0);
        c->apply_increment(x);
        VSAME("C03", "clone works like its original", c->value(), VectorXd(x0 + x));
        c->set_value_from_vector(x);
        VSAME("C03", "clone works like its original (set)", c->value(), x);
        c->set_constant(!fr.cst);
    } else {
        std::shared_ptr<Variable> c = v.clone();
        v.apply_increment(x);
        fr.clone(*c);
        VSAME("C03", "clone unaffected by the original", c->value(), x0);
        for (int i = 0; i < n; i++) e[i] = x0[i] + x[i];
    }
    VSAME("C03", "value", v.value(), e);
    fr.kept();
}
template <int N> static void generic()
{
    VectorXd x = vvec("x", N);
    GenericVariable v(5, x);
    VSAME("C03", "value after construction", v.value(), x);
    VTRUE("C03", "id after construction", v.id() == 5 && !v.is_constant());
    exact(v, N, "generic");
}
extern "C" void v_generic_1() { generic<1>(); }
extern "C" void v_generic_2() { generic<2>(); }
extern "C" void v_generic_3() { generic<3>(); }
extern "C" void v_generic_4() { generic<4>(); }
extern "C" void v_generic_6() { generic<6>(); }
extern "C" void v_generic_9() { generic<9>(); }
extern "C" void v_landmark()
{
    Vector3d x = vvec3("x");
    LandmarkVariable v(5, x);
    VSAME("C03", "value after construction", v.value(), x);
    VTRUE("C03", "id after construction", v.id() == 5 && !v.is_constant());
    if (vchoose("setpos", 2)) {
        Vector3d z = vvec3("z");
        v.set_pos_W(z);
        VSAME("C03", "value after set_pos_W", v.value(), z);
        VSAME("C03", "pos_W()", v.pos_W(), z);
        return;
    }
    exact(v, 3, "landmark");
    VSAME("C03", "pos_W() = value()", v.pos_W(), v.value());
}
static double clampd(double x, double lo, double hi)
{
    if (x < lo) x = lo;
    if (x > hi) x = hi;
    return x;
}
extern "C" void v_inverse_range()
{
    Vector3d o = vvec3("o"), u = vvec3("b");
    double rg = vsym("rg", 0, 1), bb = u[0] * u[0] + u[1] * u[1] + u[2] * u[2], lo = 1e-6, hi = 1e3;
    vassume(bb, 2, 1e-12);
    InverseRangeVariable v(5, o, u, rg);
    double n = std::sqrt(bb), e = clampd(1.0 / rg, lo, hi);
    Vector3d eu(u[0] / n, u[1] / n, u[2] / n);
    VSAME("C03", "origin after construction", v.origin_pos_W(), o);
    VSAME("C03", "bearing normalised", v.bearing_W(), eu);
    VSAME("C03", "inverse range after construction", v.value(), VectorXd::Constant(1, e));
    if (vchoose("bounds", 2)) {
        lo = vsym("lo", 0, 1), hi = vsym("hi", 0, 1);
        vassume(lo, 0, hi);
        v.minimum_inverse_range_ = lo;
        v.maximum_inverse_range_ = hi;
    }
    VTRUE("C03", "id after construction", v.id() == 5 && v.size() == 1 && !v.is_constant());
    Frame fr(3, v);
    VectorXd x = vvec("y", 1);
    int op = vchoose("op", 4);
    double before = v.value()[0];
    if (op == 0) {
        v.set_value_from_vector(x);
        e = clampd(x[0], lo, hi);
    } else if (op == 1) {
        v.apply_increment(x);
        e = clampd(before + x[0], lo, hi);
    } else if (op == 2) {
        std::shared_ptr<Variable> c = v.clone();
        fr.clone(*c);
        VSAME("C03", "clone equals original", c->value(), v.value());
        InverseRangeVariable *ci = dynamic_cast<InverseRangeVariable *>(c.get());
        VTRUE("C03", "clone is an inverse range", ci != nullptr);
        if (!ci) return;
        VSAME("C03", "clone has the origin", ci->origin_pos_W(), o);
        VSAME("C03", "clone has the bearing", ci->bearing_W(), eu);
        c->apply_increment(x);
        VSAME("C03", "clone works like its original", c->value(), VectorXd::Constant(1, clampd(before + x[0], lo, hi)));
        c->set_constant(!fr.cst);
        e = before;
    } else {
        VSAME("C03", "inverse_range()", VectorXd::Constant(1, v.inverse_range()), v.value());
        if (before >= 1e-9) {
            Vector3d p = v.pos_W(), ep = o + eu / before;
            VSAME("C03", "pos_W() = origin + bearing / inverse range", p, ep);
        }
        e = before;
    }
    VSAME("C03", "inverse range", v.value(), VectorXd::Constant(1, e));
    VSAME("C03", "origin untouched", v.origin_pos_W(), o);
    VSAME("C03", "bearing untouched", v.bearing_W(), eu);
    fr.kept();
}
static Eigen::Vector4d plane4(double a, double b, double c, double d)
{
    double n = std::sqrt(a * a + b * b + c * c);
    return Eigen::Vector4d(a / n, b / n, c / n, d);
}
static void plane_ok(const PlaneVariable& v, const Eigen::Vector4d& e)
{
    VSAME("C03", "plane value", v.value(), e);
    VSAME("C03", "unit_vector() = head of value()", v.unit_vector(), v.value().head(3));
    double one = 1.0, q = v.unit_vector().squaredNorm(), d = v.distance_from_origin();
    VEQ("C03", "unit normal", &q, &one, 1);
    VEQ("C03", "distance_from_origin() = last of value()", &d, v.value().data() + 3, 1);
    Vector3d p = vvec3("pt");
    double dist = v.distance_from_point(p), ed = e[0] * p[0] + e[1] * p[1] + e[2] * p[2] + e[3];
    VEQ("C03", "distance_from_point = n.p + d", &dist, &ed, 1);
}
extern "C" void v_plane()
{
    Vector3d m = vvec3("m");
    double d = vsym("d", 0, 0), mm = m[0] * m[0] + m[1] * m[1] + m[2] * m[2];
    vassume(mm, 2, 1e-12);
    if (vchoose("ctor", 2)) {
        PlaneVariable v(5, m, d);
        VTRUE("C03", "id after construction", v.id() == 5 && !v.is_constant());
        plane_ok(v, plane4(m[0], m[1], m[2], d));
        return;
    }
    Vector3d u = unit3("u");
    PlaneVariable v(5, u, d);
    Eigen::Vector4d e(u[0], u[1], u[2], d);
    Frame fr(3, v);
    VectorXd x = vvec("y", 4);
    int op = vchoose("op", 4);
    if (op == 0) {
        vassume(x[0] * x[0] + x[1] * x[1] + x[2] * x[2], 2, 1e-12);
        v.set_value_from_vector(x);
        e = plane4(x[0], x[1], x[2], x[3]);
    } else if (op == 1) {
        double a = u[0] + x[0], b = u[1] + x[1], c = u[2] + x[2];
        vassume(a * a + b * b + c * c, 2, 1e-12);
        v.apply_increment(x);
        e = plane4(a, b, c, d + x[3]);
    } else if (op == 2) {
        std::shared_ptr<Variable> c = v.clone();
        fr.clone(*c);
        VSAME("C03", "clone equals original", c->value(), v.value());
        PlaneVariable *cp = dynamic_cast<PlaneVariable *>(c.get());
        VTRUE("C03", "clone is a plane", cp != nullptr);
        if (!cp) return;
        plane_ok(*cp, e);
        vassume(x[0] * x[0] + x[1] * x[1] + x[2] * x[2], 2, 1e-12);
        c->set_value_from_vector(x);
        plane_ok(*cp, plane4(x[0], x[1], x[2], x[3]));
        c->set_constant(!fr.cst);
    } else {
        std::shared_ptr<Variable> c = v.clone();
        vassume(x[0] * x[0] + x[1] * x[1] + x[2] * x[2], 2, 1e-12);
        v.set_value_from_vector(x);
        fr.clone(*c);
        VSAME("C03", "clone unaffected by the original", c->value(), e);
        return;
    }
    plane_ok(v, e);
    fr.kept();
}
static double wrapd(double t) { return std::atan2(std::sin(t), std::cos(t)); }
extern "C" void v_pose2d()
{
    Vector3d x0 = vvec3("x");
    if (vchoose("ctor", 2)) {
        PoseVariable *none = nullptr;
        (void)none;
        Pose2DVariable v(5, x0);
        VTRUE("C03", "id after construction", v.id() == 5 && !v.is_constant());
        VSAME("C03", "value after construction", v.value(), Vector3d(x0[0], x0[1], wrapd(x0[2])));
        return;
    }
    Vector3d s = pose2("p", "t");
    Pose2DVariable v(5, s);
    Frame fr(3, v);
    VectorXd y = vvec("y", 3);
    Vector3d e = s;
    int op = vchoose("op", 6);
    if (op == 0) {
        v.set_value_from_vector(y);
        e = Vector3d(y[0], y[1], wrapd(y[2]));
    } else if (op == 1) {
        v.apply_increment(y);
        e = Vector3d(s[0] + y[0], s[1] + y[1], wrapd(s[2] + y[2]));
    } else if (op == 2) {
        v.set_pos_2d(y.head<2>());
        e = Vector3d(y[0], y[1], s[2]);
    } else if (op == 3) {
        v.set_theta(y[2]);
        e[2] = wrapd(y[2]);
    } else if (op == 4) {
        std::shared_ptr<Variable> c = v.clone();
        fr.clone(*c);
        VSAME("C03", "clone equals original", c->value(), v.value());
        c->apply_increment(y);
        VSAME("C03", "clone works like its original", c->value(), Vector3d(s[0] + y[0], s[1] + y[1], wrapd(s[2] + y[2])));
        c->set_constant(!fr.cst);
    } else {
        std::shared_ptr<Variable> c = v.clone();
        v.apply_increment(y);
        fr.clone(*c);
        VSAME("C03", "clone unaffected by the original", c->value(), e);
        return;
    }
    fr.kept();
    VSAME("C03", "2D pose value", v.value(), e);
    VSAME("C03", "pos_2d()", v.pos_2d(), v.value().head(2));
    double th = v.theta();
    VEQ("C03", "theta()", &th, v.value().data() + 2, 1);
    Eigen::Matrix2d R = v.dcm_2d();
    double ct = std::cos(e[2]), st = std::sin(e[2]), ER[4] = {ct, st, -st, ct};
    VEQ("C03", "dcm_2d()", R.data(), ER, 4);
}

// ---------------------------------------------------------------- C04
static void sizes(Variable& v, const double *R)
{
    int n = vchoose("n", 9), k = v.size(), op = vchoose("op", 2);
    VectorXd before = v.value(), x = vvec("z", n);
    double R0[9];
    for (int i = 0; R && i < 9; i++) R0[i] = R[i];
    bool threw = false;
    try {
        if (op) v.apply_increment(x);
        else v.set_value_from_vector(x);
    } catch (const std::exception&) {
        threw = true;
    }
    if (n == k) {
        VTRUE("C04", "a vector of the right length is accepted", !threw);
        return;
    }
    VTRUE("C04", "a vector of the wrong length is rejected", threw);
    VSAME("C04", "value unchanged after rejection", v.value(), before);
    VTRUE("C04", "size unchanged after rejection", v.size() == k);
    if (R) VEQ("C04", "cached rotation unchanged after rejection", R, R0, 9);
}
extern "C" void v_size_pose()
{
    SymPose s(1, "p", "w");
    sizes(s.v, s.v.dcm_CW().data());
}
extern "C" void v_size_rotation()
{
    SymRot s(1, "w");
    sizes(s.v, s.v.rotation().data());
}
extern "C" void v_size_generic()
{
    int m = 1 + vchoose("m", 6);
    GenericVariable v(5, vvec("x", m));
    sizes(v, nullptr);
}
extern "C" void v_size_landmark()
{
    LandmarkVariable v(5, vvec3("x"));
    sizes(v, nullptr);
}
extern "C" void v_size_inverse_range()
{
    InverseRangeVariable v(5, vvec3("o"), unit3("b"), vsym("rg", 0, 1));
    sizes(v, nullptr);
}
extern "C" void v_size_plane()
{
    PlaneVariable v(5, unit3("u"), vsym("d", 0, 0));
    sizes(v, nullptr);
}
extern "C" void v_size_pose2d()
{
    Pose2DVariable v(5, pose2("p", "t"));
    sizes(v, nullptr);
}
