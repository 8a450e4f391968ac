// Driver: executes command scripts against the real library and records what it observes, one JSON
// line per command. It uses only the public interface and its extension points: joints, generators,
// linear solvers and integrators are sub-classed so that each evaluation can be recorded.
//
//   driver SCRIPT TRACE
//
// SCRIPT is a sequence of scenarios, each a line "scenario ID" followed by command lines. Every
// scenario runs in a process of its own; if that process dies, a "crash" line is recorded.
// A record is {"e": command, "a": [arguments], "r": {observations}}. Reals are written with "%a".

#include "scs.h"
#include "system_state.h"
#include "sparse_matrix.h"
#include "matrix.h"
#include "conjugate_gradient_sle_solver.h"
#include "gauss_seidel_sle_solver.h"
#include "gaussian_elimination_sle_solver.h"
#include "euler_ode_solver.h"
#include "nsv_ode_solver.h"
#include "rk4_ode_solver.h"
#include "generic_rigid_body_system.h"
#include "optimized_nsv_rigid_body_system.h"
#include "clutch_constraint.h"
#include "constant_rotation_constraint.h"
#include "fixed_position_constraint.h"
#include "fixed_rotation_constraint.h"
#include "line_constraint.h"
#include "link_constraint.h"
#include "rolling_constraint.h"
#include "rotation_friction_constraint.h"
#include "simple_gear_constraint.h"
#include "spring.h"
#include "static_force_generator.h"
#include "gravity_force_generator.h"
#include "constant_speed_motor.h"

#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace atg_scs;
typedef std::vector<std::string> Args;

// ---------------------------------------------------------------------------------------------
// Heap accounting: which blocks allocated by the library are still alive.

extern "C" int __sanitizer_install_malloc_and_free_hooks(
    void (*malloc_hook)(const volatile void *, size_t),
    void (*free_hook)(const volatile void *)) __attribute__((weak));

namespace heap {
    static const size_t Slots = 1u << 20;
    static const void **table = nullptr;
    static int inLibrary = 0;
    static long live = 0;

    static size_t home(const void *p) { return (((size_t)p >> 4) * 0x9E3779B97F4A7C15ull) >> 44; }
    static void onMalloc(const volatile void *p, size_t) {
        if (!inLibrary || table == nullptr) return;
        size_t i = home((const void *)p) % Slots;
        while (table[i] != nullptr && table[i] != (const void *)1) i = (i + 1) % Slots;
        table[i] = (const void *)p;
        ++live;
    }
    static void onFree(const volatile void *p) {
        if (table == nullptr || p == nullptr) return;
        size_t i = home((const void *)p) % Slots;
        for (size_t k = 0; k < 4096 && table[i] != nullptr; ++k, i = (i + 1) % Slots) {
            if (table[i] == (const void *)p) {
                table[i] = (const void *)1;
                --live;
                return;
            }
        }
    }
    struct In { int s; In() : s(inLibrary) { inLibrary = 1; } ~In() { inLibrary = s; } };
    struct Out { int s; Out() : s(inLibrary) { inLibrary = 0; } ~Out() { inLibrary = s; } };
}
#define LIB(code) do { heap::In guard__; code; } while (0)

// ---------------------------------------------------------------------------------------------
// A clock under the driver's control (it replaces the one of the C++ run-time library).

namespace vclock {
    static long long now = 1000000;                 // microseconds
    static void (*onRead)() = nullptr;
}
namespace std { namespace chrono { inline namespace _V2 {
    steady_clock::time_point steady_clock::now() noexcept {
        if (vclock::onRead) vclock::onRead();
        return time_point(duration(vclock::now * 1000));
    }
    system_clock::time_point system_clock::now() noexcept {
        if (vclock::onRead) vclock::onRead();
        return time_point(duration(vclock::now * 1000));
    }
} } }

// ---------------------------------------------------------------------------------------------
// JSON

static std::string num(double v) {
    char buf[64];
    if (std::isnan(v)) return "\"nan\"";
    if (std::isinf(v)) return v > 0 ? "\"inf\"" : "\"-inf\"";
    std::snprintf(buf, sizeof buf, "\"%a\"", v);
    return buf;
}
static std::string num(int v) { return std::to_string(v); }
static std::string num(long v) { return std::to_string(v); }
static std::string str(const std::string &s) {
    std::string o = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') o += '\\';
        if ((unsigned char)c < 32) c = ' ';
        o += c;
    }
    return o + "\"";
}
struct List {
    std::string s; bool first = true;
    List &raw(const std::string &x) { if (!first) s += ","; first = false; s += x; return *this; }
    template <class T> List &add(T v) { return raw(num(v)); }
    std::string done() const { return "[" + s + "]"; }
};
struct Rec {
    std::string s; bool first = true;
    Rec &raw(const char *k, const std::string &x) {
        if (!first) s += ",";
        first = false;
        s += "\""; s += k; s += "\":"; s += x;
        return *this;
    }
    template <class T> Rec &add(const char *k, T v) { return raw(k, num(v)); }
    std::string done() const { return "{" + s + "}"; }
};
template <class T> static std::string arr(const T *v, int n) {
    List l;
    for (int i = 0; i < n; ++i) l.add(v[i]);
    return l.done();
}

static FILE *g_out = nullptr;
static void emit(const std::string &e, const Args &a, const Rec &r) {
    List l;
    for (size_t i = 1; i < a.size(); ++i) {
        char *end = nullptr;
        const std::string &s = a[i];
        const long v = std::strtol(s.c_str(), &end, 10);
        if (!s.empty() && *end == 0 && s.find('x') == std::string::npos) l.add(v);
        else l.raw(str(s));
    }
    const std::string line = "{\"e\":" + str(e) + ",\"a\":" + l.done() + ",\"r\":" + r.done() + "}\n";
    fwrite(line.data(), 1, line.size(), g_out);
    fflush(g_out);
}

// ---------------------------------------------------------------------------------------------
// World

struct System;
static void noteGenerator(const std::string &name);
static void noteJoint(const std::string &name, Constraint *c, const Constraint::Output &o);
static double rd(const std::string &s) { return std::strtod(s.c_str(), nullptr); }

template <class Base>
struct Gen : public Base {
    std::string name;
    virtual void apply(SystemState *state) {
        Base::apply(state);
        heap::Out o;
        noteGenerator(name);
    }
};
template <class Base>
struct Joint : public Base {
    std::string name;
    virtual void calculate(Constraint::Output *output, SystemState *state) {
        // nothing the joint does not set is left to chance
        double *d = (double *)output;
        for (size_t i = 0; i < sizeof(*output) / sizeof(double); ++i) d[i] = NAN;
        Base::calculate(output, state);
        heap::Out o;
        noteJoint(name, this, *output);
    }
};

struct Body { RigidBody b; };
struct JointRef { std::string kind; std::unique_ptr<Constraint> c; };
struct GenRef { std::string kind; std::unique_ptr<ForceGenerator> g; };

struct Eval {
    std::string snap;       // motion, loads, accelerations, reactions as seen at the recording point
    std::string gens, joints;
    List gl; Rec jl;
    std::string rows;
};

struct Recorder;
static Recorder *g_rec = nullptr;

static int g_cost[4] = {0, 0, 0, 0};                // ode, solve, force, eval
static long g_costCount = 0;
static long long g_spent[4] = {0, 0, 0, 0};
static bool g_costOn = false;
static void spend(int phase) {
    if (!g_costOn) return;
    ++g_costCount;
    const long long d = g_cost[phase] == 0 ? 0 : g_cost[phase] + (g_costCount * 7) % 5;
    g_spent[phase] += d;
    vclock::now += d;
}

static std::string snapshot(const SystemState *s, int n, int nc, bool withAcc) {
    Rec r;
    r.raw("px", arr(s->p_x, n)).raw("py", arr(s->p_y, n)).raw("th", arr(s->theta, n));
    r.raw("vx", arr(s->v_x, n)).raw("vy", arr(s->v_y, n)).raw("om", arr(s->v_theta, n));
    r.raw("fx", arr(s->f_x, n)).raw("fy", arr(s->f_y, n)).raw("ft", arr(s->t, n));
    if (withAcc) r.raw("ax", arr(s->a_x, n)).raw("ay", arr(s->a_y, n)).raw("at", arr(s->a_theta, n));
    r.raw("rx", arr(s->r_x, 2 * nc)).raw("ry", arr(s->r_y, 2 * nc)).raw("rt", arr(s->r_t, 2 * nc));
    r.add("dt", s->dt);
    return r.done();
}

struct Recorder {
    RigidBodySystem *sys = nullptr;
    bool nsv = false;
    bool rows = false;              // record the rows every joint reports
    List evals;
    List gens, joints;              // applied / evaluated since the last recording point
    Rec rowRec;
    int starts = 0, ends = 0, steps = 0;

    void point(bool withAcc) {
        const int n = sys->getRigidBodyCount(), nc = sys->getFullConstraintCount();
        Rec r;
        r.raw("s", snapshot(sys->state(), n, nc, withAcc));
        r.raw("g", gens.done()).raw("j", joints.done());
        if (rows) r.raw("rows", rowRec.done());
        evals.raw(r.done());
        gens = List(); joints = List(); rowRec = Rec();
    }
};

static void noteGenerator(const std::string &name) {
    spend(2);
    if (g_rec) g_rec->gens.raw(str(name));
}
static std::string rowsJson(const Constraint::Output &o, int count, int bodies) {
    List l;
    for (int i = 0; i < count; ++i) {
        Rec r;
        r.add("C", o.C[i]).raw("J", arr(o.J[i], 3 * bodies)).raw("Jd", arr(o.J_dot[i], 3 * bodies));
        r.add("vb", o.v_bias[i]).add("lo", o.limits[i][0]).add("hi", o.limits[i][1]);
        r.add("ks", o.ks[i]).add("kd", o.kd[i]);
        l.raw(r.done());
    }
    return l.done();
}
static void noteJoint(const std::string &name, Constraint *c, const Constraint::Output &o) {
    spend(3);
    if (!g_rec) return;
    g_rec->joints.raw(str(name));
    if (g_rec->rows) g_rec->rowRec.raw(name.c_str(), rowsJson(o, c->getConstraintCount(), c->m_bodyCount));
}

// after the solver has returned, the rest of the constraint evaluation takes its time: it is over when
// reactions or accelerations have changed by the next look at the clock
static void tailStarts();
static bool g_tailOpen = false;

template <class Base>
struct Solver : public Base {
    virtual bool solve(SparseMatrix<3> &J, Matrix &W, Matrix &right, Matrix *a, Matrix *b) {
        note();
        const bool ok = Base::solve(J, W, right, a, b);
        tailStarts();
        return ok;
    }
    virtual bool solveWithLimits(SparseMatrix<3> &J, Matrix &W, Matrix &right, Matrix &limits, Matrix *a, Matrix *b) {
        note();
        const bool ok = Base::solveWithLimits(J, W, right, limits, a, b);
        tailStarts();
        return ok;
    }
    void note() {
        heap::Out o;
        spend(1);
        if (g_rec && g_rec->nsv) g_rec->point(false);
    }
};

template <class Base>
struct Ode : public Base {
    virtual void start(SystemState *s, double dt) { if (g_rec) ++g_rec->starts; Base::start(s, dt); }
    virtual bool step(SystemState *s) { if (g_rec) ++g_rec->steps; return Base::step(s); }
    virtual void solve(SystemState *s) {
        {
            heap::Out o;
            g_tailOpen = false;
            spend(0);
            if (g_rec && !g_rec->nsv) g_rec->point(true);
        }
        Base::solve(s);
    }
    virtual void end() { if (g_rec) ++g_rec->ends; Base::end(); }
};

struct Sys {
    bool nsv = false;
    std::unique_ptr<RigidBodySystem> s;
};

// sparse matrices of several shapes behind one interface
struct AnySparse {
    virtual ~AnySparse() {}
    virtual void initialize(int w, int h) = 0;
    virtual void resize(int w, int h) = 0;
    virtual void destroy() = 0;
    virtual void setBlock(int r, int e, int b) = 0;
    virtual void set(int r, int e, int s, double v) = 0;
    virtual double get(int r, int e, int s) = 0;
    virtual void setEmpty(int r, int e) = 0;
    virtual void expand(Matrix *m) = 0;
    virtual void expandTransposed(Matrix *m) = 0;
    virtual bool multiplyTranspose(AnySparse *b, Matrix *t) = 0;
    virtual void transposeMultiplyVector(Matrix &b, Matrix *t) = 0;
    virtual void multiply(Matrix &b, Matrix *t) = 0;
    virtual bool rightScale(Matrix &s, AnySparse *t) = 0;
    virtual bool leftScale(Matrix &s, AnySparse *t) = 0;
    virtual int width() = 0;
    virtual int height() = 0;
    virtual int stride() = 0;
    virtual int entries() = 0;
    virtual SparseMatrix<3> *three() { return nullptr; }
};
static inline SparseMatrix<3> *asThree(SparseMatrix<3, 2> *m) { return m; }
template <class T> static inline SparseMatrix<3> *asThree(T *) { return nullptr; }

// Scaling into a matrix of the same kind; where the library only takes a two-entry target, into that one.
template <class M> static auto scaleRight(M &m, Matrix &s, M *t, int) -> decltype(m.rightScale(s, t)) { m.rightScale(s, t); }
template <class M> static auto scaleLeft(M &m, Matrix &s, M *t, int) -> decltype(m.leftScale(s, t)) { m.leftScale(s, t); }
template <int S, int E> static void scaleRight(SparseMatrix<S, E> &m, Matrix &s, SparseMatrix<S, E> *, long) {
    SparseMatrix<S> two;
    m.rightScale(s, &two);
    two.destroy();
}
template <int S, int E> static void scaleLeft(SparseMatrix<S, E> &m, Matrix &s, SparseMatrix<S, E> *, long) {
    SparseMatrix<S> two;
    m.leftScale(s, &two);
    two.destroy();
}
template <int S, int E> struct Sparse : public AnySparse {
    SparseMatrix<S, E> m;
    void initialize(int w, int h) { m.initialize(w, h); }
    void resize(int w, int h) { m.resize(w, h); }
    void destroy() { m.destroy(); }
    void setBlock(int r, int e, int b) { m.setBlock(r, e, b); }
    void set(int r, int e, int s, double v) { m.set(r, e, s, v); }
    double get(int r, int e, int s) { return m.get(r, e, s); }
    void setEmpty(int r, int e) { m.setEmpty(r, e); }
    void expand(Matrix *t) { m.expand(t); }
    void expandTransposed(Matrix *t) { m.expandTransposed(t); }
    bool multiplyTranspose(AnySparse *b, Matrix *t) {
        Sparse<S, E> *o = dynamic_cast<Sparse<S, E> *>(b);
        if (!o) return false;
        m.multiplyTranspose(o->m, t);
        return true;
    }
    void transposeMultiplyVector(Matrix &b, Matrix *t) { m.transposeMultiplyVector(b, t); }
    void multiply(Matrix &b, Matrix *t) { m.multiply(b, t); }
    bool rightScale(Matrix &s, AnySparse *t) {
        Sparse<S, E> *o = dynamic_cast<Sparse<S, E> *>(t);
        if (o) scaleRight(m, s, &o->m, 0);
        return o;
    }
    bool leftScale(Matrix &s, AnySparse *t) {
        Sparse<S, E> *o = dynamic_cast<Sparse<S, E> *>(t);
        if (o) scaleLeft(m, s, &o->m, 0);
        return o;
    }
    int width() { return m.getWidth(); }
    int height() { return m.getHeight(); }
    int stride() { return S; }
    int entries() { return E; }
    SparseMatrix<3> *three() { return asThree(&m); }
};
static AnySparse *makeSparse(int s, int e) {
    if (s == 3 && e == 2) return new Sparse<3, 2>;
    if (s == 1 && e == 2) return new Sparse<1, 2>;
    if (s == 2 && e == 2) return new Sparse<2, 2>;
    if (s == 4 && e == 2) return new Sparse<4, 2>;
    if (s == 2 && e == 1) return new Sparse<2, 1>;
    if (s == 3 && e == 3) return new Sparse<3, 3>;
    if (s == 1 && e == 4) return new Sparse<1, 4>;
    return nullptr;
}

struct World {
    std::map<std::string, std::unique_ptr<Body>> bodies;
    std::map<std::string, JointRef> joints;
    std::map<std::string, GenRef> gens;
    std::map<std::string, std::unique_ptr<SleSolver>> solvers;
    std::map<std::string, std::unique_ptr<OdeSolver>> odes;
    std::map<std::string, Sys> systems;
    std::map<std::string, std::unique_ptr<SystemState>> states;
    std::map<std::string, std::unique_ptr<Matrix>> mats;
    std::map<std::string, std::unique_ptr<AnySparse>> sparses;
    std::vector<std::string> bodyOrder, jointOrder, genOrder;
    bool rows = false;
};
static World *W = nullptr;

[[noreturn]] static void die(const std::string &why) {
    std::fprintf(stderr, "driver: %s\n", why.c_str());
    _exit(99);
}
template <class M> static typename M::mapped_type &at(M &m, const std::string &k) {
    auto i = m.find(k);
    if (i == m.end()) die("no object " + k);
    return i->second;
}
static RigidBody *body(const std::string &n) { return n == "-" ? nullptr : &at(W->bodies, n)->b; }

// -- joints
static Constraint *makeJoint(const std::string &kind, const std::string &name) {
#define MK(K, T) if (kind == K) { auto *j = new Joint<T>; j->name = name; return j; }
    MK("pin", FixedPositionConstraint) MK("rot", FixedRotationConstraint) MK("line", LineConstraint)
    MK("link", LinkConstraint) MK("roll", RollingConstraint) MK("clutch", ClutchConstraint)
    MK("gear", SimpleGearConstraint) MK("fric", RotationFrictionConstraint) MK("crot", ConstantRotationConstraint)
#undef MK
    die("joint kind " + kind);
}
static void jointParams(const std::string &kind, Constraint *c, const std::vector<double> &p) {
    if (kind == "pin") {
        auto *j = static_cast<FixedPositionConstraint *>(c);
        j->setLocalPosition(p[0], p[1]); j->setWorldPosition(p[2], p[3]); j->m_ks = p[4]; j->m_kd = p[5];
    } else if (kind == "rot") {
        auto *j = static_cast<FixedRotationConstraint *>(c);
        j->m_rotation = p[0]; j->m_ks = p[1]; j->m_kd = p[2];
    } else if (kind == "line") {
        auto *j = static_cast<LineConstraint *>(c);
        j->m_local_x = p[0]; j->m_local_y = p[1]; j->m_p0_x = p[2]; j->m_p0_y = p[3];
        j->m_dx = p[4]; j->m_dy = p[5]; j->m_ks = p[6]; j->m_kd = p[7];
    } else if (kind == "link") {
        auto *j = static_cast<LinkConstraint *>(c);
        j->setLocalPosition1(p[0], p[1]); j->setLocalPosition2(p[2], p[3]); j->m_maxForce = p[4]; j->m_ks = p[5]; j->m_kd = p[6];
    } else if (kind == "roll") {
        auto *j = static_cast<RollingConstraint *>(c);
        j->m_local_x = p[0]; j->m_local_y = p[1]; j->m_dx = p[2]; j->m_dy = p[3]; j->m_radius = p[4]; j->m_ks = p[5]; j->m_kd = p[6];
    } else if (kind == "clutch") {
        auto *j = static_cast<ClutchConstraint *>(c);
        j->m_minTorque = p[0]; j->m_maxTorque = p[1]; j->m_ks = p[2]; j->m_kd = p[3];
    } else if (kind == "gear") {
        auto *j = static_cast<SimpleGearConstraint *>(c);
        j->m_ratio = p[0]; j->m_neutral = p[1] != 0; j->m_ks = p[2]; j->m_kd = p[3];
    } else if (kind == "fric") {
        auto *j = static_cast<RotationFrictionConstraint *>(c);
        j->m_minTorque = p[0]; j->m_maxTorque = p[1]; j->m_ks = p[2]; j->m_kd = p[3];
    } else if (kind == "crot") {
        auto *j = static_cast<ConstantRotationConstraint *>(c);
        j->m_rotationSpeed = p[0]; j->m_minTorque = p[1]; j->m_maxTorque = p[2]; j->m_ks = p[3]; j->m_kd = p[4];
    } else die("joint kind " + kind);
}
// -- generators
static ForceGenerator *makeGen(const std::string &kind, const std::string &name) {
#define MK(K, T) if (kind == K) { auto *g = new Gen<T>; g->name = name; return g; }
    MK("gravity", GravityForceGenerator) MK("static", StaticForceGenerator) MK("spring", Spring) MK("motor", ConstantSpeedMotor)
#undef MK
    die("generator kind " + kind);
}
static void genParams(const std::string &kind, ForceGenerator *f, const std::vector<double> &p) {
    if (kind == "gravity") {
        static_cast<GravityForceGenerator *>(f)->m_g = p[0];
    } else if (kind == "static") {
        auto *g = static_cast<StaticForceGenerator *>(f);
        g->setForce(p[0], p[1]); g->setPosition(p[2], p[3]);
    } else if (kind == "spring") {
        auto *g = static_cast<Spring *>(f);
        g->m_p1_x = p[0]; g->m_p1_y = p[1]; g->m_p2_x = p[2]; g->m_p2_y = p[3];
        g->m_restLength = p[4]; g->m_ks = p[5]; g->m_kd = p[6];
    } else if (kind == "motor") {
        auto *g = static_cast<ConstantSpeedMotor *>(f);
        g->m_ks = p[0]; g->m_kd = p[1]; g->m_maxTorque = p[2]; g->m_speed = p[3];
    } else die("generator kind " + kind);
}
static void genBodies(const std::string &kind, ForceGenerator *f, RigidBody *a, RigidBody *b) {
    if (kind == "static") static_cast<StaticForceGenerator *>(f)->m_body = a;
    else if (kind == "spring") { static_cast<Spring *>(f)->m_body1 = a; static_cast<Spring *>(f)->m_body2 = b; }
    else if (kind == "motor") { static_cast<ConstantSpeedMotor *>(f)->m_body0 = a; static_cast<ConstantSpeedMotor *>(f)->m_body1 = b; }
}

// -- observations
static std::string bodyJson(const RigidBody &b) {
    List l;
    l.add(b.p_x).add(b.p_y).add(b.theta).add(b.v_x).add(b.v_y).add(b.v_theta).add(b.m).add(b.I);
    return l.done();
}
static void observeBodies(Rec &r) {
    Rec o;
    for (auto &n : W->bodyOrder) o.raw(n.c_str(), bodyJson(W->bodies[n]->b));
    r.raw("bodies", o.done());
}
static void observeReactions(Rec &r) {
    Rec o;
    for (auto &n : W->jointOrder) {
        Constraint *c = W->joints[n].c.get();
        List rows;
        for (int i = 0; i < c->getConstraintCount(); ++i) {
            List slots;
            for (int k = 0; k < c->m_bodyCount; ++k) {
                List f;
                f.add(c->F_x[i][k]).add(c->F_y[i][k]).add(c->F_t[i][k]);
                slots.raw(f.done());
            }
            rows.raw(slots.done());
        }
        o.raw(n.c_str(), rows.done());
    }
    r.raw("F", o.done());
}
static void observeIndices(Rec &r) {
    Rec b, j, g;
    for (auto &n : W->bodyOrder) b.add(n.c_str(), W->bodies[n]->b.index);
    for (auto &n : W->jointOrder) j.add(n.c_str(), W->joints[n].c->m_index);
    for (auto &n : W->genOrder) g.add(n.c_str(), W->gens[n].g->m_index);
    r.raw("ib", b.done()).raw("ij", j.done()).raw("ig", g.done());
}
static void observeSystem(Sys &s, Rec &r) {
    r.add("nb", s.s->getRigidBodyCount()).add("nj", s.s->getConstraintCount());
    r.add("ng", s.s->getForceGeneratorCount()).add("nf", s.s->getFullConstraintCount());
    List at;
    for (int i = 0; i < s.s->getRigidBodyCount(); ++i) {
        RigidBody *b = s.s->getRigidBody(i);
        std::string name = "?";
        for (auto &n : W->bodyOrder) if (&W->bodies[n]->b == b) name = n;
        at.raw(str(name));
    }
    r.raw("at", at.done());
    if (s.nsv) r.add("t", static_cast<OptimizedNsvRigidBodySystem *>(s.s.get())->timeElapsed());
    else r.add("t", 0.0);
}
static std::string matJson(Matrix &m) {
    Rec r;
    r.add("w", m.getWidth()).add("h", m.getHeight());
    List rows;
    for (int i = 0; i < m.getHeight(); ++i) {
        List l;
        for (int j = 0; j < m.getWidth(); ++j) l.add(m.get(j, i));
        rows.raw(l.done());
    }
    r.raw("c", rows.done());
    return r.done();
}
static std::string sparseJson(AnySparse &s) {      // through the expansion, which is part of the interface
    Matrix m;
    s.expand(&m);
    const std::string out = matJson(m);
    m.destroy();
    return out;
}
static std::string stateJson(const SystemState &s) {
    Rec r;
    r.add("n", s.n).add("nc", s.n_c);
#define A(K, F) r.raw(K, arr(s.F, s.n))
    A("px", p_x); A("py", p_y); A("th", theta); A("vx", v_x); A("vy", v_y); A("om", v_theta);
    A("ax", a_x); A("ay", a_y); A("at", a_theta); A("fx", f_x); A("fy", f_y); A("ft", t); A("m", m);
#undef A
    r.raw("rx", arr(s.r_x, 2 * s.n_c)).raw("ry", arr(s.r_y, 2 * s.n_c)).raw("rt", arr(s.r_t, 2 * s.n_c));
    r.raw("im", arr(s.indexMap, s.n_c));
    r.add("dt", s.dt);
    return r.done();
}

// the impulse-based system's integrator is a private part of it: time passes in it when the
// positions have changed since the last look at the clock
static const SystemState *g_watch = nullptr;
static int g_watchN = 0;
static double g_watchSum = 0;
static double positionSum() {
    double s = 0;
    for (int i = 0; i < g_watchN; ++i) s += g_watch->p_x[i] * (i + 1) + g_watch->p_y[i] * (i + 3);
    return s;
}
static const SystemState *g_tail = nullptr;
static double g_tailSum = 0;
static int g_tailN = 0, g_tailRows = 0;
static double tailSum() {
    double s = 0;
    for (int i = 0; i < g_tailN; ++i) s += g_tail->a_x[i] * (i + 1) + g_tail->a_y[i] * (i + 3) + g_tail->a_theta[i] * (i + 7);
    for (int i = 0; i < 2 * g_tailRows; ++i) s += g_tail->r_x[i] * (i + 2) + g_tail->r_y[i] * (i + 5) + g_tail->r_t[i] * (i + 11);
    return s;
}
static void tailStarts() {
    g_tailOpen = g_costOn && g_cost[3] != 0 && g_tail && g_tail->n >= g_tailN && g_tail->n_c >= g_tailRows;
    if (g_tailOpen) g_tailSum = tailSum();
}
static void clockRead() {
    if (g_tailOpen) {
        const double s = tailSum();
        if (s != g_tailSum && !(std::isnan(s) && std::isnan(g_tailSum))) { g_tailOpen = false; spend(3); }
    }
    if (!g_watch || g_watch->n < g_watchN) return;
    const double s = positionSum();
    if (s != g_watchSum) { g_watchSum = s; g_tailOpen = false; spend(0); }
}

static void doProcess(const Args &a, Rec &r) {
    Sys &s = at(W->systems, a[1]);
    const double dt = rd(a[2]);
    const int steps = std::atoi(a[3].c_str());
    const bool quiet = a.size() > 4 && a[4] == "quiet";
    Recorder rec;
    rec.sys = s.s.get();
    rec.nsv = s.nsv;
    rec.rows = W->rows;
    g_rec = quiet ? nullptr : &rec;
    for (int i = 0; i < 4; ++i) g_spent[i] = 0;
    g_watch = nullptr;
    if (s.nsv && g_costOn) {
        // positions the state will hold when the first evaluation starts
        g_watchN = s.s->getRigidBodyCount();
        g_watchSum = 0;
        for (int i = 0; i < g_watchN; ++i) {
            RigidBody *b = s.s->getRigidBody(i);
            g_watchSum += b->p_x * (i + 1) + b->p_y * (i + 3);
        }
        g_watch = s.s->state();
    }
    g_tailOpen = false;
    if (g_costOn) {
        g_tail = s.s->state();
        g_tailN = s.s->getRigidBodyCount();
        g_tailRows = s.s->getFullConstraintCount();
        vclock::onRead = clockRead;
    }
    LIB(if (steps == 1 && a.size() > 5) s.s->process(dt); else s.s->process(dt, steps));
    vclock::onRead = nullptr;
    g_rec = nullptr;
    r.raw("evals", rec.evals.done());
    r.raw("tailg", rec.gens.done()).raw("tailj", rec.joints.done());
    r.add("starts", rec.starts).add("odesteps", rec.steps).add("ends", rec.ends);
    if (!quiet) {
        const int n = s.s->getRigidBodyCount(), nc = s.s->getFullConstraintCount();
        r.raw("last", snapshot(s.s->state(), n, nc, true));
    }
    r.raw("spent", List().add((long)g_spent[0]).add((long)g_spent[1]).add((long)g_spent[2]).add((long)g_spent[3]).done());
    observeBodies(r);
    observeReactions(r);
    Rec ij;
    for (auto &n : W->jointOrder) ij.add(n.c_str(), W->joints[n].c->m_index);
    r.raw("ij", ij.done());
    List at;
    for (int i = 0; i < s.s->getRigidBodyCount(); ++i) {
        RigidBody *b = s.s->getRigidBody(i);
        std::string name = "?";
        for (auto &n : W->bodyOrder) if (&W->bodies[n]->b == b) name = n;
        at.raw(str(name));
    }
    r.raw("at", at.done());
    if (s.nsv) r.add("t", static_cast<OptimizedNsvRigidBodySystem *>(s.s.get())->timeElapsed());
    else r.add("t", 0.0);
}

template <class C> static void dropSolverLimits(C *) {}

static std::vector<double> reals(const Args &a, size_t from) {
    std::vector<double> p;
    for (size_t i = from; i < a.size(); ++i) p.push_back(rd(a[i]));
    p.resize(p.size() + 12, 0.0);
    return p;
}
static Matrix *mat(const std::string &n) { return n == "-" ? nullptr : at(W->mats, n).get(); }

static void command(const Args &a) {
    const std::string &c = a[0];
    Rec r;
    const auto I = [&](size_t i) { return std::atoi(a[i].c_str()); };
    const auto D = [&](size_t i) { return rd(a[i]); };

    if (c == "body") {
        W->bodies[a[1]].reset(new Body);
        W->bodyOrder.push_back(a[1]);
        RigidBody &b = W->bodies[a[1]]->b;
        r.raw("fresh", bodyJson(b)).add("index", b.index);
        b.p_x = D(2); b.p_y = D(3); b.theta = D(4); b.v_x = D(5); b.v_y = D(6); b.v_theta = D(7); b.m = D(8); b.I = D(9);
    } else if (c == "bset") {
        RigidBody &b = *body(a[1]);
        b.p_x = D(2); b.p_y = D(3); b.theta = D(4); b.v_x = D(5); b.v_y = D(6); b.v_theta = D(7);
    } else if (c == "bmass") {
        body(a[1])->m = D(2); body(a[1])->I = D(3);
    } else if (c == "breset") {
        LIB(body(a[1])->reset());
        r.raw("b", bodyJson(*body(a[1]))).add("index", body(a[1])->index);
    } else if (c == "bget") {
        r.raw("b", bodyJson(*body(a[1]))).add("index", body(a[1])->index);
    } else if (c == "energy") {
        r.add("E", body(a[1])->energy());
    } else if (c == "l2w" || c == "w2l") {
        double x, y, x2, y2;
        if (c == "l2w") { body(a[1])->localToWorld(D(2), D(3), &x, &y); body(a[1])->worldToLocal(x, y, &x2, &y2); }
        else { body(a[1])->worldToLocal(D(2), D(3), &x, &y); body(a[1])->localToWorld(x, y, &x2, &y2); }
        r.add("x", x).add("y", y).add("bx", x2).add("by", y2);
    } else if (c == "joint") {
        JointRef &j = W->joints[a[1]];
        j.kind = a[2];
        j.c.reset(makeJoint(a[2], a[1]));
        W->jointOrder.push_back(a[1]);
        r.add("index", j.c->m_index).add("rows", j.c->getConstraintCount()).add("bodies", j.c->m_bodyCount);
        for (int k = 0; k < Constraint::MaxBodyCount; ++k) if (j.c->m_bodies[k] != nullptr) r.add("unset", k);
        if (a[3] != "-") j.c->m_bodies[0] = body(a[3]);
        if (a[4] != "-") j.c->m_bodies[1] = body(a[4]);
        jointParams(a[2], j.c.get(), reals(a, 5));
    } else if (c == "jset") {
        JointRef &j = at(W->joints, a[1]);
        jointParams(j.kind, j.c.get(), reals(a, 2));
    } else if (c == "gen") {
        GenRef &g = W->gens[a[1]];
        g.kind = a[2];
        g.g.reset(makeGen(a[2], a[1]));
        W->genOrder.push_back(a[1]);
        genBodies(a[2], g.g.get(), body(a[3]), body(a[4]));
        genParams(a[2], g.g.get(), reals(a, 5));
    } else if (c == "gset") {
        GenRef &g = at(W->gens, a[1]);
        genParams(g.kind, g.g.get(), reals(a, 2));
    } else if (c == "springobs") {
        Spring *s = static_cast<Spring *>(at(W->gens, a[1]).g.get());
        double x1 = NAN, y1 = NAN, x2 = NAN, y2 = NAN;
        LIB(s->getEnds(&x1, &y1, &x2, &y2));
        r.add("E", s->energy()).add("x1", x1).add("y1", y1).add("x2", x2).add("y2", y2);
    } else if (c == "solver") {
        auto &s = W->solvers[a[1]];
        if (a[2] == "ge") LIB(s.reset(new Solver<GaussianEliminationSleSolver>));
        else if (a[2] == "gs") {
            Solver<GaussSeidelSleSolver> *g = nullptr;
            LIB(g = new Solver<GaussSeidelSleSolver>);
            s.reset(g);
            if (a[3] != "-") g->m_maxIterations = I(3);
            if (a[4] != "-") g->m_minDelta = D(4);
            r.add("it", g->m_maxIterations).add("delta", g->m_minDelta);
        } else {
            Solver<ConjugateGradientSleSolver> *g = nullptr;
            LIB(g = new Solver<ConjugateGradientSleSolver>);
            s.reset(g);
            if (a[3] != "-") g->setMaxIterations(I(3));
            if (a[4] != "-") g->setMaxError(D(4));
            if (a[5] != "-") g->setMinError(D(5));
            r.add("it", g->getMaxIterations()).add("maxerr", g->getMaxError()).add("minerr", g->getMinError());
        }
        r.add("limits", s->supportsLimits() ? 1 : 0);
    } else if (c == "ode") {
        auto &o = W->odes[a[1]];
        if (a[2] == "euler") LIB(o.reset(new Ode<EulerOdeSolver>));
        else if (a[2] == "nsv") LIB(o.reset(new Ode<NsvOdeSolver>));
        else LIB(o.reset(new Ode<Rk4OdeSolver>));
    } else if (c == "sys") {                     // sys N nsv SOLVER BETA | sys N gen SOLVER ODE
        Sys &s = W->systems[a[1]];
        s.nsv = a[2] == "nsv";
        if (s.nsv) {
            OptimizedNsvRigidBodySystem *y = nullptr;
            LIB(y = new OptimizedNsvRigidBodySystem; y->initialize(at(W->solvers, a[3]).get()));
            r.add("beta", y->m_biasFactor);
            if (a[4] != "-") y->m_biasFactor = D(4);
            s.s.reset(y);
        } else {
            GenericRigidBodySystem *y = nullptr;
            LIB(y = new GenericRigidBodySystem; y->initialize(at(W->solvers, a[3]).get(), at(W->odes, a[4]).get()));
            s.s.reset(y);
        }
        observeSystem(s, r);
    } else if (c == "init") {
        Sys &s = at(W->systems, a[1]);
        if (s.nsv) LIB(static_cast<OptimizedNsvRigidBodySystem *>(s.s.get())->initialize(at(W->solvers, a[2]).get()));
        else LIB(static_cast<GenericRigidBodySystem *>(s.s.get())->initialize(at(W->solvers, a[2]).get(), at(W->odes, a[3]).get()));
    } else if (c == "beta") {
        static_cast<OptimizedNsvRigidBodySystem *>(at(W->systems, a[1]).s.get())->m_biasFactor = D(2);
    } else if (c == "addb" || c == "remb" || c == "addj" || c == "remj" || c == "addg" || c == "remg" || c == "reset") {
        Sys &s = at(W->systems, a[1]);
        if (c == "addb") LIB(s.s->addRigidBody(body(a[2])));
        else if (c == "remb") LIB(s.s->removeRigidBody(body(a[2])));
        else if (c == "addj") LIB(s.s->addConstraint(at(W->joints, a[2]).c.get()));
        else if (c == "remj") LIB(s.s->removeConstraint(at(W->joints, a[2]).c.get()));
        else if (c == "addg") LIB(s.s->addForceGenerator(at(W->gens, a[2]).g.get()));
        else if (c == "remg") LIB(s.s->removeForceGenerator(at(W->gens, a[2]).g.get()));
        else LIB(s.s->reset());
        if (W->bodyOrder.size() < 40) {
            observeIndices(r);
            observeSystem(s, r);
            observeBodies(r);
        }
    } else if (c == "obs") {
        observeIndices(r);
        observeSystem(at(W->systems, a[1]), r);
        observeBodies(r);
    } else if (c == "process") {
        doProcess(a, r);
    } else if (c == "runs") {                    // runs SYS dt steps count: the same call, many times
        Sys &s = at(W->systems, a[1]);
        List l;
        for (int k = 0; k < I(4); ++k) {
            Rec q;
            Args b = {"process", a[1], a[2], a[3], "quiet"};
            doProcess(b, q);
            l.raw(List().add((long)g_spent[0]).add((long)g_spent[1]).add((long)g_spent[2]).add((long)g_spent[3]).done());
        }
        r.raw("spent", l.done());
        observeBodies(r);
        observeReactions(r);
        if (s.nsv) r.add("t", static_cast<OptimizedNsvRigidBodySystem *>(s.s.get())->timeElapsed());
        else r.add("t", 0.0);
    } else if (c == "cost") {
        g_costOn = true;
        for (int i = 0; i < 4; ++i) g_cost[i] = I(1 + i);
    } else if (c == "profile") {
        RigidBodySystem *s = at(W->systems, a[1]).s.get();
        r.add("ode", (double)s->getOdeSolveMicroseconds()).add("solve", (double)s->getConstraintSolveMicroseconds());
        r.add("force", (double)s->getForceEvalMicroseconds()).add("eval", (double)s->getConstraintEvalMicroseconds());
    } else if (c == "delsys") {
        LIB(at(W->systems, a[1]).s.reset());
        W->systems.erase(a[1]);
    } else if (c == "delsolver") {
        LIB(at(W->solvers, a[1]).reset());
        W->solvers.erase(a[1]);
    } else if (c == "delode") {
        LIB(at(W->odes, a[1]).reset());
        W->odes.erase(a[1]);
    } else if (c == "heap") {
        r.add("live", heap::live);
    } else if (c == "rows") {
        W->rows = true;
    } else if (c == "tag" || c == "same") {      // decided by the specification alone
    } else if (c == "calc") {                    // calc JOINT STATE: the rows a joint reports
        Constraint *j = at(W->joints, a[1]).c.get();
        Constraint::Output o;
        LIB(j->calculate(&o, at(W->states, a[2]).get()));
        r.raw("rows", rowsJson(o, j->getConstraintCount(), j->m_bodyCount));
        List ix;
        for (int k = 0; k < j->m_bodyCount; ++k) ix.add(j->m_bodies[k]->index);
        r.raw("ix", ix.done());
        r.raw("st", stateJson(*at(W->states, a[2])));
    } else if (c == "apply") {                   // apply GEN STATE
        LIB(at(W->gens, a[1]).g->apply(at(W->states, a[2]).get()));
        r.raw("st", stateJson(*at(W->states, a[2])));
        observeIndices(r);
    // -- states
    } else if (c == "st") {
        LIB(W->states[a[1]].reset(new SystemState));
    } else if (c == "stresize") {
        LIB(at(W->states, a[1])->resize(I(2), I(3)));
        r.add("n", at(W->states, a[1])->n).add("nc", at(W->states, a[1])->n_c);
    } else if (c == "stfill") {                  // stfill N SEED: distinct values everywhere
        SystemState &s = *at(W->states, a[1]);
        double v = D(2);
        double *one[] = {s.p_x, s.p_y, s.theta, s.v_x, s.v_y, s.v_theta, s.a_x, s.a_y, s.a_theta, s.f_x, s.f_y, s.t, s.m};
        for (double *p : one) for (int i = 0; i < s.n; ++i) { p[i] = v; v += 0.5; }
        double *two[] = {s.r_x, s.r_y, s.r_t};
        for (double *p : two) for (int i = 0; i < 2 * s.n_c; ++i) { p[i] = v; v += 0.5; }
        for (int i = 0; i < s.n_c; ++i) s.indexMap[i] = (int)(v * 2) + i;
        s.dt = v;
        r.raw("st", stateJson(s));
    } else if (c == "stset") {                   // stset N i px py th vx vy om
        SystemState &s = *at(W->states, a[1]);
        const int i = I(2);
        s.p_x[i] = D(3); s.p_y[i] = D(4); s.theta[i] = D(5); s.v_x[i] = D(6); s.v_y[i] = D(7); s.v_theta[i] = D(8);
    } else if (c == "stacc") {
        SystemState &s = *at(W->states, a[1]);
        const int i = I(2);
        s.a_x[i] = D(3); s.a_y[i] = D(4); s.a_theta[i] = D(5);
    } else if (c == "stload") {
        SystemState &s = *at(W->states, a[1]);
        const int i = I(2);
        s.f_x[i] = D(3); s.f_y[i] = D(4); s.t[i] = D(5); s.m[i] = D(6);
    } else if (c == "streact") {                 // streact N slot x y t
        SystemState &s = *at(W->states, a[1]);
        const int i = I(2);
        s.r_x[i] = D(3); s.r_y[i] = D(4); s.r_t[i] = D(5);
    } else if (c == "stmap") {                   // stmap N row v
        at(W->states, a[1])->indexMap[I(2)] = I(3);
    } else if (c == "stcopy") {
        LIB(at(W->states, a[1])->copy(at(W->states, a[2]).get()));
        r.raw("st", stateJson(*at(W->states, a[1]))).raw("src", stateJson(*at(W->states, a[2])));
    } else if (c == "stget") {
        r.raw("st", stateJson(*at(W->states, a[1])));
    } else if (c == "stdestroy") {
        LIB(at(W->states, a[1])->destroy());
        r.add("n", at(W->states, a[1])->n).add("nc", at(W->states, a[1])->n_c);
    } else if (c == "stfree") {
        LIB(at(W->states, a[1]).reset());
        W->states.erase(a[1]);
    } else if (c == "stl2w" || c == "stvel") {   // stl2w N i x y
        double x, y;
        SystemState &s = *at(W->states, a[1]);
        if (c == "stl2w") s.localToWorld(D(3), D(4), &x, &y, I(2));
        else s.velocityAtPoint(D(3), D(4), &x, &y, I(2));
        r.add("x", x).add("y", y);
    } else if (c == "stforce") {                 // stforce N i x y fx fy
        SystemState &s = *at(W->states, a[1]);
        LIB(s.applyForce(D(3), D(4), D(5), D(6), I(2)));
        r.raw("st", stateJson(s));
    // -- integrators
    } else if (c == "ostart") {
        LIB(at(W->odes, a[1])->start(at(W->states, a[2]).get(), D(3)));
        r.raw("st", stateJson(*at(W->states, a[2])));
    } else if (c == "ostep") {
        bool done = false;
        LIB(done = at(W->odes, a[1])->step(at(W->states, a[2]).get()));
        r.add("done", done ? 1 : 0).raw("st", stateJson(*at(W->states, a[2])));
    } else if (c == "osolve") {
        LIB(at(W->odes, a[1])->solve(at(W->states, a[2]).get()));
        r.raw("st", stateJson(*at(W->states, a[2])));
    } else if (c == "oend") {
        LIB(at(W->odes, a[1])->end());
    // -- dense matrices
    } else if (c == "mat") {                     // mat N [w h [v]]
        if (a.size() == 2) LIB(W->mats[a[1]].reset(new Matrix));
        else if (a.size() == 4) LIB(W->mats[a[1]].reset(new Matrix(I(2), I(3))));
        else LIB(W->mats[a[1]].reset(new Matrix(I(2), I(3), D(4))));
        r.raw("t", matJson(*mat(a[1])));
    } else if (c == "minit") {                   // minit N w h [v]
        if (a.size() == 4) LIB(mat(a[1])->initialize(I(2), I(3)));
        else LIB(mat(a[1])->initialize(I(2), I(3), D(4)));
        r.raw("t", matJson(*mat(a[1])));
    } else if (c == "mresize") {
        LIB(mat(a[1])->resize(I(2), I(3)));
        r.raw("t", matJson(*mat(a[1])));
    } else if (c == "mdestroy") {
        LIB(mat(a[1])->destroy());
        r.raw("t", matJson(*mat(a[1])));
    } else if (c == "mfree") {
        LIB(at(W->mats, a[1]).reset());
        W->mats.erase(a[1]);
    } else if (c == "mdata") {                   // mdata N v...
        std::vector<double> p;
        for (size_t i = 2; i < a.size(); ++i) p.push_back(D(i));
        std::unique_ptr<double[]> d(new double[p.size()]);      // exactly as long as it has to be
        for (size_t i = 0; i < p.size(); ++i) d[i] = p[i];
        LIB(mat(a[1])->set(d.get()));
        r.raw("t", matJson(*mat(a[1])));
    } else if (c == "mcell" || c == "maddc") {   // mcell N column row v
        if (c == "mcell") LIB(mat(a[1])->set(I(2), I(3), D(4)));
        else LIB(mat(a[1])->add(I(2), I(3), D(4)));
        r.raw("t", matJson(*mat(a[1])));
    } else if (c == "mswap") {
        LIB(mat(a[1])->fastRowSwap(I(2), I(3)));
        r.raw("t", matJson(*mat(a[1])));
    } else if (c == "mcopy") {                   // mcopy TARGET SOURCE
        LIB(mat(a[1])->set(mat(a[2])));
        r.raw("t", matJson(*mat(a[1]))).raw("A", matJson(*mat(a[2])));
    } else if (c == "mop") {                     // mop OP A B|scalar|- T|-
        Matrix *A = mat(a[2]), *T = mat(a[4]);
        Matrix *B = nullptr;
        double s = 0;
        const std::string &op = a[1];
        if (op == "scale") s = D(3);
        else if (op == "madd" || op == "pmadd") { s = D(5); B = mat(a[3]); }
        else B = mat(a[3]);
        if (op == "mul") LIB(A->multiply(*B, T));
        else if (op == "cmul") LIB(A->componentMultiply(*B, T));
        else if (op == "tmul") LIB(A->transposeMultiply(*B, T));
        else if (op == "lscale") LIB(A->leftScale(*B, T));
        else if (op == "rscale") LIB(A->rightScale(*B, T));
        else if (op == "scale") LIB(A->scale(s, T));
        else if (op == "sub") LIB(A->subtract(*B, T));
        else if (op == "add") LIB(A->add(*B, T));
        else if (op == "neg") LIB(A->negate(T));
        else if (op == "transpose") LIB(A->transpose(T));
        else if (op == "madd") LIB(A->madd(*B, s));
        else if (op == "pmadd") LIB(A->pmadd(*B, s));
        else die("mop " + op);
        r.raw("A", matJson(*A));
        if (B) r.raw("B", matJson(*B));
        if (T) r.raw("t", matJson(*T));
    } else if (c == "mval") {                    // mval mag|dot A B|-     mval eq A B err
        if (a[1] == "mag") r.add("v", mat(a[2])->vectorMagnitudeSquared());
        else if (a[1] == "dot") r.add("v", mat(a[2])->dot(*mat(a[3])));
        else if (a.size() > 4) r.add("b", mat(a[2])->equals(*mat(a[3]), D(4)) ? 1 : 0);
        else r.add("b", mat(a[2])->equals(*mat(a[3])) ? 1 : 0);
        r.raw("A", matJson(*mat(a[2])));
        if (a[3] != "-") r.raw("B", matJson(*mat(a[3])));
    // -- block-sparse matrices
    } else if (c == "sp") {                      // sp N stride entries
        AnySparse *s = nullptr;
        LIB(s = makeSparse(I(2), I(3)));
        if (!s) die("sparse shape");
        W->sparses[a[1]].reset(s);
    } else if (c == "spinit") {                  // spinit N w h
        LIB(at(W->sparses, a[1])->initialize(I(2), I(3)));
    } else if (c == "spresize") {
        LIB(at(W->sparses, a[1])->resize(I(2), I(3)));
    } else if (c == "spdestroy") {
        LIB(at(W->sparses, a[1])->destroy());
    } else if (c == "spfree") {
        LIB(at(W->sparses, a[1]).reset());
        W->sparses.erase(a[1]);
    } else if (c == "spblock") {                 // spblock N row entry block v...   (all slices)
        AnySparse &s = *at(W->sparses, a[1]);
        LIB(s.setBlock(I(2), I(3), I(4)); for (int k = 0; k < s.stride(); ++k) s.set(I(2), I(3), k, D(5 + k)));
        List l;
        for (int k = 0; k < s.stride(); ++k) l.add(s.get(I(2), I(3), k));
        r.raw("v", l.done());
    } else if (c == "spempty") {                 // spempty N row entry
        AnySparse &s = *at(W->sparses, a[1]);
        LIB(s.setEmpty(I(2), I(3)));
        List l;
        for (int k = 0; k < s.stride(); ++k) l.add(s.get(I(2), I(3), k));
        r.raw("v", l.done());
    } else if (c == "spget") {
        AnySparse &s = *at(W->sparses, a[1]);
        r.add("w", s.width()).add("h", s.height());
        List rows;
        for (int i = 0; i < s.height(); ++i) {
            List l;
            for (int e = 0; e < s.entries(); ++e) for (int k = 0; k < s.stride(); ++k) l.add(s.get(i, e, k));
            rows.raw(l.done());
        }
        r.raw("v", rows.done());
    } else if (c == "spop") {                    // spop OP A B|- T
        AnySparse &A = *at(W->sparses, a[2]);
        const std::string &op = a[1];
        bool ok = true;
        if (op == "expand") LIB(A.expand(mat(a[4])));
        else if (op == "texpand") LIB(A.expandTransposed(mat(a[4])));
        else if (op == "mult") LIB(ok = A.multiplyTranspose(at(W->sparses, a[3]).get(), mat(a[4])));
        else if (op == "tmulv") LIB(A.transposeMultiplyVector(*mat(a[3]), mat(a[4])));
        else if (op == "mul") LIB(A.multiply(*mat(a[3]), mat(a[4])));
        else if (op == "lscale") LIB(ok = A.leftScale(*mat(a[3]), at(W->sparses, a[4]).get()));
        else if (op == "rscale") LIB(ok = A.rightScale(*mat(a[3]), at(W->sparses, a[4]).get()));
        else die("spop " + op);
        if (!ok) die("spop shapes");
        r.raw("A", sparseJson(A)).add("aw", A.width()).add("ah", A.height());
        if (op == "lscale" || op == "rscale") {
            r.raw("B", matJson(*mat(a[3])));
            AnySparse &T = *at(W->sparses, a[4]);
            r.raw("t", sparseJson(T)).add("tw", T.width()).add("th", T.height());
            List rows;
            for (int i = 0; i < T.height(); ++i) {
                List l;
                for (int e = 0; e < T.entries(); ++e) for (int k = 0; k < T.stride(); ++k) l.add(T.get(i, e, k));
                rows.raw(l.done());
            }
            r.raw("tv", rows.done());
        } else {
            if (op == "tmulv" || op == "mul") r.raw("B", matJson(*mat(a[3])));
            if (op == "mult") r.raw("B", sparseJson(*at(W->sparses, a[3])));
            r.raw("t", matJson(*mat(a[4])));
        }
    // -- linear solvers on their own
    } else if (c == "solve" || c == "lsolve") {  // solve SOLVER J W b PREV|- RESULT      lsolve SOLVER J W b LIMITS PREV|- RESULT
        SleSolver *s = at(W->solvers, a[1]).get();
        SparseMatrix<3> *J = at(W->sparses, a[2])->three();
        Matrix *w = mat(a[3]), *b = mat(a[4]);
        bool ok = false;
        Matrix *prev, *res;
        if (c == "solve") {
            prev = mat(a[5]); res = mat(a[6]);
            LIB(ok = s->solve(*J, *w, *b, prev, res));
        } else {
            prev = mat(a[6]); res = mat(a[7]);
            LIB(ok = s->solveWithLimits(*J, *w, *b, *mat(a[5]), res, prev));
            r.raw("lim", matJson(*mat(a[5])));
        }
        r.add("ok", ok ? 1 : 0).raw("J", sparseJson(*at(W->sparses, a[2]))).raw("W", matJson(*w)).raw("b", matJson(*b));
        r.raw("x", matJson(*res));
        if (prev) r.raw("prev", matJson(*prev));
    } else {
        die("unknown command " + c);
    }
    emit(c, a, r);
}

static void runScenario(const std::vector<Args> &cmds) {
    heap::table = (const void **)calloc(heap::Slots, sizeof(void *));
    if (__sanitizer_install_malloc_and_free_hooks)
        __sanitizer_install_malloc_and_free_hooks(heap::onMalloc, heap::onFree);
    W = new World;
    for (const Args &a : cmds) command(a);
}

int main(int argc, char **argv) {
    if (argc != 3) return 2;
    std::ifstream in(argv[1]);
    g_out = fopen(argv[2], "wb");
    if (!in || !g_out) return 2;
    std::vector<std::vector<Args>> all;
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream ss(line);
        Args a;
        std::string w;
        while (ss >> w) a.push_back(w);
        if (a.empty() || a[0][0] == '#') continue;
        if (a[0] == "scenario") all.emplace_back();
        else if (all.empty()) return 2;
        all.back().push_back(a);
    }
    fflush(g_out);
    for (auto &cmds : all) {
        emit("scenario", cmds[0], Rec());
        const std::string errPath = std::string(argv[2]) + ".err";
        const pid_t pid = fork();
        if (pid == 0) {
            const int fd = open(errPath.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
            dup2(fd, 2);
            // a call that does not return: counted in processor time, so that a busy machine does not matter
            struct rlimit cpu;
            cpu.rlim_cur = 30;
            cpu.rlim_max = 35;
            setrlimit(RLIMIT_CPU, &cpu);
            alarm(600);
            runScenario(std::vector<Args>(cmds.begin() + 1, cmds.end()));
            fflush(g_out);
            _exit(0);
        }
        int status = 0;
        waitpid(pid, &status, 0);
        if (WIFEXITED(status) && WEXITSTATUS(status) == 0) continue;
        if (WIFEXITED(status) && WEXITSTATUS(status) == 99) {
            std::ifstream e(errPath);
            std::cerr << e.rdbuf();
            return 3;
        }
        std::ifstream e(errPath);
        std::string msg, l;
        while (std::getline(e, l) && msg.size() < 600) {
            if (l.find("Assertion") != std::string::npos || l.find("ERROR") != std::string::npos
                || l.find("SUMMARY") != std::string::npos || l.find("terminate") != std::string::npos)
                msg += l + " | ";
        }
        Rec r;
        r.raw("how", str(WIFSIGNALED(status) ? "signal " + std::to_string(WTERMSIG(status))
                                             : "exit " + std::to_string(WEXITSTATUS(status))));
        r.raw("msg", str(msg));
        emit("crash", Args(1, "crash"), r);
        unlink(errPath.c_str());
        // one call that hangs says enough; the scenarios after it would only take as long again
        if (WIFSIGNALED(status) && (WTERMSIG(status) == SIGXCPU || WTERMSIG(status) == SIGKILL || WTERMSIG(status) == SIGALRM)) break;
    }
    unlink((std::string(argv[2]) + ".err").c_str());
    return 0;
}
