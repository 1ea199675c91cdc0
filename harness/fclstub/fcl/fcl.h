/* Stand-in for the parts of FCL 0.6 that amino uses: objects record what they are given, the narrow phase
 * is answered by the harness (any outcome), and the broad phase obeys FCL's contract: it visits every pair
 * whose boxes overlap, and boxes are those last computed by computeAABB() and taken over by update(). */
#ifndef VF_FCL_STUB
#define VF_FCL_STUB
#include <vector>
#include <memory>
#include <cfloat>
#include <cstdint>
#include <Eigen/Dense>
#include <Eigen/Geometry>
extern "C" {
void fs_geom_new(void *g, int kind, double a, double b, double c); void fs_geom_del(void *g); void fs_vertex(void *g, double x, double y, double z); void fs_triangle(void *g, unsigned a, unsigned b, unsigned c);
void fs_obj_new(void *o, void *g); void fs_obj_del(void *o); void fs_obj_data(void *o, void *u); void fs_obj_tf(void *o, const double *R, const double *v); void fs_obj_aabb(void *o);
void fs_mgr_new(void *); void fs_mgr_del(void *); void fs_mgr_setup(void *); void fs_mgr_update(void *); void fs_mgr_update1(void *, void *o); void fs_mgr_add(void *, void *o); int fs_mgr_start(void *); int fs_mgr_pair(void *a, void *b, int dist); int fs_mgr_flip(void);
int fs_collide(void *a, void *b); double fs_distance(void *a, void *b, double *p0, double *p1); double fs_contact(void *a, void *b, double *pos, double *nrm, int i); int fs_ncontact(void *a, void *b);
}
namespace fcl {
template <class S> using Vector3 = Eigen::Matrix<S, 3, 1>;
template <class S> using Transform3 = Eigen::Transform<S, 3, Eigen::Isometry>;
template <class S> struct AABB { };
template <class S> struct OBBRSS { typedef S scalar; };
class Triangle { unsigned long v[3]; public: Triangle() {} Triangle(unsigned long a, unsigned long b, unsigned long c) { v[0] = a; v[1] = b; v[2] = c; } unsigned long operator[](int i) const { return v[i]; } };
template <class S> class CollisionGeometry {
public:
    void *ud;
    CollisionGeometry() : ud(0) { }
    virtual ~CollisionGeometry() { fs_geom_del(this); }
    void setUserData(void *u) { ud = u; }
    void *getUserData() const { return ud; }
};
template <class S> class Box : public CollisionGeometry<S> { public: Box(S x, S y, S z) { fs_geom_new(this, 0, x, y, z); } };
template <class S> class Sphere : public CollisionGeometry<S> { public: Sphere(S r) { fs_geom_new(this, 1, r, 0, 0); } };
template <class S> class Cylinder : public CollisionGeometry<S> { public: Cylinder(S r, S h) { fs_geom_new(this, 2, r, h, 0); } };
template <class BV> class BVHModel : public CollisionGeometry<typename BV::scalar> {
    int state;
public:
    typedef typename BV::scalar S;
    BVHModel() : state(0) { }
    int beginModel(int = 0, int = 0) { fs_geom_new(this, 3, 0, 0, 0); state = 1; return 0; }
    int addSubModel(const std::vector<Vector3<S>> &p, const std::vector<Triangle> &t) { for (size_t i = 0; i < p.size(); i++) fs_vertex(this, p[i](0), p[i](1), p[i](2)); for (size_t i = 0; i < t.size(); i++) fs_triangle(this, t[i][0], t[i][1], t[i][2]); return 0; }
    int endModel() { state = 2; return 0; }
};
template <class S> class CollisionObject {
    std::shared_ptr<CollisionGeometry<S>> g; std::shared_ptr<const CollisionGeometry<S>> gc; void *ud; Transform3<S> t;
    void send() { double R[9], v[3]; for (int j = 0; j < 3; j++) { for (int i = 0; i < 3; i++) R[3*j+i] = t(i, j); v[j] = t(j, 3); } fs_obj_tf(this, R, v); }
public:
    CollisionObject(const std::shared_ptr<CollisionGeometry<S>> &c) : g(c), gc(c), ud(0) { fs_obj_new(this, c.get()); }
    CollisionObject(const std::shared_ptr<CollisionGeometry<S>> &c, const Transform3<S> &x) : g(c), gc(c), ud(0), t(x) { fs_obj_new(this, c.get()); send(); fs_obj_aabb(this); }
    ~CollisionObject() { fs_obj_del(this); }
    void setUserData(void *u) { ud = u; fs_obj_data(this, u); }
    void *getUserData() const { return ud; }
    void setTransform(const Transform3<S> &x) { t = x; send(); }
    const Transform3<S> &getTransform() const { return t; }
    void computeAABB() { fs_obj_aabb(this); }
    const std::shared_ptr<const CollisionGeometry<S>> &collisionGeometry() const { return gc; }
};
template <class S> struct Contact { const void *o1, *o2; Vector3<S> normal, pos; S penetration_depth; };
template <class S> struct CollisionRequest { size_t num_max_contacts; bool enable_contact, enable_cost; CollisionRequest(size_t n = 1, bool c = false) : num_max_contacts(n), enable_contact(c), enable_cost(false) { } };
template <class S> struct CollisionResult {
    std::vector<Contact<S>> c;
    bool isCollision() const { return c.size() > 0; }
    size_t numContacts() const { return c.size(); }
    const Contact<S> &getContact(size_t i) const { return i < c.size() ? c[i] : c.back(); }
    void clear() { c.clear(); }
};
template <class S> struct DistanceRequest { bool enable_nearest_points; DistanceRequest(bool n = false) : enable_nearest_points(n) { } };
template <class S> struct DistanceResult { S min_distance; Vector3<S> nearest_points[2]; DistanceResult() : min_distance(DBL_MAX) { } };
template <class S> size_t collide(const CollisionObject<S> *a, const CollisionObject<S> *b, const CollisionRequest<S> &rq, CollisionResult<S> &rs) {
    if (!fs_collide((void *)a, (void *)b)) return 0;
    int n = rq.enable_contact ? fs_ncontact((void *)a, (void *)b) : 1; if ((size_t)n > rq.num_max_contacts) n = (int)rq.num_max_contacts;
    for (int i = 0; i < n; i++) { Contact<S> k; k.o1 = a; k.o2 = b; k.penetration_depth = 0; if (rq.enable_contact) { double p[3], m[3]; k.penetration_depth = fs_contact((void *)a, (void *)b, p, m, i); for (int j = 0; j < 3; j++) { k.pos(j) = p[j]; k.normal(j) = m[j]; } } rs.c.push_back(k); }
    return rs.c.size();
}
template <class S> S distance(const CollisionObject<S> *a, const CollisionObject<S> *b, const DistanceRequest<S> &rq, DistanceResult<S> &rs) {
    double p[3], q[3]; double d = fs_distance((void *)a, (void *)b, p, q); if (d < rs.min_distance) { rs.min_distance = d; if (rq.enable_nearest_points) for (int j = 0; j < 3; j++) { rs.nearest_points[0](j) = p[j]; rs.nearest_points[1](j) = q[j]; } } return d;
}
template <class S> using CollisionCallBack = bool (*)(CollisionObject<S> *, CollisionObject<S> *, void *);
template <class S> using DistanceCallBack = bool (*)(CollisionObject<S> *, CollisionObject<S> *, void *, S &);
template <class S> class BroadPhaseCollisionManager {
public:
    virtual ~BroadPhaseCollisionManager() { }
    virtual void registerObject(CollisionObject<S> *) = 0; virtual void setup() = 0; virtual void update() = 0;
    virtual void update(CollisionObject<S> *) = 0; virtual void update(const std::vector<CollisionObject<S> *> &) = 0; virtual void registerObjects(const std::vector<CollisionObject<S> *> &) = 0;
    virtual void getObjects(std::vector<CollisionObject<S> *> &) const = 0; virtual bool empty() const = 0; virtual size_t size() const = 0;
    virtual void collide(void *, CollisionCallBack<S>) const = 0; virtual void distance(void *, DistanceCallBack<S>) const = 0;
};
template <class S> class DynamicAABBTreeCollisionManager : public BroadPhaseCollisionManager<S> {
    std::vector<CollisionObject<S> *> o;
public:
    DynamicAABBTreeCollisionManager() { fs_mgr_new(this); }
    ~DynamicAABBTreeCollisionManager() { fs_mgr_del(this); }
    void registerObject(CollisionObject<S> *x) { o.push_back(x); fs_mgr_add(this, x); }
    void setup() { fs_mgr_setup(this); }
    void update() { fs_mgr_update(this); }
    void update(CollisionObject<S> *x) { fs_mgr_update1(this, x); }
    void update(const std::vector<CollisionObject<S> *> &x) { for (size_t i = 0; i < x.size(); i++) fs_mgr_update1(this, x[i]); }
    void registerObjects(const std::vector<CollisionObject<S> *> &x) { for (size_t i = 0; i < x.size(); i++) registerObject(x[i]); }
    void getObjects(std::vector<CollisionObject<S> *> &x) const { x = o; }
    bool empty() const { return o.empty(); }
    size_t size() const { return o.size(); }
    void collide(void *cx, CollisionCallBack<S> f) const {
        int r = fs_mgr_start((void *)this), n = (int)o.size();
        for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) { CollisionObject<S> *a = o[r ? n-1-i : i], *b = o[r ? n-1-j : j]; if (!fs_mgr_pair(a, b, 0)) continue; if (fs_mgr_flip() ? f(b, a, cx) : f(a, b, cx)) return; }
    }
    void distance(void *cx, DistanceCallBack<S> f) const {      /* pairs at least as far apart as the best so far may be passed over */
        int r = fs_mgr_start((void *)this), n = (int)o.size(); S best = DBL_MAX;
        for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) { CollisionObject<S> *a = o[r ? n-1-i : i], *b = o[r ? n-1-j : j]; if (best < DBL_MAX && !fs_mgr_pair(a, b, 1)) continue; if (fs_mgr_flip() ? f(b, a, cx, best) : f(a, b, cx, best)) return; }
    }
};
}
#endif
