/* Stand-in for the parts of OMPL 1.5 that amino uses.  It keeps OMPL's contract and nothing more: states are vectors, the problem
 * definition owns copies of the start and goal states, a planner returns any path from a start to a goal state whose inner states lie in
 * the bounds and were accepted by the validity checker, or fails; the simplifier may drop inner states; lazy goals are sampled on demand. */
#ifndef VF_OMPL_STUB
#define VF_OMPL_STUB
#include <vector>
#include <memory>
#include <functional>
#include <cstddef>
extern "C" {
int os_solve(int kind, double timeout); /* 0: fails, 1: approximate, 2: exact */
void os_fill(double *v, unsigned n, const double *lo, const double *hi); int os_mid(void); int os_drop(void); int os_sampling(void); int os_rounds(void); void os_dist(const double *v, double d); void os_setup(int svc); void os_bounds(unsigned n, const double *lo, const double *hi); void os_simplify(void); void os_sample(const double *v, int ok); void os_note(int what);
}
namespace ompl { namespace base {
class State { public: template <class T> const T *as() const { return static_cast<const T *>(this); } template <class T> T *as() { return static_cast<T *>(this); } };
class StateSpace { public: typedef State StateType; virtual ~StateSpace() {} virtual State *allocState() const = 0; virtual void freeState(State *) const = 0; virtual void copyState(State *, const State *) const = 0; virtual void fill(State *) const = 0; virtual bool satisfiesBounds(const State *) const = 0;
    template <class T> T *as() { return static_cast<T *>(this); } template <class T> const T *as() const { return static_cast<const T *>(this); } };
typedef std::shared_ptr<StateSpace> StateSpacePtr;
class RealVectorBounds { public: std::vector<double> low, high; RealVectorBounds(unsigned n) : low(n), high(n) {} void setLow(unsigned i, double v) { low[i] = v; } void setHigh(unsigned i, double v) { high[i] = v; } };
class RealVectorStateSpace : public StateSpace {
protected: unsigned n_; RealVectorBounds b_;
public: class StateType : public State { public: double *values; };
    RealVectorStateSpace(unsigned n) : n_(n), b_(n) {} unsigned getDimension() const { return n_; } void setBounds(const RealVectorBounds &b) { b_ = b; os_bounds((unsigned)b.low.size(), b.low.data(), b.high.data()); }
    State *allocState() const { StateType *s = new StateType; s->values = new double[n_]; return s; }
    void freeState(State *s) const { StateType *t = static_cast<StateType *>(s); delete[] t->values; delete t; }
    void copyState(State *d, const State *s) const { for (unsigned i = 0; i < n_; i++) static_cast<StateType *>(d)->values[i] = static_cast<const StateType *>(s)->values[i]; }
    void fill(State *s) const { os_fill(static_cast<StateType *>(s)->values, n_, b_.low.data(), b_.high.data()); }
    bool satisfiesBounds(const State *s) const { for (unsigned i = 0; i < n_; i++) { double v = static_cast<const StateType *>(s)->values[i]; if (v < b_.low[i] || v > b_.high[i]) return false; } return true; } };
class SpaceInformation;
class StateValidityChecker { protected: SpaceInformation *si_; public: StateValidityChecker(SpaceInformation *si) : si_(si) {} StateValidityChecker(const std::shared_ptr<SpaceInformation> &si) : si_(si.get()) {} virtual ~StateValidityChecker() {} virtual bool isValid(const State *) const = 0; };
typedef std::shared_ptr<StateValidityChecker> StateValidityCheckerPtr;
class StateSampler { StateSpace *ss; public: StateSampler(StateSpace *s) : ss(s) {} void sampleUniform(State *s) { ss->fill(s); } };
typedef std::shared_ptr<StateSampler> StateSamplerPtr;
class SpaceInformation {
protected: StateSpacePtr ss_; StateValidityCheckerPtr svc_;
public: SpaceInformation(const StateSpacePtr &s) : ss_(s) {} virtual ~SpaceInformation() {} const StateSpacePtr &getStateSpace() const { return ss_; }
    void setStateValidityChecker(const StateValidityCheckerPtr &p) { svc_ = p; } virtual void setup() { os_setup(svc_ ? 1 : 0); } bool isValid(const State *s) const { return svc_->isValid(s); }
    bool satisfiesBounds(const State *s) const { return ss_->satisfiesBounds(s); }
    State *allocState() const { return ss_->allocState(); } void freeState(State *s) const { ss_->freeState(s); } void copyState(State *d, const State *s) const { ss_->copyState(d, s); } State *cloneState(const State *s) const { State *d = allocState(); copyState(d, s); return d; }
    StateSamplerPtr allocStateSampler() const { return StateSamplerPtr(new StateSampler(ss_.get())); } };
typedef std::shared_ptr<SpaceInformation> SpaceInformationPtr;
template <class T = StateSpace> class ScopedState { StateSpacePtr ss; typename T::StateType *s; ScopedState(const ScopedState &); void operator=(const ScopedState &);
public: ScopedState(const SpaceInformationPtr &si) : ss(si->getStateSpace()) { s = static_cast<typename T::StateType *>(ss->allocState()); } ~ScopedState() { ss->freeState(s); } typename T::StateType *get() { return s; } const typename T::StateType *get() const { return s; } };
class Goal { protected: SpaceInformationPtr si_; public: Goal(const SpaceInformationPtr &si) : si_(si) {} virtual ~Goal() {} virtual const State *one() { return 0; } virtual void probe(const State *) {} };
typedef std::shared_ptr<Goal> GoalPtr;
class GoalState : public Goal { State *s; public: GoalState(const SpaceInformationPtr &si, const State *x) : Goal(si), s(si->cloneState(x)) {} ~GoalState() { si_->freeState(s); } const State *one() { return s; } };
class GoalLazySamples; typedef std::function<bool(const GoalLazySamples *, State *)> GoalSamplingFn;
class GoalLazySamples : public Goal { GoalSamplingFn f; std::vector<State *> st;
public: GoalLazySamples(const SpaceInformationPtr &si, const GoalSamplingFn &fn, bool autoStart = true) : Goal(si), f(fn) { if (autoStart) startSampling(); }
    ~GoalLazySamples() { clear(); } void clear() { for (size_t i = 0; i < st.size(); i++) si_->freeState(st[i]); st.clear(); }
    virtual double distanceGoal(const State *) const = 0; bool isSampling() const { return os_sampling() != 0; } void stopSampling() { os_note(2); }
    void startSampling() { os_note(1); for (int i = 0; i < os_rounds(); i++) { State *s = si_->allocState(); bool ok = f(this, s); os_sample(ok ? static_cast<RealVectorStateSpace::StateType *>(s)->values : 0, ok); if (ok && si_->satisfiesBounds(s) && si_->isValid(s)) st.push_back(s); else si_->freeState(s); } }
    const State *one() { return st.size() ? st[0] : 0; } void probe(const State *s) { os_dist(static_cast<const RealVectorStateSpace::StateType *>(s)->values, distanceGoal(s)); } };
class Path { public: virtual ~Path() {} };
typedef std::shared_ptr<Path> PathPtr;
class ProblemDefinition { SpaceInformationPtr si_; std::vector<State *> starts; GoalPtr g; PathPtr sol; bool exact;
public: ProblemDefinition(const SpaceInformationPtr &si) : si_(si), exact(false) {} ~ProblemDefinition() { for (size_t i = 0; i < starts.size(); i++) si_->freeState(starts[i]); }
    template <class T> void addStartState(const ScopedState<T> &s) { starts.push_back(si_->cloneState(s.get())); } template <class T> void setGoalState(const ScopedState<T> &s) { g.reset(new GoalState(si_, s.get())); } void setGoal(const GoalPtr &x) { g = x; } const GoalPtr &getGoal() const { return g; }
    bool hasExactSolution() const { return exact; } const PathPtr &getSolutionPath() const { return sol; } void set(const PathPtr &p, bool e) { sol = p; exact = e; } const State *start() const { return starts.size() ? starts[0] : 0; } };
typedef std::shared_ptr<ProblemDefinition> ProblemDefinitionPtr;
} namespace geometric {
class PathGeometric : public base::Path { base::SpaceInformationPtr si_; std::vector<base::State *> st;
public: PathGeometric(const base::SpaceInformationPtr &si) : si_(si) {} ~PathGeometric() { for (size_t i = 0; i < st.size(); i++) si_->freeState(st[i]); } void append(const base::State *s) { st.push_back(si_->cloneState(s)); } size_t getStateCount() const { return st.size(); } std::vector<base::State *> &getStates() { return st; }
    void interpolate(unsigned) {} double length() const { return 1; } void drop() { if (st.size() > 2) { si_->freeState(st[1]); st.erase(st.begin() + 1); } } };
class PathSimplifier { public: PathSimplifier(const base::SpaceInformationPtr &) { os_simplify(); } bool reduceVertices(PathGeometric &) { return false; } bool collapseCloseVertices(PathGeometric &) { return false; } bool shortcutPath(PathGeometric &) { return false; } void smoothBSpline(PathGeometric &p, unsigned = 5, double = 0) { if (os_drop()) p.drop(); } };
} namespace base {
class Planner { protected: SpaceInformationPtr si_; ProblemDefinitionPtr pd; int kind;
public: Planner(const SpaceInformationPtr &si, int k) : si_(si), kind(k) {} virtual ~Planner() {} void setProblemDefinition(const ProblemDefinitionPtr &p) { pd = p; }
    void solve(double t) { int r = os_solve(kind, t); const State *g = pd->getGoal() ? pd->getGoal()->one() : 0, *s = pd->start(); int n = os_mid(); geometric::PathGeometric *p = new geometric::PathGeometric(si_); PathPtr pp(p); if (s) p->append(s);
        for (int i = 0; i < n; i++) { State *x = si_->allocState(); si_->getStateSpace()->fill(x); if (si_->isValid(x)) p->append(x); if (pd->getGoal()) pd->getGoal()->probe(x); si_->freeState(x); }
        if (!s || !g || r == 0) return; if (r == 2) p->append(g); pd->set(pp, r == 2); } };
typedef std::shared_ptr<Planner> PlannerPtr;
} namespace geometric {
class RRTConnect : public base::Planner { public: RRTConnect(const base::SpaceInformationPtr &si) : Planner(si, 0) {} };
class RRT : public base::Planner { public: RRT(const base::SpaceInformationPtr &si) : Planner(si, 1) {} };
class SBL : public base::Planner { public: SBL(const base::SpaceInformationPtr &si) : Planner(si, 2) {} };
class LBKPIECE1 : public base::Planner { public: LBKPIECE1(const base::SpaceInformationPtr &si) : Planner(si, 3) {} };
} }
#endif
