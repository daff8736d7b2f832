// C34 a failure in the middle of an operation is reported and leaves nothing half done
// Every allocation of every operation is made to fail once (operator new, and malloc as called by Eigen), and every
// call to an obstacle of the user's own is made to throw once; the same again during the repetition.
#include "lib.hpp"
#include <memory>
#include <new>
#include <malloc.h>

static bool armed = false;
static int mode = 0;          // 0 allocations fail, 1 the user's obstacles throw
static long ticks = 0, fail_at = -1, fail_at2 = -1, live = 0;
static bool tick(int kind)
{
	if(!armed || kind != mode) return false;
	long t = ticks++;
	return t == fail_at || t == fail_at2;
}
void* operator new(size_t n)
{
	if(tick(0)) throw std::bad_alloc();
	void* p = std::calloc(1, n ? n : 1);
	if(!p) throw std::bad_alloc();
	++live;
	return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept
{
	if(tick(0)) return nullptr;
	void* p = std::calloc(1, n ? n : 1);
	if(p) ++live;
	return p;
}
void operator delete(void* p) noexcept { if(p) { --live; memset(p, 0xdd, malloc_usable_size(p)); asm volatile("" : : "r"(p) : "memory"); std::free(p); } } // a late use shows
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { operator delete(p); }
// linked with --wrap=malloc: the calls made by the library's own code
extern "C" void* __real_malloc(size_t n);
extern "C" void* __wrap_malloc(size_t n)
{
	if(tick(0)) return nullptr;
	return __real_malloc(n);
}

struct Broken : std::runtime_error { Broken() : std::runtime_error("broken sensor") {} };
static void may_throw() { if(tick(1)) throw Broken(); }
// an obstacle of the user's own whose answers come from a sensor that may fail
struct Fragile : Ellipsoid
{
	explicit Fragile(const std::string& n, const State& s, double m) : Ellipsoid(n, s, m) {}
	using Obstacle::compute_distance_to_point;
	E3 compute_normal_to_agent(const Agent& a) const override { may_throw(); return Ellipsoid::compute_normal_to_agent(a); }
	double compute_distance_to_point(const E3& p, const A3& m) const override { may_throw(); return Ellipsoid::compute_distance_to_point(p, m); }
	Eigen::MatrixXd sample_from_parameterization(unsigned int n, bool m) const override { may_throw(); return Ellipsoid::sample_from_parameterization(n, m); }
	bool point_is_inside(const E3& p) const override { may_throw(); return Ellipsoid::point_is_inside(p); }
	E3 compute_repulsion_vector(const Agent& a) const override { may_throw(); return Ellipsoid::compute_repulsion_vector(a); }
	std::pair<bool, std::pair<E3, E3>> compute_interesection_points(const E3& a, const E3& b) override { may_throw(); return Ellipsoid::compute_interesection_points(a, b); }
};

static std::string num(double x) { return fmt("%.17g ", x); }
static std::string num(const E3& v) { return num(v(0)) + num(v(1)) + num(v(2)); }
static std::string num(const State& s)
{
	Q q = s.get_orientation();
	return num(s.get_position()) + num(q.w()) + num(E3(q.vec())) + num(s.get_linear_velocity()) + num(s.get_angular_velocity());
}
static std::string num(const Obstacle& o, bool reference = true)
{
	return o.get_type() + " " + o.get_name() + " " + num(o.get_state()) + (reference ? num(o.get_reference_position()) : "") + num(E3(o.get_safety_margin())) + "\n";
}
static std::string num(const Agent& a)
{
	const Ellipsoid& e = envelope_of(a);
	return num(a.get_state()) + num(a.get_safety_margin()) + "\n" + num(e) + num(E3(e.get_axis_lengths()));
}

static const char* LONGER = "another_name_that_is_too_long_to_be_kept_in_place";
static const char* LONG = "a_name_that_is_too_long_to_be_kept_in_place";
struct World
{
	List pool;
	std::unique_ptr<Environment> env, env2;
	std::unique_ptr<Agent> agent, agent2;
	std::shared_ptr<Aggregate> group;
	std::unique_ptr<StarShapeHull> hull;
	List snapshot;
	std::string result; // of a query
	std::shared_ptr<Obstacle> added, named;
};
static std::shared_ptr<Obstacle> mk(const std::string& n, double x, double y, double r)
{
	auto e = std::make_shared<Fragile>(n, State(E3(x, y, 0), Q(Eigen::AngleAxisd(0.3 + x, E3::UnitZ()))), 0.1);
	e->set_axis_lengths(A3(r, 0.8 * r, r));
	return e;
}
static void build(World& w, int variant, bool grouped)
{
	w.pool = {mk("b", 0, 0, 1), mk(LONG, 1.2, 0.2, 1), mk("d", 2.4, -0.3, 1), mk("e", 12, 3, 2)};
	w.env.reset(new Environment(variant != 1 && variant < 4));
	for(auto& o : w.pool) w.env->add_obstacle(o);
	if(variant != 3) w.env->update();
	if(variant == 2) { w.pool[2]->set_position(12.5, 0.5, 0); w.env->remove_obstacle("b"); }
	w.snapshot = w.env->get_obstacle_list();
	w.env2.reset(new Environment(false));
	w.env2->add_obstacle(mk("other_obstacle_with_a_long_name", 5, 5, 1));
	w.env2->update();
	w.agent.reset(new Agent(make_agent({variant < 4 ? -2 : variant == 4 ? -0.5L : 1.5L, 0.3L, 0}, {1, 0.1L, 0}, 0.2)));
	w.agent2.reset(new Agent(make_agent({4, 1, 0}, {0, -1, 0}, 0.5)));
	if(grouped) w.group = std::make_shared<Aggregate>(List{w.pool[0], w.pool[1]});
	w.hull.reset(new StarShapeHull(List{w.pool[0], w.pool[1]}, false, 16, 0.5));
	w.named = mk(LONGER, 7, 7, 1);
	w.added = mk("c", 0.6, 0.4, 0.8);
}
static std::string look(Environment& e, const std::vector<std::string>& names, bool references)
{
	std::string s = e.is_aggregated() ? "A " : "S ";
	for(auto& n : names)
	{
		try { auto p = e[n]; s += n + "=" + (p ? num(*p, references) : "nothing"); }
		catch(Exceptions::ObstacleNotInEnvironmentException& x) { s += n + " absent "; }
	}
	for(auto& o : e.get_obstacle_list()) s += "listed " + num(*o, references || o->get_type() == "Aggregate");
	return s;
}
static std::string hull_answers(const Obstacle& h)
{
	std::string s;
	for(auto& d : planar_directions()) { E3 p = h.get_position() + 2.3 * ev(d); s += num(h.compute_distance_to_point(p, 0.1)) + (h.point_is_inside(p) ? "in " : "out ") + num(h.compute_normal_to_agent(make_agent(rv(p), {1, 0, 0}, 0))); }
	return s + (h.is_closed() ? "closed" : "open");
}
// everything that can be seen; references of the obstacles may be left out
static std::string observe(World& w, bool references)
{
	std::string s = look(*w.env, {"b", "c", "d", "e", LONG, LONGER, "aggregate_b_d"}, references) + look(*w.env2, {"b", "c", "d", "e", LONG, "other_obstacle_with_a_long_name"}, references);
	s += num(*w.agent) + num(*w.agent2) + hull_answers(*w.hull);
	if(w.group) s += num(*w.group) + hull_answers(*w.group);
	for(auto& o : w.pool) s += num(*o, references) + num(E3(static_cast<Ellipsoid&>(*o).get_axis_lengths()));
	return s + num(*w.added, references) + w.result;
}

enum Kind { STRONG, REPEAT, BASIC };
struct Op { const char* name; Kind kind; std::function<void(World&)> run; int variants; };
static const std::vector<Op>& ops()
{
	static const std::vector<Op> v{
		{"add", STRONG, [](World& w) { w.env->add_obstacle(w.added); }, 3},
		{"add-long", STRONG, [](World& w) { w.env->add_obstacle(w.named); }, 2},
		{"add-taken-long", STRONG, [](World& w) { auto o = w.named; o->set_name(LONG); try { w.env->add_obstacle(o); w.result = "accepted"; } catch(Exceptions::ObstacleAlreadyExistsException&) { w.result = "refused"; } }, 2},
		{"add-taken", STRONG, [](World& w) { try { w.env->add_obstacle(mk("e", 0, 0, 1)); w.result = "accepted"; } catch(Exceptions::ObstacleAlreadyExistsException&) { w.result = "refused"; } }, 2},
		{"remove", STRONG, [](World& w) { w.env->remove_obstacle(LONG); }, 3},
		{"remove-absent", STRONG, [](World& w) { try { w.env->remove_obstacle("nothing of that name is there"); w.result = "accepted"; } catch(Exceptions::ObstacleNotInEnvironmentException&) { w.result = "refused"; } }, 2},
		{"lookup", STRONG, [](World& w) { w.result = (*w.env)[LONG]->get_name(); }, 3},
		{"lookup-absent", STRONG, [](World& w) { try { (*w.env)["nothing of that name is there"]; w.result = "found"; } catch(Exceptions::ObstacleNotInEnvironmentException&) { w.result = "not found"; } }, 2},
		{"update", REPEAT, [](World& w) { w.env->update(); }, 4},
		{"copy-environment", STRONG, [](World& w) { std::unique_ptr<Environment> e(new Environment(*w.env)); w.env2 = std::move(e); }, 2},
		{"assign-environment", BASIC, [](World& w) { *w.env2 = *w.env; }, 2},
		{"agent", STRONG, [](World& w) { w.agent.reset(new Agent(make_agent({1, 2, 3}, {0, 1, 0}, 0.7))); }, 1},
		{"copy-agent", STRONG, [](World& w) { w.agent2.reset(new Agent(*w.agent)); }, 1},
		{"assign-agent", STRONG, [](World& w) { *w.agent2 = *w.agent; }, 1},
		{"assign-agent-to-itself", STRONG, [](World& w) { Agent& a = *w.agent; a = *w.agent; }, 1},
		{"change-agent", STRONG, [](World& w) { w.agent->set_linear_velocity(E3(0, -2, 0)); }, 1},
		{"transformed-agent", STRONG, [](World& w) { w.result = num(w.agent->transformed(Pose(1, 2, 3, 0.8, 0, 0, 0.6))); }, 1},
		{"rename", STRONG, [](World& w) { w.added->set_name(LONGER); }, 1},
		{"copy-ellipsoid", STRONG, [](World& w) { auto p = std::make_shared<Ellipsoid>(static_cast<Ellipsoid&>(*w.pool[1])); w.result = num(*p); }, 1},
		{"modulate", STRONG, [](World& w) { w.result = num(Modulation::modulate_velocity(*w.agent, *w.env)); }, 6},
		{"modulate-local", STRONG, [](World& w) { w.result = num(Modulation::modulate_velocity(*w.agent, *w.env, true, true)); }, 6},
		{"modulate-planar", REPEAT, [](World& w) { w.result = num(Modulation::modulate_velocity(*w.agent, *w.env, false, true, true)); }, 6},
		{"matrix", STRONG, [](World& w) { std::string r; for(auto& o : w.env->get_obstacle_list()) r += num(std::get<2>(Modulation::compute_modulation_matrix(*w.agent, *o))); w.result = std::move(r); }, 2},
		{"weights", STRONG, [](World& w) { Eigen::ArrayXd d(5); d << 2, 3, 1.5, 9, 1.1; Eigen::ArrayXd r = Modulation::weight_obstacles(d, 1, 2); w.result = num(r(0)) + num(r(4)); }, 1},
		{"path", STRONG, [](World& w) { w.result = w.agent->exist_path(E3(0.5, 0.1, 0), w.env->get_obstacle_list()) ? "path" : "no path"; }, 2},
		{"in-obstacle", STRONG, [](World& w) { std::string r; for(auto& o : w.env->get_obstacle_list()) r += w.agent->in_obstacle(*o) ? "in " : "out "; w.result = std::move(r); }, 2},
		{"intersect", STRONG, [](World& w) { std::string r = w.added->is_intersecting(w.env->get_obstacle_list()) ? "meets " : "misses "; r += w.pool[3]->is_intersecting(*w.pool[2]) ? "meets" : "misses"; w.result = std::move(r); }, 2},
		{"sample", STRONG, [](World& w) { Eigen::MatrixXd m = w.pool[0]->sample_from_parameterization(50, true); w.result = num(m.sum()) + num(double(m.cols())); }, 1},
		{"tools", STRONG, [](World& w) { auto l = MathTools::linspace(0, 3, 17); auto g = MathTools::gridspace({0, 1}, {2, 3}, {4, 5}); Eigen::MatrixXd m(3, 4); m << 1, 2, 3, 4, 0.4, 0.1, 0.9, 0.3, 0, 0, 0, 1; m = MathTools::sorted_cols_by_theta(m); auto p = MathTools::find_closest_points(m, E3(0, 0.35, 0), 1); w.result = num(l.back()) + num(double(g.size())) + num(m(0, 0)) + num(m(0, 3)) + num(p.first) + num(p.second); }, 1},
		{"group", REPEAT, [](World& w) { auto g = std::make_shared<Aggregate>(List{w.pool[2], w.pool[1], w.pool[0]}); w.group = g; }, 1},
		{"hull", STRONG, [](World& w) { std::unique_ptr<StarShapeHull> h(new StarShapeHull(List{w.pool[0], w.pool[2]}, true, 24, 0.3)); w.hull = std::move(h); }, 1},
		{"refresh-group", BASIC, [](World& w) { w.pool[0]->set_position(0.5, 0.5, 0); w.group->update_hull(); }, 1},
		{"recompute-hull", BASIC, [](World& w) { w.hull->compute_from_primitives(List{w.pool[1], w.pool[2]}); }, 1},
	};
	return v;
}
// what else must not have changed by a failed update
static std::string registry(World& w)
{
	std::string s = w.env->is_aggregated() ? "A " : "S ";
	for(auto& n : {"b", "c", "d", "e", LONG, LONGER}) { try { auto p = (*w.env)[n]; s += p ? num(*p, false) : "nothing "; } catch(Exceptions::ObstacleNotInEnvironmentException&) { s += "absent "; } }
	for(auto& o : w.env->get_obstacle_list()) s += fmt("%p ", (void*)o.get());
	for(auto& o : w.env2->get_obstacle_list()) s += num(*o, false);
	return s + num(*w.agent) + num(*w.agent2);
}
// runs the operation; returns whether it failed
static bool attempt(Ctx& c, const Op& op, World& w, long first, long second)
{
	ticks = 0;
	fail_at = first;
	fail_at2 = second;
	bool failed = false, wrong = false;
	armed = true;
	try { op.run(w); armed = false; }
	catch(std::bad_alloc&) { armed = false; failed = true; wrong = mode != 0; }
	catch(Broken&) { armed = false; failed = true; wrong = mode != 1; }
	catch(...) { armed = false; failed = true; wrong = true; }
	c.check(!wrong, "other-failure", [&] { return fmt("%s reports another failure than the one that happened", op.name); });
	return failed;
}
static void run(Ctx& c, int m)
{
	const Op& op = ops()[size_t(c.pick(int(ops().size())))];
	int variant = op.variants > 1 ? c.pick(op.variants) : 0;
	mode = m;
	static std::map<std::pair<const Op*, int>, std::pair<long, std::string>> memo[2];
	auto& known = memo[m][{&op, variant}];
	if(known.second.empty())
	{
		// twice: the first time may set things up for good
		for(int k = 0; k < 2; ++k)
		{
			World w;
			build(w, variant, strstr(op.name, "group"));
			attempt(c, op, w, -1, -1);
			known = {ticks, observe(w, true)};
		}
	}
	long n = known.first;
	if(n == 0 || (!mc::thorough() && n > 4000 && variant != 2)) return;
	long at = c.pick(int(n));
	// a second failure while the operation is repeated
	long again = -1;
	bool deep = n <= (mc::thorough() ? 130 : 60);
	if(deep) again = c.pick(int(n) + 1) - 1;
	c.note("%s variant %d: failure number %ld of %ld, then %ld", op.name, variant, at, n, again);
	c.transition();
	bool reported = false;
	long before_all = live;
	{
		World w;
		build(w, variant, strstr(op.name, "group"));
		std::string before = observe(w, true), reg = registry(w);
		bool failed = attempt(c, op, w, at, -1);
		std::string what = fmt("%s (variant %d) with failure %ld of %ld", op.name, variant, at, n);
		if(failed)
		{
			if(op.kind == STRONG) c.check(observe(w, true) == before, "half-done", [&] { return what + ": something has changed"; });
			if(op.kind == REPEAT) c.check(registry(w) == reg, "registry", [&] { return what + ": registry or list have changed"; });
			if(again >= 0 && attempt(c, op, w, again, -1))
			{
				if(op.kind == STRONG) c.check(observe(w, true) == before, "half-done-again", [&] { return what + " and again: something has changed"; });
				if(op.kind == REPEAT) c.check(registry(w) == reg, "registry-again", [&] { return what + " and again: registry or list have changed"; });
				failed = attempt(c, op, w, -1, -1);
			}
			else if(again < 0) failed = attempt(c, op, w, -1, -1);
			else failed = false;
			c.check(!failed, "repeat-fails", [&] { return what + ": the repetition fails for no reason"; });
			reported = true;
		}
		// memory that is short may be done without; an answer that has not been given may not
		else c.check(m == 0, "swallowed", [&] { return what + ": the failure is not reported"; });
		std::string after = observe(w, true);
		c.check(after == known.second, "repeat", [&] { size_t i = 0; while(i < after.size() && i < known.second.size() && after[i] == known.second[i]) ++i; return what + ": the repetition gives something else: ..." + after.substr(i < 60 ? 0 : i - 60, 160) + "... instead of ..." + known.second.substr(i < 60 ? 0 : i - 60, 160); });
	}
	c.check(live == before_all, "leak", [&] { return fmt("%s with failure %ld: %ld blocks are left", op.name, at, live - before_all); });
	c.outcome(mc::Hash().s(op.name).u(reported));
	c.state(mc::Hash().s(op.name).u(uint64_t(variant)).u(uint64_t(at)).u(uint64_t(again)).u(uint64_t(m)));
}
static void memory(Ctx& c) { run(c, 0); }
static void sensors(Ctx& c) { run(c, 1); }
MC_MAIN("C34", { {"memory", memory, 3}, {"sensors", sensors, 3} })
