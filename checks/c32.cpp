// C32 obstacles live exactly as long as someone holds them
#include "lib.hpp"
#include <memory>
#include <malloc.h>

// counts its ends; the contents are poisoned so that a late use shows
struct Tracked : Ellipsoid
{
	int* ended;
	Tracked(const std::string& n, double x, int* e) : Ellipsoid(n, State(x, 0, 0)), ended(e) { set_axis_lengths(A3(1, 1, 1)); }
	~Tracked() { ++*ended; }
};
struct Tracked2 : Aggregate
{
	int* ended;
	Tracked2(const List& l, int* e) : Aggregate(l), ended(e) {}
	~Tracked2() { ++*ended; }
};

static const int N = 3;
static const char* NAME[N] = {"a", "b", "c"};

// who holds what
struct Env
{
	std::unique_ptr<Environment> e;
	std::set<int> registered, listed;
};
struct World
{
	int ended[N] = {0, 0, 0};
	std::shared_ptr<Obstacle> own[N];
	std::weak_ptr<Obstacle> watch[N];
	Env env[2];
	List kept;
	std::set<int> kept_model;
	std::shared_ptr<Aggregate> group;
	std::set<int> group_model;
	std::vector<std::weak_ptr<Obstacle>> aggregates[2]; // of the present list
	std::vector<std::weak_ptr<Obstacle>> old;           // of former lists
	std::unique_ptr<Agent> agent;
	bool held(int i) const
	{
		return own[i] || env[0].registered.count(i) || env[0].listed.count(i) || env[1].registered.count(i) || env[1].listed.count(i) || kept_model.count(i) || group_model.count(i);
	}
};
static void look(Ctx& c, World& w, const char* what)
{
	mc::Hash h;
	for(int i = 0; i < N; ++i)
	{
		bool alive = !w.watch[i].expired(), want = w.held(i);
		c.check(alive == want && w.ended[i] == int(!want), "life", [&] { return fmt("%s: obstacle %s %s, destroyed %d times", what, NAME[i], want ? "is held by someone" : "is held by nobody", w.ended[i]); });
		h.u(alive).u(bool(w.own[i]));
	}
	// former aggregates are gone, unless the caller keeps them
	for(auto& o : w.old)
	{
		auto s = o.lock();
		bool wanted = false;
		if(s) for(auto& k : w.kept) wanted |= k == s;
		if(s) for(auto& v : w.env) if(v.e) for(auto& k : v.e->get_obstacle_list()) wanted |= k == s;
		c.check(!s || wanted, "old-group", [&] { return fmt("%s: a group of a former list is still there", what); });
	}
	for(auto& v : w.env)
	{
		h.u(bool(v.e));
		for(int i : v.registered) h.u(uint64_t(i));
		h.u(77);
		for(int i : v.listed) h.u(uint64_t(i));
		h.u(88);
	}
	h.u(w.kept_model.size()).u(w.group_model.size());
	c.state(h);
}
static void replaced(World& w, int k)
{
	for(auto& o : w.aggregates[k]) w.old.push_back(o);
	w.aggregates[k].clear();
	if(w.env[k].e) for(auto& o : w.env[k].e->get_obstacle_list()) if(o->get_type() == "Aggregate") w.aggregates[k].push_back(o);
}
static const int NOPS = 3 + 3 + 9;
static bool step(Ctx& c, World& w, int k)
{
	Env& e = w.env[0];
	c.transition();
	if(k < 3)
	{
		if(e.registered.count(k)) { c.note("remove %s", NAME[k]); e.e->remove_obstacle(NAME[k]); e.registered.erase(k); }
		else if(w.own[k]) { c.note("add %s", NAME[k]); e.e->add_obstacle(w.own[k]); e.registered.insert(k); }
		else return false;
		return true;
	}
	if(k < 6)
	{
		int i = k - 3;
		if(w.own[i]) { c.note("let go of %s", NAME[i]); w.own[i].reset(); }
		else if(e.registered.count(i)) { c.note("ask for %s", NAME[i]); w.own[i] = (*e.e)[NAME[i]]; }
		else return false;
		return true;
	}
	switch(k - 6)
	{
	case 0: c.note("update"); e.e->update(); e.listed = e.registered; replaced(w, 0); break;
	case 1: c.note("switch aggregation"); e.e->set_aggregated(!e.e->is_aggregated()); break;
	case 2:
		c.note("copy the environment");
		if(w.env[1].e) *w.env[1].e = *e.e; else w.env[1].e.reset(new Environment(*e.e));
		w.env[1].registered = e.registered;
		w.env[1].listed = e.listed;
		replaced(w, 1);
		break;
	case 3:
		if(!w.env[1].e) return false;
		c.note("destroy the copy");
		for(auto& o : w.aggregates[1]) w.old.push_back(o);
		w.aggregates[1].clear();
		w.env[1] = Env();
		break;
	case 4: c.note("keep the list"); w.kept = e.e->get_obstacle_list(); w.kept_model = e.listed; break;
	case 5: if(w.kept.empty()) return false; c.note("forget the list"); w.kept.clear(); w.kept_model.clear(); break;
	case 6:
	{
		c.note("group what there is");
		List l;
		w.group_model.clear();
		for(int i = 0; i < N; ++i) if(w.own[i]) { l.push_back(w.own[i]); w.group_model.insert(i); }
		if(l.empty()) { w.group.reset(); return false; }
		w.group = std::make_shared<Aggregate>(l);
		break;
	}
	case 7: if(!w.group) return false; c.note("dissolve the group"); w.group.reset(); w.group_model.clear(); break;
	case 8:
		c.note("queries");
		for(int i = 0; i < 4; ++i) Modulation::modulate_velocity(*w.agent, *e.e, i & 1, i & 2, i == 3);
		w.agent->exist_path(E3(9, 9, 0), e.e->get_obstacle_list());
		for(auto& o : e.e->get_obstacle_list()) w.agent->in_obstacle(*o);
		break;
	}
	return true;
}
static void fresh(World& w, bool aggregated)
{
	for(int i = 0; i < N; ++i)
	{
		w.own[i] = std::make_shared<Tracked>(NAME[i], i == 2 ? 9. : 1.2 * i, &w.ended[i]);
		w.watch[i] = w.own[i];
	}
	w.env[0].e.reset(new Environment(aggregated));
	w.agent.reset(new Agent(make_agent({-2, 0.3L, 0}, {1, 0, 0}, 0.1)));
}
// everything is let go of in some order; at the end nothing is left
static void end(Ctx& c, World& w)
{
	int order = c.pick(3);
	for(int k = 0; k < 3; ++k)
	{
		int what = (k + order) % 3;
		if(what == 0) for(auto& o : w.own) o.reset();
		else if(what == 1)
		{
			for(int j = 0; j < 2; ++j) { for(auto& o : w.aggregates[j]) w.old.push_back(o); w.aggregates[j].clear(); w.env[j] = Env(); }
		}
		else { w.kept.clear(); w.kept_model.clear(); w.group.reset(); w.group_model.clear(); }
		look(c, w, "at the end");
	}
	for(int i = 0; i < N; ++i) c.check(w.ended[i] == 1, "end", [&] { return fmt("%s was destroyed %d times", NAME[i], w.ended[i]); });
	for(auto& o : w.old) c.check(o.expired(), "end-group");
}
static void histories(Ctx& c)
{
	World w;
	fresh(w, true);
	int depth = mc::thorough() ? 5 : 4;
	for(int d = 0; d < depth; ++d)
	{
		if(!step(c, w, c.pick(NOPS))) return; // not possible here
		look(c, w, "after the last step");
	}
	end(c, w);
}
// deeper, from an environment that has grouped
static void later(Ctx& c)
{
	World w;
	fresh(w, true);
	for(int i = 0; i < N; ++i) step(c, w, i);
	step(c, w, 6);
	int start = c.pick(3);
	if(start == 1) { step(c, w, 8); step(c, w, 12); }
	if(start == 2) { step(c, w, 10); for(int i = 0; i < N; ++i) step(c, w, 3 + i); }
	look(c, w, "start");
	int depth = mc::thorough() ? 4 : 3;
	for(int d = 0; d < depth; ++d)
	{
		if(!step(c, w, c.pick(NOPS))) return;
		look(c, w, "after the last step");
	}
	end(c, w);
}
// obstacles held through every kind of handle, groups in groups, hulls, agents
static void handles(Ctx& c)
{
	int kind = c.pick(6), inner = c.pick(2), n = 1 + c.pick(3);
	int ended[3] = {0, 0, 0}, whole = 0;
	{
		List l;
		for(int i = 0; i < n; ++i) l.push_back(std::make_shared<Tracked>(NAME[i], 1.2 * i, &ended[i]));
		std::weak_ptr<Obstacle> last = l.back();
		Obstacle* raw = inner ? static_cast<Obstacle*>(new Tracked2(l, &whole)) : static_cast<Obstacle*>(new Tracked("x", 5, &whole));
		if(inner) l.clear();
		if(kind == 0) { std::unique_ptr<Obstacle> p(raw); }
		else if(kind == 1) { std::shared_ptr<Obstacle> p(raw); std::shared_ptr<Obstacle> q(p); }
		else if(kind == 2) delete raw;
		else if(kind == 3)
		{
			std::shared_ptr<Obstacle> p(raw);
			Aggregate g;
			g.add_primitive(p);
			p.reset();
			c.check(whole == 0, "member-kept");
		}
		else if(kind == 4)
		{
			std::shared_ptr<Obstacle> p(raw);
			Environment env(c.flip());
			env.add_obstacle(p);
			p.reset();
			env.update();
			env.remove_obstacle(env.get_obstacle_list().front()->get_name());
			c.check(whole == 0, "list-keeps");
			env.update();
			c.check(whole == 1, "list-lets-go");
		}
		else
		{
			std::shared_ptr<Obstacle> p(raw);
			std::unique_ptr<StarShapeHull> h(new StarShapeHull(List{p}, c.flip()));
			p.reset();
			c.check(whole == 1, "hull-does-not-keep");
		}
		c.check(whole == 1, "destroyed", [&] { return fmt("handle of kind %d: destroyed %d times", kind, whole); });
		if(inner) for(int i = 0; i < n; ++i) c.check(ended[i] == 1, "members-destroyed", [&] { return fmt("handle of kind %d: member %s destroyed %d times", kind, NAME[i], ended[i]); });
		else c.check(ended[0] == 0, "others-stay");
		c.transition();
	}
	for(int i = 0; i < n; ++i) c.check(ended[i] == 1, "members-at-the-end");
	c.state(mc::Hash().u(uint64_t(kind)).u(uint64_t(inner)).u(uint64_t(n)));
}
// many obstacles that come and go: nothing accumulates
static void turnover(Ctx& c)
{
	int n = 1 + c.pick(mc::thorough() ? 24 : 10), rounds = 1 + c.pick(4);
	bool aggregated = c.flip(), near = c.flip(), looked = c.flip();
	std::vector<int> ended(size_t(n * rounds), 0);
	Environment env(aggregated);
	Agent a = make_agent({-2, 0.3L, 0}, {1, 0, 0}, 0.1);
	std::weak_ptr<Obstacle> group;
	for(int r = 0; r < rounds; ++r)
	{
		for(int i = 0; i < n; ++i)
		{
			if(r) env.remove_obstacle(fmt("o%d", i));
			env.add_obstacle(std::make_shared<Tracked>(fmt("o%d", i), near ? 1.5 * i : 5. * i, &ended[size_t(r * n + i)]));
		}
		if(r) for(int i = 0; i < n; ++i) c.check(ended[size_t((r - 1) * n + i)] == 0, "listed-alive", [&] { return fmt("obstacle %d of round %d is gone before the update", i, r - 1); });
		env.update();
		if(looked) { Modulation::modulate_velocity(a, env, r & 1, true); for(auto& o : env.get_obstacle_list()) a.get_envelope().is_intersecting(*o); }
		for(int k = 0; k <= r; ++k) for(int i = 0; i < n; ++i)
			c.check(ended[size_t(k * n + i)] == int(k < r), "turnover", [&] { return fmt("obstacle %d of round %d after the update of round %d: destroyed %d times", i, k, r, ended[size_t(k * n + i)]); });
		if(r) c.check(group.expired(), "old-list", [&] { return fmt("an entry of the list of round %d is still there", r - 1); });
		group = env.get_obstacle_list().front();
		c.transition();
	}
	c.state(mc::Hash().u(uint64_t(n)).u(uint64_t(rounds)).u(aggregated).u(near).u(looked));
}
// bytes in use: nothing is left of what has come and gone, whatever it was called and wherever it was
extern "C" __attribute__((weak)) size_t __sanitizer_get_current_allocated_bytes();
static size_t in_use() { return __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : mallinfo2().uordblks; }
static const int KINDS = 10;
static void cycle(int kind, bool aggregated, int k, Environment& env, Agent& stays)
{
	double x = 0.01 * k;
	int dummy[3] = {0, 0, 0};
	Agent a = make_agent({-2 + x, 0.3L, 0}, {1, 0.001L * k, 0}, 0.1);
	std::string tag = fmt("%06d", k);
	List l;
	for(int i = 0; i < 3; ++i) l.push_back(std::make_shared<Tracked>(NAME[i] + tag, x + (i == 2 ? 9. : 1.2 * i), &dummy[i]));
	switch(kind)
	{
	case 0: for(auto& o : l) env.add_obstacle(o); env.update(); for(auto& o : l) env.remove_obstacle(o->get_name()); env.update(); break;
	case 1: { Environment e(aggregated); for(auto& o : l) e.add_obstacle(o); e.update(); Environment f(e), g(false); g = f; f.update(); break; }
	case 2: { Agent b(a), d(b); d = stays; b = d; stays = a; stays.set_position(E3(x, 0, 0)); stays.set_linear_velocity(E3(0, x, 0)); break; }
	case 3: { Environment e(aggregated); for(auto& o : l) e.add_obstacle(o); e.update(); for(int m = 0; m < 8; ++m) Modulation::modulate_velocity(a, e, m & 1, m & 2, m & 4); break; }
	case 4: for(auto& o : l) { o->compute_normal_to_agent(a); o->compute_distance_to_agent(a); o->point_is_inside(a.get_position()); o->generate_repulsion(a); o->sample_from_parameterization(20, true); o->shift_reference_point(a); static_cast<Ellipsoid&>(*o).area(true); Modulation::compute_modulation_matrix(a, *o); } break;
	case 5: for(auto& o : l) { a.in_obstacle(*o); a.get_envelope().is_intersecting(*o); o->is_intersecting(*l[0]); } a.exist_path(E3(x, 3, 0), l); break;
	case 6: { Aggregate g(l); g.update_hull(); const Obstacle& o = g; o.compute_normal_to_agent(a); o.compute_distance_to_agent(a); o.is_closed(); std::ostringstream os; os << o << a; break; }
	case 7: { StarShapeHull h(l, aggregated); h.set_resolution(40 + unsigned(k % 7)); h.compute_from_primitives(l); h.point_is_inside(a.get_position()); break; }
	case 8: { for(auto& o : l) { env.add_obstacle(o); try { env.add_obstacle(o); } catch(std::exception&) {} try { env["no" + tag]; } catch(std::exception&) {} env.remove_obstacle(o->get_name()); try { env.remove_obstacle(o->get_name()); } catch(std::exception&) {} } break; }
	case 9: { MathTools::linspace(x, 3, 9); MathTools::gridspace({x, 1}, {2, 3}, {4, 5}); Eigen::ArrayXd d(3); d << 2 + x, 3, 1.5; Modulation::weight_obstacles(d, 1, 2); for(auto& o : l) { o->set_name("renamed" + tag); Ellipsoid c2(static_cast<Ellipsoid&>(*o)); c2.set_axis_lengths(A3(x, 1, 1)); } break; }
	}
}
static void memory(Ctx& c)
{
	int kind = c.pick(KINDS);
	bool aggregated = c.flip();
	c.note("kind %d", kind);
	Environment env(aggregated);
	Agent stays = make_agent({0, 0, 0}, {1, 0, 0}, 0.1);
	int warm = 80, more = mc::thorough() ? 1200 : 240;
	for(int k = 0; k < warm; ++k) cycle(kind, aggregated, k, env, stays);
	size_t before = in_use();
	for(int k = 0; k < more; ++k) cycle(kind, aggregated, warm + k, env, stays);
	size_t after = in_use();
	c.check(after <= before + 1024, "grows", [&] { return fmt("cycles of kind %d: %zu bytes in use after %d, %zu after %d", kind, before, warm, after, warm + more); });
	c.transition(uint64_t(more));
	c.state(mc::Hash().u(uint64_t(kind)).u(aggregated));
}
MC_MAIN("C32", { {"histories", histories, 3}, {"later", later, 3}, {"handles", handles, 2}, {"turnover", turnover, 3}, {"memory", memory, 2} })
