// C08 what an update produces depends on the present obstacles only, not on the past of the environment
#include "envmodel.hpp"

struct Item { std::string name; ESpec spec[2]; int which = 0; bool small = false, present = false; std::shared_ptr<Ellipsoid> obj; };

static void put(Item& it)
{
	const ESpec& s = it.spec[it.which];
	it.obj->set_position(ev(s.pos));
	it.obj->set_reference_position(ev(s.pos));
	it.obj->set_orientation(eq(s.rot));
	it.obj->set_axis_lengths((it.small ? 0.2 : 1.0) * ea(s.axes));
}
static std::shared_ptr<Ellipsoid> fresh(const Item& it)
{
	ESpec s = it.spec[it.which];
	auto e = s.make(it.name);
	e->set_axis_lengths((it.small ? 0.2 : 1.0) * ea(s.axes));
	return e;
}
static std::vector<std::shared_ptr<Obstacle>> sorted(const List& l)
{
	std::vector<std::shared_ptr<Obstacle>> v(l.begin(), l.end());
	std::sort(v.begin(), v.end(), [](const std::shared_ptr<Obstacle>& a, const std::shared_ptr<Obstacle>& b) { return a->get_name() != b->get_name() ? a->get_name() < b->get_name() : a->get_type() < b->get_type(); });
	return v;
}
static const std::vector<ref::V>& probes()
{
	static std::vector<ref::V> p{{0.1L, 0.2L, 0}, {1, 3, 0}, {3, -2, 0}, {-4, 0.5L, 0}, {6.3L, 2, 0}, {12, -1.4L, 0}, {0.7L, -0.4L, 0}};
	return p;
}
static void compare(Ctx& c, Environment& e, Environment& f, const char* what)
{
	auto a = sorted(e.get_obstacle_list()), b = sorted(f.get_obstacle_list());
	auto w = [&](const std::string& s) { return std::string(what) + ": " + s + " [" + names(e.get_obstacle_list()) + "] vs new [" + names(f.get_obstacle_list()) + "]"; };
	c.check(a.size() == b.size(), "count", [&] { return w("different lists"); });
	for(size_t i = 0; i < a.size(); ++i)
	{
		c.check(a[i]->get_name() == b[i]->get_name() && a[i]->get_type() == b[i]->get_type(), "name", [&] { return w("different names"); });
		c.check(close(a[i]->get_position(), b[i]->get_position(), 1e-9), "position", [&] { return w(a[i]->get_name() + " at " + str(a[i]->get_position()) + " expected " + str(b[i]->get_position())); });
		c.check(close(a[i]->get_reference_position(), b[i]->get_reference_position(), 1e-9), "reference", [&] { return w("reference of " + a[i]->get_name() + " " + str(a[i]->get_reference_position()) + " expected " + str(b[i]->get_reference_position())); });
		c.check(a[i]->is_closed() == b[i]->is_closed(), "closed", [&] { return w("closedness of " + a[i]->get_name()); });
		for(auto& p : probes())
		{
			c.check(a[i]->point_is_inside(ev(p)) == b[i]->point_is_inside(ev(p)), "inside", [&] { return w("membership of " + str(p) + " in " + a[i]->get_name()); });
			double x = dist_to(*a[i], ev(p), 0.1), y = dist_to(*b[i], ev(p), 0.1);
			c.check(std::fabs(x - y) <= 1e-7 * (1 + std::fabs(y)), "distance", [&] { return w(fmt("distance of %s to %s is %.9g expected %.9g", str(p).c_str(), a[i]->get_name().c_str(), x, y)); });
		}
	}
	for(auto& p : probes())
	{
		Agent g = make_agent(p, {1, 0.3L, 0}, 0.1);
		E3 x = Modulation::modulate_velocity(g, e), y = Modulation::modulate_velocity(g, f);
		c.check(close(x, y, 1e-6 * (1 + y.norm())), "velocity", [&] { return w("velocity at " + str(p) + " is " + str(x) + " expected " + str(y)); });
	}
}

struct Setup
{
	std::vector<Item> items;
	Environment env;
	bool aggregated = true;
	Setup()
	{
		auto it = [&](const char* n, ESpec s, ESpec t) { Item i; i.name = n; i.spec[0] = s; i.spec[1] = t; i.obj = s.make(n); items.push_back(i); };
		it("a", espec({0, 0, 0}, 0, {1, 1, 1}), espec({6, 0.5L, 0}, 0.4L, {1, 1.5L, 1}));
		it("b", espec({1.2L, 0.1L, 0}, 0.3L, {1, 0.8L, 1}, {0.1L, 0.1L, 0.1L}), espec({12, 0, 0}, 0, {1, 1, 1}, {0.1L, 0.1L, 0.1L}));
		it("c", espec({2.6L, 0, 0}, 0, {1, 1, 1}), espec({-6, 0, 0}, 1.0L, {0.5L, 2, 1}));
	}
	void toggle(size_t i) { Item& t = items[i]; if(t.present) env.remove_obstacle(t.name); else env.add_obstacle(t.obj); t.present = !t.present; }
	void check(Ctx& c)
	{
		env.update();
		Environment f(aggregated);
		for(auto& t : items) if(t.present) f.add_obstacle(fresh(t));
		f.update();
		compare(c, env, f, "after a history");
		mc::Hash h;
		for(auto& t : items) h.u(t.present).u(uint64_t(t.which)).u(t.small);
		h.u(aggregated);
		c.state(h);
	}
	bool op(Ctx& c, int k)
	{
		c.transition();
		switch(k)
		{
		case 0: case 1: case 2: toggle(size_t(k)); c.note(std::string(items[size_t(k)].present ? "added " : "removed ") + items[size_t(k)].name); return true;
		case 3: case 4: case 5: { Item& t = items[size_t(k - 3)]; t.which ^= 1; put(t); c.note("moved " + t.name); return true; }
		case 6: items[1].small ^= 1; put(items[1]); c.note("resized b"); return true;
		case 7: env.update(); c.note("update"); return true;
		case 8: aggregated = !aggregated; env.set_aggregated(aggregated); c.note("switched aggregation"); return true;
		case 9: for(auto& o : env.get_obstacle_list()) if(o->get_type() == "Aggregate") { o->set_reference_position(E3(0.3, -0.4, 0)); static_cast<Aggregate&>(*o).update_hull(); } c.note("reference of the aggregates changed"); return true;
		}
		return false;
	}
};

static void from_populated(Ctx& c)
{
	Setup s;
	for(size_t i = 0; i < 3; ++i) s.toggle(i);
	s.env.update();
	c.note("three overlapping obstacles, updated");
	int n = c.pick(mc::thorough() ? 5 : 4) + 1;
	if(n == 4 && !mc::thorough())
	{
		// longest histories: an update in the middle
		s.op(c, c.pick(10));
		s.env.update();
		s.op(c, c.pick(10));
		s.env.update();
		s.op(c, c.pick(10));
		s.check(c);
		return;
	}
	for(int i = 0; i < n; ++i) s.op(c, c.pick(10));
	s.check(c);
}
static void from_empty(Ctx& c)
{
	Setup s;
	int n = mc::thorough() ? 5 : 4;
	for(int i = 0; i < n; ++i)
	{
		// additions and updates first
		s.op(c, c.pick(i < 2 ? 3 : 9));
		if(i == 1) s.env.update();
	}
	s.check(c);
}
// long histories of one obstacle coming and going between two others
static void bridge(Ctx& c)
{
	Setup s;
	s.toggle(0);
	s.toggle(2);
	s.env.update();
	int n = mc::thorough() ? 8 : 6;
	for(int i = 0; i < n; ++i)
	{
		static const int ops[3] = {1, 4, 6};
		s.op(c, ops[c.pick(3)]);
		s.env.update();
	}
	s.check(c);
}
// an obstacle that bears the name of a group
static void homonym(Ctx& c)
{
	Setup s;
	static const char* const names[3] = {"aggregate_a_b", "aggregate_a_b_c", "aggregate"};
	Item i;
	i.name = names[c.pick(3)];
	i.spec[0] = espec({20, 3, 0}, 0.4L, {1, 1.2L, 1});
	i.spec[1] = espec({1.4L, 1.2L, 0}, 0, {0.8L, 1, 1});
	i.obj = i.spec[0].make(i.name);
	s.items.push_back(i);
	s.toggle(0);
	s.toggle(1);
	if(c.flip()) s.toggle(2);
	if(c.flip()) s.toggle(3);
	s.env.update();
	for(int k = 0; k < 3; ++k)
	{
		int op = c.pick(6);
		if(op == 5) { s.items[3].which ^= 1; put(s.items[3]); c.note("moved the namesake"); }
		else if(op == 4) { s.toggle(3); c.note("namesake comes or goes"); }
		else { static const int ops[4] = {0, 2, 4, 6}; s.op(c, ops[op]); }
		c.transition();
		s.env.update();
	}
	s.check(c);
}
// large groups that dissolve: some members leave, move away or all of them part
static void dissolve(Ctx& c)
{
	int n = 2 + c.pick(mc::thorough() ? 11 : 8);
	Setup s;
	s.items.clear();
	for(int i = 0; i < n; ++i)
	{
		Item t;
		t.name = fmt("m%d", (i * 7) % 16);
		t.spec[0] = espec({1.3L * i, 0.2L * (i % 2), 0}, 0.1L * i, {1, 0.8L, 1});
		t.spec[1] = espec({1.3L * i, 10 + 3.0L * i, 0}, 0.1L * i, {1, 0.8L, 1});
		t.obj = t.spec[0].make(t.name);
		s.items.push_back(t);
	}
	for(size_t i = 0; i < s.items.size(); ++i) s.toggle(i);
	s.env.update();
	int steps = 1 + c.pick(2);
	for(int k = 0; k < steps; ++k)
	{
		size_t x = size_t(c.pick(n));
		switch(c.pick(6))
		{
		case 0: s.toggle(x); c.note("one leaves or comes back"); break;
		case 1: s.items[x].which ^= 1; put(s.items[x]); c.note("one moves"); break;
		case 2: for(size_t i = 0; i < s.items.size(); ++i) if(i % 2 == x % 2) s.toggle(i); c.note("every other one"); break;
		case 3: for(auto& t : s.items) { t.small ^= 1; t.obj->set_axis_lengths((t.small ? 0.2 : 1.0) * ea(t.spec[t.which].axes)); } c.note("all shrink or grow"); break;
		case 4: s.aggregated = !s.aggregated; s.env.set_aggregated(s.aggregated); c.note("aggregation switched"); break;
		case 5: s.env.update(); c.note("update"); break;
		}
		c.transition();
		s.env.update();
	}
	s.check(c);
}
// updating again changes nothing
static void idempotent(Ctx& c)
{
	Setup s, t;
	for(size_t i = 0; i < 3; ++i)
	{
		bool in = c.flip(), second = c.flip();
		for(Setup* q : {&s, &t})
		{
			q->items[i].which = second;
			put(q->items[i]);
			if(in) q->toggle(i);
		}
	}
	bool agg = c.flip();
	s.env.set_aggregated(agg);
	t.env.set_aggregated(agg);
	s.env.update();
	int n = 1 + c.pick(3);
	for(int i = 0; i < n; ++i) { t.env.update(); c.transition(); }
	t.env.update();
	compare(c, t.env, s.env, "updated several times");
}
// obstacles with reference positions of their own, never aggregated, keep them through updates
static void own_reference(Ctx& c)
{
	bool agg = c.flip();
	Environment e(agg);
	std::vector<std::shared_ptr<Ellipsoid>> v;
	std::vector<E3> refs;
	for(int i = 0; i < 3; ++i)
	{
		E3 pos(10. * i, agg ? 0 : 0, 0), r = pos + (c.flip() ? E3(0.3, -0.2, 0) : E3(0, 0, 0));
		v.push_back(std::make_shared<Ellipsoid>("o" + std::to_string(i), State(pos), r, A3(0.1, 0.1, 0.1)));
		refs.push_back(r);
		e.add_obstacle(v.back());
	}
	for(int k = 0; k < 4; ++k)
	{
		int op = c.pick(4);
		c.transition();
		if(op < 3) { refs[size_t(op)] = E3(10. * op + 0.1 * k, 0.2, 0); v[size_t(op)]->set_reference_position(refs[size_t(op)]); c.note("reference of %d set", op); }
		e.update();
		for(size_t i = 0; i < 3; ++i)
			c.check(same(v[i]->get_reference_position(), refs[i]), "own-reference", [&] { return fmt("obstacle %zu: reference %s expected %s", i, str(v[i]->get_reference_position()).c_str(), str(refs[i]).c_str()); });
	}
}
// a group that the user has registered is an obstacle like any other: updates leave it and its members as they are
static void registered(Ctx& c)
{
	Environment e(c.flip());
	List l;
	bool own = c.flip(), pair = c.flip();
	for(int i = 0; i < 2 + int(c.flip()); ++i) l.push_back(espec({1.1L * i, 0.3L * i, 0}, 0.3L * i, {1, 0.7L, 1}).make(fmt("m%d", i)));
	auto a = std::make_shared<Aggregate>(l);
	E3 centre = a->get_position(), reference = centre;
	if(own) { reference = centre + E3(0.2, 0.1, 0); a->set_reference_position(reference); a->update_hull(); }
	if(c.flip()) a->set_name("room");
	std::string name = a->get_name();
	std::vector<E3> at;
	for(auto& o : l) at.push_back(o->get_position());
	std::vector<std::shared_ptr<Ellipsoid>> others;
	for(int i = 0; i < 2; ++i) { others.push_back(espec({20 + (pair ? 1.2L : 8.0L) * i, 0, 0}, 0, {1, 1, 1}).make(fmt("o%d", i))); e.add_obstacle(others.back()); }
	bool late = c.flip(), in = !late;
	if(in) e.add_obstacle(a);
	int n = mc::thorough() ? 4 : 3;
	for(int k = 0; k < n; ++k)
	{
		switch(c.pick(4))
		{
		case 0: break;
		case 1: if(in) e.remove_obstacle(name); else e.add_obstacle(a); in = !in; c.note(in ? "group added" : "group removed"); break;
		case 2: others[1]->set_position(E3(others[1]->get_position()(0) < 22 ? 28 : 21.2, 0, 0)); others[1]->set_reference_position(others[1]->get_position()); c.note("another one moved"); break;
		case 3: e.set_aggregated(!e.is_aggregated()); c.note("switched aggregation"); break;
		}
		c.transition();
		e.update();
		size_t found = 0;
		for(auto& o : e.get_obstacle_list()) found += o == a;
		c.check(found == size_t(in), "registered-group", [&] { return fmt("step %d: the group is in the list %zu times", k, found); });
		if(in) c.check(e[name] == a, "registered-group", [&] { return fmt("step %d: the lookup gives another obstacle", k); });
		// members of a group that has left belong to nobody: not judged
		if(!in) { if(!close(a->get_reference_position(), reference, 1e-9) || a->get_primitives().size() != l.size()) c.check(false, "registered-group", [&] { return fmt("step %d: the group has changed", k); }); a->set_reference_position(reference); continue; }
		c.check(a->get_name() == name && close(a->get_position(), centre, 1e-12) && close(a->get_reference_position(), reference, 1e-12) && a->get_primitives().size() == l.size(), "registered-group", [&] { return fmt("step %d: the group is now ", k) + a->get_name() + " at " + str(a->get_position()); });
		for(size_t i = 0; i < l.size(); ++i)
			c.check(same(l[i]->get_position(), at[i]) && close(l[i]->get_reference_position(), reference, 1e-12), "registered-group-member", [&] { return fmt("step %d: member %zu at %s with reference %s", k, i, str(l[i]->get_position()).c_str(), str(l[i]->get_reference_position()).c_str()); });
	}
	mc::Hash h;
	h.u(in).u(own).u(pair).u(l.size()).u(e.is_aggregated());
	hs(h, others[1]->get_position());
	c.state(h);
}
MC_MAIN("C08", { {"from-populated", from_populated, 3}, {"from-empty", from_empty, 3}, {"bridge", bridge, 3}, {"homonym", homonym, 3}, {"dissolve", dissolve, 3}, {"idempotent", idempotent, 3}, {"own-reference", own_reference, 3}, {"registered", registered, 3} })
