// C30 what is drawn is where the obstacles, the agent, the goal and the trajectory are
#include "drawn.hpp"
#include "hullmodel.hpp"
#include "DynamicObstacleAvoidance/Utils/Plotting/PlottingTools.hpp"

typedef rec::Call Call;

struct Item { ref::Ell ell; std::string name; Obstacle* o = nullptr; };
// one registered thing: a single ellipsoid, or a group with its members
struct Thing { std::shared_ptr<Obstacle> o; std::vector<Item> members; bool group = false; };
static std::vector<std::shared_ptr<Ellipsoid>> pool(bool xz)
{
	std::vector<std::shared_ptr<Ellipsoid>> r;
	static const std::vector<ref::V> pos{{2, 1, 0.5L}, {-3, 0.2L, 1}, {0, -4, -2}, {6, 6, 6}, {-7, 3, -1}, {3, -7, 2}, {-2, -6, 0}, {8, -3, 3}};
	for(size_t i = 0; i < 8; ++i)
	{
		ESpec s;
		s.pos = pos[i];
		s.rot = {xz ? ref::V{0, 1, 0} : ref::V{0, 0, 1}, ref::R(i) * 0.7L - 2};
		s.axes = {1 + ref::R(i) * 0.3L, 2 - ref::R(i) * 0.2L, 0.6L + ref::R(i) * 0.1L};
		if(i % 2) s.margin = {0.1L, 0.4L, 0.25L};
		s.own_ref = true;
		s.refpos = pos[i] + (i % 3 ? ref::V{0.1L, -0.2L, 0.15L} : ref::V{0, 0, 0});
		r.push_back(s.make(i % 4 == 3 ? "" : fmt("o%zu", i)));
	}
	return r;
}
static ref::Ell ell_of(const Ellipsoid& e)
{
	ref::Ell l;
	l.pose = {rv(e.get_position()), mat(e.get_orientation())};
	l.axes = rv(e.get_axis_lengths());
	l.margin = rv(e.get_safety_margin());
	l.reference = rv(e.get_reference_position());
	return l;
}
static ref::R coord(ref::V v, bool xz) { return xz ? v.z : v.y; }
// a panel of drawing calls, from which the expected ones are taken out one after the other
struct Panel
{
	Ctx& c;
	std::vector<Call> calls;
	bool xz;
	std::string what;
	std::string all() const { std::string s; for(auto& k : calls) s += " " + k.what + "(" + k.s + fmt(" %zu", k.x.size()) + (k.x.size() == 1 && k.y.size() == 1 ? fmt(" at %g %g", k.x[0], k.y[0]) : "") + ")"; return s; }
	template <class F> void take(const char* key, F&& match, const std::string& expect)
	{
		for(size_t i = 0; i < calls.size(); ++i) if(match(calls[i])) { calls.erase(calls.begin() + long(i)); c.check(true, key); return; }
		c.check(false, key, [&] { return what + ": nothing drawn like " + expect + "; left:" + all(); });
	}
	void mark(const char* key, ref::V v, const std::string& f)
	{
		take(key, [&](const Call& k) { return k.what == "plot" && k.s == f && k.x.size() == 1 && k.y.size() == 1 && std::fabs(k.x[0] - v.x) < 1e-9L && std::fabs(k.y[0] - coord(v, xz)) < 1e-9L; }, key + (" " + f + " at " + str(v)));
	}
	void label(ref::V v, const std::string& name, const std::string& colour)
	{
		if(name.empty()) mark("centre", v, colour + "o");
		else take("name", [&](const Call& k) { return k.what == "text" && k.s == name && std::fabs(k.x[0] - v.x) < 1e-9L && std::fabs(k.y[0] - coord(v, xz)) < 1e-9L; }, "name " + name + " at " + str(v));
	}
	// closed curve on the outline of the ellipse, without gaps
	static bool on_outline(const Call& k, const ref::Ell& e, ref::V len, bool xz)
	{
		if(k.x.size() < 24 || k.x.size() != k.y.size()) return false;
		ref::P inv = ref::inv(e.pose);
		ref::R maxgap = 0, last = 0, turned = 0;
		for(size_t i = 0; i < k.x.size(); ++i)
		{
			ref::V p = inv * (xz ? ref::V{ref::R(k.x[i]), e.pose.t.y, ref::R(k.y[i])} : ref::V{ref::R(k.x[i]), ref::R(k.y[i]), e.pose.t.z});
			ref::R u = p.x / len.x, w = xz ? p.z / len.z : p.y / len.y;
			if(std::fabs(std::hypot(u, w) - 1) > 1e-6L) return false;
			ref::R a = std::atan2(w, u);
			if(i)
			{
				ref::R d = a - last;
				while(d > ref::PI) d -= 2 * ref::PI;
				while(d < -ref::PI) d += 2 * ref::PI;
				maxgap = std::max(maxgap, std::fabs(d));
				turned += d;
			}
			last = a;
		}
		return maxgap < 0.2L && std::fabs(std::fabs(turned) - 2 * ref::PI) < 0.2L;
	}
	void ellipsoid(const Ellipsoid& e, const std::string& colour)
	{
		ref::Ell l = ell_of(e);
		take("outline", [&](const Call& k) { return k.what == "plot" && k.s == colour + "-" && on_outline(k, l, l.axes, xz); }, "outline " + colour + " of " + e.get_name());
		take("margin", [&](const Call& k) { return k.what == "plot" && k.s == colour + "--" && on_outline(k, l, l.axes + l.margin, xz); }, "margin " + colour + " of " + e.get_name());
		label(l.pose.t, e.get_name(), colour);
		mark("reference", l.reference, colour + "x");
	}
	void hull(const HullModel& m, const std::string& expect)
	{
		take("hull", [&](const Call& k)
		{
			if(k.what != "plot" || k.s != "k--" || k.x.size() < 100 || k.x.size() != k.y.size()) return false;
			if(xz)
			{
				// seen from the side: in the plane of the centre, as wide as the hull
				ref::R lo = 1e30L, hi = -1e30L;
				for(size_t i = 0; i < k.x.size(); ++i) { if(std::fabs(k.y[i] - m.centre.z) > 1e-6L) return false; lo = std::min<ref::R>(lo, k.x[i]); hi = std::max<ref::R>(hi, k.x[i]); }
				// least and largest extent allowed by the resolution of the hull
				ref::R r0 = -1e30L, r1 = -1e30L, l0 = -1e30L, l1 = -1e30L;
				for(int i = 0; i < 360; ++i)
				{
					ref::R f = 2 * ref::PI * i / 360, x = std::cos(f);
					auto r = m.range(f);
					(x > 0 ? r0 : l0) = std::max(x > 0 ? r0 : l0, r.lo * std::fabs(x));
					(x > 0 ? r1 : l1) = std::max(x > 0 ? r1 : l1, r.hi * std::fabs(x));
				}
				hi -= m.centre.x;
				lo = m.centre.x - lo;
				return hi > r0 - 0.02L && hi < r1 + 0.02L && lo > l0 - 0.02L && lo < l1 + 0.02L;
			}
			std::vector<ref::R> phi;
			for(size_t i = 0; i < k.x.size(); ++i)
			{
				ref::V p{ref::R(k.x[i]), ref::R(k.y[i]), 0};
				auto r = m.range(m.phi(p));
				if(m.radius(p) < r.lo || m.radius(p) > r.hi) return false;
				phi.push_back(m.phi(p));
			}
			std::sort(phi.begin(), phi.end());
			phi.push_back(phi[0] + 2 * ref::PI);
			for(size_t i = 1; i < phi.size(); ++i) if(phi[i] - phi[i - 1] > 0.1L) return false;
			return true;
		}, expect);
	}
	void thing(const Thing& t, const std::string& colour)
	{
		if(!t.group) { ellipsoid(dynamic_cast<const Ellipsoid&>(*t.o), colour); return; }
		auto& a = dynamic_cast<const Aggregate&>(*t.o);
		HullModel out, in;
		for(auto& p : a.get_primitives())
		{
			auto& e = dynamic_cast<const Ellipsoid&>(*p);
			ellipsoid(e, colour);
			out.prims.push_back(ell_of(e));
		}
		out.centre = rv(a.get_reference_position());
		in = out;
		in.inside = true;
		hull(out, "outer hull");
		hull(in, "inner hull");
		mark("group-reference", rv(a.get_reference_position()), "bx");
		// the hulls mark their own centre
		for(int i = 0; i < 2; ++i) { mark("hull-centre", out.centre, "ko"); mark("hull-reference", out.centre, "kx"); }
	}
	void agent(const Agent& a, const std::string& colour) { mark("agent", rv(a.get_position()), colour + "o"); }
	void trajectory(ref::V goal, const std::deque<E3>& h)
	{
		mark("goal", goal, "rx");
		take("trajectory", [&](const Call& k)
		{
			if(k.what != "plot" || k.s != "k-" || k.x.size() != h.size() || k.y.size() != h.size()) return false;
			for(size_t i = 0; i < h.size(); ++i) if(std::fabs(k.x[i] - h[i](0)) > 1e-9 || std::fabs(k.y[i] - h[i](xz ? 2 : 1)) > 1e-9) return false;
			return true;
		}, fmt("trajectory of %zu points", h.size()));
	}
	void limits(double x0, double x1, double y0, double y1)
	{
		take("limits", [&](const Call& k) { return k.what == "xlim" && k.x == std::vector<double>{x0, x1}; }, "limits of x");
		take("limits", [&](const Call& k) { return k.what == "ylim" && k.x == std::vector<double>{y0, y1}; }, "limits of y");
	}
	void empty() { c.check(calls.empty(), "more", [&] { return what + ": also drawn:" + all(); }); }
};
static const std::vector<std::string> colours{"b", "g", "r", "c", "m", "y"};
static std::vector<Thing> things(Ctx& c, bool xz, int most, bool groups)
{
	auto p = pool(xz);
	// every subset of two consecutive ones can be made a group
	int n = c.pick(most + 1), group = groups && n >= 2 ? c.pick(n) : 0; // 0: no group
	std::vector<Thing> v;
	for(int i = 0; i < n; ++i)
	{
		Thing t;
		if(group && i == group - 1)
		{
			// hulls are planar: the members are at the same height
			E3 at = p[size_t(i) + 1]->get_position();
			at(2) = p[size_t(i)]->get_position()(2);
			p[size_t(i) + 1]->set_position(at);
			if(xz) for(int j = i; j < i + 2; ++j) p[size_t(j)]->set_orientation(Q::Identity());
			List l{p[size_t(i)], p[size_t(i) + 1]};
			t.o = std::make_shared<Aggregate>(l);
			t.group = true;
			++i;
		}
		else t.o = p[size_t(i)];
		v.push_back(t);
	}
	return v;
}
static List list_of(const std::vector<Thing>& v) { List l; for(auto& t : v) l.push_back(t.o); return l; }
static std::vector<E3> history(int n) { std::vector<E3> h; for(int i = 0; i < n; ++i) h.push_back(E3(i * 0.5 - 3, i * i * 0.1, 1 - 0.3 * i)); return h; }
// the parts, one by one
static void parts(Ctx& c)
{
	int kind = c.pick(5);
	bool xz = c.flip();
	std::string ax = xz ? "xz" : "xy";
	rec::clear();
	mc::Hash h;
	h.u(uint64_t(kind)).u(xz);
	if(kind == 0)
	{
		auto p = pool(xz);
		size_t i = size_t(c.pick(8));
		std::string colour = c.of(std::vector<std::string>{"b", "k", "m"});
		int other = c.pick(3);
		if(other == 1) { p[i]->set_axis_lengths(A3(0.2, 3, 1)); p[i]->set_position(E3(1, 2, 3)); }
		if(other == 2) { p[i]->set_name(""); p[i]->set_orientation(Q::Identity()); }
		p[i]->draw(colour, ax);
		Panel k{c, rec::calls(), xz, "obstacle in " + ax};
		k.ellipsoid(*p[i], colour);
		k.empty();
		h.u(i).s(colour).u(uint64_t(other));
	}
	else if(kind == 1)
	{
		auto t = things(c, xz, 8, true);
		PlottingTools::plot_obstacles(list_of(t), ax);
		Panel k{c, rec::calls(), xz, fmt("%zu obstacles in ", t.size()) + ax};
		for(size_t i = 0; i < t.size(); ++i) { k.thing(t[i], colours[i % 6]); h.u(t[i].group); }
		k.empty();
	}
	else if(kind == 2)
	{
		Agent a = make_agent(rv(E3(c.pick(5) - 2, 0.7 * c.pick(5) - 1, c.pick(3))), {1, 0, 0}, 0.2);
		std::string colour = c.of(std::vector<std::string>{"", "r", "g"});
		if(colour.empty()) PlottingTools::plot_agent(a, ax);
		else PlottingTools::plot_agent(a, ax, colour);
		Panel k{c, rec::calls(), xz, "agent in " + ax};
		k.agent(a, colour.empty() ? "b" : colour);
		k.empty();
		hs(h, a.get_position()).s(colour);
	}
	else if(kind == 4)
	{
		// a hull of its own, with a name or without, moved after it was computed
		auto p = pool(xz);
		std::string colour = c.of(std::vector<std::string>{"k", "r"}), name = c.flip() ? "hull" : "";
		bool inside = c.flip();
		int moved = c.pick(4);
		E3 at = p[1]->get_position();
		at(2) = p[0]->get_position()(2);
		p[1]->set_position(at);
		if(xz) for(int j = 0; j < 2; ++j) p[size_t(j)]->set_orientation(Q::Identity());
		List l{p[0], p[1]};
		StarShapeHull hull(l, inside);
		hull.set_name(name);
		HullModel m;
		for(int j = 0; j < 2; ++j) m.prims.push_back(ell_of(*p[size_t(j)]));
		m.centre = rv(hull.get_position());
		m.inside = inside;
		E3 position = hull.get_position(), reference = hull.get_reference_position();
		if(moved & 1) { position = E3(4, -5, 6); hull.set_position(position); }
		if(moved & 2) { reference = E3(-1.5, 2.5, 3.5); hull.set_reference_position(reference); }
		hull.draw(colour, ax);
		Panel k{c, rec::calls(), xz, "hull in " + ax};
		// the outline is the one computed; its marks are those of the hull
		for(auto& q : k.calls) if(q.what == "plot" && q.s == colour + "--") q.s = "k--";
		k.hull(m, "hull");
		k.label(rv(position), name, colour);
		k.mark("reference", rv(reference), colour + "x");
		k.empty();
		h.s(colour).s(name).u(inside).u(uint64_t(moved));
	}
	else
	{
		static const std::vector<int> sizes{0, 1, 2, 3, 4, 5, 6, 7, 99, 100, 101, 257, 5000};
		int n = c.of(sizes);
		auto v = history(n);
		E3 goal(c.pick(3), 1 - c.pick(3), c.pick(2) * 0.4);
		std::deque<E3> d(v.begin(), v.end());
		PlottingTools::plot_agent_trajectory(goal, d, ax);
		Panel k{c, rec::calls(), xz, "trajectory in " + ax};
		k.trajectory(rv(goal), d);
		k.empty();
		h.u(uint64_t(n));
		hs(h, goal);
	}
	c.transition();
	c.state(h);
}
// the whole figures
static void figures(Ctx& c)
{
	int kind = c.pick(3);
	// how much of the call is left to the defaults: shown, in 2D, not saved
	int given = kind == 2 ? 2 + c.pick(2) : c.pick(4);
	bool three = given > 2 ? c.flip() : false, show = given > 1 ? c.flip() : true, save = given > 0 ? c.flip() : false;
	bool flat = kind == 2 && !three; // the guard is shown from the side
	bool upright = c.flip(); // obstacles turned about the vertical or about the second axis
	if(three == false && upright == flat) return;
	auto t = things(c, !upright, mc::thorough() ? 8 : 4, kind != 2 || three);
	int n = c.of(std::vector<int>{0, 1, 5});
	auto v = history(n);
	std::deque<E3> d(v.begin(), v.end());
	E3 goal(3, -2, 1);
	Agent a = make_agent({1, 2, -1}, {1, 0, 0}, 0.1), g = make_agent({-2, 0.5L, 2}, {0, 0, 0}, 0);
	std::string f = save ? "picture" : "";
	rec::clear();
	List l = list_of(t);
	if(kind == 0 && given == 0) PlottingTools::plot_configuration(a, l, goal, d);
	else if(kind == 0 && given == 1) PlottingTools::plot_configuration(a, l, goal, d, f);
	else if(kind == 0 && given == 2) PlottingTools::plot_configuration(a, l, goal, d, f, show);
	else if(kind == 0) PlottingTools::plot_configuration(a, l, goal, d, f, show, three);
	else if(kind == 2 && given == 2) PlottingTools::plot_guard_configuration(a, g, l, goal, d, f, show);
	else if(kind == 2) PlottingTools::plot_guard_configuration(a, g, l, goal, d, f, show, three);
	else if(given == 0) PlottingTools::plot_configuration(l);
	else if(given == 1) PlottingTools::plot_configuration(l, f);
	else if(given == 2) PlottingTools::plot_configuration(l, f, show);
	else PlottingTools::plot_configuration(l, f, show, three);
	c.transition();
	std::vector<Call> k = rec::calls();
	std::string what = fmt("figure kind %d %s, %zu obstacles, %d points", kind, three ? "3D" : "2D", t.size(), n);
	auto order = [&] { std::string s = what + ":"; for(auto& x : k) s += " " + x.what; return s; };
	// opened first, closed last, saved and shown in between after everything is drawn
	c.check(k.size() >= 2 && k.front().what == "figure" && k.back().what == "close", "opened-and-closed", order);
	k.erase(k.begin());
	k.pop_back();
	int saved = 0, shown = 0;
	while(!k.empty() && (k.back().what == "save" || k.back().what == "show"))
	{
		if(k.back().what == "save")
		{
			++saved;
			c.check(k.back().s == "/tmp/picture.png", "file", [&] { return what + ": saved as " + k.back().s; });
			c.check(shown == 0 || show, "shown", order);
		}
		else ++shown;
		k.pop_back();
	}
	c.check(saved == int(save), "saved", order);
	c.check(shown == int(show), "shown", order);
	std::vector<Panel> panels;
	if(three)
	{
		c.check(!k.empty() && k.front().what == "subplot", "subplot", order);
		std::map<long, int> seen;
		for(auto& x : k)
		{
			if(x.what == "subplot")
			{
				c.check(x.n.size() == 3 && x.n[0] * x.n[1] == 2 && (x.n[2] == 1 || x.n[2] == 2) && ++seen[x.n[2]] == 1, "subplot", order);
				panels.push_back(Panel{c, {}, x.n[2] == 2, what + (x.n[2] == 2 ? " xz" : " xy")});
			}
			else panels.back().calls.push_back(x);
		}
		c.check(panels.size() == 2, "subplot", order);
	}
	else panels.push_back(Panel{c, k, flat, what});
	for(auto& p : panels)
	{
		if(kind == 2 && !three) p.limits(-10, 20, -10, 10);
		else p.limits(-10, 10, -10, 10);
		// in a picture from the side of obstacles turned about the vertical (and the other way round) only the marks are judged
		bool whole = p.xz != upright;
		if(whole) for(size_t i = 0; i < t.size(); ++i) p.thing(t[i], colours[i % 6]);
		if(kind != 1) p.agent(a, "b");
		if(kind == 2) p.agent(g, "g");
		if(kind != 1) p.trajectory(rv(goal), d);
		if(whole) p.empty();
		else
		{
			for(size_t i = 0; i < t.size(); ++i) if(!t[i].group)
			{
				p.label(rv(t[i].o->get_position()), t[i].o->get_name(), colours[i % 6]);
				p.mark("reference", rv(t[i].o->get_reference_position()), colours[i % 6] + "x");
			}
		}
	}
	mc::Hash h;
	h.u(uint64_t(kind)).u(three).u(show).u(save).u(upright).u(uint64_t(n));
	for(auto& x : t) h.u(x.group);
	c.state(h);
}
MC_MAIN("C30", { {"parts", parts, 3}, {"figures", figures, 4} })
