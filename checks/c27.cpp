// C27 reachability of a target and occupancy of an obstacle by an agent
#include "hullmodel.hpp"

struct Scene { std::vector<ESpec> group, single; };
static const std::vector<Scene>& scenes()
{
	static std::vector<Scene> v{
		{{}, {espec({0, 0, 0}, 0.3L, {2, 1, 1}), espec({4, 1, 0}, 0, {1, 1, 1}, {0.3L, 0.1L, 0})}},
		{{espec({3, 0, 0}, ref::PI / 2, {4, 0.5L, 1}), espec({-3, 0, 0}, ref::PI / 2, {4, 0.5L, 1}), espec({0, 3, 0}, 0, {4, 0.5L, 1}), espec({0, -3, 0}, 0, {4, 0.5L, 1})}, {}}, // closed room
		{{espec({3, 0, 0}, ref::PI / 2, {4, 0.5L, 1}), espec({-3, 0, 0}, ref::PI / 2, {4, 0.5L, 1}), espec({0, 3, 0}, 0, {4, 0.5L, 1})}, {}}, // a side is missing
		{{espec({3, 0, 0}, ref::PI / 2, {4, 0.5L, 1}), espec({-3, 0, 0}, ref::PI / 2, {4, 0.5L, 1}), espec({0, 3, 0}, 0, {4, 0.5L, 1}), espec({0, -3, 0}, 0, {4, 0.5L, 1})}, {espec({0.5L, 0.4L, 0}, 0.5L, {1, 0.5L, 1}), espec({8, 2, 0}, 0, {1, 2, 1})}},
		{{espec({0.4L, 0, 0}, 0.2L, {3, 1.4L, 1}), espec({-0.3L, 0.5L, 0}, 1.3L, {3.2L, 1.6L, 1})}, {espec({7, 0, 0}, 0, {1, 1, 1})}},
		{{}, {}}};
	return v;
}
// the same scene in another size
static Scene sized(const Scene& s, ref::R f)
{
	Scene n = s;
	for(auto g : {&n.group, &n.single}) for(auto& e : *g) { e.pos = f * e.pos; e.axes = f * e.axes; e.margin = f * e.margin; }
	return n;
}
static int combine(int a, int b) { return a == 0 || b == 0 ? 0 : a < 0 || b < 0 ? -1 : 1; }
static void paths(Ctx& c)
{
	static const std::vector<ref::R> factors{1, 0.4L, 7};
	ref::R f = c.of(factors);
	Scene s = sized(c.of(scenes()), f);
	ref::V shift = c.flip() ? ref::V{20, -15, 0} : ref::V{0, 0, 0};
	bool through_environment = c.flip();
	HullModel out;
	List members, list;
	Environment env;
	ref::V ctr;
	int i = 0;
	for(auto e : s.group)
	{
		e.pos = e.pos + shift;
		ctr = ctr + (1 / ref::R(s.group.size())) * e.pos;
		out.prims.push_back(e.ell());
		members.push_back(e.make(fmt("m%d", i++)));
		env.add_obstacle(members.back());
	}
	out.centre = ctr;
	if(!members.empty()) list.push_back(std::make_shared<Aggregate>(members));
	std::vector<ref::Ell> single;
	for(auto e : s.single)
	{
		e.pos = e.pos + shift;
		single.push_back(e.ell());
		list.push_back(e.make(fmt("s%d", i++)));
		env.add_obstacle(list.back());
	}
	if(through_environment) { env.update(); list = env.get_obstacle_list(); }
	else if(c.flip()) std::reverse(list.begin(), list.end());
	int closed = members.empty() ? 1 : out.closed();
	if(!members.empty() && closed >= 0)
		for(auto& o : list) if(o->get_type() == "Aggregate") c.check(o->is_closed() == bool(closed), "closed", [&] { return closed ? "closed but said to be open" : "open but said to be closed"; });
	for(auto& o : list) if(o->get_type() == "Ellipsoid") c.check(o->is_closed(), "ellipsoid-closed");
	// where each point is: one bit per obstacle
	struct P { ref::V x; std::vector<int> in; };
	std::vector<P> pts;
	for(int gx = -4; gx <= 4; ++gx) for(int gy = -4; gy <= 4; ++gy)
	{
		P p;
		p.x = shift + f * ref::V{gx * 1.37L + 0.11L, gy * 1.41L - 0.07L, 0};
		if(!members.empty())
		{
			int k = out.contains(p.x);
			for(auto& l : out.prims) { ref::R g = l.planar(p.x); if(g < 0.9999L) k = 1; else if(g < 1.0001L && k == 0) k = -1; }
			p.in.push_back(k);
		}
		for(auto& l : single) { ref::R g = l.planar(p.x); p.in.push_back(g < 0.9999L ? 1 : g > 1.0001L ? 0 : -1); }
		pts.push_back(p);
	}
	int from = c.pick(int(pts.size()));
	auto& a = pts[size_t(from)];
	Agent ag = make_agent(a.x, {0.3L, 0.1L, 0}, 0.2);
	for(auto& t : pts)
	{
		int want = 1;
		for(size_t k = 0; k < a.in.size(); ++k)
		{
			int ok = a.in[k] < 0 || t.in[k] < 0 ? -1 : a.in[k] == t.in[k];
			if(k == 0 && !members.empty() && closed == 0) ok = 1;
			if(k == 0 && !members.empty() && closed < 0 && ok == 0) ok = -1;
			want = combine(want, ok);
		}
		bool got = ag.exist_path(ev(t.x), list);
		if(want >= 0) c.check(got == bool(want), "path", [&] { return fmt("from %s to %s: ", str(a.x).c_str(), str(t.x).c_str()) + (want ? "there is a path" : "there is no path"); });
		Agent back = make_agent(t.x, {0, 0, 0}, 0);
		c.check(back.exist_path(ev(a.x), list) == got, "symmetric", [&] { return fmt("from %s to %s", str(a.x).c_str(), str(t.x).c_str()); });
		c.outcome(uint64_t(want + 1));
		c.transition();
	}
	mc::Hash h;
	h.u(s.group.size()).u(s.single.size()).d(double(f));
	hs(h, ev(a.x));
	c.state(h);
}
static void occupied(Ctx& c)
{
	static const std::vector<ref::R> factors{1, 0.4L, 8};
	ref::R f = c.of(factors);
	Scene s = sized(c.of(scenes()), f);
	static const std::vector<double> margins{0, 0.05, 0.1, 0.4, 1.5};
	double m = c.of(margins);
	ref::V v = c.pick(2) ? ref::V{2, -1, 0} : ref::V{0, 0, 0};
	List members, list;
	std::vector<std::vector<ref::Ell>> parts;
	int i = 0;
	if(!s.group.empty())
	{
		std::vector<ref::Ell> p;
		for(auto& e : s.group) { members.push_back(e.make(fmt("m%d", i++))); p.push_back(e.ell()); }
		list.push_back(std::make_shared<Aggregate>(members));
		parts.push_back(p);
	}
	for(auto& e : s.single) { list.push_back(e.make(fmt("s%d", i++))); parts.push_back({e.ell()}); }
	int gx = c.pick(19) - 9;
	for(int gy = -9; gy <= 9; ++gy)
	{
		ref::V x = f * ref::V{gx * 0.53L + 0.01L, gy * 0.57L - 0.03L, 0};
		Agent a = make_agent(x, v, m);
		ref::R r = std::max<ref::R>(0.1L, m);
		ref::Ell ball;
		ball.pose.t = x;
		ball.axes = {r, r, r};
		for(size_t k = 0; k < list.size(); ++k)
		{
			int want = 0;
			for(auto& l : parts[k]) { int o = ref::overlaps(ball, l); if(o == 1) { want = 1; break; } if(o < 0) want = -1; }
			if(want >= 0) c.check(a.in_obstacle(*list[k]) == bool(want), "occupied", [&] { return fmt("agent at %s margin %g obstacle %zu: ", str(x).c_str(), m, k) + (want ? "touching but not reported" : "reported but apart"); });
			c.outcome(uint64_t(want + 1));
			c.transition();
		}
		mc::Hash h;
		hs(h, ev(x));
		h.d(m).d(double(f)).u(s.group.size()).u(s.single.size());
		c.state(h);
	}
}
// the agent and the walls move
static void session(Ctx& c)
{
	std::vector<ESpec> w{espec({3, 0, 0}, ref::PI / 2, {4, 0.5L, 1}), espec({-3, 0, 0}, ref::PI / 2, {4, 0.5L, 1}), espec({0, 3, 0}, 0, {4, 0.5L, 1}), espec({0, -3, 0}, 0, {4, 0.5L, 1})};
	Environment env;
	std::vector<std::shared_ptr<Ellipsoid>> e;
	for(size_t i = 0; i < w.size(); ++i) { e.push_back(w[i].make(fmt("w%zu", i))); env.add_obstacle(e.back()); }
	env.update();
	Agent a = make_agent({0.2L, 0.3L, 0}, {1, 0, 0}, 0.1);
	bool open = false, inside = true;
	int n = mc::thorough() ? 6 : 4;
	for(int i = 0; i < n; ++i)
	{
		switch(c.pick(4))
		{
		case 0: inside = !inside; a.set_position(inside ? E3(0.2, 0.3, 0) : E3(8, 7, 0)); break;
		case 1: open = !open; e[3]->set_position(open ? E3(0, -12, 0) : E3(0, -3, 0)); if(open) e[3]->set_reference_position(E3(0, -12, 0)); env.update(); break;
		case 2: a.set_linear_velocity(E3(0.1, -3, 0)); a.set_safety_margin(0.6); break;
		case 3: env.update(); break;
		}
		c.transition();
		bool to_in = a.exist_path(E3(-0.5, 0.1, 0), env.get_obstacle_list()), to_out = a.exist_path(E3(-9, 6, 0), env.get_obstacle_list());
		c.check(to_in == (inside || open) && to_out == (!inside || open), "session", [&] { return fmt("agent %s, room %s: path to the inside %d to the outside %d", inside ? "inside" : "outside", open ? "open" : "closed", int(to_in), int(to_out)); });
		c.state(mc::Hash().u(open).u(inside).d(a.get_safety_margin()).u(uint64_t(i)));
	}
}
// long lists: what separates is anywhere in them
static void crowd(Ctx& c)
{
	static const std::vector<int> sizes{3, 8, 9, 17, 64, 200};
	int n = c.of(sizes), kind = c.pick(3);
	size_t at = size_t(std::vector<int>{0, 1, n / 2, n - 1}[size_t(c.pick(4))]);
	List list;
	for(int i = 0; i < n; ++i) list.push_back(espec({20 + 4.0L * (i % 20), 10.0L * (i / 20), 0}, 0.1L * i, {1, 0.7L, 1}).make(fmt("o%03d", i)));
	E3 in(0.1, 0.2, 0), out(-6, 5, 0);
	if(kind == 1) list[at] = espec({0, 0, 0}, 0.3L, {2, 1, 1}).make("block");
	if(kind == 2)
	{
		List w{espec({3, 0, 0}, ref::PI / 2, {4, 0.5L, 1}).make("w0"), espec({-3, 0, 0}, ref::PI / 2, {4, 0.5L, 1}).make("w1"), espec({0, 3, 0}, 0, {4, 0.5L, 1}).make("w2"), espec({0, -3, 0}, 0, {4, 0.5L, 1}).make("w3")};
		list[at] = std::make_shared<Aggregate>(w);
	}
	bool inside = c.flip();
	Agent a = make_agent(rv(inside ? in : out), {1, 0, 0}, 0.1);
	bool to_in = a.exist_path(in, list), to_out = a.exist_path(out, list);
	bool sep = kind != 0;
	c.check(to_in == (inside || !sep) && to_out == (!inside || !sep), "path", [&] { return fmt("%d obstacles of which number %zu separates (kind %d), agent %s: inside %d outside %d", n, at, kind, inside ? "inside" : "outside", int(to_in), int(to_out)); });
	size_t hit = 0;
	for(auto& o : list) hit += a.in_obstacle(*o);
	c.check(hit == size_t(kind == 1 && inside), "occupied", [&] { return fmt("in %zu obstacles", hit); });
	c.state(mc::Hash().u(uint64_t(n)).u(uint64_t(kind)).u(at).u(inside));
	c.transition();
}
MC_MAIN("C27", { {"paths", paths, 4}, {"occupied", occupied, 3}, {"session", session, 3}, {"crowd", crowd, 2} })
