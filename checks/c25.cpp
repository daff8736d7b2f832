// C25 in local mode the command passes unchanged exactly when no obstacle meets the look ahead envelope
#include "modmodel.hpp"

static ref::Ell envelope(ref::V x, ref::V v, double margin)
{
	ref::V h = ref::unit(v);
	ref::R w = std::max<ref::R>(0.1L, margin);
	ref::Ell e;
	e.pose = {x + 0.5L * h, ref::yaw(std::atan2(h.y, h.x))};
	e.axes = {0.5L * ref::norm(h) + w, w, w};
	return e;
}
static ref::R margin_of(const Agent& a) { return std::max<ref::R>(0.1L, a.get_safety_margin()); }
static void judge(Ctx& c, const Agent& a, const Environment& env, const std::vector<ESpec>& o, bool rep, const std::string& what)
{
	ref::V x = rv(a.get_position()), v = rv(a.get_linear_velocity());
	ref::Ell e = envelope(x, v, a.get_safety_margin());
	int any = 0;
	for(auto& s : o)
	{
		ref::V t = s.ell().len();
		if(ref::norm(s.pos - x) > 1.01L * (t.x + t.y + 1.2L + 2 * margin_of(a))) continue; // far apart
		int k = ref::overlaps(e, s.ell());
		if(k == 1) { any = 1; break; }
		if(k < 0) any = -1;
	}
	ref::V got = rv(E3(Modulation::modulate_velocity(a, env, true, rep)));
	if(any == 0) c.check(close(got, v, 1e-12L * (1 + ref::norm(v))), "unchanged", [&] { return what + fmt(": agent at %s velocity %s sees no obstacle but gets %s", str(x).c_str(), str(v).c_str(), str(got).c_str()); });
	ref::V all = rv(E3(Modulation::modulate_velocity(a, env, false, rep)));
	if(any == 1) c.check(close(got, all, 1e-9L * (1 + ref::norm(all))), "modulated", [&] { return what + fmt(": agent at %s velocity %s meets an obstacle and gets %s expected %s", str(x).c_str(), str(v).c_str(), str(got).c_str(), str(all).c_str()); });
	// in any case one of the two
	c.check(close(got, v, 1e-9L * (1 + ref::norm(v))) || close(got, all, 1e-9L * (1 + ref::norm(all))), "neither", [&] { return what + ": " + str(got); });
	c.outcome(uint64_t(any + 1));
}
static const std::vector<ref::V>& velocities() { static std::vector<ref::V> v{{1, 0, 0}, {0.02L, 0.03L, 0}, {0, -4, 0}, {-1, 1, 0}, {0, 0, 0}, {-20, -1, 0}}; return v; }
static const std::vector<double>& margins() { static std::vector<double> v{0, 0.3, 1.2}; return v; }
static void scenes(Ctx& c)
{
	static const std::vector<std::vector<ESpec>> sets{
		{espec({0, 0, 0}, 0, {1, 1, 1})}, {espec({0.3L, 0, 0}, 0.7L, {2, 0.2L, 1}, {0.2L, 0.1L, 0})},
		{espec({-1, 2, 0}, 0.2L, {0.8L, 0.8L, 1}), espec({2, -1, 0}, -0.6L, {0.3L, 1.5L, 1})},
		{espec({-1, 0, 0}, 0, {1.2L, 0.7L, 1}), espec({1, 0, 0}, 0.4L, {1.3L, 0.4L, 1}), espec({-2, -2.5L, 0}, 0, {0.3L, 0.3L, 1})},
		{espec({3, 0, 0}, ref::PI / 2, {4, 0.3L, 1}), espec({-3, 0, 0}, ref::PI / 2, {4, 0.3L, 1}), espec({0, 3, 0}, 0, {4, 0.3L, 1}), espec({0, -3, 0}, 0, {4, 0.3L, 1})},
		{espec({22, 1, 0}, 0.3L, {20.5L, 14, 1}), espec({45, 20, 0}, 0, {25, 12, 1})},
		{espec({0, 31, 0}, 0, {60, 28.5L, 1}), espec({-38, -4, 0}, -0.4L, {9, 36, 1})}};
	std::vector<ESpec> o = c.of(sets);
	bool aggregated = c.flip();
	bool rep = c.flip();
	if(!aggregated && !rep && c.flip()) // a crowd far away, whose names come first
	{
		std::vector<ESpec> far;
		for(int k = 0; k < 14; ++k) far.push_back(espec({30 + 2.0L * k, 40, 0}, 0.2L * k, {0.5L, 0.8L, 1}));
		o.insert(o.begin(), far.begin(), far.end());
	}
	double m = c.of(margins());
	int gx = c.pick(13) - 6;
	Environment env(aggregated);
	int i = 0;
	for(auto& e : o) env.add_obstacle(e.make(fmt("o%02d", i++)));
	env.update();
	for(int gy = -6; gy <= 6; ++gy)
		for(auto& v : velocities())
		{
			ref::V x{gx * 0.61L + 0.04L, gy * 0.63L - 0.05L, 0};
			Agent a = make_agent(x, v, m);
			judge(c, a, env, o, rep, aggregated ? "grouped" : "single");
			c.transition();
			mc::Hash h;
			h.u(o.size()).u(uint64_t(gx + 9)).u(uint64_t(gy + 9)).d(m);
			hs(h, ev(v));
			c.state(h);
		}
}
// the envelope that counts is the present one
static void session(Ctx& c)
{
	std::vector<ESpec> o{espec({1.5L, 0, 0}, 0, {0.4L, 0.4L, 1}), espec({-1, -1, 0}, 0.5L, {0.5L, 0.2L, 1})};
	Environment env;
	std::vector<std::shared_ptr<Ellipsoid>> e;
	for(size_t i = 0; i < o.size(); ++i) { e.push_back(o[i].make(fmt("o%zu", i))); env.add_obstacle(e.back()); }
	env.update();
	Agent a = make_agent({0, 0, 0}, {1, 0, 0}, 0.1);
	int n = mc::thorough() ? 5 : 4;
	for(int i = 0; i < n; ++i)
	{
		switch(c.pick(8))
		{
		case 0: a.set_position(E3(0.6, 0, 0)); break;
		case 1: a.set_position(E3(-0.4, -0.5, 0)); break;
		case 2: a.set_linear_velocity(E3(-1, -1, 0)); break;
		case 3: a.set_linear_velocity(E3(2, 0.1, 0)); break;
		case 4: a.set_safety_margin(a.get_safety_margin() > 0.3 ? 0.05 : 0.8); break;
		case 5: o[0].pos = o[0].pos.x > 1 ? ref::V{0.9L, 0.6L, 0} : ref::V{1.5L, 0, 0}; e[0]->set_position(ev(o[0].pos)); e[0]->set_reference_position(ev(o[0].pos)); break;
		case 6: o[1].axes.x = o[1].axes.x > 1 ? 0.5L : 1.6L; e[1]->set_axis_lengths(ea(o[1].axes)); break;
		case 7: { Agent b(a); a = b; break; }
		}
		c.transition();
		if(ref::overlaps(o[0].ell(), o[1].ell())) env.update();
		judge(c, a, env, o, false, fmt("step %d", i));
		mc::Hash h;
		hs(h, a.get_position()); hs(h, a.get_linear_velocity());
		h.d(a.get_safety_margin()).d(double(o[0].pos.x)).d(double(o[1].axes.x));
		c.state(h);
	}
}
// nothing registered: the command passes
static void nothing(Ctx& c)
{
	Environment env(c.flip());
	int how = c.pick(3);
	if(how == 1) { env.add_obstacle(espec({0, 0, 0}, 0, {1, 1, 1}).make("o")); env.remove_obstacle("o"); }
	if(how == 2) { env.add_obstacle(espec({0, 0, 0}, 0, {1, 1, 1}).make("o")); env.update(); env.remove_obstacle("o"); }
	if(c.flip() || how == 2) env.update();
	for(auto& v : velocities())
		for(double m : margins())
			for(int k = 0; k < 8; ++k)
			{
				Agent a = make_agent({0.1L, 0.1L, 0}, v, m);
				E3 g = Modulation::modulate_velocity(a, env, k & 1, k & 2, k & 4);
				c.check(close(rv(g), v, 1e-12L), "empty", [&] { return str(v) + " becomes " + str(g); });
				c.transition();
			}
	c.state(uint64_t(how));
}
// any number of obstacles, the one that is met anywhere among them
static void crowd(Ctx& c)
{
	static const std::vector<int> sizes{2, 5, 8, 9, 17, 40, 130};
	int n = c.of(sizes), hit = c.pick(5), rep = c.pick(2);
	bool aggregated = c.flip(), grouped = c.flip();
	if(aggregated && n > 40) return;
	size_t at = size_t(std::vector<int>{0, 1, n / 2, n - 2, n - 1}[size_t(hit)]);
	static const std::vector<ref::V> where{{1.2L, 0.2L, 0}, {0.7L, -0.6L, 0}, {2.6L, 0, 0}};
	ref::V w = c.of(where);
	std::vector<ESpec> o;
	for(int i = 0; i < n; ++i) o.push_back(espec({9 + 4.0L * (i % 12), 4.0L * (i / 12) - 4, 0}, 0.3L * i, {0.9L, 0.5L, 1}));
	o[at].pos = w;
	// the one that is met belongs to a cluster whose other members are not
	if(grouped) for(size_t i = 0, k = 1; i < o.size() && k < 4; ++i) if(i != at) { o[i].pos = w + ref::V{1.2L * k, 0.3L, 0}; ++k; }
	Environment env(aggregated);
	for(int i = 0; i < n; ++i) env.add_obstacle(o[size_t(i)].make(fmt("o%03d", i)));
	env.update();
	for(auto& v : velocities())
		for(double m : margins())
		{
			Agent a = make_agent({0, 0, 0}, v, m);
			judge(c, a, env, o, rep, fmt("%d obstacles of which number %zu is near", n, at));
			c.transition();
		}
	c.state(mc::Hash().u(uint64_t(n)).u(at).u(aggregated).u(grouped).d(double(w.x)));
}
MC_MAIN("C25", { {"scenes", scenes, 4}, {"session", session, 3}, {"nothing", nothing, 1}, {"crowd", crowd, 2} })
