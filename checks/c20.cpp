// C20 the modulated velocity against a coordinate free reference
#include "modmodel.hpp"

static const std::vector<ref::V>& velocities()
{
	static std::vector<ref::V> v{{1, 0, 0}, {-0.4L, 0.7L, 0}, {0, -2, 0}, {0.3L, 0.1L, 0.5L}, {0, 0, 1}, {0, 0, 0}, {1e-5L, 0, 1}, {-3, -3, 0}, {140, -60, 3}, {-2e-3L, 1e-3L, 0}};
	return v;
}
struct Par { double critical, power; };
static ref::V call(const Agent& a, const Environment& env, bool planar, const Par& p, bool defaults)
{
	if(defaults && !planar) return rv(E3(Modulation::modulate_velocity(a, env)));
	return rv(E3(Modulation::modulate_velocity(a, env, false, false, planar, p.critical, p.power)));
}
static void judge(Ctx& c, const std::vector<Seen>& s, const Agent& a, const Environment& env, const Par& p, bool defaults, const char* what)
{
	ref::V x = rv(a.get_position()), v = rv(a.get_linear_velocity());
	ref::R al = 1;
	for(auto& o : s)
	{
		al = std::min(al, alignment(o, x));
		if(std::fabs(o.gamma - p.critical) < 1e-6L) return;
	}
	if(!(al > 0.05L)) return;
	ref::V got = call(a, env, false, p, defaults), want = modulate(s, x, v, p.critical, p.power);
	c.check(close(got, want, 2e-6L / al * (ref::norm(v) + 0.1L)), "modulated", [&] {
		std::string t = fmt("%s: agent at %s margin %g velocity %s: %s expected %s, distances", what, str(x).c_str(), a.get_safety_margin(), str(v).c_str(), str(got).c_str(), str(want).c_str());
		for(auto& o : s) t += fmt(" %.6Lg", o.gamma);
		return t; });
	c.outcome(mc::Hash().d(double(want.x)).d(double(want.y)));
}
static void single(Ctx& c)
{
	ESpec s = pick_spec(c);
	if(ref::norm(s.pos) > 100) return;
	ref::V t = s.ell().scale(0.2L);
	ref::R thin = std::min(t.x, std::min(t.y, t.z));
	if(thin < 0.05L || std::max(t.x, std::max(t.y, t.z)) > 20) return;
	if(c.flip()) { s.own_ref = true; s.refpos = s.pos + rm(s.rot) * ref::V{0.15L * t.x, 0.2L * t.y, -0.1L * t.z}; }
	auto e = s.make("e");
	ref::Ell l = s.ell();
	l.reference = rv(e->get_reference_position());
	Environment env;
	env.add_obstacle(e);
	env.update();
	if(c.recording) c.note(s.str());
	c.state(hash_of(s));
	int k = 0;
	for(auto& d : directions())
	{
		ref::R level = k % 3 == 0 ? 1.0001L : k % 3 == 1 ? 2.2L : 0.7L;
		++k;
		Agent a = make_agent(l.at_level(d, level, 0.2L), velocities()[size_t(k) % velocities().size()], 0.2);
		judge(c, {see(l, rv(a.get_position()), 0.2L)}, a, env, {1, 2}, true, "one obstacle");
		c.transition();
	}
}
static const std::vector<ESpec>& pool()
{
	static std::vector<ESpec> v;
	if(v.empty())
	{
		v = {espec({3, 0, 0}, 0.3L, {1, 0.6L, 1}), espec({-2, 2.5L, 0}, -1, {1.4L, 0.5L, 2}, {0.1L, 0.1L, 0.1L}), espec({0, -4, 0.5L}, 0, {2, 1, 1}), espec({-3, -2, 0}, 0.9L, {0.4L, 0.4L, 0.4L}), espec({1, 4, -0.3L}, 2, {0.7L, 1.2L, 0.6L})};
		v[1].c0 = v[1].c1 = 2;
		v[2].vel = {0.4L, 0.1L, 0};
		v[3].angvel = {0, 0, 0.7L};
		v[3].vel = {0, -0.3L, 0};
		v[4].own_ref = true;
		v[4].refpos = {1.1L, 4.2L, -0.2L};
		v[4].angvel = {0, 0.2L, -0.6L};
	}
	return v;
}
static void several(Ctx& c)
{
	std::vector<size_t> in;
	for(size_t i = 0; i < pool().size(); ++i) if(c.flip()) in.push_back(i);
	if(in.size() < 2) return;
	static const std::vector<Par> par{{1, 2}, {1, 1}, {1.5, 2}, {3, 4}, {1.2, 1.5}};
	Par p = c.of(par);
	bool aggregated = c.flip();
	double margin = c.flip() ? 0.25 : 0;
	Environment env(aggregated);
	for(auto i : in) env.add_obstacle(pool()[i].make(fmt("o%zu", i)));
	env.update();
	for(int gx = -5; gx <= 5; ++gx) for(int gy = -5; gy <= 5; ++gy)
	{
		ref::V x{gx * 0.93L + 0.05L, gy * 1.01L - 0.03L, (gx + gy) % 3 ? 0.0L : 0.4L};
		x = rv(ev(x));
		std::vector<Seen> s;
		// the environment keeps its obstacles in the order of their names
		for(auto i : in) s.push_back(see(pool()[i].ell(), x, margin));
		for(auto& v : velocities())
		{
			Agent a = make_agent(x, v, margin);
			judge(c, s, a, env, p, p.critical == 1 && p.power == 2, "several obstacles");
		}
		mc::Hash h;
		hs(h, ev(x));
		h.u(in.size()).u(in[0]).d(p.critical).d(margin);
		c.state(h);
		c.transition();
	}
}
// aggregates: their outline is judged in C16, here it is composed
static void groups(Ctx& c)
{
	std::vector<ESpec> s{espec({0, 0, 0}, 0, {1.5L, 0.6L, 1}), espec({1.2L, 0.4L, 0}, ref::PI / 2, {1.2L, 0.5L, 1}), espec({-4, 1, 0}, 0.2L, {0.8L, 0.8L, 1}), espec({-4.6L, 1.5L, 0}, 0.4L, {0.6L, 1.4L, 1}), espec({2, -5, 0}, 0, {1, 2, 1})};
	int which = c.pick(3);
	if(which == 1) s.resize(4);
	if(which == 2) s.erase(s.begin() + 1);
	Environment env;
	int k = 0;
	for(auto& e : s) env.add_obstacle(e.make(fmt("o%d", k++)));
	env.update();
	if(c.flip())
	{
		s[0].pos = {0.2L, -0.1L, 0};
		env["o0"]->set_position(ev(s[0].pos));
		if(which == 2) env["o0"]->set_reference_position(ev(s[0].pos));
		env.update();
	}
	size_t want = which == 0 ? 3 : 2 + size_t(which == 2);
	c.check(env.get_obstacle_list().size() == want, "group-count", [&] { return fmt("%zu", env.get_obstacle_list().size()); });
	int gx = c.pick(19) - 9;
	for(int gy = -9; gy <= 9; ++gy)
	{
		ref::V x = rv(ev({gx * 0.71L + 0.02L, gy * 0.77L - 0.03L, 0}));
		for(size_t i = 0; i < velocities().size(); i += 3)
		{
			Agent a = make_agent(x, velocities()[i], 0.1);
			std::vector<Seen> seen;
			for(auto& o : env.get_obstacle_list())
			{
				Seen n = see(*o, a);
				// single obstacles come from the reference
				for(size_t j = 0; j < s.size(); ++j) if(o->get_type() != "Aggregate" && o->get_name() == env[o->get_name()]->get_name() && close(rv(o->get_position()), s[j].pos, 1e-12L)) n = see(s[j].ell(), x, 0.1L);
				seen.push_back(n);
			}
			judge(c, seen, a, env, {1, 2}, true, "groups");
			c.transition();
		}
		c.state(mc::Hash().d(double(x.x)).d(double(x.y)).u(uint64_t(which)));
	}
}
// planar modulation first moves the reference of every obstacle to the middle of the chord cut by the heading
static void planar(Ctx& c)
{
	Environment env(false);
	ESpec s[3] = {espec({2, 0.3L, 0}, 0.4L, {1, 0.6L, 1}), espec({-1, -3, 0}, -0.3L, {0.8L, 1.5L, 1}), espec({70, 6, 0}, 0.5L, {4, 3, 1})};
	std::shared_ptr<Ellipsoid> e[3];
	// at rest, or moving: the heading and the distances are those of the agent, whatever the obstacles do
	if(c.flip()) { s[0].vel = {0.3L, 0.2L, 0}; s[1].vel = {0, -0.5L, 0}; s[1].angvel = {0, 0, 0.4L}; s[2].vel = {-3, 2, 0}; }
	bool repulsion = c.flip();
	for(int i = 0; i < 3; ++i) { e[i] = s[i].make(fmt("o%d", i)); s[i].own_ref = true; s[i].refpos = s[i].pos; env.add_obstacle(e[i]); }
	env.update();
	int n = mc::thorough() ? 4 : 3;
	for(int i = 0; i < n; ++i)
	{
		static const std::vector<ref::V> xs{{0, 0, 0}, {0.4L, -1.2L, 0}, {3.5L, 0.6L, 0}, {2.2L, 0.5L, 0}}, vs{{1, 0.1L, 0}, {-0.5L, -1, 0}, {0.2L, 1, 0}, {0.03L, -0.004L, 0}};
		ref::V x = c.of(xs), v = c.of(vs);
		bool on = c.flip();
		Agent a = make_agent(x, v, 0.1);
		x = rv(a.get_position());
		if(on) for(auto& o : s)
		{
			// chord of the outline along the heading
			ref::V t = o.ell().len(), p = ref::transpose(rm(o.rot)) * (x - o.pos), h = ref::unit(v), u = ref::transpose(rm(o.rot)) * h;
			ref::R A = u.x * u.x / t.x / t.x + u.y * u.y / t.y / t.y, B = p.x * u.x / t.x / t.x + p.y * u.y / t.y / t.y, C = p.x * p.x / t.x / t.x + p.y * p.y / t.y / t.y - 1;
			if(std::fabs(B * B - A * C) < 1e-3L) return;
			if(B * B - A * C > 0) o.refpos = x + (-B / A) * h;
		}
		std::vector<Seen> seen;
		for(auto& o : s) { seen.push_back(see(o.ell(), x, 0.1L)); seen.back().vel = o.vel; seen.back().angvel = o.angvel; }
		ref::R al = std::min(alignment(seen[0], x), alignment(seen[1], x));
		ref::V got = rv(E3(Modulation::modulate_velocity(a, env, false, repulsion, on))), want = modulate(seen, x, v);
		ref::V push;
		if(repulsion) for(auto& o : e) push = push + rv(o->generate_repulsion(a, 1.1)); // judged by C26
		if(ref::norm(push) > 1e-4L) want = want + push;
		c.transition();
		for(int k = 0; k < 3; ++k) c.check(close(rv(e[k]->get_reference_position()), s[k].refpos, 1e-5L), "planar-reference", [&] { return fmt("reference %d at ", k) + str(e[k]->get_reference_position()) + " expected " + str(s[k].refpos); });
		if(al > 0.05L) c.check(close(got, want, 1e-4L / al), "planar", [&] { return fmt("agent at %s velocity %s planar %d: ", str(x).c_str(), str(v).c_str(), int(on)) + str(got) + " expected " + str(want); });
		mc::Hash h;
		hs(h, ev(x)); hs(h, ev(v));
		for(auto& o : s) hs(h, ev(o.refpos));
		c.state(h);
	}
}
// crowds: any number of obstacles, with and without one that is touched
static void crowd(Ctx& c)
{
	static const std::vector<int> sizes{6, 9, 17, 33, 70};
	int n = c.of(sizes), touch = c.pick(4), when = c.pick(3);
	bool moving = c.flip();
	std::vector<ESpec> s;
	ref::R r = std::max<ref::R>(4, n / 1.5L);
	for(int i = 0; i < n; ++i)
	{
		ref::R f = 2 * ref::PI * i / n;
		s.push_back(espec({r * std::cos(f), r * std::sin(f), 0.1L * (i % 3)}, 0.37L * i, {0.5L + 0.05L * (i % 5), 0.8L, 1}));
		if(moving) { s.back().vel = {0.1L * (i % 4), -0.2L, 0}; if(i % 2) s.back().angvel = {0, 0, 0.3L}; }
	}
	ref::V at = touch == 0 ? ref::V{0.3L, -0.2L, 0} : ref::V{0.6L * r, 0.3L * r, 0.1L};
	// one of them, at the beginning, the middle or the end of the list, is next to the agent
	if(touch >= 2) { size_t k = when == 0 ? 0 : when == 1 ? size_t(n) / 2 : size_t(n) - 1; s[k].pos = at + ref::V{touch == 2 ? 0.55L : 0.9L, 0.4L, 0}; }
	else if(when) return;
	Environment env(false);
	for(int i = 0; i < n; ++i) env.add_obstacle(s[size_t(i)].make(fmt("o%03d", i)));
	env.update();
	for(auto& v : velocities())
	{
		ref::V x = rv(ev(at));
		Agent a = make_agent(x, v, 0.1);
		std::vector<Seen> seen;
		for(auto& o : s) seen.push_back(see(o.ell(), x, 0.1L));
		judge(c, seen, a, env, {1, 2}, true, "crowd");
		c.transition();
	}
	c.state(mc::Hash().u(uint64_t(n)).u(uint64_t(touch)).u(uint64_t(when)).u(moving));
}
MC_MAIN("C20", { {"single", single, 4}, {"several", several, 5}, {"groups", groups, 3}, {"planar", planar, 3}, {"crowd", crowd, 2} })
