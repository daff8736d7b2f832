// C21 no velocity into an obstacle that is touched
#include "modmodel.hpp"

static const std::vector<ref::V>& commands()
{
	static std::vector<ref::V> v;
	if(v.empty())
	{
		for(int k = 0; k < 12; ++k) v.push_back({std::cos(2 * ref::PI * k / 12 + 0.1L), std::sin(2 * ref::PI * k / 12 + 0.1L), 0});
		for(int k = 0; k < 6; ++k) v.push_back({std::cos(ref::PI * k / 3), std::sin(ref::PI * k / 3), k % 2 ? 0.8L : -1.5L});
		v.push_back({0, 0, 1});
		v.push_back({0, 0, -1});
		v.push_back({30, -10, 0});
	}
	return v;
}
static void check_contact(Ctx& c, const Environment& env, const Seen& s, ref::V x, double margin, const char* what)
{
	if(alignment(s, x) < 0.05L) return;
	ref::V n = ref::unit(s.n);
	// away from the reference
	if(ref::dot(n, x - s.reference) < 0) n = -n;
	for(auto& u : commands())
		for(auto& v : {u, -ref::norm(u) * n}) // head-on as well
		{
			Agent a = make_agent(x, v, margin);
			ref::V got = rv(E3(Modulation::modulate_velocity(a, env)));
			ref::V rel = got - s.vel - ref::cross(s.angvel, x - s.pos);
			ref::R in = ref::dot(rel, n);
			c.check(std::fabs(in) <= 2e-5L * (ref::norm(v) + ref::norm(s.vel) + ref::norm(s.angvel) + 0.1L) / alignment(s, x), "penetration", [&] { return fmt("%s: agent at %s margin %g command %s gets %s: %.6Lg along the outward normal %s, distance %.9Lg", what, str(x).c_str(), margin, str(v).c_str(), str(got).c_str(), in, str(n).c_str(), s.gamma); });
			// and it is not blocked: the tangent part of the command passes, amplified
			if(&u == &commands()[0] && &v != &u) c.outcome(mc::Hash().d(double(ref::norm(rel) > 1e-6L)));
			if(rel.x != rel.x) c.fail("nan", "not a number");
		}
}
static void one(Ctx& c)
{
	ESpec s = pick_spec(c);
	if(ref::norm(s.pos) > 100) return;
	double margin = 0.25;
	ref::V t = s.ell().scale(margin);
	if(std::min(t.x, std::min(t.y, t.z)) < 0.05L || std::max(t.x, std::max(t.y, t.z)) > 20) return;
	int motion = c.pick(3);
	if(motion == 1) s.vel = {0.7L, -0.2L, 0.1L};
	if(motion == 2) { s.vel = {-1, 0, 0}; s.angvel = {0, 0, 0.6L}; }
	if(motion) { s.own_ref = true; s.refpos = s.pos + rm(s.rot) * ref::V{0.15L * t.x, 0.2L * t.y, 0}; }
	auto e = s.make("e");
	ref::Ell l = s.ell();
	l.reference = rv(e->get_reference_position());
	Environment env;
	env.add_obstacle(e);
	env.update();
	if(c.recording) c.note(s.str());
	c.state(hash_of(s));
	c.transition();
	size_t k = size_t(c.pick(2));
	for(size_t i = k; i < directions().size(); i += 2 * (1 + size_t(!mc::thorough())))
		for(ref::R level : {0.999999L, 0.8L})
		{
			ref::V x = rv(ev(l.at_level(directions()[i], level, margin)));
			check_contact(c, env, see(l, x, margin), x, margin, level > 0.9L ? "on the surface" : "inside the margin");
		}
}
// several obstacles around: the one that is touched decides
static void several(Ctx& c)
{
	static const std::vector<ESpec> pool{espec({0, 0, 0}, 0.3L, {1, 0.6L, 1}), espec({2.6L, 0.3L, 0}, -1, {1.1L, 0.5L, 2}), espec({-2.4L, 1, 0.2L}, 0, {0.7L, 1.5L, 1}), espec({0.5L, -3, 0}, 0.9L, {2, 0.4L, 0.4L}), espec({30, 20, 0}, 0, {5, 5, 5})};
	int mask = 1 + c.pick(31);
	int motion = c.pick(3);
	bool aggregated = c.flip();
	double margin = c.flip() ? 0.1 : 0;
	std::vector<ESpec> in;
	for(size_t i = 0; i < pool.size(); ++i) if(mask >> i & 1)
	{
		in.push_back(pool[i]);
		if(motion == 1 && i % 2 == 0) in.back().vel = {0.4L, 0.8L, 0};
		if(motion == 2) in.back().angvel = {0, 0, i % 2 ? 0.5L : -0.9L};
	}
	Environment env(aggregated);
	std::vector<std::shared_ptr<Ellipsoid>> e;
	for(size_t i = 0; i < in.size(); ++i) { e.push_back(in[i].make(fmt("o%zu", i))); env.add_obstacle(e.back()); }
	env.update();
	if(env.get_obstacle_list().size() != in.size()) { c.fail("partition", "obstacles that do not overlap were merged"); }
	for(size_t i = 0; i < in.size(); ++i)
		for(int k = 0; k < 16; ++k)
		{
			ref::V d{std::cos(2 * ref::PI * k / 16 + 0.05L), std::sin(2 * ref::PI * k / 16 + 0.05L), k % 4 == 0 ? 0.3L : 0};
			ref::Ell l = in[i].ell();
			ref::V x = rv(ev(l.at_level(d, 0.999999L, margin)));
			bool other = false;
			for(size_t j = 0; j < in.size(); ++j) if(j != i && in[j].ell().gamma(x, margin) < 1.0001L) other = true;
			if(other) continue;
			check_contact(c, env, see(l, x, margin), x, margin, "among others");
			c.transition();
			mc::Hash h;
			hs(h, ev(x));
			h.u(uint64_t(mask)).u(uint64_t(motion));
			c.state(h);
		}
}
// aggregates, from outside and from inside of a closed room
static void groups(Ctx& c)
{
	static const std::vector<std::vector<ESpec>> sets{
		{espec({-1, 0, 0}, 0, {1.2L, 1.2L, 1}), espec({1, 0, 0}, 0.4L, {1.3L, 0.9L, 1})},
		{espec({3, 0, 0}, ref::PI / 2, {4, 0.5L, 1}), espec({-3, 0, 0}, ref::PI / 2, {4, 0.5L, 1}), espec({0, 3, 0}, 0, {4, 0.5L, 1}), espec({0, -3, 0}, 0, {4, 0.5L, 1})},
		{espec({0, 0, 0}, 0, {2, 0.4L, 1}), espec({0.5L, 0, 0}, ref::PI / 2, {2, 0.4L, 1})}};
	auto& set = c.of(sets);
	bool apart = c.flip();
	Environment env;
	int i = 0;
	for(auto& e : set) env.add_obstacle(e.make(fmt("m%d", i++)));
	if(apart) env.add_obstacle(espec({20, 3, 0}, 0, {1, 1, 1}).make("z"));
	env.update();
	double margin = c.flip() ? 0.1 : 0;
	const Obstacle* g = nullptr;
	for(auto& o : env.get_obstacle_list()) if(o->get_type() == "Aggregate") g = o.get();
	if(!g) c.fail("partition", "overlapping obstacles were not merged");
	int part = c.pick(4);
	for(int k = part; k < 60; k += 4)
	{
		ref::R f = 0.021L + 2 * ref::PI * k / 60;
		ref::V d{std::cos(f), std::sin(f), 0}, ctr = rv(g->get_position());
		// radii at which the agent touches, from outside and from inside
		for(int inside = 0; inside < 2; ++inside)
		{
			ref::R best = -1;
			for(ref::R r = 0.2L; r < 12; r += 0.005L)
			{
				ref::V x = rv(ev(ctr + r * d));
				Agent a = make_agent(x, {1, 0, 0}, margin);
				bool in = g->point_is_inside(a.get_position());
				if(in != bool(inside)) continue;
				double q = g->compute_distance_to_agent(a);
				if(q > 0.98 && q <= 1) best = r;
			}
			if(best < 0) continue;
			ref::V x = rv(ev(ctr + best * d));
			Agent a = make_agent(x, {1, 0, 0}, margin);
			check_contact(c, env, see(*g, a), x, margin, inside ? "inside an aggregate" : "outside an aggregate");
			c.transition();
			mc::Hash h;
			hs(h, ev(x));
			h.d(margin).u(uint64_t(inside));
			c.state(h);
		}
	}
}
// any number of obstacles around, the one that is touched anywhere among them
static void crowd(Ctx& c)
{
	static const std::vector<int> sizes{7, 9, 17, 40, 80};
	int n = c.of(sizes), which = c.pick(4), motion = c.pick(2);
	bool aggregated = c.flip(), packed = c.flip();
	size_t at = size_t(std::vector<int>{0, n / 2, n - 2, n - 1}[size_t(which)]);
	std::vector<ESpec> o;
	for(int i = 0; i < n; ++i)
	{
		ref::R gap = packed ? 2.4L : 6;
		o.push_back(espec({gap * (i % 9), gap * (i / 9), 0.1L * (i % 2)}, 0.3L * i, {0.9L, 0.5L, 1}));
		if(motion) { o.back().vel = {0.2L * (i % 3), -0.3L, 0}; if(i % 2) o.back().angvel = {0, 0, 0.4L}; }
	}
	Environment env(aggregated);
	for(int i = 0; i < n; ++i) env.add_obstacle(o[size_t(i)].make(fmt("o%03d", i)));
	env.update();
	if(env.get_obstacle_list().size() != o.size()) c.fail("partition", "obstacles that do not overlap were merged");
	double margin = 0.1;
	for(int k = 0; k < 6; ++k)
	{
		ref::R f = 2 * ref::PI * k / 6 + 0.05L;
		ref::V d{std::cos(f), std::sin(f), k % 3 ? 0.2L : 0};
		ref::Ell l = o[at].ell();
		ref::V x = rv(ev(l.at_level(d, 0.999999L, margin)));
		bool other = false;
		for(size_t j = 0; j < o.size(); ++j) if(j != at && o[j].ell().gamma(x, margin) < 1.0001L) other = true;
		if(other) continue;
		check_contact(c, env, see(l, x, margin), x, margin, "in a crowd");
		c.transition();
		mc::Hash h;
		hs(h, ev(x));
		h.u(uint64_t(n)).u(uint64_t(motion)).u(aggregated);
		c.state(h);
	}
}
MC_MAIN("C21", { {"one", one, 4}, {"several", several, 3}, {"groups", groups, 4}, {"crowd", crowd, 2} })
