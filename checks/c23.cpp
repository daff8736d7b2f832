// C23 the commanded velocity is always finite, and an agent at rest among obstacles at rest stays at rest
#include "modmodel.hpp"

static const std::vector<ESpec>& obstacles()
{
	static std::vector<ESpec> v;
	if(v.empty())
	{
		v = {espec({0, 0, 0}, 0, {1, 1, 1}), espec({2, 0, 0}, 0.5L, {1, 0.3L, 0}), espec({-3, 1, 0.5L}, 0, {1e-4L, 2, 1}), espec({0, 3, 0}, 0, {0, 0, 0}), espec({1e6L, 0, 0}, 1, {1e5L, 2, 1}), espec({0, 0, 0}, 0, {1, 1, 1}, {0.5L, 0, 0}), espec({0.5L, 0.2L, 0}, 0, {1, 0.7L, 1}), espec({-1e-3L, 0, 0}, 0, {1e-3L, 1e-3L, 1e-3L})};
		v[1].vel = {1, 0, 0};
		v[5].own_ref = true; v[5].refpos = {3, 0, 0}; // reference outside
		v[6].own_ref = true; v[6].refpos = {0.5L, 0.2L, 0.1L};
		v[6].c0 = 3; v[6].c2 = 2;
		v[4].angvel = {0, 0, 2};
		v.push_back(espec({-5, -5, 1}, 0.3L, {0.8L, 1.2L, 0.5L}));
		v.back().own_ref = true; v.back().refpos = {-5.1L, -4.8L, 0.9L}; // an agent at its centre
	}
	return v;
}
static const std::vector<ref::V>& places()
{
	static std::vector<ref::V> v{{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {2, 0, 0}, {-3, 1, 0.5L}, {0, 3, 0}, {3, 0, 0}, {0.5L, 0.2L, 0}, {0.5L, 0.2L, 0.1L}, {1e-12L, 0, 0}, {1.5L, 0, 0}, {4, -2, 0}, {-1, 0, 0}, {1e5L, 1e5L, 0}, {0, 0, -40}, {-5, -5, 1}, {-1e-3L, 0, 0}, {1, 0.1L, 0}, {1e8L, 0, 0}, {1e-100L, 0, 0}, {-1e-160L, 1e-160L, 1e-160L}, {2e-155L, 1e-155L, -3e-155L}, {3e-300L, -1e-300L, 2e-300L}, {0, 3 + 4.5e-16L, 0}};
	return v;
}
static const std::vector<ref::V>& commands()
{
	static std::vector<ref::V> v{{1, 0, 0}, {0, 0, 0}, {-1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {1e-300L, 0, 0}, {4e-324L, 0, -4e-324L}, {1e150L, 1e150L, 0}, {-1e200L, 1e200L, 3}, {1.5e308L, 1, 1e308L}, {-2, -1, 0.5L}, {1e-9L, -1e-9L, 0}};
	return v;
}
static const std::vector<double>& margins() { static std::vector<double> v{0, 0.5, 1e-5}; return v; }
static void finite(Ctx& c, const Agent& a, const Environment& env, const std::string& what)
{
	for(int k = 0; k < 8; ++k)
	{
		bool local = k & 1, rep = k & 2, two = k & 4;
		E3 v = two ? Modulation::modulate_velocity(a, env, local, rep, false, 2.5, 3) : Modulation::modulate_velocity(a, env, local, rep);
		c.check(std::isfinite(v(0)) && std::isfinite(v(1)) && std::isfinite(v(2)), "finite", [&] { return what + " " + str(v); });
		c.transition();
	}
}
static void sets(Ctx& c)
{
	// up to three obstacles
	int n = 1 + c.pick(mc::thorough() ? 3 : 2);
	std::vector<size_t> in;
	for(int i = 0, from = 0; i < n; ++i)
	{
		if(from >= int(obstacles().size())) return;
		int k = from + c.pick(int(obstacles().size()) - from);
		in.push_back(size_t(k));
		from = k + 1;
	}
	bool aggregated = c.flip();
	Environment env(aggregated);
	for(auto i : in) env.add_obstacle(obstacles()[i].make(fmt("o%zu", i)));
	env.update();
	double m = c.of(margins());
	ref::V x = c.of(places());
	bool rest = true;
	for(auto i : in) if(ref::norm(obstacles()[i].vel) > 0 || ref::norm(obstacles()[i].angvel) > 0) rest = false;
	for(auto& v : commands())
	{
		Agent a = make_agent(x, v, m);
		auto what = [&] { std::string t = fmt("agent at %s command %s margin %g obstacles", str(x).c_str(), str(v).c_str(), m); for(auto i : in) t += fmt(" %zu", i); return t; };
		finite(c, a, env, what());
		if(ref::norm(v) == 0 && rest)
		{
			E3 g = Modulation::modulate_velocity(a, env);
			c.check(g.norm() < 1e-12, "at-rest", [&] { return what() + " moves with " + str(g); });
		}
	}
	mc::Hash h;
	for(auto i : in) h.u(i);
	h.d(m).u(aggregated);
	hs(h, ev(x));
	c.state(h);
}
// the primitives it is made of: distances, normals and memberships are numbers as well
static void rest_stays(Ctx& c)
{
	// agents at rest on a lattice around ordinary obstacles
	static const std::vector<ESpec> pool{espec({0, 0, 0}, 0.3L, {1, 0.6L, 1}), espec({2.6L, 0.3L, 0}, -1, {1.1L, 0.5L, 2}), espec({-2.4L, 1, 0}, 0, {0.7L, 1.5L, 1}), espec({-2, 0, 0}, 0, {1, 1, 1})};
	int mask = 1 + c.pick(15);
	bool local = c.flip(), aggregated = c.flip();
	Environment env(aggregated);
	for(size_t i = 0; i < pool.size(); ++i) if(mask >> i & 1) env.add_obstacle(pool[i].make(fmt("o%zu", i)));
	env.update();
	int gx = c.pick(15) - 7;
	for(int gy = -7; gy <= 7; ++gy)
		for(double m : margins())
		{
			Agent a = make_agent({gx * 0.6L, gy * 0.6L, 0}, {0, 0, 0}, m);
			E3 g = Modulation::modulate_velocity(a, env, local);
			c.check(g.norm() < 1e-12, "at-rest", [&] { return fmt("agent at rest at (%g %g) moves with ", gx * 0.6, gy * 0.6) + str(g); });
			c.transition();
			c.state(mc::Hash().u(uint64_t(mask)).u(uint64_t(gx + 50)).u(uint64_t(gy + 50)).d(m).u(uint64_t(local)).u(uint64_t(aggregated)));
		}
}
// a velocity is not lost: away from the surface and the reference direction a moving agent keeps moving
static void alive(Ctx& c)
{
	ESpec s = pick_spec(c);
	if(ref::norm(s.pos) > 100) return;
	ref::V t = s.ell().scale(0.1L);
	if(std::min(t.x, std::min(t.y, t.z)) < 0.05L || std::max(t.x, std::max(t.y, t.z)) > 20) return;
	Environment env;
	env.add_obstacle(s.make("o"));
	env.update();
	ref::Ell l = s.ell();
	int i = c.pick(3);
	for(size_t k = size_t(i); k < directions().size(); k += 3)
	{
		ref::V x = rv(ev(l.at_level(directions()[k], 1.8L, 0.1L)));
		Seen o = see(l, x, 0.1L);
		if(alignment(o, x) < 0.05L) continue;
		for(auto& d : directions())
		{
			ref::V v = ref::unit(d);
			Agent a = make_agent(x, v, 0.1);
			ref::R g = ref::norm(rv(E3(Modulation::modulate_velocity(a, env)))), e = delta(o.gamma);
			// between the least stretch of the matrix and the greatest
			ref::R al = alignment(o, x);
			c.check(g > (1 - e) * al * 0.3L && g < (1 + e) / al * 2.1L, "speed", [&] { return s.str() + fmt(" agent at %s command %s: speed %.6Lg distance %.6Lg", str(x).c_str(), str(v).c_str(), g, o.gamma); });
		}
		c.transition();
		mc::Hash h;
		h.u(hash_of(s));
		hs(h, ev(x));
		c.state(h);
	}
}
// a great many obstacles
static void crowd(Ctx& c)
{
	static const std::vector<int> sizes{5, 12, 40, 100, 250};
	int n = c.of(sizes), layout = c.pick(4);
	bool aggregated = c.flip(), moving = c.flip();
	if(aggregated && (n > 40 || (layout == 3 && n > 12))) return;
	Environment env(aggregated);
	for(int i = 0; i < n; ++i)
	{
		ref::V p;
		switch(layout)
		{
		case 0: p = {3.0L * (i % 16), 3.0L * (i / 16), 0}; break;
		case 1: p = {40 * std::cos(2 * ref::PI * i / n), 40 * std::sin(2 * ref::PI * i / n), 0}; break; // all at the same distance
		case 2: p = {1e5L + 50.0L * i, 20, 0}; break;
		case 3: p = {0.05L * i, 0, 0}; break; // on top of each other
		}
		ESpec s = espec(p, 0.4L * i, {1, 0.5L + 0.01L * (i % 7), 1});
		if(moving) s.vel = {1, 0.1L * (i % 5), 0};
		env.add_obstacle(s.make(fmt("o%03d", i)));
	}
	env.update();
	int k = c.pick(6);
	ref::V x = std::vector<ref::V>{{0, 0, 0}, {1.5L, 1.5L, 0}, {2.9L, 0.1L, 0}, {-20, 3, 1}, {1e5L, 20.5L, 0}, {1e-9L, 0, 0}}[size_t(k)];
	for(auto& v : {ref::V{0, 0, 0}, ref::V{1, 0.2L, 0}, ref::V{-1e3L, 2, 0}})
	{
		Agent a = make_agent(x, v, 0.1);
		auto what = [&] { return fmt("%d obstacles in layout %d, agent at %s command %s", n, layout, str(x).c_str(), str(v).c_str()); };
		finite(c, a, env, what());
		if(ref::norm(v) == 0 && !moving)
		{
			E3 g = Modulation::modulate_velocity(a, env);
			c.check(g.norm() < 1e-12, "at-rest", [&] { return what() + " moves with " + str(g); });
		}
	}
	c.state(mc::Hash().u(uint64_t(n)).u(uint64_t(layout)).u(aggregated).u(moving).u(uint64_t(k)));
}
MC_MAIN("C23", { {"sets", sets, 4}, {"rest-stays", rest_stays, 3}, {"alive", alive, 4}, {"crowd", crowd, 2} })
