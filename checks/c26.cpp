// C26 repulsion pushes an agent that has come too close back to where it belongs
#include "modmodel.hpp"

static ref::V push(const ref::Ell& l, ref::V x, double m, ref::R threshold)
{
	ref::R g = l.gamma(x, m);
	if(!(g < threshold)) return {0, 0, 0};
	return (2 / g) * (x - l.reference);
}
static void single(Ctx& c)
{
	ESpec s = pick_spec(c);
	if(ref::norm(s.pos) > 100) return;
	ref::V t = s.ell().scale();
	if(std::min(t.x, std::min(t.y, t.z)) < 0.05L || std::max(t.x, std::max(t.y, t.z)) > 20) return;
	if(c.flip()) { s.own_ref = true; s.refpos = s.pos + rm(s.rot) * ref::V{0.15L * t.x, 0.2L * t.y, -0.1L * t.z}; }
	double m = 0.2;
	auto e = s.make("e");
	ref::Ell l = s.ell();
	l.reference = rv(e->get_reference_position());
	Environment env;
	env.add_obstacle(e);
	env.update();
	const Obstacle& o = *e;
	if(c.recording) c.note(s.str());
	c.state(hash_of(s));
	// next to the reference position the push is weak
	if(s.own_ref)
		for(auto& d : directions())
		{
			ref::V x = rv(ev(l.reference + 2e-3L * std::min(t.x, std::min(t.y, t.z)) * d));
			ref::R g = l.gamma(x, m);
			Agent a = make_agent(x, {1, -0.4L, 0.1L}, m);
			ref::V w = push(l, x, m, 1.1L);
			if(ref::norm(w) < 1e-3L || !(alignment(see(l, x, m), x) > 0.05L)) continue;
			ref::V with = rv(E3(Modulation::modulate_velocity(a, env, false, true))), without = rv(E3(Modulation::modulate_velocity(a, env)));
			c.check(close(with, without + w, 1e-6L * (1 + ref::norm(x)) / std::min<ref::R>(g, 1)), "added", [&] { return s.str() + fmt(" agent at %s next to the reference: ", str(x).c_str()) + str(with) + " expected " + str(without + w); });
			c.transition();
		}
	int k = c.pick(2);
	for(size_t i = size_t(k); i < directions().size(); i += 2)
		for(ref::R level : {0.3L, 0.95L, 1.05L, 1.0999L, 1.1001L, 1.5L, 4.0L})
		{
			ref::V x = rv(ev(l.at_level(directions()[i], level, m)));
			ref::R g = l.gamma(x, m);
			Agent a = make_agent(x, {1, -0.4L, 0.1L}, m);
			auto at = [&] { return s.str() + fmt(" agent at %s distance %.9Lg: ", str(x).c_str(), g); };
			for(double f : {2.0, 7.5}) c.check(std::fabs(o.get_repulsion_factor(a, f) - f / g) <= 1e-6L * f / g, "factor", [&] { return at() + fmt("factor %.12g", o.get_repulsion_factor(a, f)); });
			c.check(std::fabs(o.get_repulsion_factor(a) - 2 / g) <= 1e-6L * 2 / g, "default-factor", [&] { return at() + fmt("factor %.12g", o.get_repulsion_factor(a)); });
			ref::R tol = 1e-6L * (1 + ref::norm(x)) / std::min<ref::R>(g, 1);
			for(double th : {1.1, 3.0, 0.5})
			{
				ref::V p = rv(E3(th == 1.1 ? o.generate_repulsion(a) : o.generate_repulsion(a, th))), w = push(l, x, m, th);
				c.check(close(p, w, tol), "repulsion", [&] { return at() + str(p) + " expected " + str(w); });
			}
			ref::V p = push(l, x, m, 1.1L);
			// away from the obstacle: the push leads to greater distances
			if(ref::norm(p) > 0) c.check(l.gamma(x + 1e-6L * p, m) > g, "outwards", at);
			if(alignment(see(l, x, m), x) > 0.05L)
			{
				ref::V with = rv(E3(Modulation::modulate_velocity(a, env, false, true))), without = rv(E3(Modulation::modulate_velocity(a, env, false, false)));
				c.check(close(with, without + p, tol), "added", [&] { return at() + str(with) + " expected " + str(without + p); });
			}
			c.transition();
			c.outcome(uint64_t(ref::norm(p) > 0));
		}
}
// several obstacles, only those that are too close push
static void several(Ctx& c)
{
	static const std::vector<ESpec> pool{espec({0, 0, 0}, 0.3L, {1, 0.6L, 1}), espec({1.95L, 0.3L, 0}, -1, {1.1L, 0.5L, 2}), espec({-1.9L, 0.4L, 0}, 0, {0.7L, 1.5L, 1}), espec({0.1L, -3, 0}, 0, {2, 1.8L, 1})};
	int mask = 1 + c.pick(15);
	double m = c.flip() ? 0.3 : 0.1;
	Environment env(false);
	std::vector<ref::Ell> in;
	for(size_t i = 0; i < pool.size(); ++i) if(mask >> i & 1) { in.push_back(pool[i].ell()); env.add_obstacle(pool[i].make(fmt("o%zu", i))); }
	env.update();
	int gx = c.pick(21) - 10;
	for(int gy = -10; gy <= 10; ++gy)
	{
		ref::V x = rv(ev({gx * 0.29L + 0.01L, gy * 0.23L - 0.02L, 0})), sum;
		ref::R al = 1;
		bool edge = false;
		for(auto& l : in)
		{
			sum = sum + push(l, x, m, 1.1L);
			al = std::min(al, alignment(see(l, x, m), x));
			if(std::fabs(l.gamma(x, m) - 1.1L) < 1e-6L) edge = true;
		}
		if(edge || al < 0.05L || (ref::norm(sum) > 0 && ref::norm(sum) < 1e-3L)) continue;
		for(auto& v : {ref::V{1, 0, 0}, ref::V{0, 0, 0}, ref::V{-0.3L, -2, 0}})
		{
			Agent a = make_agent(x, v, m);
			ref::V with = rv(E3(Modulation::modulate_velocity(a, env, false, true))), without = rv(E3(Modulation::modulate_velocity(a, env, false, false)));
			c.check(close(with, without + sum, 1e-6L * (1 + ref::norm(sum))), "sum", [&] { return fmt("agent at %s obstacles %d: ", str(x).c_str(), mask) + str(with) + " expected " + str(without + sum); });
			c.transition();
		}
		c.state(mc::Hash().u(uint64_t(mask)).u(uint64_t(gx + 20)).u(uint64_t(gy + 20)).d(m));
		c.outcome(uint64_t(ref::norm(sum) > 0));
	}
}
// groups push outwards from outside, and back towards the middle from inside
static void groups(Ctx& c)
{
	static const std::vector<std::vector<ESpec>> sets{
		{espec({-1, 0, 0}, 0, {1.2L, 1.2L, 1}), espec({1, 0, 0}, 0.4L, {1.3L, 0.9L, 1})},
		{espec({3, 0, 0}, ref::PI / 2, {4, 0.5L, 1}), espec({-3, 0, 0}, ref::PI / 2, {4, 0.5L, 1}), espec({0, 3, 0}, 0, {4, 0.5L, 1}), espec({0, -3, 0}, 0, {4, 0.5L, 1})}};
	int which = c.pick(3);
	std::vector<ESpec> set = sets[size_t(which % 2)];
	if(which == 2) set.resize(1); // a group of one, registered as such
	bool lone = c.flip();
	Environment env(which != 2);
	int i = 0;
	if(which == 2) { List one{set[0].make("m")}; env.add_obstacle(std::make_shared<Aggregate>(one)); }
	else for(auto& e : set) env.add_obstacle(e.make(fmt("m%d", i++)));
	ESpec z = espec({7, 1, 0}, 0, {1, 1, 1});
	if(lone) env.add_obstacle(z.make("z"));
	env.update();
	const Obstacle* g = nullptr;
	for(auto& o : env.get_obstacle_list()) if(o->get_type() == "Aggregate") g = o.get();
	if(!g) c.fail("partition", "overlapping obstacles were not merged");
	ref::V ctr;
	for(auto& e : set) ctr = ctr + (1 / ref::R(set.size())) * e.pos;
	if(c.flip()) // pushed from where its reference is
	{
		ctr = ctr + ref::V{0.4L, -0.25L, 0};
		for(auto& o : env.get_obstacle_list()) if(o.get() == g) { o->set_reference_position(ev(ctr)); static_cast<Aggregate&>(*o).update_hull(); }
	}
	int gx = c.pick(27) - 13;
	for(int gy = -13; gy <= 13; ++gy)
		for(double m : {0.0, 0.4})
		{
			ref::V x = rv(ev({gx * 0.47L + 0.03L, gy * 0.43L - 0.02L, 0}));
			Agent a = make_agent(x, {1, 0, 0}, m);
			double q = g->compute_distance_to_agent(a);
			if(std::fabs(q - 1.1) < 1e-9) continue;
			ref::V w = q < 1.1 ? (ref::R(g->point_is_inside(a.get_position()) ? -20 : 20) / q) * (x - ctr) : ref::V{0, 0, 0};
			ref::V p = rv(E3(g->generate_repulsion(a)));
			c.check(close(p, w, 1e-6L * (1 + ref::norm(w))), "group-repulsion", [&] { return fmt("agent at %s margin %g distance %g: ", str(x).c_str(), m, q) + str(p) + " expected " + str(w); });
			ref::V sum = w + (lone ? push(z.ell(), x, m, 1.1L) : ref::V{0, 0, 0});
			ref::V with = rv(E3(Modulation::modulate_velocity(a, env, false, true))), without = rv(E3(Modulation::modulate_velocity(a, env)));
			if(ref::norm(without) > 0) c.check(close(with, without + sum, 1e-5L * (1 + ref::norm(sum))), "group-added", [&] { return fmt("agent at %s: ", str(x).c_str()) + str(with) + " expected " + str(without + sum); });
			c.transition();
			c.state(mc::Hash().u(set.size()).u(uint64_t(gx + 20)).u(uint64_t(gy + 20)).d(m).u(lone));
			c.outcome(uint64_t(q < 1.1) + 2 * uint64_t(g->point_is_inside(a.get_position())));
		}
}
// an agent caught inside an obstacle leaves it, with and without a command to stay
static void leaves(Ctx& c)
{
	static const std::vector<ESpec> obs{espec({0, 0, 0}, 0, {1, 1, 1}), espec({5, -2, 0}, 0.6L, {2, 0.6L, 1}), espec({0, 0, 0}, 1, {3, 2, 1}, {0.2L, 0.1L, 0.1L})};
	ESpec s = c.of(obs);
	double m = c.flip() ? 0.2 : 0;
	Environment env;
	env.add_obstacle(s.make("o"));
	env.update();
	ref::Ell l = s.ell();
	ref::V d = planar_directions()[size_t(c.pick(16))];
	ref::R level = c.flip() ? 0.7L : 0.1L;
	ref::V x = l.at_level(d, level, m), start = x;
	ref::V cmd = c.pick(3) == 0 ? ref::V{0, 0, 0} : c.flip() ? 0.3L * ref::unit(s.pos - x) : ref::V{0.2L, 0.4L, 0};
	int n = 0;
	for(; n < 400 && l.gamma(x, m) < 1.05L; ++n)
	{
		Agent a = make_agent(x, cmd, m);
		x = x + 0.01L * rv(E3(Modulation::modulate_velocity(a, env, false, true)));
		c.transition();
	}
	c.check(l.gamma(x, m) >= 1.05L, "stuck", [&] { return s.str() + fmt(" agent from %s still inside at %s", str(start).c_str(), str(x).c_str()); });
	mc::Hash h;
	h.u(hash_of(s)).u(uint64_t(n));
	hs(h, ev(start));
	c.state(h);
}
// pressed by many at once
static void crowd(Ctx& c)
{
	static const std::vector<int> sizes{5, 8, 9, 16, 33, 90};
	int n = c.of(sizes), close_ones = c.pick(3);
	int near = close_ones == 0 ? 1 : close_ones == 1 ? n / 2 : n;
	std::vector<ref::Ell> in;
	Environment env(false);
	for(int i = 0; i < n; ++i)
	{
		// the close ones come last
		ref::R f = 2.4L * i, r = i >= n - near ? 1.0L + 0.001L * i : 9 + 0.1L * i;
		ESpec s = espec({r * std::cos(f), r * std::sin(f), 0}, f, {0.9L, 0.7L, 1});
		in.push_back(s.ell());
		env.add_obstacle(s.make(fmt("o%03d", i)));
	}
	env.update();
	for(int k = 0; k < 12; ++k)
	{
		ref::V x = rv(ev({0.05L * (k % 4) - 0.07L, 0.06L * (k / 4) - 0.05L, 0.01L})), sum;
		double m = 0.2;
		ref::R al = 1;
		bool edge = false;
		for(auto& l : in)
		{
			sum = sum + push(l, x, m, 1.1L);
			al = std::min(al, alignment(see(l, x, m), x));
			if(std::fabs(l.gamma(x, m) - 1.1L) < 1e-6L) edge = true;
		}
		if(edge || al < 0.02L) continue;
		Agent a = make_agent(x, {1, 0.4L, 0}, m);
		ref::V with = rv(E3(Modulation::modulate_velocity(a, env, false, true))), without = rv(E3(Modulation::modulate_velocity(a, env, false, false)));
		c.check(close(with, without + sum, 1e-6L * (1 + ref::norm(sum)) * n), "sum", [&] { return fmt("agent at %s among %d obstacles of which %d are close: ", str(x).c_str(), n, near) + str(with) + " expected " + str(without + sum); });
		c.transition();
		c.state(mc::Hash().u(uint64_t(n)).u(uint64_t(near)).u(uint64_t(k)));
	}
}
MC_MAIN("C26", { {"single", single, 4}, {"several", several, 3}, {"groups", groups, 3}, {"leaves", leaves, 3}, {"crowd", crowd, 2} })
