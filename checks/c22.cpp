// C22 closed loop: whatever is commanded, obstacles are not entered; simple scenes are passed
#include "modmodel.hpp"

struct Scene
{
	std::vector<ESpec> obs;
	ref::V start;
	double margin, dt;
	bool aggregated;
	const char* name;
};
static const std::vector<Scene>& scenes()
{
	static std::vector<Scene> v;
	if(v.empty())
	{
		v.push_back({{espec({0, 0, 0}, 0, {1, 1, 1})}, {1.6L, 0.2L, 0}, 0.2, 0.02, true, "disc"});
		v.push_back({{espec({0, 0, 0}, 0.6L, {2, 0.6L, 1})}, {0.3L, 1.6L, 0}, 0.2, 0.02, false, "ellipse"});
		v.push_back({{espec({0, 1.3L, 0}, 0, {1, 0.8L, 1}), espec({0, -1.3L, 0}, 0.3L, {1, 0.7L, 1})}, {-1.5L, 0, 0}, 0.1, 0.02, true, "gap"});
		v.push_back({{espec({0, 0, 0}, 0, {1, 1, 1})}, {1.9L, 0.1L, 0}, 0.2, 0.02, true, "approaching disc"});
		v.back().obs[0].vel = {0.6L, 0, 0};
		v.push_back({{espec({0, 0, 0}, 0, {2, 0.5L, 1})}, {0.5L, 1.5L, 0}, 0.3, 0.02, true, "turning ellipse"});
		v.back().obs[0].angvel = {0, 0, 0.5L};
		v.push_back({{espec({3, 0, 0}, ref::PI / 2, {4, 0.5L, 1}), espec({-3, 0, 0}, ref::PI / 2, {4, 0.5L, 1}), espec({0, 3, 0}, 0, {4, 0.5L, 1}), espec({0, -3, 0}, 0, {4, 0.5L, 1})}, {2.0L, 1.5L, 0}, 0.2, 0.02, true, "closed room"});
		v.push_back({{espec({0, 0, 0}, 0, {2, 0.4L, 1}), espec({0.3L, 0, 0}, ref::PI / 2, {2, 0.4L, 1})}, {1.6L, 1.6L, 0}, 0.2, 0.02, true, "cross"});
		v.push_back({{espec({0, 0, 0}, 0, {1, 1, 1})}, {1.02L, 0.1L, 0}, 0, 0.02, true, "disc without margin"});
		v.push_back({{espec({0.4L, 0, 0}, 0.9L, {1.5L, 0.7L, 1})}, {0.3L, 1.5L, 0}, 0, 0.005, false, "ellipse without margin"});
		v.push_back({{espec({0, 0, 0}, 0.4L, {1, 0.7L, 1.3L})}, {0.8L, 0.6L, 1.2L}, 0.2, 0.02, false, "ellipsoid in space"});
	}
	return v;
}
static ref::R clearance(const Scene& s, ref::V x)
{
	ref::R g = 1e30L;
	for(auto& o : s.obs) g = std::min(g, o.ell().gamma(x));
	return g;
}
struct Run
{
	Scene s;
	Environment env;
	std::vector<std::shared_ptr<Ellipsoid>> e;
	ref::V x;
	Run(const Scene& sc): s(sc), env(sc.aggregated), x(sc.start)
	{
		int i = 0;
		for(auto& o : s.obs) { e.push_back(o.make(fmt("o%d", i++))); env.add_obstacle(e.back()); }
		env.update();
	}
	void step(ref::V v)
	{
		Agent a = make_agent(x, v, s.margin);
		ref::V got = rv(E3(Modulation::modulate_velocity(a, env)));
		x = x + ref::R(s.dt) * got;
		for(size_t i = 0; i < e.size(); ++i)
		{
			ESpec& o = s.obs[i];
			if(ref::norm(o.vel) > 0)
			{
				o.pos = o.pos + ref::R(s.dt) * o.vel;
				e[i]->set_position(ev(o.pos));
				e[i]->set_reference_position(ev(o.pos));
			}
			if(ref::norm(o.angvel) > 0)
			{
				o.rot.angle += ref::R(s.dt) * o.angvel.z;
				e[i]->set_orientation(eq(o.rot));
			}
		}
	}
};
static void adversary(Ctx& c)
{
	size_t k = size_t(c.pick(int(scenes().size())));
	Run r(scenes()[k]);
	bool room = r.s.obs.size() == 4, group = r.s.aggregated && (room || std::string(r.s.name) == "cross"), space = std::string(r.s.name) == "ellipsoid in space";
	int depth = group ? (mc::thorough() ? 5 : 3) : mc::thorough() ? 6 : 4, hold = group ? 24 : 20;
	c.note("%s", r.s.name);
	mc::Hash h;
	h.u(k);
	for(int d = 0; d < depth; ++d)
	{
		int q = c.pick(9);
		// eight directions and straight at the closest obstacle
		ref::V cmd{std::cos(ref::PI * q / 4), std::sin(ref::PI * q / 4), 0};
		if(space && q < 8) cmd = ref::V{q & 1 ? 0.6L : -0.6L, q & 2 ? 0.6L : -0.6L, q & 4 ? 0.53L : -0.53L};
		h.u(uint64_t(q));
		for(int i = 0; i < hold; ++i)
		{
			ref::V v = cmd;
			if(q == 8)
			{
				size_t b = 0;
				for(size_t j = 1; j < r.s.obs.size(); ++j) if(r.s.obs[j].ell().gamma(r.x) < r.s.obs[b].ell().gamma(r.x)) b = j;
				v = ref::unit(r.s.obs[b].pos - r.x);
			}
			r.step(v);
			ref::R g = clearance(r.s, r.x);
			c.check(g > 1, "entered", [&] { return fmt("%s: agent at %s inside an obstacle (%.6Lg) after %d decisions and %d steps", r.s.name, str(r.x).c_str(), g, d + 1, i + 1); });
			if(room) c.check(std::fabs(r.x.x) < 3 && std::fabs(r.x.y) < 3, "left-room", [&] { return fmt("agent left the closed room at %s", str(r.x).c_str()); });
			c.check(r.x.x == r.x.x && ref::norm(r.x) < 1e3L, "finite", [&] { return str(r.x); });
			c.transition();
		}
		mc::Hash st;
		hs(st, ev(r.x));
		st.u(k);
		c.state(st);
	}
	c.outcome(uint64_t(llround(double(clearance(r.s, r.x)) * 20)));
}
// a goal behind a convex obstacle is reached
static void convergence(Ctx& c)
{
	static const std::vector<ESpec> obs{espec({0, 0, 0}, 0, {1, 1, 1}), espec({0, 0, 0}, 0.5L, {1.8L, 0.5L, 1}), espec({0.2L, -0.1L, 0}, 1.4L, {1.5L, 0.4L, 1}, {0.1L, 0.1L, 0.1L})};
	ESpec s = c.of(obs);
	static const std::vector<ref::V> goals{{4, 0.1L, 0}, {-3, -2.4L, 0}, {0.3L, 5, 0}};
	ref::V goal = c.of(goals);
	double margin = c.flip() ? 0.2 : 0;
	bool local = c.flip();
	Environment env;
	env.add_obstacle(s.make("o"));
	env.update();
	int k = c.pick(mc::thorough() ? 48 : 24);
	ref::R f = 2 * ref::PI * k / (mc::thorough() ? 48 : 24) + 0.017L, radius = k % 2 ? 3.1L : 4.2L;
	ref::V x{radius * std::cos(f), radius * std::sin(f), 0};
	ref::R len = 0;
	int n = 0;
	for(; n < 6000 && ref::dist(x, goal) > 0.05L; ++n)
	{
		ref::V v = goal - x;
		if(ref::norm(v) > 1) v = ref::unit(v);
		Agent a = make_agent(x, v, margin);
		ref::V got = rv(E3(local ? Modulation::modulate_velocity(a, env, true) : Modulation::modulate_velocity(a, env)));
		x = x + 0.02L * got;
		len += 0.02L * ref::norm(got);
		if(!local) c.check(s.ell().gamma(x, margin) > 0.93L, "entered", [&] { return fmt("agent at %s inside (%.6Lg)", str(x).c_str(), s.ell().gamma(x, margin)); });
		c.transition();
	}
	if(c.recording) c.note("%d steps, path of length %.3Lg", n, len);
	c.check(ref::dist(x, goal) <= 0.05L, "goal", [&] { return s.str() + fmt(" goal %s not reached: agent stays at %s", str(goal).c_str(), str(x).c_str()); });
	mc::Hash h;
	hs(h, ev(x));
	h.u(uint64_t(k)).u(uint64_t(n)).u(hash_of(s));
	c.state(h);
}
// at the surface, just outside and somewhat within it, an agent never gets deeper whatever is commanded
static void skirting(Ctx& c)
{
	static const std::vector<ESpec> obs{espec({0, 0, 0}, 0, {1, 1, 1}), espec({0.4L, 0, 0}, 0.9L, {1.5L, 0.7L, 1}), espec({-2, 1, 0}, -2.5L, {3, 0.8L, 1}, {0.2L, 0.2L, 0.2L}), espec({40, -30, 2}, 1.3L, {0.5L, 0.4L, 0.8L})};
	ESpec s = c.of(obs);
	double margin = c.flip() ? 0.2 : 0;
	static const std::vector<ref::R> levels{0.92L, 0.97L, 1, 1.0005L, 1.04L};
	ref::R level = c.of(levels);
	int k = c.pick(8);
	bool space = c.flip();
	ref::V dir{std::cos(ref::PI * k / 4 + 0.1L), std::sin(ref::PI * k / 4 + 0.1L), space ? 0.4L : 0};
	Environment env;
	env.add_obstacle(s.make("o"));
	env.update();
	ref::Ell l = s.ell();
	ref::V x = rv(ev(l.at_level(dir, level, margin)));
	int depth = mc::thorough() ? 4 : 2;
	for(int d = 0; d < depth; ++d)
	{
		int q = c.pick(7);
		for(int i = 0; i < 8; ++i)
		{
			ref::V v = q == 6 ? 2 * ref::unit(s.pos - x) : ref::V{std::cos(ref::PI * q / 3), std::sin(ref::PI * q / 3), space ? -0.3L : 0};
			Agent a = make_agent(x, v, margin);
			ref::V got = rv(E3(Modulation::modulate_velocity(a, env)));
			ref::R before = l.gamma(x, margin);
			x = rv(ev(x + 0.004L * got));
			ref::R after = l.gamma(x, margin);
			c.check(after >= std::min<ref::R>(before, 1) - 1e-9L, "deeper", [&] { return s.str() + fmt(" margin %g command %s: agent at %s goes deeper, from %.9Lg to %.9Lg", margin, str(v).c_str(), str(x).c_str(), before, after); });
			c.transition();
		}
		mc::Hash h;
		h.u(hash_of(s)).d(margin).u(uint64_t(q));
		hs(h, ev(x));
		c.state(h);
	}
}
MC_MAIN("C22", { {"skirting", skirting, 4}, {"adversary", adversary, 3}, {"convergence", convergence, 3} })
