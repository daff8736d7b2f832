// C19 velocities are modulated in the frame of the moving obstacles
#include "modmodel.hpp"

static const std::vector<ref::V>& vels() { static std::vector<ref::V> v{{0, 0, 0}, {1, 0, 0}, {-0.4L, 2, 0}, {0.3L, -0.2L, 0.6L}, {-8, 0.1L, 0}}; return v; }
static const std::vector<ref::V>& spins() { static std::vector<ref::V> v{{0, 0, 0}, {0, 0, 1}, {0, 0, -0.3L}, {0.2L, 0.5L, -2}}; return v; }
static Eigen::Matrix3d frame(int k)
{
	if(k == 0) return Eigen::Matrix3d::Identity();
	return (k == 1 ? eq({{0, 0, 1}, 0.7L}) : eq({{0.3L, -1, 0.5L}, 2.2L})).toRotationMatrix();
}
static void relative(Ctx& c)
{
	int n = 1 + c.pick(3);
	static const std::vector<double> dist{0.4, 1, 1.0001, 1.8, 9, 15, 45}, wts{1, 0.25, 0};
	static const std::vector<ref::V> where{{1, 0, 0}, {-2, 3, 1}, {0.2L, -7, 0}};
	ref::V x = c.flip() ? ref::V{0.5L, 0.5L, 0} : ref::V{-3, 10, 2}, v{1, -0.5L, 0};
	List l;
	Eigen::ArrayXd d(n), w(n);
	std::deque<Eigen::Matrix3d> b;
	std::vector<Seen> s;
	std::vector<ref::R> rw;
	mc::Hash h;
	for(int i = 0; i < n; ++i)
	{
		Seen o;
		// all combinations for the first obstacle, fewer for the next ones
		o.vel = i == 0 ? c.of(vels()) : vels()[size_t(1 + c.pick(2))];
		o.angvel = i == 0 ? c.of(spins()) : spins()[size_t(3 * c.pick(2))];
		o.pos = where[size_t(i)];
		d(i) = i == 0 ? c.of(dist) : dist[size_t(1 + 2 * c.pick(3))];
		w(i) = i == 0 ? c.of(wts) : 0.4;
		o.gamma = d(i);
		rw.push_back(w(i));
		s.push_back(o);
		b.push_back(frame((i + (n == 1 ? c.pick(3) : 0)) % 3));
		ESpec e = espec(o.pos, 0.3L * i, {1, 2, 1});
		e.vel = o.vel;
		e.angvel = o.angvel;
		l.push_back(e.make(fmt("o%d", i)));
		hs(h, ev(o.vel));
		hs(h, ev(o.angvel));
		h.d(d(i)).d(w(i));
	}
	c.state(h);
	c.transition();
	Agent a = make_agent(x, v, 0.2);
	auto r = Modulation::compute_relative_velocities(a, l, d, w, b);
	ref::V e = carried(s, rw, x);
	if(c.recording) c.note("%d obstacles, agent at %s", n, str(x).c_str());
	c.check(close(rv(r.second), e, 1e-9L * (1 + ref::norm(e))), "obstacles-velocity", [&] { return fmt("%d obstacles, first moves %s turns %s at distance %g with weight %g: %s expected %s", n, str(s[0].vel).c_str(), str(s[0].angvel).c_str(), d(0), w(0), str(r.second).c_str(), str(e).c_str()); });
	c.check(close(rv(r.first), v - e, 1e-9L * (1 + ref::norm(e))), "relative-velocity", [&] { return str(r.first) + " expected " + str(v - e); });
	for(int i = 0; i < n; ++i) c.check(same(l[size_t(i)]->get_linear_velocity(), ev(s[size_t(i)].vel)) && same(l[size_t(i)]->get_angular_velocity(), ev(s[size_t(i)].angvel)), "untouched");
}
// groups have velocities of their own and turn about their position, wherever their reference is
static void grouped(Ctx& c)
{
	ref::V x = c.flip() ? ref::V{0.5L, 3.5L, 0} : ref::V{-3, 10, 2}, v{1, -0.5L, 0};
	List members;
	int n = 1 + c.pick(3);
	ref::V ctr;
	for(int i = 0; i < n; ++i)
	{
		ESpec e = espec({1.3L * i, 0.4L * i, 0}, 0.3L * i, {1, 1.2L, 1});
		// what the members do does not matter
		e.vel = {7, 7, 7};
		e.angvel = {0, 0, 5};
		ctr = ctr + (1 / ref::R(n)) * e.pos;
		members.push_back(e.make(fmt("m%d", i)));
	}
	auto g = std::make_shared<Aggregate>(members);
	if(c.flip()) { g->set_reference_position(ev(ctr + ref::V{0.3L, -0.2L, 0})); g->update_hull(); }
	ref::V vel = c.of(vels()), spin = c.of(spins());
	g->set_linear_velocity(ev(vel));
	g->set_angular_velocity(ev(spin));
	ESpec o = espec({-2, -7, 0}, 0, {1, 2, 1});
	o.vel = {0.3L, 0.1L, 0};
	bool first = c.flip();
	List l{g};
	if(first) l.push_back(o.make("z")); else l.push_front(o.make("a"));
	Agent a = make_agent(x, v, 0.2);
	Eigen::ArrayXd d(2), w(2);
	std::deque<Eigen::Matrix3d> b;
	std::vector<Seen> s;
	std::vector<ref::R> rw;
	for(int i = 0; i < 2; ++i)
	{
		Seen q;
		bool is = l[size_t(i)] == g;
		q.vel = is ? vel : o.vel;
		q.angvel = is ? spin : o.angvel;
		q.pos = is ? ctr : o.pos;
		q.gamma = d(i) = is ? 1.7 : 2.5;
		rw.push_back(w(i) = is ? 0.8 : 0.2);
		s.push_back(q);
		b.push_back(frame(i));
	}
	auto r = Modulation::compute_relative_velocities(a, l, d, w, b);
	ref::V e = carried(s, rw, x);
	c.check(close(rv(r.second), e, 1e-9L * (1 + ref::norm(e))) && close(rv(r.first), v - e, 1e-9L * (1 + ref::norm(e))), "group-velocity", [&] { return fmt("a group of %d moves %s turns %s: ", n, str(vel).c_str(), str(spin).c_str()) + str(r.second) + " expected " + str(e); });
	c.transition();
	mc::Hash h;
	h.u(uint64_t(n)).u(first);
	hs(h, ev(vel)); hs(h, ev(spin)); hs(h, ev(x));
	hs(h, g->get_reference_position());
	c.state(h);
}
// through an environment: adding the same velocity to the obstacle and the agent adds it to the result when they touch,
// and the velocity of the obstacle fades with the distance
static void boosted(Ctx& c)
{
	ESpec s = espec({1, -2, 0}, 0.4L, {1.5L, 0.7L, 1}, {0.1L, 0.1L, 0.1L});
	if(c.flip()) { s.own_ref = true; s.refpos = s.pos + ref::V{0.2L, 0.1L, 0}; }
	if(c.flip()) s.rot = {{0.3L, 0.2L, 1}, 1.1L};
	double margin = 0.2;
	ref::R level = c.pick(4);
	level = level == 0 ? 0.9999999L : level == 1 ? 0.6L : level == 2 ? 1.5L : 5;
	ref::V d = c.of(directions());
	ref::V v = c.of(vels()), boost = c.of(vels()), spin = c.of(spins());
	Environment env(c.flip());
	auto e = s.make("e");
	env.add_obstacle(e);
	if(!env.is_aggregated() || env.is_aggregated()) env.update();
	ref::V x = rv(ev(s.ell().at_level(d, level, margin)));
	if(alignment(see(s.ell(), x, margin), x) < 0.05L) return;
	auto go = [&](ref::V vel) { Agent a = make_agent(x, vel, margin); return rv(E3(Modulation::modulate_velocity(a, env))); };
	ref::V still = go(v);
	// the boost seen by the agent
	ref::R f = std::exp(1 - std::max<ref::R>(1, s.ell().gamma(x, margin)));
	e->set_linear_velocity(ev(boost));
	e->set_angular_velocity(ev(spin));
	ref::V add = f * (boost + ref::cross(spin, x - s.pos));
	ref::V moving = go(v + add);
	c.transition(2);
	ref::V want = still + add;
	c.check(close(moving, want, 1e-6L * (1 + ref::norm(want))), "boost", [&] { return s.str() + fmt(" distance %.4Lg velocity %s plus %s: ", level, str(v).c_str(), str(add).c_str()) + str(moving) + " expected " + str(want); });
	mc::Hash h;
	hs(h, ev(x)); hs(h, ev(v)); hs(h, ev(boost)); hs(h, ev(spin));
	c.state(h);
}
// velocities set and cleared again during a session
static void session(Ctx& c)
{
	Environment env(false);
	ESpec s[2] = {espec({2, 0, 0}, 0, {1, 1, 1}), espec({-2, 1, 0}, 0.5L, {1, 0.5L, 1})};
	std::shared_ptr<Ellipsoid> e[2];
	for(int i = 0; i < 2; ++i) { e[i] = s[i].make(fmt("o%d", i)); env.add_obstacle(e[i]); }
	env.update();
	ref::V x{0.3L, 0.8L, 0}, v{1, 0.2L, 0};
	int n = mc::thorough() ? 5 : 4;
	for(int i = 0; i < n; ++i)
	{
		int k = c.pick(2);
		switch(c.pick(5))
		{
		case 0: s[k].vel = {0.5L, 1, 0}; e[k]->set_linear_velocity(ev(s[k].vel)); break;
		case 1: s[k].vel = {0, 0, 0}; e[k]->set_linear_velocity(E3(0, 0, 0)); break;
		case 2: s[k].angvel = {0, 0, 0.8L}; e[k]->set_angular_velocity(E3(0, 0, 0.8)); break;
		case 3: s[k].angvel = {0, 0, 0}; e[k]->set_angular_velocity(E3(0, 0, 0)); break;
		case 4: v = v.x > 0 ? ref::V{-0.6L, -0.1L, 0} : ref::V{1, 0.2L, 0}; break;
		}
		c.transition();
		Agent a = make_agent(x, v, 0.1);
		std::vector<Seen> seen{see(s[0].ell(), x, 0.1L), see(s[1].ell(), x, 0.1L)};
		ref::V got = rv(E3(Modulation::modulate_velocity(a, env))), want = modulate(seen, x, v);
		c.check(close(got, want, 1e-6L), "session", [&] { return fmt("step %d: ", i) + str(got) + " expected " + str(want); });
		mc::Hash h;
		for(int j = 0; j < 2; ++j) { hs(h, ev(s[j].vel)); hs(h, ev(s[j].angvel)); }
		hs(h, ev(v));
		c.state(h);
	}
}
MC_MAIN("C19", { {"relative", relative, 3}, {"grouped", grouped, 3}, {"boosted", boosted, 4}, {"session", session, 3} })
