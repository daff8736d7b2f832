// C09 the distance to an ellipsoidal obstacle
#include "ellalpha.hpp"

static void compare(Ctx& c, double g, ref::R w, const char* form, ref::V x)
{
	c.check(std::fabs(g - w) <= 1e-7L * (1 + w), "distance", [&] { return fmt("%s: distance of %s is %.12g expected %.12Lg", form, str(x).c_str(), g, w); });
}
static void query_all(Ctx& c, const Ellipsoid& e, const ref::Ell& l, ref::V x)
{
	const Obstacle& o = e;
	E3 p = ev(x);
	x = rv(p);
	compare(c, o.compute_distance_to_point(p), l.gamma(x), "no margin", x);
	compare(c, e.compute_distance_to_point(p, A3(0, 0, 0)), l.gamma(x), "zero margins", x);
	for(double m : {0.05, 1.0})
	{
		compare(c, o.compute_distance_to_point(p, m), l.gamma(x, m), "scalar margin", x);
		compare(c, e.compute_distance_to_point(p, A3(m, m, m)), l.gamma(x, m), "equal margins", x);
		Agent a(State(p), m);
		compare(c, o.compute_distance_to_agent(a), l.gamma(x, m), "agent", x);
	}
	ref::Ell q = l;
	q.margin = l.margin + ref::V{0.3L, 0, 0.7L};
	compare(c, o.compute_distance_to_point(p, A3(0.3, 0, 0.7)), q.gamma(x), "three margins", x);
}
static void shapes(Ctx& c)
{
	ESpec s = pick_spec(c);
	auto e = s.make("e");
	ref::Ell l = s.ell();
	if(c.recording) c.note(s.str());
	c.state(hash_of(s));
	c.transition();
	ref::R size = ref::norm(l.len());
	for(auto& d : directions())
		for(ref::R r : {0.02L, 0.7L, 1.6L}) query_all(c, *e, l, l.pose.t + (r * size) * ref::unit(d));
	query_all(c, *e, l, l.pose.t);
	query_all(c, *e, l, {5, -6, 7});
	for(ref::R r : {1e3L, 1e5L, 1e8L}) { query_all(c, *e, l, l.pose.t + ref::V{r, -0.3L * r, 0}); query_all(c, *e, l, l.pose.t + ref::V{0.2L * r, r, 0.4L * r}); }
	// on the surface grown by the agent's margin the distance is 1, nearer it is smaller, further it is larger
	for(auto& d : directions())
		for(double m : {0.0, 0.25})
		{
			const Obstacle& o = *e;
			auto g = [&](ref::R level) { return o.compute_distance_to_point(ev(l.at_level(d, level, m)), m); };
			double in = g(0.9L), on = g(1), out = g(1.1L);
			// rounding of world coordinates is amplified by thin axes
			ref::V t = l.scale(m);
			ref::R thin = std::min(t.x, std::min(t.y, t.z)), tol = 1e-12L + 3e-16L * 20 * (ref::norm(l.pose.t) + size) / thin * 10;
			if(tol > 0.02L) continue;
			c.check(std::fabs(on - 1) <= 50 * tol && in < 1 && out > 1, "surface", [&] { return fmt("towards %s: %.12g %.12g %.12g around the surface", str(d).c_str(), in, on, out); });
		}
}
static void live(Ctx& c)
{
	Live v;
	int n = mc::thorough() ? 4 : 3;
	for(int i = 0; i < n; ++i)
	{
		v.op(c, c.pick(Live::NOPS));
		for(auto& x : v.around())
		{
			compare(c, dist_to(*v.e, ev(x), 0.2), v.s.ell().gamma(rv(ev(x)), 0.2L), "after setters", x);
		}
		c.state(hash_of(v.s));
	}
	for(auto& x : v.around()) query_all(c, *v.e, v.s.ell(), x);
}
// one agent that moves and grows, several obstacles: nothing is remembered between queries
static void interleaved(Ctx& c)
{
	ESpec s[2] = {espec({2, 0, 0}, 0.4L, {1, 0.5L, 1}), espec({-1, 1, 0.5L}, -1, {0.3L, 2, 1}, {0.2L, 0.1L, 0})};
	s[1].c0 = 2;
	std::shared_ptr<Ellipsoid> e[2] = {s[0].make("a"), s[1].make("b")};
	Agent a(0.0);
	double m = 0;
	ref::V x;
	int n = mc::thorough() ? 7 : 5;
	for(int i = 0; i < n; ++i)
	{
		switch(c.pick(7))
		{
		case 0: x = {1, 2, 3}; a.set_position(ev(x)); break;
		case 1: x = {-2.5L, 0.1L, 0}; a.set_position(ev(x)); break;
		case 2: m = 0.4; a.set_safety_margin(m); break;
		case 3: m = 0; a.set_safety_margin(m); break;
		case 4: std::swap(s[0], s[1]); std::swap(e[0], e[1]); break;
		case 5: s[0].pos = s[0].pos + ref::V{0.5L, -0.5L, 0}; e[0]->set_position(ev(s[0].pos)); break;
		case 6: s[1].axes = 1.5L * s[1].axes; e[1]->set_axis_lengths(ea(s[1].axes)); break;
		}
		c.transition();
		for(int k = 0; k < 2; ++k) compare(c, e[k]->compute_distance_to_agent(a), s[k].ell().gamma(x, m), "interleaved", x);
		mc::Hash h;
		h.u(hash_of(s[0])).u(hash_of(s[1])).d(m);
		hs(h, a.get_position());
		c.state(h);
	}
}

MC_MAIN("C09", { {"shapes", shapes, 3}, {"live", live, 2}, {"interleaved", interleaved, 2} })
