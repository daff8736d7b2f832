// C10 the surface normal of an ellipsoidal obstacle is the outward unit gradient of its distance
#include "ellalpha.hpp"

static void query(Ctx& c, const Ellipsoid& e, const ref::Ell& l, ref::V x, double m, const char* what)
{
	Agent a(State(ev(x)), m);
	x = rv(ev(x));
	E3 n = e.compute_normal_to_agent(a);
	ref::V p = ref::inv(l.pose) * x;
	ref::V w = l.normal_local(x, m);
	// how much the rounding of the coordinates may turn the gradient
	ref::V t = l.scale(m);
	ref::R grad = 0, hess = 0, err = 4e-16L * (1 + ref::norm(l.pose.t) + ref::norm(p)), g = l.gamma(x, m);
	for(int i = 0; i < 3; ++i)
	{
		int k = 2 * l.curv[i];
		ref::R q = std::fabs(p[i]) / t[i];
		grad += std::fabs(k * ref::ipow(q, k - 1) / t[i]);
		hess = std::max(hess, k * (k - 1) * ref::ipow(q + err / t[i], k - 2) / (t[i] * t[i]));
	}
	ref::R tol = 1e-9L + 10 * err * hess / grad;
	if(g < 1e-20L || !(tol < 0.05L)) return;
	c.check(std::fabs(n.norm() - 1) < 1e-9, "unit", [&] { return fmt("%s: normal %s at %s", what, str(n).c_str(), str(x).c_str()); });
	c.check(close(rv(n), w, tol), "gradient", [&] { return fmt("%s: normal %s at %s expected %s", what, str(n).c_str(), str(x).c_str(), str(w).c_str()); });
	// pointing away from the centre
	c.check(ref::dot(rv(n), p) > 0, "outward", [&] { return fmt("%s: normal %s at %s points inwards", what, str(n).c_str(), str(x).c_str()); });
}
static void shapes(Ctx& c)
{
	ESpec s = pick_spec(c);
	auto e = s.make("e");
	ref::Ell l = s.ell();
	if(c.recording) c.note(s.str());
	c.state(hash_of(s));
	c.transition();
	for(auto& d : directions())
	{
		for(ref::R level : {1e-9L, 1e-4L, 0.2L, 1.0L, 3.0L, 1e4L})
		{
			query(c, *e, l, l.at_level(d, level), 0, "no margin");
			query(c, *e, l, l.at_level(d, level, 0.3L), 0.3, "with margin");
		}
		query(c, *e, l, l.at_level(d, 1.0L, 2), 2, "large margin");
	}
}
// increasing distance along the normal, by the library's own distance
static void consistent(Ctx& c)
{
	ESpec s = pick_spec(c);
	ref::Ell l = s.ell();
	ref::V t = l.scale();
	ref::R thin = std::min(t.x, std::min(t.y, t.z));
	if(thin < 0.05L || ref::norm(l.pose.t) > 100) return;
	auto e = s.make("e");
	c.state(hash_of(s));
	c.transition();
	for(auto& d : directions())
	{
		ref::V x = l.at_level(d, 1.3L);
		Agent a(State(ev(x)), 0.1);
		E3 n = e->get_orientation() * e->compute_normal_to_agent(a), p = a.get_position();
		double h = 1e-5 * double(thin), g0 = e->compute_distance_to_agent(a);
		Agent b(State(p + h * n), 0.1);
		double slope = (e->compute_distance_to_agent(b) - g0) / h;
		// no direction rises faster
		E3 u(n(1), -n(0), 0.3 * n(2));
		E3 tg = (u - u.dot(n) * n);
		if(tg.norm() > 0.1)
		{
			tg.normalize();
			Agent f(State(p + h * tg), 0.1);
			double side = (e->compute_distance_to_agent(f) - g0) / h;
			c.check(std::fabs(side) <= 1e-2 * slope, "tangent-slope", [&] { return fmt("slope %.6g along the normal and %.6g along the tangent at %s", slope, side, str(x).c_str()); });
		}
		c.check(slope > 0, "slope", [&] { return fmt("slope %.6g along the normal at %s", slope, str(x).c_str()); });
	}
}
static void live(Ctx& c)
{
	Live v;
	int n = mc::thorough() ? 4 : 3;
	for(int i = 0; i < n; ++i)
	{
		v.op(c, c.pick(Live::NOPS));
		for(auto& x : v.around()) query(c, *v.e, v.s.ell(), x, 0.2, "after setters");
		c.state(hash_of(v.s));
	}
}
MC_MAIN("C10", { {"shapes", shapes, 3}, {"consistent", consistent, 3}, {"live", live, 2} })
