// C11 membership in an ellipsoidal obstacle agrees with its distance
#include "ellalpha.hpp"

static void query(Ctx& c, const Ellipsoid& e, const ref::Ell& l, ref::V x, const char* what)
{
	x = rv(ev(x));
	ref::V t = l.len();
	ref::R level = l.planar(x);
	ref::R tol = 1e-7L + 1e-14L * (1 + ref::norm(l.pose.t) + ref::norm(x)) / std::min(t.x, t.y);
	if(std::fabs(level - 1) <= tol) return;
	bool in = e.point_is_inside(ev(x));
	c.check(in == (level < 1), "membership", [&] { return fmt("%s: %s with level %.9Lg is %s", what, str(x).c_str(), level, in ? "inside" : "outside"); });
	// agreement with the library's own distance
	double g = dist_to(e, ev(x));
	if(std::fabs(g - 1) < 1e-6) return;
	bool ellipse = l.curv[0] == 1 && l.curv[1] == 1 && l.curv[2] == 1;
	ref::V p = ref::inv(l.pose) * x;
	if(ellipse && std::fabs(p.z) < 1e-9L) c.check(in == (g < 1), "distance-agrees", [&] { return fmt("%s: %s at distance %.9g is %s", what, str(x).c_str(), g, in ? "inside" : "outside"); });
	if(ellipse && g < 1) c.check(in, "near-but-outside", [&] { return fmt("%s: %s at distance %.9g is outside", what, str(x).c_str(), g); });
	if(in && std::fabs(p.z) < 1e-9L) c.check(g < 1 + 1e-6, "inside-but-far", [&] { return fmt("%s: %s inside at distance %.9g", what, str(x).c_str(), g); });
}
static void shapes(Ctx& c)
{
	ESpec s = pick_spec(c, true);
	auto e = s.make("e");
	ref::Ell l = s.ell();
	if(c.recording) c.note(s.str());
	c.state(hash_of(s));
	c.transition();
	ref::V t = l.len();
	for(auto& d : planar_directions())
	{
		ref::V b = ref::V{t.x * d.x, t.y * d.y, 0};
		for(ref::R r : {0.0L, 0.3L, 0.95L, 0.9999L, 1.0001L, 1.05L, 3.0L, 100.0L})
			for(ref::V z : {ref::V{0, 0, 0}, ref::V{0, 0, 0.4L * t.z}, ref::V{0, 0, -300}}) query(c, *e, l, l.pose * (r * b + z), "around");
	}
	query(c, *e, l, {0, 0, 0}, "origin");
	query(c, *e, l, {5, -6, 0}, "elsewhere");
}
static void tilted(Ctx& c)
{
	ESpec s = pick_spec(c);
	auto e = s.make("e");
	ref::Ell l = s.ell();
	c.state(hash_of(s));
	c.transition();
	ref::V t = l.len();
	for(auto& d : planar_directions()) for(ref::R r : {0.1L, 0.99L, 1.01L, 4.0L}) query(c, *e, l, l.pose * ref::V{r * t.x * d.x, r * t.y * d.y, 0}, "tilted");
}
static void live(Ctx& c)
{
	Live v;
	int n = mc::thorough() ? 4 : 3;
	for(int i = 0; i < n; ++i)
	{
		v.op(c, c.pick(Live::NOPS));
		for(auto& x : v.around()) query(c, *v.e, v.s.ell(), x, "after setters");
		ref::Ell l = v.s.ell();
		ref::V t = l.len();
		for(auto& d : planar_directions()) for(ref::R r : {0.98L, 1.02L}) query(c, *v.e, l, l.pose * ref::V{r * t.x * d.x, r * t.y * d.y, 0}, "after setters");
		c.state(hash_of(v.s));
	}
}
MC_MAIN("C11", { {"shapes", shapes, 3}, {"tilted", tilted, 3}, {"live", live, 2} })
