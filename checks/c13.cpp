// C13 outline samples and surface area of an ellipsoidal obstacle
#include "ellalpha.hpp"

static void samples_of(Ctx& c, const Ellipsoid& e, const ref::Ell& l, unsigned n, bool margin, const char* what)
{
	Eigen::MatrixXd m = e.sample_from_parameterization(n, margin);
	c.check(m.rows() == 3 && m.cols() == int(n), "size", [&] { return fmt("%s: %d x %d samples", what, int(m.rows()), int(m.cols())); });
	ref::V t = margin ? l.len() : l.axes;
	ref::R tol = 1e-9L * (1 + ref::norm(l.pose.t) + ref::norm(t));
	for(unsigned i = 0; i < n; ++i)
	{
		ref::R a = 2 * ref::PI * i / (n - 1);
		ref::V w = l.pose * ref::V{t.x * std::cos(a), t.y * std::sin(a), 0};
		w.z = 0;
		E3 p = m.col(int(i));
		c.check(close(rv(p), w, tol), "sample", [&] { return fmt("%s: sample %u of %u is %s expected %s", what, i, n, str(p).c_str(), str(w).c_str()); });
	}
}
static void shapes(Ctx& c)
{
	ESpec s = pick_spec(c, true);
	auto e = s.make("e");
	if(c.recording) c.note(s.str());
	c.state(hash_of(s));
	c.transition();
	for(unsigned n : {2u, 3u, 17u, 100u, 1000u}) for(bool m : {false, true}) samples_of(c, *e, s.ell(), n, m, "outline");
}
static void live(Ctx& c)
{
	Live v;
	int n = mc::thorough() ? 4 : 3;
	for(int i = 0; i < n; ++i)
	{
		v.op(c, c.pick(Live::NOPS));
		samples_of(c, *v.e, v.s.ell(), 13, true, "after setters");
		samples_of(c, *v.e, v.s.ell(), 8, false, "after setters");
		c.state(hash_of(v.s));
	}
}
// surface area by integration
static ref::R area(ref::V l)
{
	const int N = 200;
	ref::R s = 0;
	for(int i = 0; i < N; ++i)
	{
		ref::R t = (i + 0.5L) * ref::PI / N, st = std::sin(t), ct = std::cos(t);
		for(int j = 0; j < N / 2; ++j)
		{
			ref::R f = (j + 0.5L) * (ref::PI / 2) / (N / 2), sf = std::sin(f), cf = std::cos(f);
			ref::V n{l.y * l.z * st * cf, l.x * l.z * st * sf, l.x * l.y * ct};
			s += ref::norm(n) * st;
		}
	}
	return 4 * s * (ref::PI / N) * (ref::PI / N);
}
static void areas(Ctx& c)
{
	static const ref::R L[9] = {1, 0.1L, 2, 7, 0.5L, 40, 3.3L, 0.01L, 0};
	ref::V l{L[c.pick(9)], L[c.pick(9)], L[c.pick(9)]};
	ref::V margin = c.flip() ? ref::V{0.3L, 1, 0.05L} : ref::V{0, 0, 0};
	ESpec s = espec({1, 2, 3}, 0.4L, l, margin);
	auto e = s.make("e");
	c.note(s.str());
	for(bool with : {false, true})
	{
		ref::V t = with ? l + margin : l;
		ref::R w = area(t);
		double a = e->area(with);
		c.check(std::fabs(a - w) <= 0.013L * w, "area", [&] { return fmt("area %.9g expected %.9Lg for semi axes %s", a, w, str(t).c_str()); });
		if(t.x == t.y && t.y == t.z) c.check(std::fabs(a - 4 * ref::PI * t.x * t.x) <= 1e-9L * a, "sphere", [&] { return fmt("area %.12g of a sphere of radius %.9Lg", a, t.x); });
		// the order of the axes does not matter, and the area is of second degree
		for(int p = 0; p < 6; ++p)
		{
			static const int P[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
			auto f = espec({0, 0, 0}, 0, {t[P[p][0]], t[P[p][1]], t[P[p][2]]}).make("f");
			c.check(std::fabs(f->area() - a) <= 1e-9 * a, "area-symmetric", [&] { return fmt("%.12g and %.12g", f->area(), a); });
			f->set_axis_lengths(3 * ea({t[P[p][0]], t[P[p][1]], t[P[p][2]]}));
			c.check(std::fabs(f->area(false) - 9 * a) <= 1e-8 * a, "area-degree", [&] { return fmt("%.12g and %.12g", f->area(), a); });
		}
	}
	c.check(close(e->area(), e->area(true), 1e-12 * e->area(true)), "area-default");
	c.state(hash_of(s));
	c.transition();
}
MC_MAIN("C13", { {"shapes", shapes, 3}, {"live", live, 2}, {"areas", areas, 3} })
