// C15 star shaped hulls
#include "hullmodel.hpp"

static ESpec own(ESpec e, ref::V r) { e.own_ref = true; e.refpos = r; return e; }
static const std::vector<std::vector<ESpec>>& sets()
{
	static std::vector<std::vector<ESpec>> v{
		{espec({0, 0, 0}, 0, {1, 1, 1})},
		{espec({0.2L, 0.1L, 0}, 0.7L, {2, 0.7L, 1}, {0.2L, 0.1L, 0})},
		{espec({-1, 0, 0}, 0, {1.2L, 1.2L, 1}), espec({1, 0, 0}, 0.4L, {1.3L, 0.9L, 1})},
		{espec({3, 0, 0}, ref::PI / 2, {4, 0.5L, 1}), espec({-3, 0, 0}, ref::PI / 2, {4, 0.5L, 1}), espec({0, 3, 0}, 0, {4, 0.5L, 1}), espec({0, -3, 0}, 0, {4, 0.5L, 1})}, // closed room
		{espec({3, 0, 0}, ref::PI / 2, {4, 0.5L, 1}), espec({-3, 0, 0}, ref::PI / 2, {4, 0.5L, 1}), espec({0, 3, 0}, 0, {4, 0.5L, 1})}, // room open on one side
		{espec({8, 0, 0}, 0, {1, 2, 1})}, // far away
		{own(espec({-2, 1, 0}, 0.3L, {3, 2, 1}), {-3, 1.5L, 0}), own(espec({2, 1.4L, 0}, -0.5L, {2.5L, 1.8L, 1}), {2.2L, 0.5L, 0})}, // with references of their own
		{espec({0, 0, 0}, 0.3L, {12, 7, 1}), espec({2, 1, 0}, 0, {0.5L, 0.5L, 1}), espec({-4, -2, 0}, -1, {0.3L, 2.5L, 1})},
		{espec({0, 0, 0}, 0, {0.3L, 0.3L, 1}), espec({0.1L, 0, 0}, 0, {0.2L, 0.35L, 1})}, // smaller than the least radius
	};
	return v;
}
static const std::vector<ref::V>& centres()
{
	static std::vector<ref::V> v{{0, 0, 0}, {0.4L, -0.3L, 0}, {-1.7L, 1.1L, 0}, {6, 5, 0}};
	return v;
}
static ESpec scaled(ESpec e, ref::R k) { e.pos = k * e.pos; e.refpos = k * e.refpos; e.axes = k * e.axes; return e; }
static HullModel model(const std::vector<ESpec>& s, ref::V shift, ref::V centre, bool inside, ref::R minr, int res)
{
	HullModel m;
	for(auto& e : s) { ref::Ell l = e.ell(); l.pose.t = l.pose.t + shift; m.prims.push_back(l); }
	m.centre = centre;
	m.inside = inside;
	m.min_radius = minr;
	m.resolution = res;
	return m;
}
static List build(const std::vector<ESpec>& s, ref::V shift)
{
	List l;
	int i = 0;
	for(auto e : s) { e.pos = e.pos + shift; l.push_back(e.make(fmt("p%d", i++))); }
	return l;
}
static void check_hull(Ctx& c, const StarShapeHull& h, const HullModel& m, const char* what)
{
	if(m.degenerate()) return;
	HullModel o = m;
	check_hull_queries(c, h, m, o, false, what);
	int cl = m.closed();
	if(cl >= 0) c.check(h.is_closed() == bool(cl), "closed", [&] { return fmt("%s: %s", what, cl ? "closed but said to be open" : "open but said to be closed"); });
	c.check(close(rv(h.get_position()), m.centre, 1e-9L) && close(rv(h.get_reference_position()), m.centre, 1e-9L), "centre", [&] { return fmt("%s: centre %s reference %s", what, str(h.get_position()).c_str(), str(h.get_reference_position()).c_str()); });
	c.outcome(uint64_t(cl + 1));
}
static uint64_t hash(const HullModel& m)
{
	mc::Hash h;
	for(auto& e : m.prims) h.d(double(e.pose.t.x)).d(double(e.pose.t.y)).d(double(e.len().x)).d(double(e.len().y));
	h.d(double(m.centre.x)).d(double(m.centre.y)).d(double(m.min_radius)).u(m.inside).u(uint64_t(m.resolution));
	return h;
}
static void shapes(Ctx& c)
{
	auto& s = sets()[size_t(c.pick(int(sets().size())))];
	ref::V ctr = c.of(centres());
	bool inside = c.flip();
	int cfg = c.pick(3), place = c.pick(3);
	int res = cfg == 1 ? 120 : cfg == 2 ? 1000 : 500;
	ref::R minr = cfg == 1 ? 0.1L : cfg == 2 ? 2.0L : 0.5L;
	ref::V shift = place == 1 ? ref::V{-30, 12, 0} : ref::V{0, 0, 0};
	// the same at another scale: members at tens of units from the centre
	auto g = s;
	if(place == 2) { for(auto& e : g) e = scaled(e, 15); ctr = 15 * ctr; }
	HullModel m = model(g, shift, ctr + shift, inside, minr, res);
	c.note("hull of %zu ellipses from %s, %s, resolution %d, least radius %.3Lg", s.size(), str(m.centre).c_str(), inside ? "inside" : "outside", res, minr);
	StarShapeHull h(inside, unsigned(res), double(minr));
	h.compute_from_primitives(build(g, shift), ev(m.centre));
	check_hull(c, h, m, "hull");
	c.state(hash(m));
	c.transition();
}
// the centre defaults to the mean of the positions
static void barycentre(Ctx& c)
{
	auto& s = sets()[size_t(c.pick(int(sets().size())))];
	bool inside = c.flip(), ctor = c.flip();
	ref::V ctr;
	for(auto& e : s) ctr = ctr + e.pos;
	ctr = (1 / ref::R(s.size())) * ctr;
	HullModel m = model(s, {0, 0, 0}, ctr, inside, 0.5L, 500);
	List l = build(s, {0, 0, 0});
	if(ctor) { StarShapeHull h(l, inside); check_hull(c, h, m, "constructed from primitives"); }
	else { StarShapeHull h(inside); h.compute_from_primitives(l); check_hull(c, h, m, "computed from primitives"); }
	c.state(hash(m));
	c.transition();
}
// one hull used again for other primitives, centres and resolutions
static void reuse(Ctx& c)
{
	bool inside = c.flip();
	StarShapeHull h(inside);
	HullModel m;
	int res = 500;
	for(int i = 0; i < 2; ++i)
	{
		static const int pick[4] = {3, 2, 4, 0};
		auto& s = sets()[size_t(pick[c.pick(4)])];
		ref::V ctr = centres()[size_t(c.pick(2))];
		if(c.flip()) { res = i ? 300 : 700; h.set_resolution(unsigned(res)); c.note("resolution %d", res); }
		m = model(s, {0, 0, 0}, ctr, inside, 0.5L, res);
		h.compute_from_primitives(build(s, {0, 0, 0}), ev(ctr));
		c.note("computed for %zu ellipses", s.size());
		c.transition();
	}
	check_hull(c, h, m, "used again");
	c.state(hash(m));
}
// the primitives move, the hull follows when computed again
static void follow(Ctx& c)
{
	auto s = sets()[2];
	List l = build(s, {0, 0, 0});
	bool inside = c.flip();
	StarShapeHull h(l, inside);
	int n = 3;
	for(int i = 0; i < n; ++i)
	{
		size_t k = size_t(c.pick(2));
		auto& e = dynamic_cast<Ellipsoid&>(*l[k]);
		switch(c.pick(3))
		{
		case 0: s[k].pos = s[k].pos + ref::V{0.2L, 0.3L, 0}; e.set_position(ev(s[k].pos)); break;
		case 1: s[k].rot.angle += 0.5L; e.set_orientation(eq(s[k].rot)); break;
		case 2: s[k].axes.x *= 1.3L; e.set_axis_lengths(ea(s[k].axes)); break;
		}
		c.transition();
	}
	HullModel m = model(s, {0, 0, 0}, {0.1L, 0, 0}, inside, 0.5L, 500);
	h.compute_from_primitives(l, ev(m.centre));
	check_hull(c, h, m, "followed");
	c.state(hash(m));
}
MC_MAIN("C15", { {"shapes", shapes, 3}, {"barycentre", barycentre, 3}, {"reuse", reuse, 3}, {"follow", follow, 3} })
