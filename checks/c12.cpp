// C12 two obstacles intersect exactly when their footprints overlap
#include "ellalpha.hpp"
#include <unordered_map>

struct Sh { ref::V axes, margin; int c; };
static const std::vector<Sh>& shapes()
{
	static std::vector<Sh> v{{{1, 1, 1}, {0, 0, 0}, 1}, {{2, 0.5L, 1}, {0, 0, 0}, 1}, {{3, 0.01L, 1}, {0, 0, 0}, 1}, {{0.3L, 0.2L, 0}, {0.5L, 0.1L, 0.2L}, 1}, {{0.02L, 0.03L, 0}, {0, 0, 0}, 2}, {{25, 12, 3}, {0.1L, 0.1L, 0.1L}, 1}, {{2, 9, 1}, {0, 0.1L, 0}, 1}, {{2.2L, 0.4L, 2}, {0.1L, 0, 0}, 1}, {{0.3L, 2.5L, 1}, {0, 0, 0}, 3}};
	return v;
}
// distance along direction d at which b, moved away from a, stops touching
static ref::R touching(const ref::Ell& a, ref::Ell b, ref::V d)
{
	static std::unordered_map<uint64_t, ref::R> memo;
	mc::Hash h;
	for(const ref::Ell* e : {&a, (const ref::Ell*)&b}) { ref::V l = e->len(); h.d(double(l.x)).d(double(l.y)).d(double(e->pose.r.m[0][0])).d(double(e->pose.r.m[1][0])); }
	h.d(double(d.x)).d(double(d.y));
	auto it = memo.find(h);
	if(it != memo.end()) return it->second;
	ref::Ell o = a;
	o.pose.t = ref::V();
	ref::R lo = 0, hi = ref::norm(a.len()) + ref::norm(b.len()) + 1;
	for(int i = 0; i < 30; ++i)
	{
		ref::R m = (lo + hi) / 2;
		b.pose.t = m * d;
		if(ref::overlap_level(o, b) < 1 || ref::overlap_level(b, o) < 1) lo = m; else hi = m;
	}
	return memo[h] = lo;
}
static void both(Ctx& c, const Obstacle& a, const Obstacle& b, int want, const char* what, const std::string& desc)
{
	if(want < 0) return;
	c.check(a.is_intersecting(b) == bool(want), "intersecting", [&] { return fmt("%s: %s", what, want ? "overlapping but not reported" : "reported but apart") + ", " + desc; });
	c.check(b.is_intersecting(a) == bool(want), "intersecting-swapped", [&] { return fmt("%s, swapped: %s", what, want ? "overlapping but not reported" : "reported but apart") + ", " + desc; });
}
static void pairs(Ctx& c)
{
	const Sh& sa = c.of(shapes());
	const Sh& sb = c.of(shapes());
	static const std::vector<ref::R> yb{0, 0.35L, 1.2L, ref::PI / 2, -2.9L, ref::PI};
	ref::R ya = c.flip() ? 0.8L : 0, y = c.of(yb);
	ref::V d = planar_directions()[size_t(2 * c.pick(8) + 1)];
	static const std::vector<ref::R> fs{0, 0.02L, 0.4L, 0.7L, 0.9L, 0.99L, 0.997L, 1.001L, 1.01L, 1.1L, 2.5L};
	ESpec a = espec({0, 0, 0}, ya, sa.axes, sa.margin), b = espec({0, 0, 0}, y, sb.axes, sb.margin);
	a.c0 = a.c1 = a.c2 = sa.c;
	b.c0 = b.c1 = b.c2 = sb.c;
	ref::R t = touching(a.ell(), b.ell(), d);
	// the same scene in three places, turned and at other heights
	static const ref::V where[3] = {{0, 0, 0}, {-40, 25, 3}, {3, 0.5L, -2}};
	ref::R turn[3] = {0, 0, 2.1L};
	for(auto& f : fs)
	{
		ref::Ell ra = a.ell(), rb = b.ell();
		rb.pose.t = (f * t) * d;
		int want = ref::overlaps(ra, rb);
		for(int k = 0; k < 3; ++k)
		{
			ESpec pa = a, pb = b;
			pa.rot.angle += turn[k];
			pb.rot.angle += turn[k];
			pa.pos = where[k];
			pb.pos = where[k] + ref::yaw(turn[k]) * rb.pose.t;
			if(k == 2) pb.pos.z += 4;
			auto x = pa.make("a"), z = pb.make("b");
			both(c, *x, *z, want, "pair", pa.str() + " and " + pb.str());
			if(c.recording && k == 0 && f == 0.99L) c.note(pa.str() + " and " + pb.str());
			mc::Hash h;
			h.u(hash_of(pa)).u(hash_of(pb));
			c.state(h);
			c.transition();
		}
		c.outcome(uint64_t(want + 1));
	}
}
// one obstacle wandering among others: single, in a list, in an aggregate; attributes changed on the way
static void lists(Ctx& c)
{
	std::vector<ESpec> s{espec({0, 0, 0}, 0.4L, {1, 0.3L, 1}), espec({5, 0, 0}, -0.6L, {0.5L, 1.5L, 1}, {0.1L, 0.2L, 0}), espec({0, 6, 0}, 0, {1, 1, 1})};
	static const std::vector<ref::V> pos{{0.4L, 0.3L, 0}, {4.6L, 1.0L, 0}, {2.5L, 0.2L, 0}, {0.5L, 5, 0}, {-9, -9, 0}};
	static const std::vector<ref::V> ax{{0.2L, 0.2L, 1}, {2.6L, 0.02L, 1}, {6, 7, 1}};
	static const std::vector<ref::R> ya{0, 1.1L};
	List l;
	for(size_t i = 0; i < s.size(); ++i) l.push_back(s[i].make(fmt("o%zu", i)));
	auto e = espec({0, 0, 0}, 0, {1, 1, 1}).make("e");
	int n = mc::thorough() ? 4 : 3;
	ESpec w = espec({0, 0, 0}, 0, {1, 1, 1});
	for(int i = 0; i < n; ++i)
	{
		switch(c.pick(3))
		{
		case 0: w.pos = c.of(pos); e->set_position(ev(w.pos)); break;
		case 1: w.axes = c.of(ax); e->set_axis_lengths(ea(w.axes)); break;
		case 2: w.rot.angle = c.of(ya); e->set_orientation(eq(w.rot)); break;
		}
		c.transition();
		int any = 0, group = 0;
		for(size_t k = 0; k < s.size(); ++k)
		{
			int o = ref::overlaps(s[k].ell(), w.ell());
			both(c, *l[k], *e, o, "wandering", s[k].str() + " and " + w.str());
			any = any == 1 || o == 1 ? 1 : any == -1 || o == -1 ? -1 : 0;
			if(k < 2) group = any;
		}
		if(any >= 0) c.check(e->is_intersecting(l) == bool(any), "list", [&] { return "list and " + w.str(); });
		c.check(!e->is_intersecting(List()), "empty-list");
		c.check(e->is_intersecting(List{e}), "list-of-itself");
		if(i + 1 == n)
		{
			auto ag = std::make_shared<Aggregate>(List{l[0], l[1]});
			both(c, *ag, *e, group, "aggregate", "aggregate and " + w.str());
			if(any >= 0) c.check(e->is_intersecting(List{ag, l[2]}) == bool(any), "list-with-aggregate", [&] { return "list with aggregate and " + w.str(); });
			auto ag2 = std::make_shared<Aggregate>(List{e, l[2]});
			int third = ref::overlaps(s[0].ell(), s[2].ell()) == 1 || ref::overlaps(s[1].ell(), s[2].ell()) == 1;
			both(c, *ag, *ag2, third ? 1 : group, "two aggregates", "aggregates with " + w.str());
		}
		mc::Hash h;
		h.u(hash_of(w));
		c.state(h);
	}
}
// an obstacle intersects itself and its copies
static void self(Ctx& c)
{
	ESpec s = pick_spec(c, true);
	auto e = s.make("e"), f = s.make("f");
	c.check(e->is_intersecting(*e) && e->is_intersecting(*f) && f->is_intersecting(*e), "self", [&] { return s.str(); });
	c.state(hash_of(s));
	c.transition();
}
// long lists and large aggregates: the one that is hit is anywhere among them
static void crowd(Ctx& c)
{
	static const std::vector<int> sizes{2, 7, 9, 33, 130, 300};
	int n = c.of(sizes), kind = c.pick(3), hit = c.pick(5), where = c.pick(2);
	size_t at = size_t(std::vector<int>{0, 1, n / 2, n - 2, n - 1}[size_t(hit)]);
	auto e = espec({0.2L, 0.1L, 0}, 0.3L, {1, 0.6L, 1}).make("e");
	List l;
	for(int i = 0; i < n; ++i) l.push_back(espec({8 + 3.0L * (i % 20), 6.0L * (i / 20) - 5, 0}, 0.2L * i, {1, 0.4L, 1}).make(fmt("o%03d", i)));
	// the candidate: just touching or just not
	l[at]->set_position(where ? E3(1.6, 0.3, 0) : E3(4.6, 0.3, 0));
	ref::Ell le = espec({0.2L, 0.1L, 0}, 0.3L, {1, 0.6L, 1}).ell(), lo = espec(where ? ref::V{1.6L, 0.3L, 0} : ref::V{4.6L, 0.3L, 0}, 0.2L * at, {1, 0.4L, 1}).ell();
	int want = ref::overlaps(le, lo);
	if(want < 0) return;
	auto say = [&] { return fmt("%d obstacles of which number %zu %s", n, at, want ? "overlaps" : "is near"); };
	if(kind == 0) c.check(e->is_intersecting(l) == bool(want), "list", say);
	else
	{
		auto ag = std::make_shared<Aggregate>(l);
		if(kind == 1)
		{
			c.check(ag->is_intersecting(*e) == bool(want), "aggregate", say);
			c.check(e->is_intersecting(*ag) == bool(want), "of aggregate", say);
			c.check(e->is_intersecting(List{ag}) == bool(want), "list of aggregate", say);
		}
		else
		{
			List far;
			for(int i = 0; i < 5; ++i) far.push_back(espec({-9 - 3.0L * i, 0, 0}, 0, {1, 1, 1}).make(fmt("f%d", i)));
			far.insert(far.begin() + c.pick(6), e);
			auto other = std::make_shared<Aggregate>(far);
			c.check(ag->is_intersecting(*other) == bool(want), "aggregates", say);
			c.check(other->is_intersecting(*ag) == bool(want), "aggregates swapped", say);
			c.check(l[at]->is_intersecting(far) == bool(want), "list of others", say);
		}
	}
	c.state(mc::Hash().u(uint64_t(n)).u(uint64_t(kind)).u(at).u(uint64_t(where)));
	c.transition();
	c.outcome(uint64_t(want));
}
MC_MAIN("C12", { {"pairs", pairs, 3}, {"lists", lists, 2}, {"self", self, 2}, {"crowd", crowd, 2} })
