// C16 an aggregate behaves as the union of its members
#include "hullmodel.hpp"

static const std::vector<std::vector<ESpec>>& sets()
{
	static std::vector<std::vector<ESpec>> v{
		{espec({-1, 0, 0}, 0, {1.2L, 1.2L, 1}), espec({1, 0, 0}, 0.4L, {1.3L, 0.9L, 1})},
		{espec({3, 0, 0}, ref::PI / 2, {4, 0.5L, 1}), espec({-3, 0, 0}, ref::PI / 2, {4, 0.5L, 1}), espec({0, 3, 0}, 0, {4, 0.5L, 1}), espec({0, -3, 0}, 0, {4, 0.5L, 1})}, // closed room
		{espec({3, 0, 0}, ref::PI / 2, {4, 0.5L, 1}), espec({-3, 0, 0}, ref::PI / 2, {4, 0.5L, 1}), espec({0, 3, 0}, 0, {4, 0.5L, 1})}, // room open on one side
		{espec({0, 0, 0}, 0.3L, {5, 3, 1}), espec({3, 1, 0}, 0, {2, 2, 1}, {0.5L, 0.5L, 0}), espec({-3, -2, 0}, -1, {0.3L, 2.5L, 1})},
		{espec({1, 0.5L, 0}, 0, {4, 0.4L, 1}), espec({2, 1, 0}, ref::PI / 2, {3, 0.5L, 1})}, // cross
		{espec({0.4L, 0.1L, 0}, 0.6L, {2, 0.8L, 1}, {0.1L, 0.2L, 0})}, // on its own
	};
	return v;
}
static const std::vector<std::string>& names_of()
{
	static std::vector<std::string> v{"m", "b", "x", "a"};
	if(v.size() == 4) for(int i = 0; i < 30; ++i) v.push_back(fmt("n%d", i));
	return v;
}
struct Sys
{
	std::vector<ESpec> s;
	List l; // in the order of s
	ref::V ref_point;
	std::string stem;
	void add(const ESpec& e) { s.push_back(e); l.push_back(e.make(stem + names_of()[l.size()])); }
	ref::V mean() const
	{
		ref::V m;
		for(auto& e : s) m = m + e.pos;
		return (1 / ref::R(s.size())) * m;
	}
	std::string name() const
	{
		std::vector<std::string> n(names_of().begin(), names_of().begin() + long(s.size()));
		std::sort(n.begin(), n.end());
		std::string r = "aggregate";
		for(auto& x : n) r += "_" + stem + x;
		return r;
	}
};
static void check_aggregate(Ctx& c, const Aggregate& a, const Sys& y, ref::V centre, const char* what)
{
	HullModel in, out;
	for(auto& e : y.s) in.prims.push_back(e.ell());
	in.centre = y.ref_point;
	in.inside = true;
	out = in;
	out.inside = false;
	auto w = [&](const std::string& t) { return std::string(what) + ": " + t; };
	c.check(a.get_name() == y.name() && a.get_type() == "Aggregate", "name", [&] { return w(a.get_name() + " of type " + a.get_type() + " expected " + y.name()); });
	c.check(close(rv(a.get_position()), centre, 1e-9L), "position", [&] { return w("position " + str(a.get_position()) + " expected " + str(centre)); });
	c.check(close(rv(a.get_reference_position()), y.ref_point, 1e-9L), "reference", [&] { return w("reference " + str(a.get_reference_position()) + " expected " + str(y.ref_point)); });
	auto& pr = a.get_primitives();
	c.check(pr.size() == y.s.size(), "members", [&] { return w(fmt("%zu members", pr.size())); });
	for(size_t i = 0; i < y.l.size(); ++i)
	{
		size_t found = 0;
		for(auto& p : pr) found += p == y.l[i];
		c.check(found == 1, "member-identity", [&] { return w(fmt("member %zu is there %zu times", i, found)); });
		c.check(close(rv(y.l[i]->get_position()), y.s[i].pos, 1e-12L), "member-moved", [&] { return w("member moved to " + str(y.l[i]->get_position())); });
		c.check(close(rv(y.l[i]->get_reference_position()), y.ref_point, 1e-9L), "member-reference", [&] { return w("reference of a member " + str(y.l[i]->get_reference_position()) + " expected " + str(y.ref_point)); });
	}
	if(in.degenerate()) return;
	check_hull_queries(c, a, in, out, true, what);
	int cl = out.closed();
	if(cl >= 0) c.check(a.is_closed() == bool(cl), "closed", [&] { return w(cl ? "closed but said to be open" : "open but said to be closed"); });
	c.outcome(uint64_t(cl + 1));
	mc::Hash h;
	for(auto& e : y.s) h.u(hash_of(e));
	h.d(double(y.ref_point.x)).d(double(y.ref_point.y));
	c.state(h);
}
static void build(Ctx& c)
{
	auto& set = sets()[size_t(c.pick(int(sets().size())))];
	int place = c.pick(3);
	ref::V shift = place == 1 ? ref::V{-30, 12, 0} : ref::V{0, 0, 0};
	Sys y;
	for(auto e : set) { if(place == 2) { e.pos = 15 * e.pos; e.axes = 15 * e.axes; } e.pos = e.pos + shift; y.add(e); }
	// order in which the members are given
	std::vector<size_t> order, rest;
	for(size_t i = 0; i < set.size(); ++i) rest.push_back(i);
	while(!rest.empty()) { size_t k = size_t(c.pick(int(rest.size()))); order.push_back(rest[k]); rest.erase(rest.begin() + long(k)); }
	int how = c.pick(3);
	y.ref_point = y.mean();
	c.note("%zu members, %s", set.size(), how == 0 ? "constructed" : how == 1 ? "added one by one" : "added one by one, hull at the end");
	List l;
	for(auto i : order) l.push_back(y.l[i]);
	c.transition(l.size());
	std::shared_ptr<Aggregate> a;
	if(how == 0) { a = std::make_shared<Aggregate>(l); }
	else
	{
		a = std::make_shared<Aggregate>();
		for(auto& o : l) { if(how == 1) a->add_primitive(o); else a->add_primitive(o, false); }
		if(how == 2) a->update_hull();
	}
	if(c.flip())
	{
		y.ref_point = y.ref_point + ref::V{0.37L, 0.21L, 0};
		a->set_reference_position(ev(y.ref_point));
		if(c.flip()) // one member has been given another reference meanwhile
		{
			y.l[set.size() - 1]->set_reference_position(ev(y.ref_point + ref::V{0.1L, -0.3L, 0}));
			a->set_reference_position(ev(y.ref_point));
		}
		a->update_hull();
		c.note("reference moved");
	}
	check_aggregate(c, *a, y, y.mean(), "aggregate");
}
// members change, the hull follows when updated
static void follow(Ctx& c)
{
	Sys y;
	for(auto& e : sets()[c.flip() ? 2 : 0]) y.add(e);
	Aggregate a(y.l);
	y.ref_point = y.mean();
	ref::V centre = y.ref_point;
	int n = mc::thorough() ? 3 : 2;
	for(int i = 0; i < n; ++i)
	{
		size_t k = size_t(c.pick(2));
		auto& e = dynamic_cast<Ellipsoid&>(*y.l[k]);
		switch(c.pick(5))
		{
		case 0: y.s[k].pos = y.s[k].pos + ref::V{0.2L, 0.3L, 0}; e.set_position(ev(y.s[k].pos)); break;
		case 1: y.s[k].rot.angle += 0.5L; e.set_orientation(eq(y.s[k].rot)); break;
		case 2: y.s[k].axes.x *= 1.3L; e.set_axis_lengths(ea(y.s[k].axes)); break;
		case 3: y.ref_point = y.ref_point + ref::V{0.15L, -0.1L, 0}; a.set_reference_position(ev(y.ref_point)); break;
		case 4:
			if(y.s.size() < 4) { y.add(espec({0.5L, 2.5L, 0}, 0.2L, {1.5L, 2, 1})); a.add_primitive(y.l.back()); y.ref_point = y.mean(); centre = y.ref_point; break; }
			a.update_hull();
			break;
		}
		c.transition();
		if(c.flip() || i + 1 == n)
		{
			a.update_hull();
			c.transition();
			if(i + 1 == n) check_aggregate(c, a, y, centre, "changed aggregate");
		}
	}
}
// many members: a chain, a ring that encloses a place and a ring with a gap
static void many(Ctx& c)
{
	static const int sizes[4] = {5, 9, 14, 26};
	int n = sizes[c.pick(4)], kind = c.pick(3), how = c.pick(3);
	bool reversed = c.flip();
	Sys y;
	for(int i = 0; i < n; ++i)
	{
		ref::R f = 2 * ref::PI * i / (kind == 2 ? n + 1 : n), r = 0.45L * n;
		y.add(kind == 0 ? espec({1.2L * i, 0.3L * (i % 3), 0}, 0.2L * i, {1, 0.8L, 1}) : espec({r * std::cos(f), r * std::sin(f), 0}, f + ref::PI / 2, {2, 0.5L + 0.02L * i, 1}));
	}
	List l = y.l;
	if(reversed) std::reverse(l.begin(), l.end());
	c.transition(l.size());
	std::shared_ptr<Aggregate> a;
	if(how == 0) a = std::make_shared<Aggregate>(l);
	else
	{
		a = std::make_shared<Aggregate>();
		for(auto& o : l) a->add_primitive(o, false);
		a->update_hull();
	}
	y.ref_point = y.mean();
	if(how == 2)
	{
		y.ref_point = y.ref_point + ref::V{0.2L, -0.1L, 0};
		a->set_reference_position(ev(y.ref_point));
		a->update_hull();
	}
	check_aggregate(c, *a, y, y.mean(), "large aggregate");
}
// groups that an environment forms: each of them, whatever the others are, also after they were moved
static void formed(Ctx& c)
{
	std::vector<int> in;
	for(int i = 0; i + 1 < int(sets().size()); ++i) if(c.flip()) in.push_back(i);
	if(in.size() < 2 || in.size() > (mc::thorough() ? 5 : 3)) return;
	bool moved = c.flip(), reversed = c.flip();
	std::vector<Sys> y;
	Environment env;
	for(size_t g = 0; g < in.size(); ++g)
	{
		y.emplace_back();
		Sys& n = y.back();
		n.stem = fmt("%c", char(reversed ? 'z' - char(g) : 'a' + char(g)));
		for(auto e : sets()[size_t(in[g])]) { e.pos = e.pos + ref::V{30.0L * g, -20.0L * (g % 2), 0}; n.add(e); }
		for(auto& o : n.l) env.add_obstacle(o);
	}
	auto settle = [&] { env.update(); for(auto& n : y) n.ref_point = n.mean(); c.transition(); };
	settle();
	if(moved)
	{
		for(auto& n : y) for(size_t i = 0; i < n.s.size(); ++i) { n.s[i].pos = n.s[i].pos + ref::V{0.3L, 0.2L * (i % 2), 0}; n.l[i]->set_position(ev(n.s[i].pos)); }
		settle();
	}
	c.check(env.get_obstacle_list().size() == y.size(), "groups", [&] { return fmt("%zu entries", env.get_obstacle_list().size()); });
	for(auto& n : y)
	{
		auto o = env[n.name()];
		check_aggregate(c, dynamic_cast<Aggregate&>(*o), n, n.mean(), "group of an environment");
	}
}
MC_MAIN("C16", { {"formed", formed, 3}, {"many", many, 3}, {"build", build, 3}, {"follow", follow, 3} })
