// C07 an update partitions the obstacles into the connected components of overlap
#include "envmodel.hpp"

static const char* NAMES[8] = {"a", "b", "c", "d", "e", "f", "g", "h"};

// an obstacle that is never hit by the rays of a hull: the hulls, which are not looked at here, cost less
struct Plain : Ellipsoid
{
	using Ellipsoid::Ellipsoid;
	std::pair<bool, std::pair<E3, E3>> compute_interesection_points(const E3&, const E3&) { return {false, {E3(0, 0, 0), E3(0, 0, 0)}}; }
};
struct Build
{
	std::vector<std::shared_ptr<Ellipsoid>> objs;
	std::vector<Named> named;
	void add(const std::string& n, const ESpec& s)
	{
		objs.push_back(s.make(n));
		named.push_back({n, s.ell(), objs.back().get()});
	}
};
// through the environment, and directly with the order of insertion
static void check_all(Ctx& c, Build& b, bool direct)
{
	if(ambiguous(b.named)) return;
	if(c.recording) { std::string s; for(auto& n : b.named) s += n.name + " at " + str(n.ell.pose.t) + " "; c.note(s); }
	mc::Hash h;
	for(auto& n : b.named) { h.s(n.name); for(int i = 0; i < 3; ++i) h.d(double(n.ell.pose.t[i])).d(double(n.ell.axes[i])); }
	c.state(h);
	c.transition();
	if(direct)
	{
		List l(b.objs.begin(), b.objs.end());
		check_partition(c, Aggregation::aggregate_obstacles(l), b.named, true, "direct");
		c.check(l.size() == b.objs.size(), "argument");
		return;
	}
	Environment e;
	for(auto& o : b.objs) e.add_obstacle(o);
	c.check(e.get_obstacle_list().empty(), "list-before-update");
	e.update();
	check_partition(c, e.get_obstacle_list(), b.named, true, "environment");
}

// discs on a line, every assignment of positions to names
static void line(Ctx& c)
{
	int n = mc::thorough() ? 6 : 5;
	static const double xs[6] = {0, 1.7, 3.4, 5.1, 6.8, 30};
	Build b;
	for(int i = 0; i < n; ++i)
	{
		double x = xs[c.pick(6)];
		if(n < 6) { b.add(NAMES[i], espec({ref::R(x), 0, 0}, 0, {1, 1, 1})); continue; }
		auto o = std::make_shared<Plain>(NAMES[i], State(E3(x, 0, 0)));
		b.objs.push_back(o);
		b.named.push_back({NAMES[i], espec({ref::R(x), 0, 0}, 0, {1, 1, 1}).ell(), o.get()});
	}
	check_all(c, b, false);
}
// every order of names along fixed layouts, given directly: the bookkeeping of clusters that grow and merge
static void orders(Ctx& c)
{
	static const std::vector<std::vector<ref::V>> layouts{
		{{0, 0, 0}, {1.7L, 0, 0}, {3.4L, 0, 0}, {5.1L, 0, 0}, {6.8L, 0, 0}, {8.5L, 0, 0}}, // a path
		{{0, 0, 0}, {1.7L, 0, 0}, {10, 0, 0}, {11.7L, 0, 0}, {20, 0, 0}, {21.7L, 0, 0}}, // three pairs
		{{0, 0, 0}, {1.7L, 0, 0}, {3.4L, 0, 0}, {10, 0, 0}, {11.7L, 0, 0}, {20, 5, 0}}, // three, two, one
		{{0, 0, 0}, {1.8L, 0, 0}, {-1.8L, 0, 0}, {0, 1.8L, 0}, {0, -1.8L, 0}, {9, 9, 0}}, // a star and one apart
		{{0, 0, 0}, {1.7L, 0, 0}, {1.7L, 1.7L, 0}, {0, 1.7L, 0}, {6, 0, 0}, {7.7L, 0, 0}}, // a ring and a pair
	};
	auto& l = layouts[size_t(c.pick(int(layouts.size())))];
	std::vector<ref::V> rest = l;
	Build b;
	for(int i = 0; i < 6; ++i)
	{
		int k = c.pick(int(rest.size()));
		b.add(NAMES[i], espec(rest[size_t(k)], 0, {1, 1, 1}));
		rest.erase(rest.begin() + k);
	}
	check_all(c, b, true);
}
// clusters that are found first and joined later while others are already there, and grow afterwards:
// every way of giving nine names to three rows of four, three and two discs (or the like)
static void merges(Ctx& c)
{
	static const std::vector<std::vector<double>> layouts{
		{0, 1.7, 3.4, 5.1, 20, 21.7, 23.4, 40, 41.7}, // 4 3 2
		{0, 1.7, 3.4, 5.1, 6.8, 20, 21.7, 40, 41.7}, // 5 2 2
		{0, 1.7, 3.4, 5.1, 20, 21.7, 23.4, 25.1, 40}, // 4 4 1
	};
	auto& l = layouts[size_t(c.pick(mc::thorough() ? 3 : 1))];
	std::vector<double> rest = l;
	Build b;
	List list;
	for(int i = 0; i < 9; ++i)
	{
		// a row read from the other end is the same scene: only one of the two readings is taken
		int k = c.pick(int(rest.size()));
		double x = rest[size_t(k)];
		rest.erase(rest.begin() + k);
		auto o = std::make_shared<Plain>(std::string(1, char('a' + i)), State(E3(x, 0, 0)));
		b.objs.push_back(o);
		b.named.push_back({o->get_name(), espec({ref::R(x), 0, 0}, 0, {1, 1, 1}).ell(), o.get()});
		auto at = [&](double want) { for(size_t j = 0; j < b.named.size(); ++j) if(double(b.named[j].ell.pose.t.x) == want) return int(j); return -1; };
		// ends of each row of more than one in the order of the names
		for(size_t f = 0; f < l.size();)
		{
			size_t e = f;
			while(e + 1 < l.size() && l[e + 1] - l[e] < 2) ++e;
			if(e > f && x == l[e] && at(l[f]) < 0) return;
			f = e + 1;
		}
	}
	check_all(c, b, true);
}
// shapes: elongated, rotated, with margins
static void shapes(Ctx& c)
{
	static const std::vector<ref::V> where{{0, 0, 0}, {2.6L, 0.4L, 0}, {1, 2.2L, 0}};
	Build b;
	int n = mc::thorough() ? 4 : 3;
	for(int i = 0; i < n; ++i)
	{
		ref::V x = i == 3 ? ref::V{-2, -1, 0} : where[size_t(c.pick(3))];
		ESpec s;
		switch(c.pick(5))
		{
		case 0: s = espec(x, 0, {1, 1, 1}); break;
		case 1: s = espec(x, 0.5L, {2, 0.3L, 1}); break;
		case 2: s = espec(x, -1.2L, {2.2L, 0.1L, 0}); break;
		case 3: s = espec(x, 0.9L, {0.4L, 0.4L, 0.4L}, {1.2L, 0.1L, 0}); break;
		case 4: s = espec(x, 2.9L, {0.5L, 2.5L, 1}, {0.2L, 0.2L, 0.2L}); s.c0 = 2; break;
		}
		b.add(NAMES[i], s);
	}
	check_all(c, b, false);
}
// very large and very small, near and far from the origin
static void sizes(Ctx& c)
{
	static const std::vector<ESpec> all{espec({0, 0, 0}, 0.3L, {60, 25, 1}), espec({90, 5, 0}, -0.2L, {40, 3, 1}), espec({-70, 40, 0}, 1.1L, {0.2L, 70, 1}), espec({30, -20, 0}, 0, {0.02L, 0.03L, 1}),
		espec({300, 0, 0}, 2, {150, 150, 1}, {20, 5, 0}), espec({0, 60, 0}, 0, {1, 1, 1}, {34, 36, 1}), espec({0.5L, 0.2L, 0}, 0.4L, {1e-3L, 1e-3L, 1}), espec({0.5005L, 0.2L, 0}, 0, {0, 0, 0}, {1e-3L, 1e-3L, 0})};
	static const std::vector<ref::V> shifts{{0, 0, 0}, {-2000, 700, 30}, {1e5L, 1e5L, 0}};
	ref::V shift = c.of(shifts);
	Build b;
	int chosen = 0;
	for(size_t i = 0; i < all.size(); ++i) if(c.flip())
	{
		ESpec s = all[i];
		if(s.axes.x < 0.01L && shift.x > 1e4L) return; // too small to be resolved there
		s.pos = s.pos + shift;
		b.add(NAMES[i], s);
		++chosen;
	}
	if(chosen < 2 || chosen > (mc::thorough() ? 8 : 4)) return;
	check_all(c, b, false);
}
// names: order, length, digits, prefixes
static void naming(Ctx& c)
{
	static const std::vector<std::vector<std::string>> sets{{"b", "a", "c"}, {"e10", "e2", "e1"}, {"x", "xx", "x_x"}, {"Zebra", "apple", "_"}, {"aggregate", "aggregate_1", "obstacle"}, {"", "0", " "}, {"wall 1", "wall", "Wall"}, {std::string(90, 'n') + "2", std::string(90, 'n') + "1", std::string(90, 'n')}};
	auto& s = sets[size_t(c.pick(int(sets.size())))];
	int perm = c.pick(6), layout = c.pick(3);
	static const int P[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
	Build b;
	for(int i = 0; i < 3; ++i)
	{
		ref::V x{layout == 0 ? 1.5L * i : layout == 1 ? 1.0L * (i % 2) + 10.0L * (i / 2) : 5.0L * i, 0, 0};
		b.add(s[size_t(P[perm][i])], espec(x, 0, {1, 1, 1}));
	}
	check_all(c, b, c.flip());
}
// aggregation switched off: every obstacle for itself, whatever overlaps
static void off(Ctx& c)
{
	static const double xs[4] = {0, 0.5, 1.7, 30};
	Build b;
	for(int i = 0; i < 4; ++i) b.add(NAMES[i], espec({ref::R(xs[c.pick(4)]), 0, 0}, 0.1L * i, {1, 1, 1}));
	Environment e(false);
	for(auto& o : b.objs) e.add_obstacle(o);
	e.update();
	auto& l = e.get_obstacle_list();
	c.check(l.size() == 4, "off-count");
	for(size_t i = 0; i < l.size(); ++i)
	{
		bool found = false;
		for(auto& o : b.objs) found |= o == l[i];
		c.check(found, "off-identity");
		for(size_t j = 0; j < i; ++j) c.check(l[i] != l[j], "off-twice");
	}
	for(size_t i = 0; i < 4; ++i) c.check(close(rv(b.objs[i]->get_reference_position()), b.named[i].ell.pose.t, 0), "off-reference");
	check_partition(c, l, b.named, false, "aggregation off");
	e.set_aggregated(true);
	e.update();
	if(!ambiguous(b.named)) check_partition(c, e.get_obstacle_list(), b.named, true, "switched on");
	e.set_aggregated(false);
	e.update();
	check_partition(c, e.get_obstacle_list(), b.named, false, "switched off again");
	c.transition(3);
}
// aggregates of many obstacles: rows, and distances along z do not separate (the world is planar)
static void large(Ctx& c)
{
	int n = 2 + c.pick(mc::thorough() ? 30 : 16);
	int gap = c.pick(3), z = c.pick(2);
	Build b;
	for(int i = 0; i < n; ++i)
	{
		ref::R x = 1.6L * i + (gap && i >= n / 2 ? 5 : 0) + (gap == 2 && i == n - 1 ? 5 : 0);
		b.add(fmt("n%d", i), espec({x, 0.3L * (i % 3), z ? 0.1L * i : 0.0L}, 0, {1, 1, 1}));
	}
	check_all(c, b, c.flip());
}
// many clusters and many obstacles: pairs, triples, singles, given in several orders
static void many(Ctx& c)
{
	static const std::vector<int> sizes{12, 40, 100, 140, 300, 400, 620};
	int n = c.of(sizes), per = 1 + c.pick(4), order = c.pick(4);
	if(n > 300 && (per == 1 || per == 4 || (n > 400 && (per != 2 || order)))) return;
	std::vector<ref::V> at;
	for(int i = 0; i < n; ++i) { int k = i / per; at.push_back({12.0L * (k % 12) + 1.6L * (i % per), 5.0L * (k / 12), 0}); }
	std::vector<int> firsts;
	for(int f = 0; f < per; ++f) for(int i = f; i < n; i += per) firsts.push_back(i);
	Build b;
	for(int i = 0; i < n; ++i)
	{
		// in turn, backwards, scattered, or all the first ones first
		int k = order == 0 ? i : order == 1 ? n - 1 - i : order == 2 ? int((int64_t(i) * 37) % n) : -1;
		if(order == 2 && n % 37 == 0) return;
		if(order == 3) k = firsts[size_t(i)];
		auto o = std::make_shared<Plain>(fmt("n%03d", i), State(ev(at[size_t(k)])));
		b.objs.push_back(o);
		b.named.push_back({o->get_name(), espec(at[size_t(k)], 0, {1, 1, 1}).ell(), o.get()});
	}
	check_all(c, b, c.flip());
}
// groups that were registered as such overlap others through any of their members
static void nested(Ctx& c)
{
	struct Item { std::string name; std::vector<std::shared_ptr<Ellipsoid>> parts; std::vector<ref::V> at; std::shared_ptr<Obstacle> o; };
	static const std::vector<ref::V> where{{0, 0, 0}, {1.7L, 0, 0}, {3.4L, 0.3L, 0}, {12, 0, 0}, {13.5L, 0.4L, 0}};
	int kinds = c.pick(6);
	// a pair that is together, a pair with a gap, an obstacle in a group of its own; the others are single
	std::vector<std::vector<ref::V>> shape[6] = {
		{{{0, 0, 0}, {1.5L, 0, 0}}, {{0, 0, 0}}, {{0, 0, 0}}, {{0, 0, 0}}},
		{{{0, 0, 0}}, {{0, 0, 0}, {10.2L, 0, 0}}, {{0, 0, 0}}, {{0, 0, 0}}},
		{{{0, 0, 0}}, {{0, 0, 0}}, {{0, 0, 0}, {0, 1.5L, 0}}, {{0, 0, 0}}},
		{{{0, 0, 0}, {0, -1.2L, 0}}, {{0, 0, 0}, {0, 1.5L, 0}}, {{0, 0, 0}}, {{0, 0, 0}}},
		{{{0, 0, 0}}, {{0, 0, 0}, {0, 1.5L, 0}}, {{0, 0, 0}, {-10.2L, 0, 0}}, {{0, 0, 0}}},
		{{{0, 0, 0}}, {{0, 0, 0}}, {{0, 0, 0}}, {{0, 0, 0}, {0, 20, 0}, {0, 1.5L, 0}}}};
	std::vector<Item> v;
	Environment e;
	for(int i = 0; i < 4; ++i)
	{
		Item n;
		ref::V at = where[size_t(c.pick(5))];
		for(auto& d : shape[kinds][size_t(i)])
		{
			n.at.push_back(at + d);
			n.parts.push_back(std::make_shared<Plain>(fmt("%c%zu", char('a' + (i * 2) % 5), n.parts.size()), State(ev(at + d))));
		}
		if(n.parts.size() == 1) n.o = n.parts[0];
		else n.o = std::make_shared<Aggregate>(List(n.parts.begin(), n.parts.end()));
		n.name = n.o->get_name();
		e.add_obstacle(n.o);
		v.push_back(n);
	}
	for(int round = 0; round < 3; ++round)
	{
		if(round == 1) { ref::V d{4.6L, 3, 0}; for(size_t k = 0; k < v[1].parts.size(); ++k) { v[1].at[k] = v[1].at[k] + d; v[1].parts[k]->set_position(ev(v[1].at[k])); } }
		if(round == 2) { e.remove_obstacle(v[0].name); v.erase(v.begin()); }
		std::vector<Named> all;
		for(auto& n : v) for(auto& x : n.at) all.push_back({n.name, espec(x, 0, {1, 1, 1}).ell(), nullptr});
		if(ambiguous(all)) return;
		std::vector<size_t> id(v.size());
		for(size_t i = 0; i < v.size(); ++i) id[i] = i;
		for(size_t i = 0; i < v.size(); ++i) for(size_t j = 0; j < v.size(); ++j)
		{
			bool touch = false;
			if(i != j) for(auto& x : v[i].at) for(auto& y : v[j].at) touch |= ref::norm(x - y) < 2;
			if(touch && id[i] != id[j]) { size_t old = id[j], now = id[i]; for(auto& k : id) if(k == old) k = now; }
		}
		std::set<std::set<Obstacle*>> want, got;
		for(size_t k = 0; k < v.size(); ++k) { std::set<Obstacle*> s; for(size_t i = 0; i < v.size(); ++i) if(id[i] == k) s.insert(v[i].o.get()); if(!s.empty()) want.insert(s); }
		e.update();
		c.transition();
		size_t count = 0;
		for(auto& o : e.get_obstacle_list())
		{
			std::set<Obstacle*> s;
			for(auto& n : v) if(n.o == o) s.insert(o.get());
			if(s.empty()) for(auto& p : dynamic_cast<Aggregate&>(*o).get_primitives()) { s.insert(p.get()); ++count; }
			else ++count;
			got.insert(s);
			// what is in a group shares its reference position, down to the parts of the members
			if(s.size() > 1 || !s.count(o.get()))
			{
				ref::V m;
				for(auto p : s) m = m + rv(p->get_position());
				m = (1 / ref::R(s.size())) * m;
				bool shared = close(rv(o->get_reference_position()), m, 1e-9L);
				for(auto& n : v) if(s.count(n.o.get())) { shared &= close(rv(n.o->get_reference_position()), m, 1e-9L); for(auto& p : n.parts) shared &= close(rv(p->get_reference_position()), m, 1e-9L); }
				c.check(shared, "nested-reference", [&] { return fmt("round %d: references in ", round) + o->get_name() + " expected at " + str(m); });
			}
		}
		c.check(got == want && count == v.size() && e.get_obstacle_list().size() == want.size(), "registered-groups", [&] {
			std::string t = fmt("round %d:", round);
			for(auto& n : v) { t += " " + n.name + " at"; for(auto& x : n.at) t += " " + str(x); }
			return t + fmt(": %zu entries, expected %zu: ", e.get_obstacle_list().size(), want.size()) + names(e.get_obstacle_list()); });
		mc::Hash h;
		h.u(uint64_t(kinds)).u(uint64_t(round));
		for(auto& n : v) for(auto& x : n.at) h.d(double(x.x)).d(double(x.y));
		c.state(h);
		c.outcome(mc::Hash().u(want.size()).u(v.size()));
	}
}
MC_MAIN("C07", { {"nested", nested, 3}, {"line", line, 3}, {"orders", orders, 3}, {"merges", merges, 4}, {"shapes", shapes, 3}, {"sizes", sizes, 2}, {"naming", naming, 2}, {"off", off, 3}, {"large", large, 2}, {"many", many, 2} })
