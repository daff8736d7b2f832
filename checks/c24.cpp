// C24 the modulated velocity does not depend on the frame, the unit of length, the names or the order of registration
#include "modmodel.hpp"

struct Sc { std::vector<ESpec> o; ref::V x, v; double margin; };
static ref::V run(const Sc& s, bool aggregated, const std::vector<std::string>& names, const std::vector<size_t>& order)
{
	Environment env(aggregated);
	for(auto i : order) env.add_obstacle(s.o[i].make(names[i]));
	env.update();
	Agent a = make_agent(s.x, s.v, s.margin);
	return rv(E3(Modulation::modulate_velocity(a, env)));
}
static std::vector<ESpec> pool(int which, bool space)
{
	static const std::vector<ESpec> p{espec({3, 0, 0}, 0.3L, {1, 0.6L, 1}), espec({-2, 2.5L, 0}, -1, {1.4L, 0.5L, 2}, {0.1L, 0.2L, 0.1L}), espec({0, -4, 0.5L}, 0, {2, 1, 1}), espec({-3, -2, 0}, 0.9L, {0.4L, 0.4L, 0.4L})};
	std::vector<ESpec> r;
	for(int i = 0; i < 4; ++i) if(which >> i & 1)
	{
		r.push_back(p[size_t(i)]);
		ESpec& e = r.back();
		e.own_ref = true;
		e.refpos = e.pos;
		if(i == 1) { e.c0 = 2; e.c1 = 3; e.refpos = e.pos + ref::V{0.1L, 0.1L, 0}; }
		if(i == 2) e.vel = {0.4L, 0.1L, 0};
		if(i == 3) { e.angvel = {0, 0, 0.7L}; e.vel = {0, -0.3L, 0}; }
		if(space && i < 2) e.rot = {{0.3L, -0.5L, 1}, 0.8L + i};
	}
	return r;
}
static const std::vector<ref::V>& xs() { static std::vector<ref::V> v{{0.1L, 0.2L, 0}, {1.77L, -0.3L, 0.1L}, {-0.9L, 1.9L, 0}, {-2.4L, -3.1L, 0.2L}, {5, 4, -1}, {3.1L, 0.15L, 0.05L}}; return v; }
static const std::vector<ref::V>& vs() { static std::vector<ref::V> v{{1, 0.2L, 0}, {-0.5L, -1, 0.3L}, {0.1L, 2, 0}}; return v; }
// rotation of a rotation given by axis and angle: through the matrix
static Rot rotated(const Rot& t, const Rot& r)
{
	Eigen::AngleAxisd a(eq(t) * eq(r));
	return {rv(E3(a.axis())), ref::R(a.angle())};
}
static void frames(Ctx& c)
{
	int which = 1 + c.pick(15);
	bool space = c.flip(), aggregated = c.flip();
	Sc s{pool(which, space), c.of(xs()), c.of(vs()), c.flip() ? 0.2 : 0};
	std::vector<std::string> names{"a", "b", "c", "d"};
	std::vector<size_t> order;
	for(size_t i = 0; i < s.o.size(); ++i) order.push_back(i);
	// an agent too close to a singular direction amplifies rounding
	ref::R al = 1;
	for(auto& o : s.o) al = std::min(al, alignment(see(o.ell(), s.x, s.margin), s.x));
	if(al < 0.05L) return;
	ref::V base = run(s, aggregated, names, order);
	int kind = c.pick(9);
	Sc t = s;
	ref::V want = base;
	const char* what = "";
	ref::R unit = 1;
	if(kind < 3)
	{
		Rot r = kind == 0 ? Rot{{0, 0, 1}, 0} : kind == 1 ? Rot{{0, 0, 1}, 2.3L} : Rot{{0.2L, -1, 0.6L}, 1.7L};
		// footprints are planar: in a group scene only rotations about the vertical keep them
		if(kind == 2 && aggregated) return;
		ref::V tr = kind == 0 ? ref::V{40, -25, 6} : ref::V{-7, 3, 2};
		ref::M m = rm(r);
		for(auto& o : t.o)
		{
			o.pos = m * o.pos + tr;
			o.refpos = m * o.refpos + tr;
			o.vel = m * o.vel;
			o.angvel = m * o.angvel;
			o.rot = rotated(r, o.rot);
		}
		t.x = m * s.x + tr;
		t.v = m * s.v;
		want = m * base;
		what = kind == 0 ? "translated" : kind == 1 ? "turned" : "turned in space";
	}
	else if(kind == 3 || kind == 4)
	{
		ref::R k = kind == 3 ? 3.7L : 0.25L;
		for(auto& o : t.o) { o.pos = k * o.pos; o.refpos = k * o.refpos; o.axes = k * o.axes; o.margin = k * o.margin; o.vel = k * o.vel; }
		t.x = k * s.x;
		t.v = k * s.v;
		t.margin = double(k) * s.margin;
		want = k * base;
		what = "scaled";
	}
	else if(kind == 5)
	{
		// mirrored
		if(space) return;
		auto f = [](ref::V v) { return ref::V{v.x, -v.y, v.z}; };
		for(auto& o : t.o) { o.pos = f(o.pos); o.refpos = f(o.refpos); o.vel = f(o.vel); o.rot.angle = -o.rot.angle; o.angvel = -o.angvel; }
		t.x = f(s.x);
		t.v = f(s.v);
		want = f(base);
		what = "mirrored";
	}
	else
	{
		// all velocities faster
		ref::R k = kind == 6 ? 2.5L : kind == 7 ? 2e-6L : 4e5L;
		for(auto& o : t.o) { o.vel = k * o.vel; o.angvel = k * o.angvel; }
		t.v = k * s.v;
		want = k * base;
		unit = k;
		what = kind == 7 ? "slower" : "faster";
	}
	ref::V got = run(t, aggregated, names, order);
	c.transition(2);
	c.check(close(got, want, 1e-5L / al * (unit + ref::norm(want))), "symmetry", [&] { return fmt("%s: obstacles %d agent at %s velocity %s: %s expected %s", what, which, str(s.x).c_str(), str(s.v).c_str(), str(got).c_str(), str(want).c_str()); });
	mc::Hash h;
	h.u(uint64_t(which)).u(uint64_t(kind)).u(space).u(aggregated).d(s.margin);
	hs(h, ev(s.x)); hs(h, ev(s.v));
	c.state(h);
}
static void order_and_names(Ctx& c)
{
	std::vector<ESpec> o = pool(15, false);
	if(c.flip()) { ESpec e = espec({3.4L, 0.9L, 0}, 1, {1.2L, 0.4L, 1}); e.own_ref = true; e.refpos = e.pos; o[3] = e; } // overlaps the first one
	else o.resize(3);
	Sc s{o, c.of(xs()), c.of(vs()), 0.1};
	ref::R al = 1;
	for(auto& e : s.o) al = std::min(al, alignment(see(e.ell(), s.x, s.margin), s.x));
	std::vector<size_t> id;
	for(size_t i = 0; i < o.size(); ++i) id.push_back(i);
	std::vector<std::string> names{"a", "b", "c", "d"};
	bool aggregated = c.flip();
	ref::V want = run(s, aggregated, names, id);
	// every order of registration
	std::vector<size_t> order, rest = id;
	while(!rest.empty()) { size_t k = size_t(c.pick(int(rest.size()))); order.push_back(rest[k]); rest.erase(rest.begin() + long(k)); }
	ref::V got = run(s, aggregated, names, order);
	c.check(close(got, want, 1e-9L * (1 + ref::norm(want))), "order", [&] { return "order of registration: " + str(got) + " expected " + str(want); });
	// every assignment of names
	std::vector<std::string> other;
	for(auto i : order) other.push_back(names[i]);
	got = run(s, aggregated, other, id);
	c.check(close(got, want, 1e-7L / al * (1 + ref::norm(want))), "names", [&] { return "names: " + str(got) + " expected " + str(want); });
	c.transition(3);
	mc::Hash h;
	for(auto i : order) h.u(i);
	hs(h, ev(s.x)); hs(h, ev(s.v));
	h.u(aggregated).u(o.size());
	c.state(h);
}
// groups: translations by sums of powers of two do not even round
static void groups(Ctx& c)
{
	static const std::vector<std::vector<ESpec>> sets{
		{espec({-1, 0, 0}, 0, {1.2L, 1.2L, 1}), espec({1, 0, 0}, 0.4L, {1.3L, 0.9L, 1})},
		{espec({3, 0, 0}, ref::PI / 2, {4, 0.5L, 1}), espec({-3, 0, 0}, ref::PI / 2, {4, 0.5L, 1}), espec({0, 3, 0}, 0, {4, 0.5L, 1}), espec({0, -3, 0}, 0, {4, 0.5L, 1})}};
	Sc s{c.of(sets), {}, {1, 0.3L, 0}, 0.1};
	std::vector<std::string> names{"a", "b", "c", "d"};
	std::vector<size_t> id;
	for(size_t i = 0; i < s.o.size(); ++i) id.push_back(i);
	int gx = c.pick(12) - 6, gy = c.pick(12) - 6;
	s.x = rv(ev({gx * 0.75L + 0.15625L, gy * 0.75L + 0.28125L, 0}));
	if(c.flip()) s.v = {-0.2L, 1, 0};
	ref::V want = run(s, true, names, id);
	Sc t = s;
	ref::V tr{16, -8, 0};
	for(auto& o : t.o) o.pos = o.pos + tr;
	t.x = t.x + tr;
	ref::V got = run(t, true, names, id);
	c.check(close(got, want, 1e-3L), "group-translated", [&] { return str(got) + " expected " + str(want); });
	t = s;
	t.v = 3 * t.v;
	got = run(t, true, names, id);
	c.check(close(got, 3 * want, 1e-6L * (1 + ref::norm(want))), "group-faster", [&] { return str(got) + " expected " + str(3 * want); });
	c.transition(3);
	c.state(mc::Hash().u(uint64_t(gx + 10)).u(uint64_t(gy + 10)).u(s.o.size()).d(double(s.v.x)));
}
// many obstacles: given backwards, turned, interleaved; named backwards
static void crowd(Ctx& c)
{
	static const std::vector<int> sizes{8, 11, 26, 70};
	int n = c.of(sizes), how = c.pick(4);
	bool aggregated = c.flip();
	Sc s{{}, {}, c.of(vs()), 0.1};
	std::vector<std::string> names;
	std::vector<size_t> id, order;
	int R = n < 12 ? 4 : 9;
	for(int i = 0; i < n; ++i)
	{
		// every third one overlaps the one before
		ref::V p = i % 3 == 2 ? s.o.back().pos + ref::V{0.8L, 0.3L, 0} : ref::V{3.4L * (i % R), 3.1L * (i / R), 0};
		ESpec e = espec(p, 0.3L * i, {0.8L, 0.5L, 1});
		e.own_ref = true;
		e.refpos = e.pos;
		if(i % 4 == 1) e.vel = {0.2L, -0.1L, 0};
		s.o.push_back(e);
		names.push_back(fmt("o%02d", i));
		id.push_back(size_t(i));
	}
	for(int i = 0; i < n; ++i) order.push_back(size_t(how == 0 ? n - 1 - i : how == 1 ? (i + 3) % n : how == 2 ? (i % 2 ? i / 2 : (n + 1) / 2 + i / 2 < n ? (n + 1) / 2 + i / 2 : n - 1 - i / 2) : i));
	{ std::vector<size_t> t = order; std::sort(t.begin(), t.end()); if(t != id) { order = id; std::reverse(order.begin(), order.end()); std::swap(order[0], order[size_t(n) / 2]); } }
	int k = c.pick(5);
	s.x = {1.7L + 3.4L * k, 1.5L, 0.1L * k};
	ref::R al = 1;
	for(auto& e : s.o) al = std::min(al, alignment(see(e.ell(), s.x, s.margin), s.x));
	ref::V want = run(s, aggregated, names, id), got = run(s, aggregated, names, order);
	c.check(close(got, want, 1e-9L * (1 + ref::norm(want))), "order", [&] { return fmt("%d obstacles, order %d: ", n, how) + str(got) + " expected " + str(want); });
	std::vector<std::string> other;
	for(auto i : order) other.push_back(names[i]);
	got = run(s, aggregated, other, id);
	c.check(al < 0.02L || close(got, want, 1e-6L / al * (1 + ref::norm(want))), "names", [&] { return fmt("%d obstacles, names %d: ", n, how) + str(got) + " expected " + str(want); });
	c.transition(3);
	c.state(mc::Hash().u(uint64_t(n)).u(uint64_t(how)).u(uint64_t(k)).u(aggregated));
}
MC_MAIN("C24", { {"frames", frames, 4}, {"order-and-names", order_and_names, 4}, {"groups", groups, 3}, {"crowd", crowd, 2} })
