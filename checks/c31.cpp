// C31 the printed description of an object shows its current attributes
#include "ellalpha.hpp"

struct Text
{
	std::string s;
	size_t at = 0; // everything is looked for from here on
	// the numbers that follow a label
	bool numbers(const std::string& label, int n, std::vector<double>& v)
	{
		v.clear();
		size_t p = s.find(label, at);
		if(p == std::string::npos) return false;
		p += label.size();
		while(int(v.size()) < n)
		{
			while(p < s.size() && strchr(" (,:\t\n", s[p])) ++p;
			char* e = nullptr;
			double d = strtod(s.c_str() + p, &e);
			if(e == s.c_str() + p) return false;
			v.push_back(d);
			p = size_t(e - s.c_str());
		}
		return true;
	}
};
static bool near(double a, double b) { return std::fabs(a - b) <= 2e-5 * std::fabs(b) + 1e-12; }
static void vec(Ctx& c, Text& t, const char* label, const std::vector<double>& want, const char* key)
{
	std::vector<double> v;
	bool ok = t.numbers(label, int(want.size()), v);
	for(size_t i = 0; ok && i < want.size(); ++i) ok = near(v[i], want[i]);
	c.check(ok, key, [&] { std::string e; for(double d : want) e += fmt(" %g", d); return std::string(label) + e + " is not in:\n" + t.s.substr(t.at); });
}
static std::vector<double> l3(const E3& v) { return {v(0), v(1), v(2)}; }
static void check_pose(Ctx& c, Text& t, const E3& p, const Q& q)
{
	vec(c, t, "position:", l3(p), "position");
	std::vector<double> v;
	bool ok = t.numbers("orientation:", 4, v);
	// both signs are the same rotation; printed digits are rounded
	if(ok) ok = std::fabs(std::fabs(v[0] * q.w() + v[1] * q.x() + v[2] * q.y() + v[3] * q.z()) - 1) < 2e-5;
	c.check(ok, "orientation", [&] { return fmt("orientation %g %g %g %g is not in:\n", q.w(), q.x(), q.y(), q.z()) + t.s.substr(t.at); });
	std::vector<double> th, ax;
	ok = t.numbers("theta:", 1, th) && t.numbers("axis:", 3, ax);
	if(ok)
	{
		Q r(Eigen::AngleAxisd(th[0], E3(ax[0], ax[1], ax[2])));
		ok = std::fabs(std::fabs(r.dot(q)) - 1) < 2e-5;
	}
	c.check(ok, "angle-axis", [&] { return fmt("the angle and axis of orientation %g %g %g %g are not in:\n", q.w(), q.x(), q.y(), q.z()) + t.s.substr(t.at); });
}
static void check_state(Ctx& c, Text& t, const E3& p, const Q& q, const E3& v, const E3& w)
{
	check_pose(c, t, p, q);
	vec(c, t, "linear velocity:", l3(v), "linear-velocity");
	vec(c, t, "angular velocity:", l3(w), "angular-velocity");
}
static std::string head(const ESpec&, const std::string& type, const std::string& name) { return type + " " + name; }
static void check_ellipsoid(Ctx& c, Text& t, const ESpec& s, const std::string& name)
{
	c.check(t.s.find(head(s, "Ellipsoid", name), t.at) != std::string::npos, "name", [&] { return "Ellipsoid " + name + " is not in:\n" + t.s; });
	t.at = t.s.find(head(s, "Ellipsoid", name), t.at);
	check_state(c, t, ev(s.pos), eq(s.rot), ev(s.vel), ev(s.angvel));
	vec(c, t, "reference position:", l3(ev(s.own_ref ? s.refpos : s.pos)), "reference");
	vec(c, t, "safety margin:", l3(E3(ea(s.margin))), "margin");
	vec(c, t, "axis lengths:", l3(E3(ea(s.axes))), "axes");
	vec(c, t, "curvature factor:", {double(s.c0), double(s.c1), double(s.c2)}, "curvature");
}
static const std::vector<ref::V>& vels() { static std::vector<ref::V> v{{0, 0, 0}, {1, -2, 0.25L}, {-0.125L, 1e-3L, 1e4L}}; return v; }
static void poses(Ctx& c)
{
	E3 p = ev(c.of(positions()));
	Rot r = c.of(rotations());
	E3 v = ev(c.of(vels())), w = ev(c.of(vels()));
	int kind = c.pick(3);
	std::ostringstream os;
	os << "before ";
	Pose x(p, eq(r));
	State s(p, eq(r), v, w);
	if(kind == 0) { std::ostream& b = (os << x << " after"); c.check(&b == &os, "stream"); }
	else if(kind == 1) { os << s << " after"; }
	else
	{
		Agent a(s, 0.375);
		os << a << " after";
	}
	Text t{os.str()};
	c.check(t.s.compare(0, 7, "before ") == 0 && t.s.size() > 13 && t.s.compare(t.s.size() - 6, 6, " after") == 0, "around", [&] { return t.s; });
	if(kind == 0) check_pose(c, t, p, eq(r));
	else check_state(c, t, p, eq(r), v, w);
	if(kind == 2) vec(c, t, "safety margin:", {0.375}, "agent-margin");
	c.transition();
	mc::Hash h;
	hs(h, p); hs(h, v); hs(h, w);
	h.d(eq(r).w()).d(eq(r).x()).d(eq(r).z()).u(uint64_t(kind));
	c.state(h);
}
// ellipsoids and agents changed through their setters, described after every step
static void live(Ctx& c)
{
	Live l;
	std::string name = "live";
	int depth = mc::thorough() ? 4 : 3;
	for(int i = 0; i < depth; ++i)
	{
		int k = c.pick(Live::NOPS);
		l.op(c, k);
		if(k == 10) { name = LIVE_NAME; l.s.vel = {1, 2, 0}; l.s.angvel = {0, 0, 1}; }
		std::ostringstream os;
		const Obstacle& o = *l.e;
		os << o;
		Text t{os.str()};
		check_ellipsoid(c, t, l.s, name);
	}
	c.state(mc::Hash().u(hash_of(l.s)).s(name));
}
static void agents(Ctx& c)
{
	Agent a;
	E3 p(0, 0, 0), v(0, 0, 0), w(0, 0, 0);
	Q q = Q::Identity();
	double m = 0;
	int depth = mc::thorough() ? 5 : 4;
	for(int i = 0; i < depth; ++i)
	{
		int k = c.pick(7);
		switch(k)
		{
		case 0: p = E3(1.5, -2, 0.25); a.set_position(p); break;
		case 1: q = eq(rotations()[3]); a.set_orientation(q); break;
		case 2: p = E3(-7, 8, 9); q = eq(rotations()[1]); a.set_pose(Pose(p, q)); break;
		case 3: v = E3(0.1, -0.2, 0.3); a.set_linear_velocity(v); break;
		case 4: w = E3(3, 2, 1); a.set_angular_velocity(w); break;
		case 5: m = 0.875; a.set_safety_margin(m); break;
		case 6: { Agent b(a); Agent d; d = b; d.set_safety_margin(m + 1); a = b; break; }
		}
		std::ostringstream os;
		os << a;
		Text t{os.str()};
		check_state(c, t, p, q, v, w);
		vec(c, t, "safety margin:", {m}, "agent-margin");
		c.transition();
	}
	mc::Hash h;
	hs(h, p); hs(h, v); hs(h, w);
	h.d(m).d(q.w());
	c.state(h);
}
// groups list their members
static void groups(Ctx& c)
{
	std::vector<ESpec> s{espec({1, 2, 0}, 0.3L, {1, 2, 3}), espec({-4, 2, 0}, -0.7L, {0.5L, 1, 1}, {0.1L, 0.2L, 0.3L}), espec({0, -3, 0}, 0, {1, 1, 1})};
	for(int i = 0; i < 17; ++i) s.push_back(espec({0.5L * i, 0.25L * i * i, -1.0L * i}, 0.1L * i, {1.0L + i, 2, 0.5L}));
	s[1].vel = {1, 0, -2};
	s[2].c1 = 3;
	std::vector<size_t> order, rest{0, 1, 2};
	int n = 1 + c.pick(3);
	for(int i = 0; i < n; ++i) { size_t k = size_t(c.pick(int(rest.size()))); order.push_back(rest[k]); rest.erase(rest.begin() + long(k)); }
	int more = c.pick(4);
	for(int i = 0; i < (more == 3 ? 17 : more); ++i) order.push_back(size_t(3 + i));
	bool one_by_one = c.flip(), moved = c.flip();
	List l;
	for(auto i : order) l.push_back(s[i].make(fmt("member %zu", i)));
	std::shared_ptr<Aggregate> a;
	if(one_by_one) { a = std::make_shared<Aggregate>(); for(auto& o : l) a->add_primitive(o); }
	else a = std::make_shared<Aggregate>(l);
	ref::V ctr;
	for(auto i : order) ctr = ctr + (1 / ref::R(order.size())) * s[i].pos;
	if(moved) { ctr = {0.5L, 0.25L, 0}; a->set_reference_position(ev(ctr)); }
	std::ostringstream os;
	const Obstacle& o = *a;
	os << o;
	Text t{os.str()};
	c.check(t.s.find("Aggregate " + a->get_name()) != std::string::npos, "group-name", [&] { return "Aggregate " + a->get_name() + " is not in:\n" + t.s; });
	vec(c, t, "reference position:", l3(ev(ctr)), "group-reference");
	for(auto i : order)
	{
		ESpec m = s[i];
		m.own_ref = true;
		m.refpos = ctr;
		Text u{t.s};
		check_ellipsoid(c, u, m, fmt("member %zu", i));
	}
	c.transition();
	mc::Hash h;
	for(auto i : order) h.u(i);
	h.u(one_by_one).u(moved);
	c.state(h);
}
MC_MAIN("C31", { {"poses", poses, 2}, {"live", live, 2}, {"agents", agents, 2}, {"groups", groups, 2} })
