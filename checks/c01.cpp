// C01 poses form the group of rigid motions
#include "lib.hpp"

struct PP { Pose p; ref::P r; };

static PP make(ref::V t, const Rot& rot) { return {Pose(ev(t), eq(rot)), {t, rm(rot)}}; }

static const std::vector<PP>& poses()
{
	static std::vector<PP> v;
	if(v.empty())
	{
		auto& R = rotations();
		v.push_back({Pose(), {}});
		v.push_back(make({1, 2, 3}, R[0]));
		v.push_back(make({0, 0, 0}, R[1]));
		v.push_back(make({-2, 0.5L, 1}, R[2]));
		v.push_back(make({3, 3, -1}, R[3]));
		v.push_back(make({0, -7, 0}, R[5]));
		v.push_back(make({0, 0, 4}, R[8]));
		v.push_back(make({1, 1, 1}, R[9]));
		v.push_back(make({-40, 25, -7}, R[10]));
		v.push_back(make({1000, -2000, 50}, R[11]));
		v.push_back(make({0.001L, 0, -0.002L}, R[12]));
		v.push_back(make({2, -3, 5}, R[13]));
		v.push_back(make({2e-5L, -1e-4L, 3e-6L}, R[11])); // nearly nothing
		v.push_back(make({-4e5L, 3e6L, 1e4L}, R[1]));
		v.push_back(make({0.2L, -0.1L, 0.3L}, {{0.6L, -0.8L, 0.1L}, 2e-5L}));
		PP n = make({0.5L, 0.25L, -1}, R[11]);
		n.p.set_orientation(Q(-n.p.get_orientation().w(), -n.p.get_orientation().x(), -n.p.get_orientation().y(), -n.p.get_orientation().z()));
		v.push_back(n); // the other quaternion of the same rotation
	}
	return v;
}
static const std::vector<ref::V>& vectors()
{
	static std::vector<ref::V> v{{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {-3, 2, 0.5L}, {120, -80, 33}};
	return v;
}

static void same_pose(Ctx& c, const Pose& p, const ref::P& r, const char* what, ref::R scale)
{
	// rounding: in proportion to the largest number that was met on the way
	ref::R tol = 1e-13L + 1e-14L * std::max(scale, ref::norm(r.t));
	c.check(std::fabs(qnorm(p.get_orientation()) - 1) < 1e-9, "unit", [&] { return std::string(what) + ": orientation " + str(p.get_orientation()) + " is not unit"; });
	c.check(close(mat(p.get_orientation()), r.r, 1e-11L), "rotation", [&] { return std::string(what) + ": orientation " + str(p.get_orientation()) + " is another rotation"; });
	c.check(close(rv(p.get_position()), r.t, tol), "translation", [&] { return std::string(what) + ": position " + str(p.get_position()) + " expected " + str(r.t); });
	for(auto& v : vectors())
	{
		E3 x = p * ev(v);
		ref::V y = r * v;
		c.check(close(rv(x), y, tol + 1e-14L * ref::norm(v)), "action", [&] { return std::string(what) + ": image of " + str(v) + " is " + str(x) + " expected " + str(y); });
	}
	mc::Hash h;
	hs(h, p.get_position());
	hs(h, p.get_orientation());
	c.state(h);
}

// laws on all triples
static void laws(Ctx& c)
{
	const PP& a = c.of(poses());
	const PP& b = c.of(poses());
	const PP& d = c.of(poses());
	if(c.recording) c.note("a position %s, b position %s, c position %s", str(a.r.t).c_str(), str(b.r.t).c_str(), str(d.r.t).c_str());
	ref::R sc = 2 * (ref::norm(a.r.t) + ref::norm(b.r.t) + ref::norm(d.r.t));
	const Pose a0 = a.p, b0 = b.p, d0 = d.p;
	same_pose(c, a0 * b0, a.r * b.r, "a*b", sc);
	same_pose(c, (a0 * b0) * d0, a.r * b.r * d.r, "(a*b)*c", sc);
	same_pose(c, a0 * (b0 * d0), a.r * b.r * d.r, "a*(b*c)", sc);
	same_pose(c, (a0 * b0).inverse() * d0, ref::inv(a.r * b.r) * d.r, "inverse(a*b)*c", sc);
	same_pose(c, a0.inverse() * a0, ref::P(), "inverse(a)*a", sc);
	same_pose(c, a0 * a0.inverse(), ref::P(), "a*inverse(a)", sc);
	same_pose(c, a0.inverse().inverse(), a.r, "inverse(inverse(a))", sc);
	Pose e = a0;
	Pose& back = (e *= b0);
	c.check(&back == &e, "returns-self");
	same_pose(c, e, a.r * b.r, "a*=b", sc);
	(e *= d0) *= b0;
	same_pose(c, e, a.r * b.r * d.r * b.r, "(a*=c)*=b", sc);
	same_pose(c, a0, a.r, "a after the products", sc);
	same_pose(c, b0, b.r, "b after the products", sc);
	// the image of a point by a product is the image by the factors in turn
	for(auto& v : vectors())
	{
		E3 x = (a0 * b0) * ev(v), y = a0 * (b0 * ev(v));
		c.check(close(x, y, 1e-13 + 1e-14 * double(sc + ref::norm(v))), "homomorphism", [&] { return str(x) + " vs " + str(y); });
	}
	c.transition(10);
}

// every sequence of operations on one pose
static void sequences(Ctx& c)
{
	const auto& g = poses();
	Pose p;
	ref::P r;
	ref::R sc = 0;
	int depth = mc::thorough() ? 7 : 5;
	for(int i = 0; i < depth; ++i)
	{
		switch(c.pick(9))
		{
		case 0: p *= g[3].p; r = r * g[3].r; c.note("multiply in place"); break;
		case 1: p = g[11].p * p; r = g[11].r * r; c.note("multiply from the left"); break;
		case 2: p = p.inverse(); r = ref::inv(r); c.note("invert"); break;
		case 3: p *= p; r = { r * r.t, r.r * r.r }; c.note("square in place"); break;
		case 4: p.set_position(E3(0.5, -1, 2)); r.t = {0.5L, -1, 2}; c.note("set position"); break;
		case 5: p.set_orientation(g[10].p.get_orientation()); r.r = g[10].r.r; c.note("set orientation"); break;
		case 6: p.set_position(-3, 0.25, 7); r.t = {-3, 0.25L, 7}; c.note("set coordinates"); break;
		case 7: { Pose q(p); q *= g[5].p; p = q * g[5].p.inverse(); c.note("copy, go and come back"); break; }
		case 8: { p = p * g[12].p; r = r * g[12].r; c.note("multiply by a pose with the opposite quaternion"); break; }
		}
		c.transition();
		sc = 3 * (10 + sc) + ref::norm(r.t); // what was met before may have been turned and moved again
		same_pose(c, p, r, "sequence", sc);
	}
}

// long products do not drift
static void chains(Ctx& c)
{
	const PP& s = poses()[size_t(1 + c.pick(int(poses().size()) - 1))];
	bool left = c.flip(), back = c.flip();
	int n = 2000;
	Pose p;
	ref::P r;
	for(int i = 0; i < n; ++i)
	{
		bool inv = back && i >= n / 2;
		Pose f = inv ? s.p.inverse() : s.p;
		ref::P fr = inv ? ref::inv(s.r) : s.r;
		if(left) { p = f * p; r = fr * r; } else { p *= f; r = r * fr; }
		c.transition();
	}
	c.note("product of %d factors", n);
	ref::R scale = 1 + n * (1 + ref::norm(s.r.t));
	c.check(close(mat(p.get_orientation()), r.r, 1e-8L), "long-rotation", [&] { return str(p.get_orientation()); });
	c.check(close(rv(p.get_position()), r.t, 1e-9L * scale), "long-translation", [&] { return str(p.get_position()) + " expected " + str(r.t); });
	mc::Hash h;
	hs(h, p.get_position());
	c.state(h);
}

// agents and obstacles are moved by the same group
static void carriers(Ctx& c)
{
	const PP& a = c.of(poses());
	const PP& b = c.of(poses());
	ref::R sc = 2 * (ref::norm(a.r.t) + ref::norm(b.r.t));
	// everything but the pose stays as it is
	E3 vel(1, -2, 0.5), ang(0.1, 0.2, -0.7);
	auto rest = [&](const Agent& x, const char* what) {
		c.check(same(x.get_linear_velocity(), vel) && same(x.get_angular_velocity(), ang) && x.get_safety_margin() == 0.2, "carried", [&] { return std::string(what) + ": velocity " + str(x.get_linear_velocity()) + " angular velocity " + str(x.get_angular_velocity()) + fmt(" margin %g", x.get_safety_margin()); });
	};
	Agent g(State(a.p.get_position(), a.p.get_orientation(), vel, ang), 0.2);
	g.transform(b.p);
	same_pose(c, g.get_pose(), b.r * a.r, "agent transformed in place", sc);
	rest(g, "agent transformed in place");
	g.transform(b.p.inverse());
	same_pose(c, g.get_pose(), ref::inv(b.r) * (b.r * a.r), "agent transformed back", sc);
	rest(g, "agent transformed back");
	Agent g2(State(a.p.get_position(), a.p.get_orientation(), vel, ang), 0.2);
	rest(g2.transformed(b.p), "transformed agent");
	rest(g2, "agent after transformed");
	same_pose(c, g2.transformed(b.p).get_pose(), b.r * a.r, "transformed agent", sc);
	same_pose(c, g2.get_pose(), a.r, "agent after transformed", sc);
	Ellipsoid e("e", State(a.p), E3(7, 8, 9), A3(0.1, 0.2, 0.3));
	e.set_linear_velocity(vel);
	e.set_angular_velocity(ang);
	same_pose(c, e.get_pose(), a.r, "obstacle built from a pose", sc);
	e.set_pose(b.p * e.get_pose());
	same_pose(c, e.get_pose(), b.r * a.r, "obstacle moved", sc);
	c.check(same(e.get_linear_velocity(), vel) && same(e.get_angular_velocity(), ang) && same(e.get_reference_position(), E3(7, 8, 9)) && e.get_safety_margin()(1) == 0.2 && e.get_axis_lengths(0) == 1, "carried-obstacle", [&] { std::ostringstream os; os << e; return os.str(); });
	c.transition(4);
}

MC_MAIN("C01", { {"laws", laws, 2}, {"sequences", sequences, 2}, {"chains", chains, 1}, {"carriers", carriers, 1} })
