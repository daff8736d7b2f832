// C02 every orientation that enters the library is stored as a unit quaternion of the same rotation
#include "lib.hpp"

struct QQ { double w, x, y, z; };
static const std::vector<QQ>& quats()
{
	static std::vector<QQ> v;
	if(v.empty())
	{
		std::vector<QQ> base{{1, 0, 0, 0}, {0, 0, 0, 1}, {0, 0, 1, 0}, {0, 1, 0, 0}, {1, 1, 1, 1}, {0.9, 0.1, -0.2, 0.3}, {-0.2, 0.7, 0.1, -0.4}, {1e-9, 0, 0, 1}, {1, 0, 0, 1e-9}, {0.7071, 0, 0, 0.7071}, {-1e-3, 0.3, 0.4, -0.5}, {0, -1, 2, 0}};
		std::vector<double> scale{1, -1, 2.5, -0.01, 1000, -1.0001, 0.9999, 1e-5, 1e-8, -1e-40, 1e9, 1.0005};
		for(auto& s : scale) for(auto& b : base) v.push_back({s * b.w, s * b.x, s * b.y, s * b.z});
	}
	return v;
}
static Q q_(const QQ& a) { return Q(a.w, a.x, a.y, a.z); }

static void stored(Ctx& c, const Q& q, const QQ& in, bool, const char* where)
{
	ref::M want = ref::quat(in.w, in.x, in.y, in.z);
	c.check(std::fabs(qnorm(q) - 1) < 1e-9, "unit", [&] { return std::string(where) + " keeps " + str(q) + " for " + str(q_(in)); });
	c.check(close(mat(q), want, 1e-9L), "same-rotation", [&] { return std::string(where) + " keeps " + str(q) + " for " + str(q_(in)); });
	mc::Hash h;
	hs(h, q);
	c.state(h);
}
// the pose moves points rigidly, with the rotation that was given
static void rigid(Ctx& c, const Pose& p, ref::V t, const QQ& in, const char* where)
{
	ref::M want = ref::quat(in.w, in.x, in.y, in.z);
	static const std::vector<ref::V> pts{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {3, -4, 12}};
	for(auto& v : pts)
	{
		E3 x = p * ev(v);
		c.check(close(rv(x), want * v + t, 1e-8L), "rigid", [&] { return std::string(where) + ": image of " + str(v) + " is " + str(x) + " for orientation " + str(q_(in)); });
		E3 y = p.inverse() * x;
		c.check(close(rv(y), v, 1e-8L), "rigid-inverse", [&] { return std::string(where) + ": " + str(v) + " comes back as " + str(y) + " for orientation " + str(q_(in)); });
	}
}

static void entries(Ctx& c)
{
	const QQ& a = c.of(quats());
	ref::V t{1, -2, 3};
	E3 te = ev(t);
	Q q = q_(a);
	c.note("orientation %s", str(q).c_str());
	Pose p1(te, q), p2(1, -2, 3, a.w, a.x, a.y, a.z);
	stored(c, p1.get_orientation(), a, true, "pose from position and orientation");
	rigid(c, p1, t, a, "pose from position and orientation");
	stored(c, p2.get_orientation(), a, true, "pose from seven numbers");
	rigid(c, p2, t, a, "pose from seven numbers");
	Pose p3(te);
	p3.set_orientation(q);
	stored(c, p3.get_orientation(), a, false, "pose setter");
	rigid(c, p3, t, a, "pose setter");
	State s1(te, q), s2(te, q, E3(1, 2, 3), E3(4, 5, 6)), s3(te), s4(p2), s5(p3);
	stored(c, s1.get_orientation(), a, true, "state from position and orientation");
	stored(c, s2.get_orientation(), a, true, "state with velocities");
	rigid(c, s2.get_pose(), t, a, "state with velocities");
	s3.set_orientation(q);
	stored(c, s3.get_orientation(), a, false, "state setter");
	stored(c, s4.get_orientation(), a, true, "state from a pose");
	s3.set_pose(p1);
	stored(c, s3.get_orientation(), a, true, "state pose setter");
	Agent g(0.1);
	g.set_orientation(q);
	stored(c, g.get_orientation(), a, false, "agent setter");
	g.set_pose(p1);
	stored(c, g.get_orientation(), a, true, "agent pose setter");
	Agent g2(s2, 0.3);
	stored(c, g2.get_orientation(), a, true, "agent from a state");
	stored(c, Agent(g2).get_orientation(), a, true, "copy of an agent");
	Ellipsoid e("e");
	e.set_orientation(q);
	stored(c, e.get_orientation(), a, false, "obstacle setter");
	e.set_pose(p2);
	stored(c, e.get_orientation(), a, true, "obstacle pose setter");
	Ellipsoid e2("e", s2), e3("e", s3, E3(1, 1, 1)), e4("e", s1, A3(1, 2, 3)), e5("e", s1, E3(1, 1, 1), A3(1, 2, 3));
	stored(c, e2.get_orientation(), a, true, "obstacle from a state");
	stored(c, e3.get_orientation(), a, true, "obstacle from a state and a reference");
	stored(c, e4.get_orientation(), a, true, "obstacle from a state and margins");
	stored(c, e5.get_orientation(), a, true, "obstacle from a state, a reference and margins");
	stored(c, Ellipsoid(e2).get_orientation(), a, true, "copy of an obstacle");
	rigid(c, e2.get_pose(), t, a, "obstacle from a state");
	c.transition(18);
}

// orientations replaced again and again, and multiplied
static void sequences(Ctx& c)
{
	static const std::vector<size_t> some{0, 1, 6, 16, 29, 40, 50, 54, 70, 79, 93};
	Pose p;
	QQ cur{1, 0, 0, 0};
	int depth = mc::thorough() ? 4 : 3;
	ref::M want = ref::ident();
	for(int i = 0; i < depth; ++i)
	{
		const QQ& a = quats()[some[size_t(c.pick(int(some.size())))]];
		switch(c.pick(4))
		{
		case 0: p.set_orientation(q_(a)); want = ref::quat(a.w, a.x, a.y, a.z); c.note("set"); break;
		case 1: p = Pose(p.get_position(), q_(a)); want = ref::quat(a.w, a.x, a.y, a.z); c.note("construct"); break;
		case 2: p *= Pose(0, 0, 0, a.w, a.x, a.y, a.z); want = want * ref::quat(a.w, a.x, a.y, a.z); c.note("multiply"); break;
		case 3: { State s(p.get_position(), q_(a)); p = s.get_pose().inverse() * p; want = ref::transpose(ref::quat(a.w, a.x, a.y, a.z)) * want; c.note("divide"); break; }
		}
		c.transition();
		c.check(std::fabs(qnorm(p.get_orientation()) - 1) < 1e-9, "unit", [&] { return "after operations: " + str(p.get_orientation()); });
		c.check(close(mat(p.get_orientation()), want, 1e-9L), "same-rotation", [&] { return "after operations: " + str(p.get_orientation()); });
		mc::Hash h;
		hs(h, p.get_orientation());
		c.state(h);
	}
	(void)cur;
}

// what an unnormalised orientation leads to downstream does not depend on its scale
static void downstream(Ctx& c)
{
	const QQ& a = c.of(quats());
	int k = c.pick(4);
	ref::V pos{1, -2, 0.5L};
	ref::Ell r;
	r.pose = {pos, ref::quat(a.w, a.x, a.y, a.z)};
	r.axes = {2, 1, 0.5L};
	auto e = std::make_shared<Ellipsoid>("e", State(ev(pos)));
	if(k == 0) e->set_orientation(q_(a));
	else if(k == 1) e->set_pose(Pose(ev(pos), q_(a)));
	else if(k == 2) e = std::make_shared<Ellipsoid>("e", State(ev(pos), q_(a)));
	else e = std::make_shared<Ellipsoid>("e", State(ev(pos), q_(a), E3(0, 0, 0), E3(0, 0, 0)), E3(ev(pos)));
	e->set_axis_lengths(A3(2, 1, 0.5));
	c.note("ellipsoid with orientation %s", str(q_(a)).c_str());
	for(auto& d : directions())
	{
		ref::V x = pos + ref::R(2.5) * ref::unit(d);
		double g = dist_to(*e, ev(x));
		ref::R w = r.gamma(x);
		c.check(std::fabs(g - w) <= 1e-8L * (1 + w), "downstream-distance", [&] { return fmt("distance of %s is %.12g expected %.12Lg", str(x).c_str(), g, w); });
	}
	Agent ag = make_agent(pos + ref::V{3, 1, 0.2L}, {1, 0, 0}, 0);
	E3 n = e->get_orientation() * e->compute_normal_to_agent(ag);
	c.check(close(rv(n), r.normal_world(rv(ag.get_position())), 1e-8L), "downstream-normal", [&] { return str(n); });
	c.transition();
}

MC_MAIN("C02", { {"entries", entries, 1}, {"sequences", sequences, 2}, {"downstream", downstream, 2} })
