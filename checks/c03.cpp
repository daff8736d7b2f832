// C03 attributes read back exactly, setters change nothing else, objects are completely initialised, copies are complete
#include "lib.hpp"
#include <new>

struct Attr
{
	std::string name, type = "Ellipsoid";
	E3 pos = E3::Zero(), vel = E3::Zero(), ang = E3::Zero(), refp = E3::Zero();
	Q ori = Q(1, 0, 0, 0);
	A3 margin = A3(0, 0, 0), axes = A3(1, 1, 1), curv = A3(1, 1, 1);
};
static bool same(const A3& a, const A3& b) { return a(0) == b(0) && a(1) == b(1) && a(2) == b(2); }
static bool sameq(const Q& a, const Q& b) { return close(mat(a), mat(b), 1e-12L); }

static void compare(Ctx& c, const Ellipsoid& e, const Attr& a, const char* what)
{
	auto w = [&](const std::string& s) { return std::string(what) + ": " + s; };
	c.check(e.get_name() == a.name, "name", [&] { return w("name " + e.get_name() + " expected " + a.name); });
	c.check(e.get_type() == a.type, "type", [&] { return w("type " + e.get_type()); });
	c.check(same(e.get_position(), a.pos), "position", [&] { return w("position " + str(e.get_position()) + " expected " + str(a.pos)); });
	c.check(same(e.get_state().get_position(), a.pos) && same(e.get_pose().get_position(), a.pos), "position", [&] { return w("position in state or pose"); });
	c.check(sameq(e.get_orientation(), a.ori), "orientation", [&] { return w("orientation " + str(e.get_orientation()) + " expected " + str(a.ori)); });
	c.check(sameq(e.get_state().get_orientation(), a.ori) && sameq(e.get_pose().get_orientation(), a.ori), "orientation", [&] { return w("orientation in state or pose"); });
	c.check(same(e.get_linear_velocity(), a.vel) && same(e.get_state().get_linear_velocity(), a.vel), "linear-velocity", [&] { return w("velocity " + str(e.get_linear_velocity()) + " expected " + str(a.vel)); });
	c.check(same(e.get_angular_velocity(), a.ang) && same(e.get_state().get_angular_velocity(), a.ang), "angular-velocity", [&] { return w("angular velocity " + str(e.get_angular_velocity()) + " expected " + str(a.ang)); });
	c.check(same(e.get_reference_position(), a.refp), "reference", [&] { return w("reference position " + str(e.get_reference_position()) + " expected " + str(a.refp)); });
	c.check(same(e.get_safety_margin(), a.margin), "margin", [&] { return w("safety margin " + str(e.get_safety_margin()) + " expected " + str(a.margin)); });
	c.check(same(e.get_axis_lengths(), a.axes), "axes", [&] { return w("axis lengths " + str(e.get_axis_lengths()) + " expected " + str(a.axes)); });
	c.check(same(e.get_curvature_factor(), a.curv), "curvature", [&] { return w("curvature " + str(e.get_curvature_factor()) + " expected " + str(a.curv)); });
	for(unsigned i = 0; i < 3; ++i)
	{
		c.check(e.get_axis_lengths(i) == a.axes(i), "axes", [&] { return w("axis length by index"); });
		c.check(e.get_curvature_factor(i) == a.curv(i), "curvature", [&] { return w("curvature by index"); });
	}
	mc::Hash h;
	h.s(e.get_name());
	hs(h, e.get_position());
	hs(h, e.get_orientation());
	hs(h, e.get_linear_velocity());
	hs(h, e.get_angular_velocity());
	hs(h, e.get_reference_position());
	h.v(e.get_safety_margin()).v(e.get_axis_lengths()).v(e.get_curvature_factor());
	c.state(h);
}

static const Q QA(Eigen::AngleAxisd(0.7, E3(0, 0, 1))), QB(Eigen::AngleAxisd(-2.1, E3(1, 2, 3).normalized()));

template <class F> static Ellipsoid* build(void* mem, F f) { return f(mem); }

// one of the constructors, in memory filled with a given byte
static Ellipsoid* construct(Ctx& c, int k, void* m, Attr& a)
{
	a = Attr();
	a.name = "ob";
	E3 p(1.5, -2.25, 3), r(0.5, 0.25, -1), v(1, 2, 3), w(-0.1, 0.2, 0.3);
	A3 mg(0.1, 0.2, 0.3);
	State s(p, QA, v, w), s2(p);
	auto st = [&] { a.pos = p; a.ori = QA; a.vel = v; a.ang = w; a.refp = p; };
	auto all = [&](double x) { a.margin = A3(x, x, x); };
	switch(k)
	{
	case 0: c.note("name"); return new(m) Ellipsoid("ob");
	case 1: c.note("name, margin"); all(0.4); return new(m) Ellipsoid("ob", 0.4);
	case 2: c.note("name, margins"); a.margin = mg; return new(m) Ellipsoid("ob", mg);
	case 3: c.note("name, coordinates"); a.pos = a.refp = p; return new(m) Ellipsoid("ob", 1.5, -2.25, 3.);
	case 4: c.note("name, coordinates, margin"); a.pos = a.refp = p; all(0.4); return new(m) Ellipsoid("ob", 1.5, -2.25, 3., 0.4);
	case 5: c.note("name, coordinates, margins"); a.pos = a.refp = p; a.margin = mg; return new(m) Ellipsoid("ob", 1.5, -2.25, 3., mg);
	case 6: c.note("name, state"); st(); return new(m) Ellipsoid("ob", s);
	case 7: c.note("name, state, margin"); st(); all(0.4); return new(m) Ellipsoid("ob", s, 0.4);
	case 8: c.note("name, state, margins"); st(); a.margin = mg; return new(m) Ellipsoid("ob", s, mg);
	case 9: c.note("name, state, reference"); st(); a.refp = r; return new(m) Ellipsoid("ob", s, r);
	case 10: c.note("name, state, reference, margin"); st(); a.refp = r; all(0.4); return new(m) Ellipsoid("ob", s, r, 0.4);
	case 11: c.note("name, state, reference, margins"); st(); a.refp = r; a.margin = mg; return new(m) Ellipsoid("ob", s, r, mg);
	case 12: c.note("name, state of a position"); a.pos = a.refp = p; return new(m) Ellipsoid("ob", s2);
	case 13: { c.note("copy"); st(); a.refp = r; a.margin = mg; Ellipsoid src("ob", s, r, mg); src.set_axis_lengths(A3(3, 2, 1)); src.set_curvature_factor(A3(2, 1, 3)); a.axes = A3(3, 2, 1); a.curv = A3(2, 1, 3); return new(m) Ellipsoid(src); }
	}
	return nullptr;
}
static const int NCTOR = 14;

// one of the setters with one of two values
static const int NSET = 20;
static const char* LONG = "a_rather_long_name_of_an_obstacle_that_nobody_would_want_to_type_twice_but_which_is_quite_allowed";
static void set(Ctx& c, int k, Ellipsoid& e, Attr& a)
{
	E3 x(4, 5, 6), y(-7, 0.5, 1e-3);
	switch(k)
	{
	case 0: e.set_position(x); a.pos = x; c.note("position"); break;
	case 1: e.set_position(y(0), y(1), y(2)); a.pos = y; c.note("coordinates"); break;
	case 2: e.set_orientation(QA); a.ori = QA; c.note("orientation"); break;
	case 3: e.set_orientation(QB); a.ori = QB; c.note("orientation b"); break;
	case 4: e.set_linear_velocity(x); a.vel = x; c.note("velocity"); break;
	case 5: e.set_linear_velocity(E3::Zero()); a.vel = E3::Zero(); c.note("no velocity"); break;
	case 6: e.set_angular_velocity(y); a.ang = y; c.note("angular velocity"); break;
	case 7: e.set_angular_velocity(E3::Zero()); a.ang = E3::Zero(); c.note("no angular velocity"); break;
	case 8: e.set_reference_position(x); a.refp = x; c.note("reference"); break;
	case 9: e.set_reference_position(y); a.refp = y; c.note("reference b"); break;
	case 10: e.set_pose(Pose(y, QA)); a.pos = y; a.ori = QA; c.note("pose"); break;
	case 11: e.set_pose(Pose(x)); a.pos = x; a.ori = Q(1, 0, 0, 0); c.note("pose b"); break;
	case 12: e.set_name("other"); a.name = "other"; c.note("name"); break;
	case 13: e.set_axis_lengths(A3(0.5, 2, 0)); a.axes = A3(0.5, 2, 0); c.note("axes"); break;
	case 14: e.set_axis_lengths(A3(1e-5, 30, 7)); a.axes = A3(1e-5, 30, 7); c.note("axes b"); break;
	case 15: e.set_curvature_factor(A3(2, 3, 0.5)); a.curv = A3(2, 3, 0.5); c.note("curvature"); break;
	case 16: e.set_name(""); a.name = ""; c.note("no name"); break;
	case 17: e.set_pose(e.get_pose()); c.note("own pose"); break;
	case 19: e.set_name(LONG); a.name = LONG; c.note("long name"); break;
	case 18: e.set_reference_position(e.get_position()); a.refp = a.pos; c.note("reference at own position"); break;
	}
	c.transition();
}

static void constructed(Ctx& c)
{
	static const int fill[4] = {0, 0xff, 0x7f, 0x3f};
	int k = c.pick(NCTOR), f = c.pick(4);
	alignas(64) static unsigned char mem[4096];
	static_assert(sizeof(Ellipsoid) < 4096, "");
	memset(mem, fill[f], sizeof mem);
	Attr a;
	Ellipsoid* e = construct(c, k, mem, a);
	compare(c, *e, a, "constructed");
	// a newly made obstacle behaves like its attributes say
	ref::Ell r;
	r.pose = {rv(a.pos), mat(a.ori)};
	r.axes = rv(a.axes);
	r.margin = rv(a.margin);
	for(int i = 0; i < 3; ++i) r.curv[i] = int(a.curv(i));
	for(auto& d : directions())
	{
		ref::V x = r.pose.t + ref::R(2) * d;
		double g = dist_to(*e, ev(x));
		c.check(std::fabs(g - r.gamma(x)) <= 1e-9L * (1 + r.gamma(x)), "constructed-distance", [&] { return fmt("distance %.12g expected %.12Lg", g, r.gamma(x)); });
	}
	c.check(e->is_closed(), "closed");
	e->~Ellipsoid();
}

static void setters(Ctx& c)
{
	int k = c.pick(NCTOR);
	Attr a;
	alignas(64) unsigned char mem[4096];
	memset(mem, 0x7f, sizeof mem);
	Ellipsoid* e = construct(c, k, mem, a);
	int depth = mc::thorough() ? 3 : 2;
	for(int i = 0; i < depth; ++i)
	{
		set(c, c.pick(NSET), *e, a);
		compare(c, *e, a, "after setters");
	}
	e->~Ellipsoid();
}

static void setters_deep(Ctx& c)
{
	Attr a;
	a.name = "ob";
	Ellipsoid e("ob");
	int depth = mc::thorough() ? 5 : 4;
	for(int i = 0; i < depth; ++i) set(c, c.pick(NSET), e, a);
	compare(c, e, a, "after setters");
}

// copies have all attributes and share nothing with the original
static void copies(Ctx& c)
{
	Attr a, b;
	a.name = "ob";
	Ellipsoid e("ob");
	set(c, c.pick(NSET), e, a);
	set(c, c.pick(NSET), e, a);
	b = a;
	if(c.flip())
	{
		c.note("copy constructed");
		Ellipsoid f(e);
		compare(c, f, b, "copy");
		set(c, c.pick(NSET), f, b);
		compare(c, f, b, "changed copy");
		compare(c, e, a, "original of a changed copy");
	}
	else
	{
		c.note("assigned");
		Ellipsoid f("f", 9, 9, 9, 0.9);
		f.set_curvature_factor(A3(3, 3, 3));
		f = e;
		compare(c, f, b, "assigned");
		set(c, c.pick(NSET), e, a);
		compare(c, f, b, "copy of a changed original");
		compare(c, e, a, "changed original");
		Ellipsoid& g = f;
		f = g;
		compare(c, f, b, "self assigned");
	}
}

// states and poses
static void states(Ctx& c)
{
	alignas(64) static unsigned char mem[1024];
	memset(mem, c.flip() ? 0xff : 0x3f, sizeof mem);
	E3 p(1.5, -2.25, 3), v(1, 2, 3), w(-0.1, 0.2, 0.3), ep = E3::Zero(), evl = E3::Zero(), ew = E3::Zero();
	Q eo(1, 0, 0, 0);
	State* s = nullptr;
	switch(c.pick(9))
	{
	case 0: s = new(mem) State(); break;
	case 1: s = new(mem) State(Pose()); break;
	case 2: s = new(mem) State(Pose(p, QB)); ep = p; eo = QB; break;
	case 3: s = new(mem) State(1.5, -2.25, 3.); ep = p; break;
	case 4: s = new(mem) State(p); ep = p; break;
	case 5: s = new(mem) State(p, QA); ep = p; eo = QA; break;
	case 6: s = new(mem) State(p, QA, v, w); ep = p; eo = QA; evl = v; ew = w; break;
	case 7: { State o(p, QA, v, w); s = new(mem) State(o); ep = p; eo = QA; evl = v; ew = w; break; }
	case 8: s = new(mem) State(Pose(1.5, -2.25, 3.)); ep = p; break;
	}
	auto cmp = [&](const char* what)
	{
		c.check(same(s->get_position(), ep) && same(s->get_pose().get_position(), ep), "state-position", [&] { return std::string(what) + str(s->get_position()); });
		c.check(sameq(s->get_orientation(), eo) && sameq(s->get_pose().get_orientation(), eo), "state-orientation", [&] { return std::string(what) + str(s->get_orientation()); });
		c.check(same(s->get_linear_velocity(), evl), "state-velocity", [&] { return std::string(what) + str(s->get_linear_velocity()); });
		c.check(same(s->get_angular_velocity(), ew), "state-angular", [&] { return std::string(what) + str(s->get_angular_velocity()); });
		mc::Hash h;
		hs(h, ep);
		hs(h, eo);
		hs(h, evl);
		hs(h, ew);
		c.state(h);
	};
	cmp("constructed ");
	for(int i = 0; i < 4; ++i)
	{
		E3 x = E3(4, 5, 6) * (i + 1);
		switch(c.pick(7))
		{
		case 0: s->set_position(x); ep = x; break;
		case 1: s->set_position(x(0), -1., x(2)); ep = E3(x(0), -1, x(2)); break;
		case 2: s->set_orientation(QB); eo = QB; break;
		case 3: s->set_linear_velocity(-x); evl = -x; break;
		case 4: s->set_angular_velocity(2 * x); ew = 2 * x; break;
		case 5: s->set_pose(Pose(x, QA)); ep = x; eo = QA; break;
		case 6: { State o; o = *s; State o2(o); *s = o2; break; }
		}
		c.transition();
		cmp("after setters ");
	}
}

// agents
static void agents(Ctx& c)
{
	alignas(64) static unsigned char mem[4096];
	memset(mem, c.flip() ? 0xff : 0x3f, sizeof mem);
	E3 p(1.5, -2.25, 3), v(1, 2, 3), w(-0.1, 0.2, 0.3), ep = E3::Zero(), evl = E3::Zero(), ew = E3::Zero();
	Q eo(1, 0, 0, 0);
	double em = 0;
	Agent* s = nullptr;
	switch(c.pick(6))
	{
	case 0: s = new(mem) Agent(); break;
	case 1: s = new(mem) Agent(0.35); em = 0.35; break;
	case 2: s = new(mem) Agent(State(p)); ep = p; break;
	case 3: s = new(mem) Agent(State(p, QA, v, w)); ep = p; eo = QA; evl = v; ew = w; break;
	case 4: s = new(mem) Agent(State(p, QA, v, w), 1.25); ep = p; eo = QA; evl = v; ew = w; em = 1.25; break;
	case 5: { Agent o(State(p, QA, v, w), 1.25); s = new(mem) Agent(o); ep = p; eo = QA; evl = v; ew = w; em = 1.25; break; }
	}
	auto cmp = [&](const char* what)
	{
		c.check(same(s->get_position(), ep) && same(s->get_pose().get_position(), ep) && same(s->get_state().get_position(), ep), "agent-position", [&] { return std::string(what) + str(s->get_position()); });
		c.check(sameq(s->get_orientation(), eo) && sameq(s->get_pose().get_orientation(), eo) && sameq(s->get_state().get_orientation(), eo), "agent-orientation", [&] { return std::string(what) + str(s->get_orientation()); });
		c.check(same(s->get_linear_velocity(), evl) && same(s->get_state().get_linear_velocity(), evl), "agent-velocity", [&] { return std::string(what) + str(s->get_linear_velocity()); });
		c.check(same(s->get_angular_velocity(), ew) && same(s->get_state().get_angular_velocity(), ew), "agent-angular", [&] { return std::string(what) + str(s->get_angular_velocity()); });
		c.check(s->get_safety_margin() == em, "agent-margin", [&] { return std::string(what) + fmt("margin %g expected %g", s->get_safety_margin(), em); });
		mc::Hash h;
		hs(h, ep);
		hs(h, eo);
		hs(h, evl);
		hs(h, ew);
		h.d(em);
		c.state(h);
	};
	cmp("constructed ");
	for(int i = 0; i < 4; ++i)
	{
		E3 x = E3(4, 5, 6) * (i + 1);
		switch(c.pick(8))
		{
		case 0: s->set_position(x); ep = x; break;
		case 1: s->set_orientation(QB); eo = QB; break;
		case 2: s->set_linear_velocity(-x); evl = -x; break;
		case 3: s->set_angular_velocity(2 * x); ew = 2 * x; break;
		case 4: s->set_pose(Pose(x, QA)); ep = x; eo = QA; break;
		case 5: s->set_safety_margin(0.25 * i); em = 0.25 * i; break;
		case 6: s->set_linear_velocity(E3::Zero()); evl = E3::Zero(); break;
		case 7: { Agent o(3.); o = *s; Agent o2(o); *s = o2; break; }
		}
		c.transition();
		cmp("after setters ");
	}
	s->~Agent();
}

// aggregates and hulls are obstacles too
static void others(Ctx& c)
{
	auto a = std::make_shared<Ellipsoid>("a", State(E3(1, 0, 0))), b = std::make_shared<Ellipsoid>("b", State(E3(2, 0, 0)));
	std::shared_ptr<Obstacle> o;
	int k = c.pick(3);
	if(k == 0) o = std::make_shared<Aggregate>(List{a, b});
	else if(k == 1) o = std::make_shared<StarShapeHull>();
	else o = std::make_shared<Obstacle>("base", 1., 2., 3., A3(0.1, 0.2, 0.3));
	if(k == 2) c.check(::same(o->get_reference_position(), E3(1, 2, 3)) && ::same(o->get_position(), E3(1, 2, 3)) && same(o->get_safety_margin(), A3(0.1, 0.2, 0.3)) && o->get_name() == "base", "base-constructor");
	for(int i = 0; i < 3; ++i)
	{
		std::string n = o->get_name(), t = o->get_type();
		E3 p = o->get_position(), v = o->get_linear_velocity(), w = o->get_angular_velocity(), r = o->get_reference_position();
		Q q = o->get_orientation();
		A3 m = o->get_safety_margin();
		E3 x = E3(0.4, -0.5, 0) * (i + 1);
		switch(c.pick(7))
		{
		case 0: o->set_position(x); p = x; break;
		case 1: o->set_orientation(QB); q = QB; break;
		case 2: o->set_linear_velocity(x); v = x; break;
		case 3: o->set_angular_velocity(x); w = x; break;
		case 4: o->set_reference_position(x); r = x; break;
		case 5: o->set_name("new"); n = "new"; break;
		case 6: o->set_pose(Pose(x, QA)); p = x; q = QA; break;
		}
		c.transition();
		c.check(o->get_name() == n && o->get_type() == t, "other-name");
		c.check(::same(o->get_position(), p), "other-position");
		c.check(::same(o->get_linear_velocity(), v), "other-velocity");
		c.check(::same(o->get_angular_velocity(), w), "other-angular");
		c.check(::same(o->get_reference_position(), r), "other-reference");
		c.check(sameq(o->get_orientation(), q), "other-orientation");
		c.check(same(o->get_safety_margin(), m), "other-margin");
		mc::Hash h;
		h.s(n).s(t);
		hs(h, p);
		hs(h, v);
		hs(h, w);
		hs(h, r);
		hs(h, q);
		c.state(h);
	}
}

MC_MAIN("C03", { {"constructed", constructed, 1}, {"setters", setters, 1}, {"setters-deep", setters_deep, 2}, {"copies", copies, 2}, {"states", states, 2}, {"agents", agents, 2}, {"others", others, 2} })
