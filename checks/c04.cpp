// C04 the look ahead envelope of an agent is always the one of its present position, heading and margin
#include "agentmodel.hpp"

static Agent construct(Ctx& c, int k, AgentModel& m)
{
	State s(E3(1.5, -2, 0.5), eq(rotations()[10]), E3(-3, 4, 0), E3(0.1, 0, 0.2));
	auto full = [&] { m.pose = {{1.5L, -2, 0.5L}, rm(rotations()[10])}; m.vel = {-3, 4, 0}; m.ang = {0.1, 0, 0.2}; };
	switch(k)
	{
	case 0: c.note("default agent"); return Agent();
	case 1: c.note("agent with margin 0.7"); m.margin = 0.7; return Agent(0.7);
	case 2: c.note("moving agent"); full(); return Agent(s);
	case 3: c.note("moving agent with margin 0.25"); full(); m.margin = 0.25; return Agent(s, 0.25);
	default: c.note("resting agent with margin 1.5"); m.pose.t = {4, 5, 6}; m.margin = 1.5; return Agent(State(4, 5, 6), 1.5);
	}
}
static const int NCTOR = 5;

static void apply(Ctx& c, Agent& a, AgentModel& m, int k, int v)
{
	switch(k)
	{
	case 0: { ref::V x = positions()[size_t(v % 5)]; a.set_position(ev(x)); m.pose.t = x; c.note("position %d", v); break; }
	case 1: { ref::V x = agent_velocities()[size_t(v % 8)]; a.set_linear_velocity(ev(x)); m.vel = rv(ev(x)); c.note("velocity %d", v); break; }
	case 2: { double x = agent_margins()[size_t(v % 6)]; a.set_safety_margin(x); m.margin = x; c.note("margin %g", x); break; }
	case 3: { const Rot& r = rotations()[size_t((v * 3 + 8) % int(rotations().size()))]; a.set_orientation(eq(r)); m.pose.r = rm(r); c.note("orientation %d", v); break; }
	case 4: { const Rot& r = rotations()[size_t((v * 5 + 1) % int(rotations().size()))]; ref::V x = positions()[size_t((v + 2) % 5)]; a.set_pose(Pose(ev(x), eq(r))); m.pose = {x, rm(r)}; c.note("pose %d", v); break; }
	case 5: { ref::V x{0.25L * v, -1, 2}; a.set_angular_velocity(ev(x)); m.ang = x; c.note("angular velocity %d", v); break; }
	case 6: { const Rot& r = rotations()[size_t((v * 3 + 1) % int(rotations().size()))]; ref::V x = positions()[size_t((v + 1) % 5)]; a.transform(Pose(ev(x), eq(r))); m.pose = ref::P{x, rm(r)} * m.pose; c.note("transform %d", v); break; }
	case 7: { const Rot& r = rotations()[size_t((v * 3 + 1) % int(rotations().size()))]; ref::V x = positions()[size_t((v + 1) % 5)]; Agent b = a.transformed(Pose(ev(x), eq(r))); a = b; m.pose = ref::P{x, rm(r)} * m.pose; c.note("replace by transformed %d", v); break; }
	case 9: // by very little
	{
		ref::V d{1e-5L * (v + 1), -2e-6L, 3e-6L};
		a.set_position(a.get_position() + ev(d)); m.pose.t = rv(a.get_position());
		a.set_linear_velocity(a.get_linear_velocity() + 1e-4 * E3(v, 1, -1)); m.vel = rv(a.get_linear_velocity());
		a.set_safety_margin(a.get_safety_margin() - 1e-6 * v); m.margin = a.get_safety_margin();
		c.note("nudged %d", v);
		break;
	}
	case 8: { Agent b(0.9); b.set_linear_velocity(E3(9, 9, 9)); b = a; Agent d(b); a = d; c.note("copy back and forth"); break; }
	}
	c.transition();
}

// all single changes with all values
static void single(Ctx& c)
{
	AgentModel m;
	Agent a = construct(c, c.pick(NCTOR), m);
	check_agent(c, a, m, "constructed");
	apply(c, a, m, c.pick(10), c.pick(8));
	check_agent(c, a, m, "changed");
	apply(c, a, m, c.pick(10), c.pick(8));
	check_agent(c, a, m, "changed twice");
}
// longer histories with two values
static void histories(Ctx& c)
{
	AgentModel m;
	Agent a = construct(c, c.pick(2) * 3, m);
	int depth = mc::thorough() ? 5 : 4;
	for(int i = 0; i < depth; ++i)
	{
		int k = c.pick(10);
		int v = k >= 8 ? 0 : c.pick(2);
		apply(c, a, m, k, 2 * i + v);
		check_agent(c, a, m, "after history");
	}
}
// headings all around, including vertical ones
static void headings(Ctx& c)
{
	static const double speeds[5] = {1, 1e-3, 0.5, 25, 1e4};
	AgentModel m;
	Agent a = construct(c, c.pick(NCTOR), m);
	int n = 48;
	int k = c.pick(n), z = c.pick(3);
	double s = speeds[c.pick(5)];
	ref::R t = 2 * ref::PI * k / n;
	ref::V v{std::cos(t), std::sin(t), z == 0 ? 0.0L : z == 1 ? 0.4L : -2.0L};
	E3 x = s * ev(v);
	a.set_linear_velocity(x);
	m.vel = rv(x);
	c.note("velocity %s", str(x).c_str());
	c.transition();
	check_agent(c, a, m, "heading");
	// the agent is always inside its envelope, together with the point half a unit ahead
	if(z == 0)
	{
		c.check(envelope_of(a).point_is_inside(a.get_position()), "agent-inside-envelope");
		c.check(envelope_of(a).point_is_inside(a.get_position() + 0.99 * x.normalized()), "point-ahead-inside-envelope");
		c.check(!envelope_of(a).point_is_inside(a.get_position() - (std::max(0.1, m.margin) + 0.01) * x.normalized()), "point-behind-outside-envelope");
	}
}

MC_MAIN("C04", { {"single", single, 3}, {"histories", histories, 3}, {"headings", headings, 2} })
