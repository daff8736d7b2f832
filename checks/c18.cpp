// C18 the modulation matrix of an obstacle
#include "modmodel.hpp"

static void check_matrix(Ctx& c, const Obstacle& o, const Agent& a, const Seen& s, const char* what)
{
	ref::V x = rv(a.get_position());
	ref::R al = alignment(s, x);
	if(!(al > 0.02L)) return;
	auto t = Modulation::compute_modulation_matrix(a, o);
	const Eigen::Matrix3d& m = std::get<0>(t);
	const Eigen::Matrix3d& b = std::get<1>(t);
	auto w = [&](const std::string& e) { return fmt("%s: agent at %s, ", what, str(x).c_str()) + e; };
	c.check(std::fabs(std::get<2>(t) - s.gamma) <= 1e-7L * (1 + s.gamma), "distance", [&] { return w(fmt("distance %.12g expected %.12Lg", std::get<2>(t), s.gamma)); });
	// two orthonormal directions of the tangent plane and the direction to the reference
	ref::V n = ref::unit(s.n), r = ref::unit(x - s.reference);
	ref::V t1 = ref::unit(ref::cross(n, std::fabs(n.x) < 0.6L ? ref::V{1, 0, 0} : ref::V{0, 1, 0})), t2 = ref::cross(n, t1);
	ref::R d = delta(s.gamma), tol = 1e-7L / al;
	auto apply = [&](ref::V v) { return rv(E3(m * ev(v))); };
	c.check(close(apply(r), (1 - d) * r, tol), "reference-direction", [&] { return w("reference direction " + str(r) + " becomes " + str(apply(r)) + fmt(" expected factor %.12Lg", 1 - d)); });
	c.check(close(apply(t1), (1 + d) * t1, tol) && close(apply(t2), (1 + d) * t2, tol), "tangent", [&] { return w("tangents " + str(t1) + " " + str(t2) + " become " + str(apply(t1)) + " " + str(apply(t2)) + fmt(" expected factor %.12Lg", 1 + d)); });
	for(auto& v : {ref::V{1, 0, 0}, ref::V{-0.3L, 2, 0.7L}})
		c.check(close(apply(v), modulated(s, x, v), 3 * tol), "any-velocity", [&] { return w(str(v) + " becomes " + str(apply(v)) + " expected " + str(modulated(s, x, v))); });
	// the other matrix is an orthonormal frame, its first column is the normal (in the frame of the obstacle)
	c.check((b.transpose() * b - Eigen::Matrix3d::Identity()).cwiseAbs().maxCoeff() < 1e-8, "frame-orthonormal", [&] { return w(fmt("gram matrix %g off", (b.transpose() * b - Eigen::Matrix3d::Identity()).cwiseAbs().maxCoeff())); });
	ref::V b0 = mat(o.get_orientation()) * rv(E3(b.col(0)));
	c.check(std::fabs(std::fabs(ref::dot(b0, n)) - 1) < 1e-7L, "frame-normal", [&] { return w("frame along " + str(b0) + " normal " + str(n)); });
}
static bool conditioned(const ref::Ell& l, ref::R margin)
{
	ref::V s = l.scale(margin);
	ref::R thin = std::min(s.x, std::min(s.y, s.z)), thick = std::max(s.x, std::max(s.y, s.z));
	return (ref::norm(l.pose.t) + thick) / thin < 1e4L;
}
static void ellipsoids(Ctx& c)
{
	ESpec s = pick_spec(c);
	if(c.flip())
	{
		s.own_ref = true;
		ref::V l = s.ell().scale();
		s.refpos = s.pos + rm(s.rot) * ref::V{0.2L * l.x, -0.15L * l.y, 0.1L * l.z};
	}
	ref::Ell l = s.ell();
	l.reference = rv(ev(l.reference));
	double margin = 0.2;
	if(!conditioned(l, margin)) return;
	auto e = s.make("e");
	if(c.recording) c.note(s.str());
	c.state(hash_of(s));
	c.transition();
	int k = 0;
	for(auto& d : directions())
	{
		static const ref::R levels[6] = {0.5L, 0.98L, 1.02L, 1.7L, 6, 900};
		for(int i = k % 2; i < 6; i += 2)
		{
			Agent a = make_agent(l.at_level(d, levels[i], margin), {1, 0.5L, 0}, margin);
			check_matrix(c, *e, a, see(l, rv(a.get_position()), margin), "ellipsoid");
		}
		++k;
	}
}
static void others(Ctx& c)
{
	static const std::vector<std::vector<ESpec>> sets{
		{espec({-1, 0, 0}, 0, {1.2L, 1.2L, 1}), espec({1, 0, 0}, 0.4L, {1.3L, 0.9L, 1})},
		{espec({3, 0, 0}, ref::PI / 2, {4, 0.5L, 1}), espec({-3, 0, 0}, ref::PI / 2, {4, 0.5L, 1}), espec({0, 3, 0}, 0, {4, 0.5L, 1}), espec({0, -3, 0}, 0, {4, 0.5L, 1})}};
	auto& set = c.of(sets);
	bool hull = c.flip(), inside = hull ? c.flip() : false;
	List l;
	ref::V centre;
	int i = 0;
	for(auto& e : set) { centre = centre + (1 / ref::R(set.size())) * e.pos; l.push_back(e.make(fmt("m%d", i++))); }
	std::shared_ptr<Obstacle> o;
	if(hull) o = std::make_shared<StarShapeHull>(l, inside);
	else o = std::make_shared<Aggregate>(l);
	ref::R r = 0.3L + 0.45L * c.pick(18);
	for(int k = 0; k < 40; ++k)
	{
		ref::R f = 0.013L + 2 * ref::PI * k / 40;
		for(double m : {0.0, 0.2})
		{
			Agent a = make_agent(centre + ref::V{r * std::cos(f), r * std::sin(f), 0}, {1, 0, 0}, m);
			check_matrix(c, *o, a, see(*o, a), hull ? "hull" : "aggregate");
			c.transition();
		}
		c.state(mc::Hash().d(double(r)).d(double(f)).u(uint64_t(hull)).u(uint64_t(inside)).u(set.size()));
	}
}
static void eigenvalues(Ctx& c)
{
	static const std::vector<double> react{1, 2, 0.5, 4};
	double k = c.of(react);
	bool standard = k == 1 && c.flip();
	double before = -1;
	for(double g : {0.0, 0.3, 0.999, 1.0, 1.001, 1.2, 2.0, 5.0, 100.0, 1e6, 1e12})
	{
		Eigen::Matrix3d d = (standard ? Modulation::compute_diagonal_eigenvalues(g) : Modulation::compute_diagonal_eigenvalues(g, k)).toDenseMatrix();
		ref::R e = delta(g, k);
		c.check(std::fabs(d(0, 0) - (1 - e)) < 1e-12L && std::fabs(d(1, 1) - (1 + e)) < 1e-12L && std::fabs(d(2, 2) - (1 + e)) < 1e-12L, "eigenvalues", [&] { return fmt("distance %g reactivity %g: %.12g %.12g %.12g expected 1 -+ %.12Lg", g, k, d(0, 0), d(1, 1), d(2, 2), e); });
		c.check(d(0, 0) >= before, "monotone", [&] { return fmt("distance %g", g); });
		before = d(0, 0);
		c.state(mc::Hash().d(g).d(k));
		c.transition();
	}
}
// an obstacle, its reference and the agent's margin change between evaluations
static void live(Ctx& c)
{
	Live v;
	int n = mc::thorough() ? 4 : 3;
	for(int i = 0; i < n; ++i)
	{
		v.op(c, c.pick(Live::NOPS));
		double m = 0.1 * (1 + i);
		ref::Ell l = v.s.ell();
		for(auto& x : v.around())
		{
			Agent a = make_agent(x, {0, 1, 0}, m);
			check_matrix(c, *v.e, a, see(l, rv(a.get_position()), m), "changed ellipsoid");
		}
		c.state(hash_of(v.s));
	}
}
MC_MAIN("C18", { {"ellipsoids", ellipsoids, 3}, {"others", others, 2}, {"eigenvalues", eigenvalues, 1}, {"live", live, 2} })
