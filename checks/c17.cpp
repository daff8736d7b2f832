// C17 weights of the obstacles
#include "modmodel.hpp"

static const std::vector<double>& alphabet()
{
	static std::vector<double> v{0, 0.2, 0.999999, 1, 1.000001, 1.05, 1.3, 1.5, 2, 7.5, 60, 1e4};
	return v;
}
// distances that are all large: the weights do not vanish, they follow the proportions
static void far(Ctx& c)
{
	static const std::vector<double> all{150, 201, 500, 2e4, 1e6, 3e9};
	int n = 1 + c.pick(4);
	double power = 1 + c.pick(3);
	Eigen::ArrayXd d(n);
	std::vector<ref::R> g;
	mc::Hash h;
	for(int i = 0; i < n; ++i) { d(i) = c.of(all); g.push_back(d(i)); h.d(d(i)); }
	Eigen::ArrayXd w = Modulation::weight_obstacles(d, 1, power);
	auto e = weights_of(g, 1, power);
	c.check(w.size() == n, "count");
	ref::R sum = 0;
	for(int i = 0; i < n; ++i)
	{
		sum += w(i);
		c.check(std::fabs(w(i) - e[size_t(i)]) <= 1e-8L, "weight", [&] { return fmt("%d distances from %g on, power %g: weight %d at %g is %.12g expected %.12Lg", n, d(0), power, i, d(i), w(i), e[size_t(i)]); });
	}
	c.check(std::fabs(sum - 1) < 1e-9L, "sum", [&] { return fmt("%.12Lg", sum); });
	c.state(h.d(power));
	c.transition();
}
static void vectors(Ctx& c)
{
	static const std::vector<double> crit{1, 1.5, 0.5, 2}, pw{2, 1, 3, 0.5};
	double critical = c.of(crit), power = c.of(pw);
	int n = 1 + c.pick(mc::thorough() ? 5 : 4);
	Eigen::ArrayXd d(n);
	mc::Hash h;
	h.d(critical).d(power);
	for(int i = 0; i < n; ++i) { d(i) = c.of(alphabet()); h.d(d(i)); }
	c.state(h);
	c.transition();
	auto text = [&] { std::string s = fmt("critical %g power %g distances", critical, power); for(int i = 0; i < n; ++i) s += fmt(" %.9g", d(i)); return s; };
	if(c.recording) c.note(text());
	Eigen::ArrayXd w = Modulation::weight_obstacles(d, critical, power);
	c.check(w.size() == n, "count", text);
	std::vector<ref::R> g;
	for(int i = 0; i < n; ++i) g.push_back(d(i));
	auto e = weights_of(g, critical, power);
	ref::R sum = 0;
	for(int i = 0; i < n; ++i)
	{
		sum += w(i);
		c.check(w(i) >= 0 && w(i) <= 1 + 1e-12, "range", [&] { return text() + fmt(": weight %d is %.12g", i, w(i)); });
		c.check(std::fabs(w(i) - e[size_t(i)]) <= 1e-8L, "weight", [&] { return text() + fmt(": weight %d is %.12g expected %.12Lg", i, w(i), e[size_t(i)]); });
		for(int j = 0; j < n; ++j) c.check(!(d(i) < d(j)) || w(i) >= w(j) - 1e-15, "closest-first", [&] { return text() + fmt(": %.12g and %.12g", w(i), w(j)); });
	}
	c.check(std::fabs(sum - 1) < 1e-9L, "sum", [&] { return text() + fmt(": sum %.12Lg", sum); });
	c.outcome(mc::Hash().d(double(e[0])));
}
// the distances that matter in an environment: the influence of an obstacle vanishes with its distance
static void approach(Ctx& c)
{
	static const std::vector<double> far{1.2, 3, 50};
	double other = c.of(far), power = 1 + c.pick(3);
	int n = 2 + c.pick(2);
	double last = -1;
	for(int k = 0; k < 60; ++k)
	{
		double g = 1 + 40 * std::pow(0.75, k);
		Eigen::ArrayXd d(n);
		for(int i = 0; i < n; ++i) d(i) = i == n / 2 ? g : other;
		double w = Modulation::weight_obstacles(d, 1, power)(n / 2);
		c.check(w >= last - 1e-15 && (w > last || w > 0.9), "monotone", [&] { return fmt("weight %.12g at %.9g after %.12g", w, g, last); });
		last = w;
		c.state(mc::Hash().d(g).d(other).d(power).u(uint64_t(n)));
		c.transition();
	}
	c.check(last > 0.99, "dominates", [&] { return fmt("weight %.12g next to the surface", last); });
}
// any number of obstacles, the interesting one anywhere among them
static void numerous(Ctx& c)
{
	static const std::vector<int> sizes{6, 8, 9, 16, 17, 33, 64, 65, 128, 129, 257, 1000};
	int n = c.of(sizes), kind = c.pick(6);
	size_t at = size_t(std::vector<int>{0, 1, n / 2, n - 2, n - 1}[size_t(c.pick(5))]);
	double power = 1 + c.pick(3);
	Eigen::ArrayXd d(n);
	for(int i = 0; i < n; ++i) d(i) = kind == 0 ? 3 : kind == 1 ? 1.2 + 0.01 * i : kind == 2 ? 2 + (i * 7) % 5 : kind == 3 ? (i % 3 ? 4 : 0.5) : kind == 4 ? 0.9 : 1e3 + i;
	d(long(at)) = kind == 4 ? 8 : kind == 5 ? 1.001 : 1;
	std::vector<ref::R> g;
	for(int i = 0; i < n; ++i) g.push_back(d(i));
	auto text = [&] { return fmt("%d distances of kind %d, %g at %zu, power %g", n, kind, d(long(at)), at, power); };
	Eigen::ArrayXd w = Modulation::weight_obstacles(d, 1, power);
	auto e = weights_of(g, 1, power);
	c.check(w.size() == n, "count", text);
	ref::R sum = 0;
	for(int i = 0; i < n; ++i)
	{
		sum += w(i);
		c.check(std::fabs(w(i) - e[size_t(i)]) <= 1e-8L, "weight", [&] { return text() + fmt(": weight %d is %.12g expected %.12Lg", i, w(i), e[size_t(i)]); });
	}
	c.check(std::fabs(sum - 1) < 1e-9L, "sum", [&] { return text() + fmt(": sum %.12Lg", sum); });
	c.state(mc::Hash().u(uint64_t(n)).u(uint64_t(kind)).u(at).d(power));
	c.transition();
}
MC_MAIN("C17", { {"vectors", vectors, 3}, {"far", far, 3}, {"approach", approach, 2}, {"numerous", numerous, 2} })
