// C28 numerical tools
#include "lib.hpp"
#include "DynamicObstacleAvoidance/Utils/MathTools.hpp"

// the random source of the library is under the control of the explorer
static int next_random = 0, random_calls = 0;
extern "C" int rand(void) noexcept { ++random_calls; return next_random; }

static void spaces(Ctx& c)
{
	static const std::vector<double> v{-10, -ref::PI, -0.3, 0, 1e-9, 0.1, 1, 7, 1e6};
	double a = c.of(v), b = c.of(v);
	int n = c.pick(mc::thorough() ? 600 : 120) - 2;
	c.state(mc::Hash().d(a).d(b).u(uint64_t(n + 5)));
	c.transition();
	auto what = [&] { return fmt("linspace(%g, %g, %d)", a, b, n); };
	if(n < 2)
	{
		bool thrown = false;
		try { MathTools::linspace(a, b, n); }
		catch(std::exception&) { thrown = true; }
		catch(...) { c.fail("not-an-exception", what()); }
		c.check(thrown, "too-few", what);
		return;
	}
	auto p = MathTools::linspace(a, b, n);
	c.check(int(p.size()) == n, "count", [&] { return what() + fmt(" has %zu points", p.size()); });
	c.check(close(p.front(), a, 1e-13 * (std::fabs(a) + std::fabs(b))) && close(p.back(), b, 1e-13 * (std::fabs(a) + std::fabs(b))), "ends", what);
	for(int i = 0; i < n; ++i)
	{
		ref::R e = ref::R(a) + (ref::R(b) - a) * i / (n - 1);
		c.check(std::fabs(p[size_t(i)] - e) <= 1e-13L * (std::fabs(a) + std::fabs(b)), "even", [&] { return what() + fmt(" point %d is %.15g expected %.15Lg", i, p[size_t(i)], e); });
	}
}
static void grids(Ctx& c)
{
	static const std::vector<double> v{-2, 0, 3.5, 1};
	double x0 = c.of(v), x1 = c.of(v), y0 = c.of(v), y1 = c.of(v);
	int n = 1 + c.pick(6), m = 1 + c.pick(6);
	auto what = [&] { return fmt("gridspace %g..%g by %g..%g, %d by %d", x0, x1, y0, y1, n, m); };
	c.state(mc::Hash().d(x0).d(x1).d(y0).d(y1).u(uint64_t(n)).u(uint64_t(m)));
	c.transition();
	if(n < 2 || m < 2)
	{
		bool thrown = false;
		try { MathTools::gridspace({x0, y0}, {x1, y1}, {n, m}); }
		catch(std::exception&) { thrown = true; }
		c.check(thrown, "grid-too-few", what);
		return;
	}
	auto g = MathTools::gridspace({x0, y0}, {x1, y1}, {n, m});
	c.check(int(g.size()) == n * m, "grid-count", what);
	// every point of the lattice, x slowest
	for(int i = 0; i < n; ++i) for(int j = 0; j < m; ++j)
	{
		ref::R x = x0 + (ref::R(x1) - x0) * i / (n - 1), y = y0 + (ref::R(y1) - y0) * j / (m - 1);
		auto& p = g[size_t(i * m + j)];
		c.check(std::fabs(p(0) - x) < 1e-12L && std::fabs(p(1) - y) < 1e-12L, "grid-point", [&] { return what() + fmt(" point %d %d is (%g %g) expected (%Lg %Lg)", i, j, p(0), p(1), x, y); });
	}
}
static void randoms(Ctx& c)
{
	static const std::vector<double> v{-5, -0.25, 0, 1, 3, 1e9};
	double a = c.of(v), b = c.of(v);
	bool one = b == 0 && c.flip();
	double lo = std::min(a, b), hi = std::max(a, b), least = 1e300, most = -1e300;
	int calls = 0;
	static const int draws[] = {0, 1, 1000, RAND_MAX / 3, RAND_MAX / 2, RAND_MAX / 2 + 1, RAND_MAX - 1000, RAND_MAX - 1, RAND_MAX};
	for(int r : draws)
	{
		next_random = r;
		random_calls = 0;
		double x = one ? MathTools::rand_float(a) : MathTools::rand_float(a, b);
		calls += random_calls;
		c.check(x >= lo - 1e-9 * (1 + std::fabs(lo)) && x <= hi + 1e-9 * (1 + std::fabs(hi)), "range", [&] { return fmt("rand_float(%g, %g) is %.12g when rand() is %d", a, b, x, r); });
		least = std::min(least, x);
		most = std::max(most, x);
		c.transition();
	}
	// the whole range can be drawn
	if(calls == 9) c.check(std::fabs(least - lo) <= 1e-9 * (1 + std::fabs(lo)) && std::fabs(most - hi) <= 1e-9 * (1 + std::fabs(hi)), "whole-range", [&] { return fmt("rand_float(%g, %g) draws from %.12g to %.12g", a, b, least, most); });
	c.state(mc::Hash().d(a).d(b).u(one));
}
static void polar(Ctx& c)
{
	static const std::vector<ref::R> rs{1e-60L, 1e-13L, 1e-6L, 0.2L, 1, 45, 3e5L, 1e40L};
	ref::R r = c.of(rs);
	int i = c.pick(33), j = c.pick(49);
	ref::R th = ref::PI * i / 32, ph = -ref::PI + 2 * ref::PI * j / 48;
	ref::V x{r * std::sin(th) * std::cos(ph), r * std::sin(th) * std::sin(ph), r * std::cos(th)};
	E3 p = MathTools::polar_to_cartesian(E3(double(r), double(th), double(ph)));
	c.check(close(rv(p), x, 1e-12L * r), "to-cartesian", [&] { return fmt("(%Lg %Lg %Lg) becomes %s expected %s", r, th, ph, str(p).c_str(), str(x).c_str()); });
	E3 q = MathTools::cartesian_to_polar(ev(x));
	c.check(std::fabs(q(0) - r) <= 1e-12L * r && std::fabs(q(1) - th) < 1e-7L, "to-polar", [&] { return str(x) + " becomes " + str(q); });
	if(i != 0 && i != 32 && j != 0 && j != 48) c.check(std::fabs(q(2) - ph) < 1e-7L, "azimuth", [&] { return str(x) + " becomes " + str(q); });
	c.check(q(2) >= -M_PI - 1e-12 && q(2) <= M_PI + 1e-12, "azimuth-range", [&] { return str(q); });
	E3 back = MathTools::polar_to_cartesian(q);
	c.check(close(rv(back), x, 1e-7L * r), "round-trip", [&] { return str(x) + " comes back as " + str(back); });
	E3 z = MathTools::cartesian_to_polar(E3(0, 0, 0));
	c.check(z(0) == 0 && z.allFinite(), "origin", [&] { return str(z); });
	c.state(mc::Hash().d(double(r)).u(uint64_t(i)).u(uint64_t(j)));
	c.transition();
}
static void sorting(Ctx& c)
{
	int rows = 2 + c.pick(2), n = 1 + c.pick(mc::thorough() ? 7 : 6);
	Eigen::MatrixXd a(rows, n);
	static const double vals[5] = {-1.5, 0, 0.25, 7, 3e-13};
	mc::Hash h;
	for(int i = 0; i < n; ++i)
	{
		a(1, i) = vals[n > 5 ? c.pick(3) : c.pick(5)];
		a(0, i) = i;
		if(rows == 3) a(2, i) = 10 + i;
		h.d(a(1, i));
	}
	Eigen::MatrixXd in = a, s = MathTools::sorted_cols_by_theta(a);
	c.check(a == in, "input-kept");
	c.check(s.rows() == rows && s.cols() == n, "shape");
	std::set<int> seen;
	for(int i = 0; i < n; ++i)
	{
		c.check(i == 0 || s(1, i - 1) <= s(1, i), "sorted", [&] { return fmt("column %d", i); });
		int k = int(s(0, i));
		c.check(k >= 0 && k < n && seen.insert(k).second && s.col(i) == in.col(k), "permutation", [&] { return fmt("column %d", i); });
	}
	h.u(uint64_t(rows));
	c.state(h);
	c.transition();
	if(n >= 2) c.check(MathTools::compare_theta(in.col(0), in.col(1)) == (in(1, 0) < in(1, 1)), "compare");
}
static void closest(Ctx& c)
{
	// rising sequences of up to 7 angles, queries everywhere and on them
	unsigned row = unsigned(c.pick(3));
	int n = 2 + c.pick(6);
	Eigen::MatrixXd a(3, n);
	double x = -3;
	mc::Hash h;
	for(int i = 0; i < n; ++i)
	{
		a.col(i) = E3(50 + i, -20 - i, 3 * i);
		a(row, i) = x;
		h.d(x);
		x += c.pick(3) == 0 ? 0.01 : 1.1;
	}
	std::vector<double> q{-3.1, 3.14, 20, a(row, 0), a(row, n - 1)};
	for(int i = 0; i + 1 < n; ++i) { q.push_back(a(row, i)); q.push_back((a(row, i) + a(row, i + 1)) / 2); q.push_back(std::nextafter(a(row, i), 100)); }
	for(double v : q)
	{
		E3 p(1, 2, 4);
		p(row) = v;
		auto r = MathTools::find_closest_points(a, p, row);
		unsigned want = 0;
		while(want < unsigned(n) && a(row, want) < v) ++want;
		want %= unsigned(n);
		c.check(r.first == want && r.second == (want + 1) % unsigned(n), "neighbours", [&] { return fmt("%d values, query %g: %u and %u expected %u", n, v, r.first, r.second, want); });
		c.transition();
	}
	h.u(row);
	c.state(h);
}
static void signs(Ctx& c)
{
	static const std::vector<double> v{-1e300, -2, -1e-320, -0.0, 0.0, 1e-320, 0.5, 7, 1e300};
	double x = c.of(v);
	c.check(MathTools::sign(x) == (x > 0) - (x < 0) && MathTools::sign(int(std::max(-1e9, std::min(1e9, x)))) == (int(std::max(-1e9, std::min(1e9, x))) > 0) - (int(std::max(-1e9, std::min(1e9, x))) < 0), "sign", [&] { return fmt("%g", x); });
	c.state(mc::Hash().d(x));
	c.transition();
}
// large inputs
static void large(Ctx& c)
{
	static const std::vector<int> sizes{9, 16, 17, 33, 100, 128, 129, 500, 1001};
	int n = c.of(sizes), kind = c.pick(4);
	c.state(mc::Hash().u(uint64_t(n)).u(uint64_t(kind)));
	c.transition();
	Eigen::MatrixXd a(3, n);
	for(int i = 0; i < n; ++i)
	{
		a(0, i) = i;
		a(1, i) = kind == 0 ? -1e-9 * i : kind == 1 ? (i * 37) % n : kind == 2 ? (i * 37) % 5 : (i % 2 ? i : -i);
		a(2, i) = 3 * i;
	}
	Eigen::MatrixXd s = MathTools::sorted_cols_by_theta(a);
	std::set<int> seen;
	c.check(s.rows() == 3 && s.cols() == n, "shape");
	for(int i = 0; i < n; ++i)
	{
		c.check(i == 0 || s(1, i - 1) <= s(1, i), "sorted", [&] { return fmt("column %d of %d", i, n); });
		int k = int(s(0, i));
		c.check(k >= 0 && k < n && seen.insert(k).second && s.col(i) == a.col(k), "permutation", [&] { return fmt("column %d of %d", i, n); });
	}
	// neighbours in a long list
	for(int i = 0; i < n; ++i) a(1, i) = -3 + 6.0 * i / n;
	for(int i = 0; i < n; ++i) for(double q : {a(1, i), std::nextafter(a(1, i), 10.)})
	{
		auto r = MathTools::find_closest_points(a, E3(0, q, 0), 1);
		unsigned want = unsigned(q == a(1, i) ? i : i + 1) % unsigned(n);
		c.check(r.first == want && r.second == (want + 1) % unsigned(n), "neighbours", [&] { return fmt("%d values, query %g: %u and %u expected %u", n, q, r.first, r.second, want); });
	}
	int m = 2 + 3 * kind;
	auto g = MathTools::gridspace({-1, 4}, {2, -2}, kind % 2 ? std::make_pair(n, m) : std::make_pair(m, n));
	int rows = kind % 2 ? n : m, cols = kind % 2 ? m : n;
	c.check(int(g.size()) == n * m, "grid-count");
	for(int i = 0; i < rows; ++i) for(int j = 0; j < cols; ++j)
	{
		auto& p = g[size_t(i * cols + j)];
		double x = -1 + 3.0 * i / (rows - 1), y = 4 - 6.0 * j / (cols - 1);
		c.check(std::fabs(p(0) - x) < 1e-11 && std::fabs(p(1) - y) < 1e-11, "grid-point", [&] { return fmt("%d by %d: point %d %d", rows, cols, i, j); });
	}
	int many = n * 37;
	auto l = MathTools::linspace(-7, 5, many);
	c.check(int(l.size()) == many && std::fabs(l[size_t(many) / 2] - (-7 + 12.0 * (many / 2) / (many - 1))) < 1e-10 && std::fabs(l.back() - 5) < 1e-10, "large-space", [&] { return fmt("%d points", many); });
}
MC_MAIN("C28", { {"spaces", spaces, 2}, {"grids", grids, 3}, {"randoms", randoms, 2}, {"polar", polar, 2}, {"sorting", sorting, 3}, {"closest", closest, 3}, {"signs", signs, 1}, {"large", large, 2} })
