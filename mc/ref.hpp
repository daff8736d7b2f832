// Reference mathematics in long double on plain arrays, written from the definitions (papers [1], [2] of the README
// and the header documentation), not from the sources under test.
#ifndef REF_HPP
#define REF_HPP
#include <array>
#include <algorithm>
#include <cmath>
#include <vector>

namespace ref {
typedef long double R;
struct V { R x = 0, y = 0, z = 0; R& operator[](int i) { return i == 0 ? x : i == 1 ? y : z; } R operator[](int i) const { return i == 0 ? x : i == 1 ? y : z; } };
inline V operator+(V a, V b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
inline V operator-(V a, V b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
inline V operator-(V a) { return {-a.x, -a.y, -a.z}; }
inline V operator*(R s, V a) { return {s * a.x, s * a.y, s * a.z}; }
inline R dot(V a, V b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline V cross(V a, V b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
inline R norm(V a) { return std::sqrt(dot(a, a)); }
inline V unit(V a) { R n = norm(a); return n > 0 ? (1 / n) * a : a; }
inline R dist(V a, V b) { return norm(a - b); }
const R PI = 3.14159265358979323846264338327950288L;

struct M { R m[3][3]; };
inline V operator*(const M& a, V v) { V r; for(int i = 0; i < 3; ++i) r[i] = a.m[i][0] * v.x + a.m[i][1] * v.y + a.m[i][2] * v.z; return r; }
inline M operator*(const M& a, const M& b) { M r; for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) { r.m[i][j] = 0; for(int k = 0; k < 3; ++k) r.m[i][j] += a.m[i][k] * b.m[k][j]; } return r; }
inline M transpose(const M& a) { M r; for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) r.m[i][j] = a.m[j][i]; return r; }
inline M ident() { M r; for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) r.m[i][j] = i == j; return r; }
// Rodrigues' formula
inline M rot(V axis, R angle)
{
	axis = unit(axis);
	R c = std::cos(angle), s = std::sin(angle), t = 1 - c;
	M r;
	r.m[0][0] = t * axis.x * axis.x + c;          r.m[0][1] = t * axis.x * axis.y - s * axis.z; r.m[0][2] = t * axis.x * axis.z + s * axis.y;
	r.m[1][0] = t * axis.x * axis.y + s * axis.z; r.m[1][1] = t * axis.y * axis.y + c;          r.m[1][2] = t * axis.y * axis.z - s * axis.x;
	r.m[2][0] = t * axis.x * axis.z - s * axis.y; r.m[2][1] = t * axis.y * axis.z + s * axis.x; r.m[2][2] = t * axis.z * axis.z + c;
	return r;
}
inline M yaw(R a) { return rot({0, 0, 1}, a); }
// rotation matrix of a quaternion of any norm
inline M quat(R w, R x, R y, R z)
{
	R n = w * w + x * x + y * y + z * z;
	M r;
	r.m[0][0] = (w * w + x * x - y * y - z * z) / n; r.m[0][1] = 2 * (x * y - w * z) / n;             r.m[0][2] = 2 * (x * z + w * y) / n;
	r.m[1][0] = 2 * (x * y + w * z) / n;             r.m[1][1] = (w * w - x * x + y * y - z * z) / n; r.m[1][2] = 2 * (y * z - w * x) / n;
	r.m[2][0] = 2 * (x * z - w * y) / n;             r.m[2][1] = 2 * (y * z + w * x) / n;             r.m[2][2] = (w * w - x * x - y * y + z * z) / n;
	return r;
}
// solve the 3x3 system a x = b (Cramer)
inline R det(V a, V b, V c) { return dot(a, cross(b, c)); }

struct P { V t; M r = ident(); };
inline V operator*(const P& p, V v) { return p.r * v + p.t; }
inline P operator*(const P& a, const P& b) { return {a.r * b.t + a.t, a.r * b.r}; }
inline P inv(const P& p) { M i = transpose(p.r); return {-(i * p.t), i}; }

inline R ipow(R x, int n) { R r = 1; for(int i = 0; i < n; ++i) r *= x; return r; }

// ellipsoidal obstacle
struct Ell
{
	P pose;
	V axes{1, 1, 1}, margin{0, 0, 0}, reference;
	int curv[3] = {1, 1, 1};
	V vel, angvel;
	V len(R extra = 0) const
	{
		V l;
		for(int i = 0; i < 3; ++i) { l[i] = axes[i] + margin[i] + extra; }
		return l;
	}
	// a null length in one direction: that coordinate is used as it is
	V scale(R extra = 0) const { V l = len(extra); for(int i = 0; i < 3; ++i) if(l[i] <= 1e-4L) l[i] = 1; return l; }
	R gamma(V world, R extra = 0) const
	{
		V p = inv(pose) * world, l = scale(extra);
		R s = 0;
		for(int i = 0; i < 3; ++i) s += ipow(p[i] / l[i], 2 * curv[i]);
		return s;
	}
	// gradient direction of gamma in the frame of the obstacle
	V normal_local(V world, R extra = 0) const
	{
		V p = inv(pose) * world, l = scale(extra), n;
		for(int i = 0; i < 3; ++i) n[i] = 2 * curv[i] * ipow(p[i] / l[i], 2 * curv[i] - 1) / l[i];
		return unit(n);
	}
	V normal_world(V world, R extra = 0) const { return pose.r * normal_local(world, extra); }
	// planar footprint (ellipse) level: <1 inside
	R planar(V world) const
	{
		V p = inv(pose) * world, l = len();
		return (p.x / l.x) * (p.x / l.x) + (p.y / l.y) * (p.y / l.y);
	}
	V boundary(R a) const { V l = len(); return pose * V{l.x * std::cos(a), l.y * std::sin(a), 0}; }
	// point of the surface (gamma == level) in local direction d
	V at_level(V d, R level, R extra = 0) const
	{
		d = unit(d);
		V l = scale(extra);
		auto g = [&](R s) { R q = 0; for(int i = 0; i < 3; ++i) q += ipow(s * d[i] / l[i], 2 * curv[i]); return q; };
		R lo = 0, hi = 1;
		while(g(hi) < level) hi *= 2;
		for(int k = 0; k < 200; ++k) { R mid = (lo + hi) / 2; (g(mid) < level ? lo : hi) = mid; }
		return pose * (((lo + hi) / 2) * d);
	}
};

// smallest planar level of a over the footprint of b (0 if the centre is inside): < 1 iff the footprints overlap
inline R overlap_level(const Ell& a, const Ell& b)
{
	if(b.planar(a.pose.t) <= 1) return 0;
	const int N = 720;
	static std::vector<std::pair<R, R>> table;
	if(table.empty()) for(int i = 0; i < N; ++i) table.push_back({std::cos(2 * PI * i / N), std::sin(2 * PI * i / N)});
	V l = b.len(), k = a.len();
	// boundary of b in the frame of a
	M r = transpose(a.pose.r);
	V t = r * (b.pose.t - a.pose.t);
	M q = r * b.pose.r;
	auto level = [&](R co, R si)
	{
		R x = (q.m[0][0] * l.x * co + q.m[0][1] * l.y * si + t.x) / k.x, y = (q.m[1][0] * l.x * co + q.m[1][1] * l.y * si + t.y) / k.y;
		return x * x + y * y;
	};
	R g[N], best = 1e30L;
	for(int i = 0; i < N; ++i) best = std::min(best, g[i] = level(table[size_t(i)].first, table[size_t(i)].second));
	// all local minima
	for(int i = 0; i < N; ++i)
	{
		if(g[i] > g[(i + 1) % N] || g[i] > g[(i + N - 1) % N]) continue;
		R lo = 2 * PI * (i - 1) / N, hi = 2 * PI * (i + 1) / N;
		for(int n = 0; n < 70; ++n)
		{
			R m1 = lo + (hi - lo) / 3, m2 = hi - (hi - lo) / 3;
			if(level(std::cos(m1), std::sin(m1)) < level(std::cos(m2), std::sin(m2))) hi = m2; else lo = m1;
		}
		best = std::min(best, level(std::cos(lo), std::sin(lo)));
	}
	return best;
}
inline Ell scaled(Ell e, R s) { e.axes = s * e.axes; e.margin = s * e.margin; return e; }
// 1 footprints overlap, 0 they do not, -1 too close to touching to say
inline int overlaps(const Ell& a, const Ell& b)
{
	R in = 0.998L, out = 1.0005L;
	Ell a1 = scaled(a, in), b1 = scaled(b, in), a2 = scaled(a, out), b2 = scaled(b, out);
	if(overlap_level(a1, b1) < 1 || overlap_level(b1, a1) < 1) return 1;
	if(overlap_level(a2, b2) > 1 && overlap_level(b2, a2) > 1) return 0;
	return -1;
}
} // namespace ref
#endif
