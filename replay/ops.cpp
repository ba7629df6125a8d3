// runtime contracts of the elementwise operators: values (C07), folding / shortcuts / reuse (C08), gradients (C12)
// Expression programs are built with the real operators and compared with an independent evaluator (long double, forward-mode duals).
#include "rv.hpp"
#include "graph/leaf/variable.hpp"
#include "graph/leaf/placeholder.hpp"
#include "graph/leaf/constant.hpp"
#include "graph/varptr.hpp"
#include "graph/operations/operations.hpp"
#include <deque>
#include <array>
using namespace rv;
using namespace nnet;
typedef long double ld;
typedef varptr<double> vp;

enum Op { SIN, COS, TAN, CSC, SEC, COT, EXP, SQRT, LOG, ROUND, NEG, ABS, IDENT,        // unary
	POW, CLIP, ADDS, SADD, SUBS, SSUB, MULS, SMUL, DIVS, SDIV, GTS, SGT,              // with scalars
	ADD, SUB, MUL, DIV, EQ, NEQ, GT,                                                 // binary
	NOPS };
static const char* NAME[] = {"sin", "cos", "tan", "csc", "sec", "cot", "exp", "sqrt", "log", "round", "-a", "+a", "identity",
	"pow(a,s)", "clip_val", "a+s", "s+a", "a-s", "s-a", "a*s", "s*a", "a/s", "s/a", "gt(a,s)", "gt(s,a)",
	"a+b", "a-b", "a*b", "a/b", "eq", "neq", "gt(a,b)"};
static bool binary (int o) { return o >= ADD; }
static bool differentiable (int o) { return o != ROUND && o != CLIP && o != GTS && o != SGT && o != EQ && o != NEQ && o != GT; }
struct D { ld v, d; };

template <typename F> static D ev (int o, D a, D b, F s, F t)
{
	ld c, n;
	switch (o)
	{
		case SIN: return {sinl(a.v), a.d * cosl(a.v)};
		case COS: return {cosl(a.v), -a.d * sinl(a.v)};
		case TAN: c = cosl(a.v); return {sinl(a.v) / c, a.d / (c * c)};
		case CSC: n = sinl(a.v); return {1 / n, -a.d * cosl(a.v) / (n * n)};
		case SEC: c = cosl(a.v); return {1 / c, a.d * sinl(a.v) / (c * c)};
		case COT: n = sinl(a.v); return {cosl(a.v) / n, -a.d / (n * n)};
		case EXP: return {expl(a.v), a.d * expl(a.v)};
		case SQRT: return {sqrtl(a.v), a.d / (2 * sqrtl(a.v))};
		case LOG: return {logl(a.v), a.d / a.v};
		case ROUND: return {roundl(a.v), 0};
		case NEG: return {-a.v, -a.d};
		case ABS: return {fabsl(a.v), a.v > 0 ? a.d : a.v < 0 ? -a.d : 0};
		case IDENT: return a;
		case POW: return {powl(a.v, s), s == 0 ? 0 : s * powl(a.v, s - 1) * a.d};
		case CLIP: { F lo = std::min(s, t), hi = std::max(s, t); return {a.v < lo ? lo : a.v > hi ? hi : a.v, 0}; }
		case ADDS: case SADD: return {a.v + s, a.d};
		case SUBS: return {a.v - s, a.d};
		case SSUB: return {s - a.v, -a.d};
		case MULS: case SMUL: return {a.v * s, a.d * s};
		case DIVS: return {a.v / s, a.d / s};
		case SDIV: return {s / a.v, -s * a.d / (a.v * a.v)};
		case GTS: return {ld(a.v > s), 0};
		case SGT: return {ld(s > a.v), 0};
		case ADD: return {a.v + b.v, a.d + b.d};
		case SUB: return {a.v - b.v, a.d - b.d};
		case MUL: return {a.v * b.v, a.d * b.v + a.v * b.d};
		case DIV: return {a.v / b.v, (a.d * b.v - a.v * b.d) / (b.v * b.v)};
		case EQ: return {ld(a.v == b.v), 0};
		case NEQ: return {ld(a.v != b.v), 0};
		default: return {ld(a.v > b.v), 0};
	}
}
static bool gt (double a, double b) { return a > b; }
static vp build (int o, vp a, vp b, double s, double t)
{
	switch (o)
	{
		case SIN: return nnet::sin<double>(a);
		case COS: return nnet::cos<double>(a);
		case TAN: return nnet::tan<double>(a);
		case CSC: return nnet::csc<double>(a);
		case SEC: return nnet::sec<double>(a);
		case COT: return nnet::cot<double>(a);
		case EXP: return nnet::exp<double>(a);
		case SQRT: return nnet::sqrt<double>(a);
		case LOG: return nnet::log<double>(a);
		case ROUND: return nnet::round<double>(a);
		case NEG: return -a;
		case ABS: return +a;
		case IDENT: return nnet::identity<double>(a);
		case POW: return nnet::pow<double>(a, s);
		case CLIP: return nnet::clip_val<double>(a, s, t);
		case ADDS: return a + s;
		case SADD: return s + a;
		case SUBS: return a - s;
		case SSUB: return s - a;
		case MULS: return a * s;
		case SMUL: return s * a;
		case DIVS: return a / s;
		case SDIV: return s / a;
		case GTS: return nnet::conditional<double>(a, s, gt, "gt");
		case SGT: return nnet::conditional<double>(s, a, gt, "gt");
		case ADD: return a + b;
		case SUB: return a - b;
		case MUL: return a * b;
		case DIV: return a / b;
		case EQ: return nnet::eq<double>(a, b);
		case NEQ: return nnet::neq<double>(a, b);
		default: return nnet::conditional<double>(a, b, gt, "gt");
	}
}

//! one operand or result: the real node and what it stands for
struct Node
{
	vp real;
	std::vector<ld> hi;                          // expected values, long double
	std::vector<double> lo;                      // the same program in double arithmetic
	std::vector<std::vector<ld> > grad, gradlo;  // per variable, per position
	bool smooth = true, exact = true, isconst = false, isvar = false, scalar = false;
	std::string expr;
};
struct Prog
{
	std::deque<Node> pool;
	std::vector<variable<double>*> vars;
	std::vector<placeholder<double>*> phs;
	dims_t shape;
	size_t n;
};
static std::string lit (double s) { std::ostringstream o; o.precision(17); o << s; return o.str(); }

//! fills a variable with given values
struct vec_init : public initializer<double>
{
	std::vector<double> v;
	vec_init (std::vector<double> d) : v(d) {}
protected:
	virtual itensor_handler<double>* clone_impl (void) const { return new vec_init(*this); }
	virtual itensor_handler<double>* move_impl (void) { return new vec_init(*this); }
	virtual void calc_data (double* dest, tensorshape s) { for (size_t i = 0, n = s.n_elems(); i < n; i++) dest[i] = v[i % v.size()]; }
};
static void leaf (Prog& P, int kind, size_t nleafvars, const std::vector<double>& vals)
{
	bool scalar = vals.size() == 1;
	P.pool.emplace_back();
	Node& x = P.pool.back();
	x.scalar = scalar;
	x.lo = vals; x.hi = std::vector<ld>(vals.begin(), vals.end());
	tensorshape sh = scalar ? tensorshape(dims_t{1}) : tensorshape(P.shape);
	std::string w = scalar ? "1" : "n";
	x.grad.assign(nleafvars, std::vector<ld>(vals.size(), 0));
	if (kind == 0)
	{
		vec_init init(vals);
		variable<double>* v = new variable<double>(sh, init, "v");
		v->initialize();
		x.grad[P.vars.size()].assign(vals.size(), 1);
		P.vars.push_back(v);
		x.isvar = true;
		x.real = v;
		x.expr = "v" + w;
	}
	else if (kind == 1)
	{
		placeholder<double>* p = new placeholder<double>(sh, "p");
		*p = vals;
		P.phs.push_back(p);
		x.real = p;
		x.expr = "p" + w;
	}
	else
	{
		x.real = constant<double>::get(vals, sh);
		x.isconst = true;
		x.expr = scalar ? "c(" + lit(vals[0]) + ")" : "cn";
	}
	x.gradlo = x.grad;
}

static void values_agree (const Node& x, const std::string& key)
{
	inode<double>* r = x.real.get();
	if (nullptr == r) { RV_CHECK(false, key + ":null", x.expr << " gave no node"); return; }
	std::vector<double> got = expose<double>(r);
	size_t n = x.hi.size();
	RV_CHECK(got.size() == n || got.size() == 1, key + ":size", x.expr << " has " << got.size() << " elements, expected " << n);
	if (got.size() != n && got.size() != 1) return;
	for (size_t i = 0; i < n; i++)
	{
		ld want = x.hi[i];
		if (!std::isfinite((double) want) || !std::isfinite(x.lo[i]) || fabsl(want) > 1e12) continue;   // outside the domain
		double noise = std::fabs((double) (want - x.lo[i]));
		if (noise > 1e-7 * std::max<ld>(1, fabsl(want))) continue;                                        // ill-conditioned
		double g = got[got.size() == 1 ? 0 : i];
		RV_CHECK(close(g, (double) want, 1e-9 + 1e3 * noise), key, x.expr << " element " << i << " is " << lit(g) << ", expected " << lit((double) want));
	}
}
static void gradient_agrees (Prog& P, const Node& x, size_t v, const std::string& key)
{
	inode<double>* r = x.real.get();
	if (nullptr == r || !x.smooth) return;
	if (x.hi.size() > 1 && false == r->get_shape().is_fully_defined()) return;
	vp g = r->derive(P.vars[v]);
	if (nullptr == g.get()) { RV_CHECK(false, key + ":null", "derivative of " << x.expr << " is no node"); return; }
	std::vector<double> got = expose<double>(g.get());
	size_t n = x.hi.size();
	RV_CHECK(got.size() == n || got.size() == 1, key + ":size", "derivative of " << x.expr << " has " << got.size() << " elements, expected " << n);
	if (got.size() != n && got.size() != 1) return;
	for (size_t i = 0; i < n; i++)
	{
		ld want = x.grad[v][i], low = x.gradlo[v][i];
		if (!std::isfinite((double) want) || !std::isfinite((double) low) || fabsl(want) > 1e9) continue;
		if (!std::isfinite((double) x.hi[i]) || fabsl(x.hi[i]) > 1e9) continue;
		double noise = std::fabs((double) (want - low));
		if (noise > 1e-6 * std::max<ld>(1, fabsl(want))) continue;
		double o = got[got.size() == 1 ? 0 : i];
		if (!std::isfinite(o)) continue;      // an intermediate of the formula leaves the domain
		RV_CHECK(close(o, (double) want, 1e-7 + 1e4 * noise), key, "derivative of " << x.expr << " by v#" << v << " element " << i << " is " << lit(o) << ", expected " << lit((double) want));
	}
}
static const double POOL[] = {0, 1, -1, 2, 0.5, -2, 3, 1.0000001, 1.0000002, 1e-7, 2e-7, 12345678, 12345679, 0.1, 1.5};
static double rscalar (void) { return coin(3) ? rval() : POOL[rnd(0, sizeof POOL / sizeof *POOL - 1)]; }

static Node* apply (Prog& P, int o, size_t ia, size_t ib, double s, double t, const std::string& bucket)
{
	Node* a = &P.pool[ia], * b = &P.pool[ib];
	if (!binary(o)) b = a;
	size_t n = std::max(a->hi.size(), b->hi.size());
	Node out;
	out.expr = std::string(NAME[o]) + "(" + a->expr + (binary(o) ? "," + b->expr : "");
	if ((o >= POW && o <= SGT)) out.expr += "," + lit(s);
	if (o == CLIP) out.expr += "," + lit(t);
	out.expr += ")";
	if (out.expr.size() > 300) return nullptr;
	out.exact = o == NEG || o == IDENT ? a->exact : false;
	out.smooth = a->smooth && b->smooth && differentiable(o);
	auto at = [](const auto& v, size_t i) { return v[v.size() == 1 ? 0 : i]; };
	size_t nv = a->grad.size();
	out.grad.assign(nv, std::vector<ld>(n)); out.gradlo = out.grad;
	for (size_t i = 0; i < n; i++)
	{
		D r = ev<ld>(o, {at(a->hi, i), 0}, {at(b->hi, i), 0}, s, t);
		out.hi.push_back(r.v);
		out.lo.push_back((double) ev<double>(o, {at(a->lo, i), 0}, {at(b->lo, i), 0}, s, t).v);
		// outside the domain (or too close to a jump to be decided in floating point): nothing is claimed here or downstream
		ld x = at(a->hi, i), y = binary(o) ? at(b->hi, i) : o == GTS || o == SGT ? (ld) s : o == CLIP ? x : 0;
		bool jump = o == GTS || o == SGT || o >= EQ || o == ROUND || o == ABS;
		if (o == ROUND) y = floorl(x) + 0.5L;
		bool tie = jump && !(a->exact && (b->exact || !binary(o))) && fabsl(x - y) <= 1e-7L * std::max<ld>(1, fabsl(x));
		if (o == ROUND || o == ABS) tie = tie && (o == ROUND);
		if (tie || !std::isfinite((double) x) || (binary(o) && !std::isfinite((double) y)) || !std::isfinite(out.lo[i]) || fabsl(out.hi[i]) > 1e12L)
			out.hi[i] = NAN;
		for (size_t v = 0; v < nv; v++)
		{
			out.grad[v][i] = ev<ld>(o, {at(a->hi, i), at(a->grad[v], i)}, {at(b->hi, i), at(b->grad[v], i)}, s, t).d;
			out.gradlo[v][i] = (double) ev<double>(o, {at(a->lo, i), (double) at(a->gradlo[v], i)}, {at(b->lo, i), (double) at(b->gradlo[v], i)}, s, t).d;
		}
	}
	begin(bucket, out.expr);
	bool zdiv = false;
	std::vector<double> bv;
	if (o == DIVS) zdiv = s == 0;
	if ((o == SDIV || o == DIV)) { inode<double>* d = o == DIV ? b->real.get() : a->real.get(); if (dynamic_cast<constant<double>*>(d)) for (double x : expose<double>(d)) zdiv = zdiv || x == 0; }
	std::vector<double> before = a->real.get() ? expose<double>(a->real.get()) : std::vector<double>();
	try { out.real = build(o, a->real, b->real, s, t); }
	catch (const std::exception& e)
	{
		RV_CHECK(zdiv, std::string("throws:") + NAME[o], out.expr << " threw " << e.what());
		return nullptr;
	}
	if (zdiv) return nullptr;
	P.pool.push_back(out);
	Node& r = P.pool.back();
	values_agree(r, std::string("value:") + NAME[o]);
	std::vector<double> after = P.pool[ia].real.get() ? expose<double>(P.pool[ia].real.get()) : std::vector<double>();
	bool same = before.size() == after.size();
	for (size_t i = 0; same && i < before.size(); i++) same = close(before[i], after[i], 0);
	RV_CHECK(same, "operand-changed", out.expr << " changed its operand");
	return &r;
}
static void finish (Prog& P)
{
	P.pool.clear();
	for (auto v : P.vars) delete v;
	for (auto p : P.phs) delete p;
}
static std::vector<double> leafvals (size_t n)
{
	if (coin(3)) return rvecd(n, 0.05, 1.5);           // domain of log, sqrt, pow
	if (coin(4)) return std::vector<double>(n, POOL[rnd(0, 5)]);
	std::vector<double> v = rvecd(n, -2.5, 2.5);
	for (double& x : v) if (coin(5)) x = (double) rnd(0, 4) - 2;
	return v;
}
static void start (Prog& P, int mode, size_t& nv)
{
	P.shape = rshape(1, 3, 1, 4, 48);
	P.n = nelems(P.shape);
	if (P.n == 1 && coin()) { P.shape = {3}; P.n = 3; }
	nv = rnd(1, 2);
	for (size_t i = 0; i < nv; i++) leaf(P, 0, nv, leafvals(coin(4) ? 1 : P.n));
	if (coin()) leaf(P, 1, nv, leafvals(coin(3) ? 1 : P.n));
	if (mode != 12 || coin()) leaf(P, 2, nv, leafvals(coin() ? 1 : P.n));
	if (mode == 8) { leaf(P, 2, nv, leafvals(P.n)); leaf(P, 2, nv, leafvals(1)); }
}
//! every operator once on every kind of operand
static void sweep (int mode)
{
	for (int o = 0; o < NOPS; o++) for (int k = 0; k < 3; k++) for (int k2 = 0; k2 < (binary(o) ? 4 : 1); k2++) for (int sc = 0; sc < 4; sc++) for (double s : POOL)
	{
		if (s != POOL[0] && (binary(o) || o < POW)) break;
		if (mode == 7 && k == 2 && (k2 == 2 || !binary(o))) continue;
		if (mode == 12 && (!differentiable(o) || k == 2 && k2 == 2)) continue;
		Prog P; P.shape = {2, 3}; P.n = 6;
		size_t nv = 2;
		leaf(P, k, nv, o == LOG || o == SQRT || o == POW ? rvecd(sc & 1 ? 1 : 6, 0.1, 2) : leafvals(sc & 1 ? 1 : 6));
		if (k2 < 3) leaf(P, k2, nv, leafvals(sc & 2 ? 1 : 6));
		size_t ib = k2 < 3 && binary(o) ? 1 : 0;
		Node* r = apply(P, o, 0, ib, s, s + 1, std::string("sweep ") + NAME[o]);
		if (r && mode == 12) for (size_t v = 0; v < P.vars.size(); v++) gradient_agrees(P, *r, v, std::string("gradient:") + NAME[o]);
		if (r && mode == 8)
		{
			apply(P, o, 0, ib, s, s + 1, std::string("rebuild ") + NAME[o]);
			if (binary(o)) apply(P, o, ib, 0, s, s + 1, std::string("swapped ") + NAME[o]);
			apply(P, o, 0, ib, s + 1e-7, s + 1.0000003, std::string("near scalar ") + NAME[o]);
			for (int o2 : {NEG, ABS, ADDS, SADD, SUBS, SSUB, MULS, SMUL, DIVS, SDIV, GTS, SGT, POW, CLIP, IDENT, ROUND})
				if (P.pool.size() > 2) apply(P, o2, coin() ? 0 : P.pool.size() - 1, 0, s, s + 1, std::string("after ") + NAME[o]);
			for (int o2 : {ADD, SUB, MUL, DIV, GT, EQ}) { apply(P, o2, 0, P.pool.size() - 1, s, 0, std::string("after ") + NAME[o]); apply(P, o2, P.pool.size() - 2, 0, s, 0, std::string("after ") + NAME[o]); }
		}
		finish(P);
		if (!C().failed.empty() && C().failed.size() > 20) return;
	}
}
static void programs (int mode)
{
	while (more() && C().failed.size() < 20)
	{
		Prog P; size_t nv;
		start(P, mode, nv);
		int len = rnd(2, mode == 12 ? 7 : 12);
		std::vector<std::array<double, 5> > hist;
		for (int i = 0; i < len; i++)
		{
			int o = rnd(0, NOPS - 1);
			if (mode == 12 && !differentiable(o)) continue;
			size_t ia = rnd(0, P.pool.size() - 1), ib = coin(5) ? ia : rnd(0, P.pool.size() - 1);
			double s = rscalar(), t = coin(4) ? s : rscalar();
			if (o == POW && coin()) s = (double) rnd(0, 3);
			if (mode == 8 && !hist.empty() && coin(3))
			{	// rebuild something seen before, possibly with a neighbouring operator, scalar or order
				auto& h = hist[rnd(0, hist.size() - 1)];
				o = (int) h[0]; ia = (size_t) h[1]; ib = (size_t) h[2]; s = h[3]; t = h[4];
				if (coin(3)) std::swap(ia, ib);
				if (coin(3)) s += 1e-7;
				if (coin(4)) o = o < POW ? rnd(0, IDENT) : o < ADD ? rnd(POW, SGT) : rnd(ADD, GT);
			}
			if (apply(P, o, ia, ib, s, t, std::string("program ") + NAME[o])) hist.push_back({{(double) o, (double) ia, (double) ib, s, t}});
			if (mode == 8 && coin(6) && P.pool.size() > 3)
				for (size_t k = 0; k < P.pool.size(); k++) { begin("recheck", P.pool[k].expr); values_agree(P.pool[k], "recheck"); }
		}
		if (mode == 12 && !P.pool.empty())
			for (int k = 0; k < 3; k++)
			{
				Node& x = P.pool[k == 0 ? P.pool.size() - 1 : rnd(0, P.pool.size() - 1)];
				size_t v = rnd(0, nv - 1);
				begin("gradient program", "d/dv" + std::to_string(v) + " " + x.expr);
				gradient_agrees(P, x, v, "gradient:program");
				begin("gradient keeps values", x.expr);
				values_agree(x, "gradient-changed-value");
			}
		finish(P);
	}
}
static void chain_basics (void)
{
	variable<double> v(tensorshape(dims_t{2}), const_init<double>(3), "v"), w(tensorshape(dims_t{2}), const_init<double>(4), "w");
	v.initialize(); w.initialize();
	placeholder<double> p(tensorshape(dims_t{2}), "p");
	auto all = [](vp g, double x) { if (!g.get()) return false; auto d = expose<double>(g.get()); bool ok = !d.empty(); for (double e : d) ok = ok && e == x; return ok; };
	begin("leaf gradients", "v by v, v by w, constant, placeholder");
	RV_CHECK(all(v.derive(&v), 1), "leaf:self", "dv/dv is not one");
	RV_CHECK(all(v.derive(&w), 0), "leaf:other", "dv/dw is not zero");
	RV_CHECK(all(p.derive(&v), 0), "leaf:placeholder", "dp/dv is not zero");
	{
		vp c = constant<double>::get(5);
		RV_CHECK(all(c->derive(&v), 0), "leaf:constant", "dc/dv is not zero");
	}
	vp s = nnet::sin<double>(vp(&v));
	RV_CHECK(all(s->derive(&w), 0), "absent", "the derivative by an absent variable is not zero");
	RV_CHECK(all(s->derive(s.get()), 1), "self", "the derivative of a node by itself is not one");
	vp q = s * vp(&w);
	RV_CHECK(all(q->derive(&v), std::cos(3.0) * 4), "product", "d(sin v * w)/dv");
	RV_CHECK(all(q->derive(&v), std::cos(3.0) * 4), "cached", "the second derivative call differs");
}
static void c07 (void) { sweep(7); programs(7); }
static void c08 (void)
{
	// clipping the norm of a node and clipping the node itself are different functions
	{
		variable<double> v(tensorshape(dims_t{2}), vec_init({3, 4}), "v");
		v.initialize();
		begin("clip_norm", "clip_norm(l2norm(v), cap)");
		vp n = nnet::l2norm<double>(vp(&v));
		vp a = nnet::clip_norm<double>(vp(&v), 1.0), b = nnet::clip_norm<double>(n, 1.0);
		RV_CHECK(a.get() != b.get() && expose<double>(b.get()).size() == 1, "clip_norm", "clip_norm(l2norm(v)) returned clip_norm(v)");
	}
	sweep(8); programs(8);
}
static void c12 (void) { chain_basics(); sweep(12); programs(12); }
int main (int argc, char** argv) { return main_(argc, argv, {{"C07", c07}, {"C08", c08}, {"C12", c12}}); }
