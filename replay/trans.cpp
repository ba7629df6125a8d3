// runtime contracts of reductions and axial arithmetic (C09), layout transforms (C10) and matrix multiplication (C11)
// Every result is compared, element by element, with loops over plain dimension lists written here.
#include "rv.hpp"
#include <array>
#include "graph/leaf/variable.hpp"
#include "graph/leaf/placeholder.hpp"
#include "graph/leaf/constant.hpp"
#include "graph/varptr.hpp"
#include "graph/operations/operations.hpp"
using namespace rv;
using namespace nnet;
typedef varptr<double> vp;
typedef std::vector<double> vals_t;

struct vec_init : public initializer<double>
{
	vals_t v;
	vec_init (vals_t d) : v(d) {}
protected:
	virtual itensor_handler<double>* clone_impl (void) const { return new vec_init(*this); }
	virtual itensor_handler<double>* move_impl (void) { return new vec_init(*this); }
	virtual void calc_data (double* dest, tensorshape s) { for (size_t i = 0, n = s.n_elems(); i < n; i++) dest[i] = v[i % v.size()]; }
};

//! a leaf with known shape and elements
struct Leaf
{
	int kind;              // 0 variable, 1 placeholder, 2 constant
	dims_t dims;
	vals_t v;
	variable<double>* var = nullptr;
	placeholder<double>* ph = nullptr;
	vp node;
	std::vector<vp> held;
	Leaf (const Leaf&) = delete;
	Leaf (int k, dims_t d, vals_t x) : kind(k), dims(d), v(x)
	{
		if (k == 0) { vec_init init(x); var = new variable<double>(tensorshape(d), init, "v"); var->initialize(); node = vp(var); }
		else if (k == 1) { ph = new placeholder<double>(tensorshape(d), "p"); *ph = x; node = vp(ph); }
		else node = vp(constant<double>::get(x, tensorshape(d)));
	}
	~Leaf (void) { held.clear(); node = vp(); delete var; delete ph; }
	//! a new value, through the library
	void change (vals_t x)
	{
		if (kind == 2) return;
		v = x;
		if (ph) *ph = x;
		else { placeholder<double> src{tensorshape(dims), "src"}; src = x; var->assign(&src)(true); }
	}
};
static size_t at (const dims_t& d, const dims_t& c)   // column-major; missing coordinates are 0
{
	size_t idx = 0, stride = 1;
	for (size_t i = 0; i < d.size(); i++) { idx += stride * (i < c.size() ? c[i] : 0); stride *= d[i]; }
	return idx;
}
static dims_t co (const dims_t& d, size_t i)
{
	dims_t c;
	for (size_t x : d) { c.push_back(i % x); i /= x; }
	return c;
}
static vals_t elems (size_t n)
{
	switch (rnd(0, 3))
	{
		case 0: return rvec(n);
		case 1: { vals_t v(n); for (double& x : v) x = (double) rnd(0, 4) - 2; return v; }    // ties
		case 2: { vals_t v(n); for (double& x : v) x = -1 - (double) rnd(0, 5) / 2; return v; } // negative only
		default: { vals_t v(n); for (size_t i = 0; i < n; i++) v[i] = (double) i + 1; return v; }
	}
}
static vals_t ints (size_t n, int m = 4) { vals_t v(n); for (double& x : v) x = (double) rnd(0, 2 * m) - m; return v; }

struct Want { dims_t dims; vals_t v; bool keep = false; size_t axis = 0; };
typedef std::vector<Leaf*> leaves_t;
static std::vector<dims_t> shapes_of (const leaves_t& L) { std::vector<dims_t> s; for (auto l : L) s.push_back(l->dims); return s; }
static std::string desc (const std::string& op, const leaves_t& L)
{
	std::string s = op;
	for (auto l : L) s += " " + std::string(l->kind == 0 ? "v" : l->kind == 1 ? "p" : "c") + str(l->dims);
	return s;
}
static dims_t strip (dims_t d) { while (!d.empty() && d.back() == 1) d.pop_back(); return d; }
static void agree (const std::string& key, const std::string& what, inode<double>* r, const Want& w, double tol)
{
	if (nullptr == r) { RV_CHECK(false, key + ":null", what << " gave no node"); return; }
	dims_t got = r->get_shape().as_list();
	dims_t alt = w.dims;
	if (w.keep) alt.insert(alt.begin() + w.axis, 1);
	RV_CHECK(strip(got) == strip(w.dims) || (w.keep && strip(got) == strip(alt)), key + ":shape", what << " has shape " << str(got) << ", expected " << str(w.dims));
	const tensor<double>* t = r->eval();
	if (nullptr == t || !t->is_alloc()) { RV_CHECK(false, key + ":value", what << " has no value"); return; }
	vals_t g = t->expose();
	RV_CHECK(g.size() == w.v.size(), key + ":size", what << " has " << g.size() << " elements, expected " << w.v.size());
	RV_CHECK(t->get_shape().as_list() == got, key + ":tensorshape", what << " reports shape " << str(got) << " but holds " << str(t->get_shape().as_list()));
	if (g.size() != w.v.size()) return;
	for (size_t i = 0; i < g.size(); i++)
		if (std::isfinite(w.v[i]) && !close(g[i], w.v[i], tol))
		{
			std::ostringstream o; o.precision(17);
			o << what << " element " << i << " is " << g[i] << ", expected " << w.v[i];
			for (double x : w.v) if (w.v.size() > 60) break; else o << " " << x;
			fail(key, o.str());
			break;
		}
}
//! build, compare, build again, change a leaf, compare, check the operands
static void run (const std::string& bucket, const std::string& op, const leaves_t& L, std::function<vp(void)> build, std::function<Want(void)> want, double tol = 0)
{
	std::string d = desc(op, L);
	begin(bucket, d);
	std::string key = bucket;
	vp r;
	try { r = build(); }
	catch (const std::exception& e) { fail(key + ":throws", d + " threw " + e.what()); return; }
	agree(key, d, r.get(), want(), tol);
	for (auto l : L)
	{
		vals_t now = expose<double>(l->node.get());
		RV_CHECK(now == l->v && l->node->get_shape().as_list() == l->dims, key + ":operand", d << " changed its operand");
	}
	if (coin(3))
	{
		begin(bucket + " again", d);
		agree(key + ":again", d, build().get(), want(), tol);
	}
	if (coin(3))
	{
		Leaf* l = L[rnd(0, L.size() - 1)];
		begin(bucket + " changed", d);
		l->change(elems(l->v.size()));
		agree(key + ":changed", d, r.get(), want(), tol);
	}
	L[0]->held.push_back(r);
}

// ------------------------------------------------------------------ C09
enum Red { RMAX, RSUM, RMEAN, AMAX };
static const char* RN[] = {"reduce_max", "reduce_sum", "reduce_mean", "arg_max"};
static Want reduced (int k, const Leaf& l, bool has, size_t axis)
{
	Want w;
	dims_t d = l.dims;
	if (!has) { d = {l.v.size()}; axis = 0; w.dims = {1}; }
	else if (axis >= d.size()) { w.dims = d; w.v = l.v; return w; }
	else { w.dims = d; w.dims.erase(w.dims.begin() + axis); w.keep = true; w.axis = axis; if (w.dims.empty()) { w.dims = {1}; w.keep = false; } }
	dims_t full = d; full[axis] = 1;
	for (size_t i = 0, n = nelems(full); i < n; i++)
	{
		dims_t c = co(full, i);
		double m = 0, s = 0; size_t best = 0;
		for (size_t j = 0; j < d[axis]; j++)
		{
			c[axis] = j;
			double x = l.v[at(d, c)];
			if (j == 0 || x > m) { m = x; best = j; }
			s += x;
		}
		w.v.push_back(k == RMAX ? m : k == RSUM ? s : k == RMEAN ? s / d[axis] : (double) best);
	}
	return w;
}
static void reduce_case (Leaf& l, int k, bool has, size_t axis)
{
	leaves_t L = {&l};
	std::string op = std::string(RN[k]) + (has ? " axis " + std::to_string(axis) : "");
	auto build = [&](void) -> vp
	{
		optional<size_t> dim;
		if (has) dim = axis;
		switch (k)
		{
			case RMAX: return nnet::reduce_max<double>(l.node, dim);
			case RSUM: return nnet::reduce_sum<double>(l.node, dim);
			case RMEAN: return nnet::reduce_mean<double>(l.node, dim);
			default: return nnet::arg_max<double>(l.node, dim);
		}
	};
	std::string b = std::string(RN[k]) + (has ? axis < l.dims.size() ? " axis" : " beyond" : " all");
	if (k == AMAX && has && axis >= l.dims.size())
	{
		begin(b, desc(op, L));
		bool threw = false;
		try { build(); } catch (const std::logic_error&) { threw = true; }
		RV_CHECK(threw, b, op << " on " << str(l.dims) << " was accepted");
		return;
	}
	run(b, op, L, build, [&](void) { return reduced(k, l, has, axis); }, k == RSUM || k == RMEAN ? 1e-12 : 0);
}
static double ax (int o, double x, double y) { return o == 0 ? x + y : o == 1 ? x - y : o == 2 ? x * y : x / y; }
static const char* AN[] = {"add_axial", "sub_axial", "mul_axial", "div_axial"};
static void axial_case (Leaf& low, Leaf& full, int o, bool left, size_t axis)
{
	leaves_t L = {&low, &full};
	std::string op = std::string(AN[o]) + (left ? "_a" : "_b") + " axis " + std::to_string(axis);
	auto build = [&](void) -> vp
	{
		vp a = left ? low.node : full.node, b = left ? full.node : low.node;
		switch (o * 2 + !left)
		{
			case 0: return nnet::add_axial_a<double>(a, b, axis);
			case 1: return nnet::add_axial_b<double>(a, b, axis);
			case 2: return nnet::sub_axial_a<double>(a, b, axis);
			case 3: return nnet::sub_axial_b<double>(a, b, axis);
			case 4: return nnet::mul_axial_a<double>(a, b, axis);
			case 5: return nnet::mul_axial_b<double>(a, b, axis);
			case 6: return nnet::div_axial_a<double>(a, b, axis);
			default: return nnet::div_axial_b<double>(a, b, axis);
		}
	};
	auto want = [&](void)
	{
		Want w; w.dims = full.dims;
		dims_t one = full.dims; one[axis] = 1;
		for (size_t i = 0; i < full.v.size(); i++)
		{
			dims_t c = co(full.dims, i);
			c[axis] = 0;
			double x = low.v[low.v.size() == 1 ? 0 : at(one, c)], y = full.v[i];
			w.v.push_back(left ? ax(o, x, y) : ax(o, y, x));
		}
		return w;
	};
	run(std::string(AN[o]) + (left ? "_a" : "_b") + (axis == 0 ? " first" : axis + 1 == full.dims.size() ? " last" : " middle"), op, L, build, want, 1e-12);
}
static int leafkind (void) { return coin(6) ? 2 : rnd(0, 1); }
static dims_t drop (dims_t d, size_t axis) { if (axis == 0 || axis + 1 == d.size()) d.erase(d.begin() + axis); else d[axis] = 1; return d; }
static void c09 (void)
{
	for (dims_t d : all_shapes(3, {1, 2, 3}))
	{
		if (d.empty()) continue;
		for (int kind = 0; kind < 3; kind++)
		{
			Leaf l(kind, d, elems(nelems(d)));
			for (int k = 0; k < 4; k++)
			{
				reduce_case(l, k, false, 0);
				for (size_t a = 0; a < d.size() + 2; a++) reduce_case(l, k, true, a);
			}
		}
		if (d.size() > 1 && nelems(d) > 1) for (size_t a = 0; a < d.size(); a++)
		{
			dims_t ld = drop(d, a);
			Leaf f(coin() ? 0 : 1, d, elems(nelems(d))), lo(coin() ? 0 : 1, ld, elems(nelems(ld)));
			for (int o = 0; o < 4; o++) for (int left = 0; left < 2; left++) axial_case(lo, f, o, left, a);
		}
	}
	while (more() && C().failed.size() < 20)
	{
		dims_t d = rshape(1, 4, 1, 5, 200);
		if (coin(8)) { d = {rdim(1, 12, 300)}; if (coin()) d.push_back(rnd(1, 3)); if (coin()) std::reverse(d.begin(), d.end()); }
		Leaf l(leafkind(), d, elems(nelems(d)));
		for (int i = 0; i < 6; i++)
		{
			bool has = !coin(4);
			reduce_case(l, rnd(0, 3), has, coin(8) ? d.size() + rnd(0, 2) : rnd(0, d.size() - 1));
		}
		if (d.size() > 1 && nelems(d) > 1)
		{
			size_t a = rnd(0, d.size() - 1);
			dims_t ld = drop(d, a);
			if (nelems(ld) > 1 || coin(4))
			{
				Leaf f(rnd(0, 1), d, elems(nelems(d))), lo(rnd(0, 1), ld, elems(nelems(ld)));
				for (int i = 0; i < 4; i++) axial_case(lo, f, rnd(0, 3), coin(), a);
			}
		}
	}
}

// ------------------------------------------------------------------ C10
static void transpose_case (Leaf& l, size_t p, size_t q)
{
	leaves_t L = {&l};
	run(p >= l.dims.size() || q >= l.dims.size() ? "transpose beyond" : "transpose", "transpose " + std::to_string(p) + "," + std::to_string(q), L,
	[&](void) { return nnet::transpose<double>(l.node, {p, q}); },
	[&](void)
	{
		Want w;
		dims_t in = l.dims;
		while (in.size() <= std::max(p, q)) in.push_back(1);
		w.dims = in; std::swap(w.dims[p], w.dims[q]);
		for (size_t i = 0; i < l.v.size(); i++) { dims_t c = co(w.dims, i); std::swap(c[p], c[q]); w.v.push_back(l.v[at(in, c)]); }
		return w;
	});
	begin("transpose twice", desc("transpose twice " + std::to_string(p) + "," + std::to_string(q), L));
	vp tw = nnet::transpose<double>(nnet::transpose<double>(l.node, {p, q}), {q, p});
	Want w; w.dims = l.dims; w.v = l.v;
	agree("transpose twice", "transposing twice", tw.get(), w, 0);
}
static void fit_case (Leaf& l, Leaf& wt)
{
	leaves_t L = {&l, &wt};
	if (l.kind == 2 && l.v.size() == 1) return;
	run("fit", "fit", L, [&](void) { return nnet::fit<double>(l.node, wt.node); },
	[&](void)
	{
		Want w; w.dims = wt.dims;
		for (size_t i = 0, n = nelems(w.dims); i < n; i++)
		{
			dims_t c = co(w.dims, i);
			bool in = true;
			for (size_t j = 0; j < c.size(); j++) in = in && c[j] < (j < l.dims.size() ? l.dims[j] : 1);
			w.v.push_back(in ? l.v[at(l.dims, c)] : 0);
		}
		return w;
	});
}
static void extend_case (Leaf& l, size_t idx, size_t mult)
{
	leaves_t L = {&l};
	run(idx >= l.dims.size() ? "extend beyond" : "extend", "extend " + std::to_string(idx) + " times " + std::to_string(mult), L,
	[&](void) { return nnet::extend<double>(l.node, idx, mult); },
	[&](void)
	{
		Want w;
		if (mult == 0) { w.dims = {1}; w.v = {0}; return w; }
		dims_t in = l.dims;
		while (in.size() <= idx) in.push_back(1);
		w.dims = in; w.dims[idx] *= mult;
		for (size_t i = 0, n = nelems(w.dims); i < n; i++) { dims_t c = co(w.dims, i); c[idx] %= in[idx]; w.v.push_back(l.v[at(in, c)]); }
		return w;
	});
}
static void flip_case (Leaf& l, dims_t axes)
{
	leaves_t L = {&l};
	bool beyond = false;
	for (size_t a : axes) beyond = beyond || a >= l.dims.size();
	run(beyond ? "flip beyond" : "flip", "flip " + str(axes), L, [&](void) { return nnet::flip<double>(l.node, axes); },
	[&](void)
	{
		Want w; w.dims = l.dims;
		for (size_t i = 0; i < l.v.size(); i++)
		{
			dims_t c = co(l.dims, i);
			for (size_t a : axes) if (a < c.size()) c[a] = l.dims[a] - 1 - c[a];
			w.v.push_back(l.v[at(l.dims, c)]);
		}
		return w;
	});
}
static void c10 (void)
{
	std::vector<dims_t> S = all_shapes(3, {1, 2, 3});
	for (dims_t d : S)
	{
		if (d.empty()) continue;
		Leaf l(leafkind(), d, elems(nelems(d)));
		for (size_t p = 0; p < d.size() + 2; p++) for (size_t q = 0; q < d.size() + 2; q++) if (p != q) transpose_case(l, p, q);
		for (size_t a = 0; a < d.size() + 2; a++) for (size_t m = 0; m < 4; m++) extend_case(l, a, m);
		for (size_t a = 0; a < d.size() + 1; a++) flip_case(l, {a});
		for (size_t a = 0; a < d.size(); a++) for (size_t b = 0; b < d.size(); b++) flip_case(l, {a, b});
		for (int i = 0; i < 6; i++)
		{
			dims_t wd = S[rnd(1, S.size() - 1)];
			Leaf wt(rnd(0, 1), wd, elems(nelems(wd)));
			fit_case(l, wt);
			l.held.clear();
		}
	}
	while (more() && C().failed.size() < 20)
	{
		dims_t d = rshape(1, 4, 1, 6, 300);
		Leaf l(leafkind(), d, elems(nelems(d)));
		for (int i = 0; i < 3; i++)
		{
			size_t p = rnd(0, d.size() + (coin(4) ? 2 : 0)), q = rnd(0, d.size() + 1);
			if (!coin(4)) { p = rnd(0, d.size() - 1); q = rnd(0, d.size() - 1); }
			if (p != q) transpose_case(l, p, q);
			extend_case(l, coin(4) ? d.size() + rnd(0, 2) : rnd(0, d.size() - 1), rnd(0, 5));
			dims_t axes;
			for (size_t k = rnd(1, 3); k; k--) axes.push_back(rnd(0, d.size() - (coin(5) ? 0 : 1)));
			flip_case(l, axes);
		}
		dims_t wd = d;
		if (coin()) wd = rshape(1, 4, 1, 6, 300); else for (size_t& x : wd) x = std::max<size_t>(1, x + rnd(0, 2) - 1);
		Leaf wt(rnd(0, 1), wd, elems(nelems(wd)));
		fit_case(l, wt);
		l.held.clear();
	}
}

// ------------------------------------------------------------------ C11
static void matmul_case (size_t X, size_t Y, size_t Z, dims_t beyond, bool ta, bool tb, bool integer, int trim = 0)
{
	dims_t ad = ta ? dims_t{Y, Z} : dims_t{Z, Y}, bd = tb ? dims_t{Z, X} : dims_t{X, Z};
	ad.insert(ad.end(), beyond.begin(), beyond.end());
	bd.insert(bd.end(), beyond.begin(), beyond.end());
	if (beyond.empty() && trim)
	{
		if (ad.back() == 1 && !ta) ad.pop_back();
		if (bd.back() == 1 && !tb) bd.pop_back();
	}
	size_t na = nelems(ad), nb = nelems(bd);
	Leaf a(rnd(0, 1), ad, integer ? ints(na) : rvecd(na, -2, 2)), b(rnd(0, 1), bd, integer ? ints(nb) : rvecd(nb, -2, 2));
	leaves_t L = {&a, &b};
	run(X > 256 || Y > 256 || Z > 256 ? "matmul recursive" : beyond.empty() ? "matmul" : "matmul stacked", std::string("matmul") + (ta ? " ta" : "") + (tb ? " tb" : ""), L,
	[&](void) { return nnet::matmul<double>(a.node, b.node, ta, tb); },
	[&](void)
	{
		Want w; w.dims = {X, Y};
		w.dims.insert(w.dims.end(), beyond.begin(), beyond.end());
		size_t k = beyond.empty() ? 1 : nelems(beyond);
		w.v.assign(X * Y * k, 0);
		for (size_t m = 0; m < k; m++) for (size_t y = 0; y < Y; y++) for (size_t z = 0; z < Z; z++)
		{
			double l = a.v[m * Y * Z + (ta ? y + z * Y : z + y * Z)];
			const double* r = &b.v[m * X * Z];
			double* o = &w.v[m * X * Y + y * X];
			if (tb) for (size_t x = 0; x < X; x++) o[x] += l * r[z + x * Z];
			else for (size_t x = 0; x < X; x++) o[x] += l * r[x + z * X];
		}
		return w;
	}, 1e-9);
}
static void refused (dims_t ad, dims_t bd)
{
	Leaf a(rnd(0, 1), ad, ints(nelems(ad))), b(rnd(0, 1), bd, ints(nelems(bd)));
	begin("matmul refused", "matmul " + str(ad) + " " + str(bd));
	bool threw = false;
	try { vp r = nnet::matmul<double>(a.node, b.node); r->eval(); } catch (const std::exception&) { threw = true; }
	RV_CHECK(threw, "matmul refused", "matmul of " << str(ad) << " and " << str(bd) << " was accepted");
}
static void c11 (void)
{
	begin("matmul null", "matmul null");
	{
		Leaf l(0, {2, 2}, ints(4));
		RV_CHECK(nnet::matmul<double>(l.node, vp()).get() == nullptr && nnet::matmul<double>(vp(), l.node).get() == nullptr, "matmul null", "a null operand gave a node");
		// the same node on both sides, and both orders of two nodes
		Leaf m(0, {2, 2}, ints(4));
		vp p = nnet::matmul<double>(l.node, m.node), q = nnet::matmul<double>(m.node, l.node), s = nnet::matmul<double>(l.node, l.node);
		auto mul = [](const vals_t& a, const vals_t& b) { Want w; w.dims = {2, 2}; for (int y = 0; y < 2; y++) for (int x = 0; x < 2; x++) w.v.push_back(a[2 * y] * b[x] + a[2 * y + 1] * b[2 + x]); return w; };
		agree("matmul order", "l.m", p.get(), mul(l.v, m.v), 0);
		agree("matmul order", "m.l", q.get(), mul(m.v, l.v), 0);
		agree("matmul order", "l.l", s.get(), mul(l.v, l.v), 0);
	}
	for (size_t x = 1; x < 5; x++) for (size_t y = 1; y < 5; y++) for (size_t z = 1; z < 5; z++) for (int t = 0; t < 4; t++)
	{
		matmul_case(x, y, z, {}, t & 1, t & 2, true);
		if (t == 0) { matmul_case(x, y, z, {}, false, false, true, 1); matmul_case(x, y, z, {2}, false, false, true); }
	}
	for (size_t z = 1; z < 5; z++) for (size_t k = 1; k < 5; k++)
	{
		if (z != k) { refused({z, 2}, {3, k}); refused({z}, {3, k}); refused({z, 2}, {k, k}); }
		if (k > 1) { refused({z, 2, k}, {3, z}); refused({z, 2}, {3, z, k}); refused({z, 2, k}, {3, z, k + 1}); refused({z, 2, 2, k}, {3, z, 2}); }
	}
	std::vector<std::array<size_t, 3> > big = {{257, 257, 257}, {258, 3, 2}, {2, 300, 5}, {3, 2, 259}, {256, 256, 256}, {255, 257, 4}};
	if (C().thorough) { big.push_back({513, 514, 520}); big.push_back({600, 10, 333}); big.push_back({1030, 5, 1}); big.push_back({514, 2, 700}); }
	size_t nb = 0;
	size_t shift = rnd(0, big.size() - 1);
	while (more() && C().failed.size() < 20)
	{
		if (nb < big.size()) { auto b = big[(nb++ + shift) % big.size()]; matmul_case(b[0], b[1], b[2], {}, coin(4), coin(4), coin()); }
		else if (coin(12)) matmul_case(rdim(1, 300, 520), rnd(1, 300), rnd(1, 300), coin(4) ? dims_t{2} : dims_t{}, coin(4), coin(4), coin());
		for (int i = 0; i < 60 && more(); i++)
		{
			dims_t bey;
			if (coin(4)) bey = rshape(1, 2, 1, 3, 9);
			bool ta = coin(3), tb = coin(3);
			matmul_case(rnd(1, 9), rnd(1, 9), rnd(1, 9), bey, ta, tb, coin(), coin());
		}
	}
}
int main (int argc, char** argv) { return main_(argc, argv, {{"C09", c09}, {"C10", c10}, {"C11", c11}}); }
