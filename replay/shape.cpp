// runtime contracts of the shape algebra (C01), coordinates (C02), compatibility (C03)
#include "rv.hpp"
#include "tensor/tensorshape.hpp"
using namespace rv;
using nnet::tensorshape;

static dims_t L (const tensorshape& s) { return s.as_list(); }

static void c01_one (const dims_t& a, const dims_t& b, size_t k)
{
	begin("algebra", "s=" + str(a) + " o=" + str(b) + " k=" + std::to_string(k), !a.empty());
	tensorshape s(a), o(b);
	size_t prod = 1, known = 1; bool full = !a.empty();
	for (size_t x : a) { prod *= x; if (x) known *= x; else full = false; }
	RV_CHECK(s.n_elems() == (a.empty() ? 0 : prod), "n_elems", "n_elems " << s.n_elems());
	RV_CHECK(s.n_known() == (a.empty() ? 0 : known), "n_known", "n_known " << s.n_known());
	RV_CHECK(s.rank() == a.size(), "rank", "rank " << s.rank());
	RV_CHECK(s.is_part_defined() == !a.empty(), "is_part_defined", "");
	RV_CHECK(s.is_fully_defined() == full, "is_fully_defined", "");
	RV_CHECK(L(s) == a, "as_list", str(L(s)));
	// merge
	dims_t m; bool thrown = false, expthrow = !a.empty() && !b.empty() && a.size() != b.size();
	try { m = L(s.merge_with(o)); } catch (const std::exception&) { thrown = true; }
	RV_CHECK(thrown == expthrow, "merge_with.throw", "threw " << thrown);
	if (!thrown && !expthrow)
	{
		dims_t e = a.empty() ? b : a;
		if (!a.empty() && !b.empty()) for (size_t i = 0; i < a.size(); i++) e[i] = a[i] ? a[i] : b[i];
		RV_CHECK(m == e, "merge_with", "got " << str(m) << " expected " << str(e));
	}
	dims_t cat = a; cat.insert(cat.end(), b.begin(), b.end());
	RV_CHECK(L(s.concatenate(o)) == cat, "concatenate", str(L(s.concatenate(o))));
	dims_t tr = a;
	while (!tr.empty() && tr.front() == 1) tr.erase(tr.begin());
	while (!tr.empty() && tr.back() == 1) tr.pop_back();
	RV_CHECK(L(s.trim()) == tr, "trim", str(L(s.trim())) << " expected " << str(tr));
	dims_t w = a, al = a, am = a; w.resize(k, 1); if (k > a.size()) al.resize(k, 1); if (k < a.size()) am.resize(k);
	RV_CHECK(L(s.with_rank(k)) == w, "with_rank", str(L(s.with_rank(k))));
	RV_CHECK(L(s.with_rank_at_least(k)) == al, "with_rank_at_least", str(L(s.with_rank_at_least(k))));
	RV_CHECK(L(s.with_rank_at_most(k)) == am, "with_rank_at_most", str(L(s.with_rank_at_most(k))));
	RV_CHECK(L(s) == a && L(o) == b, "frame", "operand changed to " << str(L(s)) << str(L(o)));
	tensorshape t; t = b;
	RV_CHECK(L(t) == b, "assign-list", str(L(t)));
	t = s;
	RV_CHECK(L(t) == a, "assign-shape", str(L(t)));
	t.undefine();
	RV_CHECK(L(t).empty() && t.n_elems() == 0 && !t.is_part_defined(), "undefine", str(L(t)));
}

static void c01 (void)
{
	for (auto& v : C().cex["s"])
	{
		dims_t a(v.begin(), v.end());
		std::vector<std::vector<double> > os = C().cex["o"]; os.push_back({}); os.push_back(v);
		for (auto& o : os) for (size_t k : {0, 1, 2, 3, 5, 9}) c01_one(a, dims_t(o.begin(), o.end()), k);
	}
	auto all = all_shapes(3, {0, 1, 2, 3});
	for (auto& a : all) for (auto& b : all) c01_one(a, b, rnd(0, 5));
	auto ones = all_shapes(C().thorough ? 7 : 6, {0, 1, 4});
	for (auto& a : ones) for (size_t k = 0; k < 9; k += 2) c01_one(a, rshape(0, 4, 0, 5), k);
	while (more())
	{
		dims_t a = rshape(0, 12, 0, 9, 1ul << 60);
		if (coin(4)) for (size_t& x : a) if (coin(3) && nelems(a) < (1ul << 40)) x = rnd(1, 1u << 20);
		dims_t b = rshape(0, 12, 0, 9, 1u << 30);
		if (coin()) { b = a; for (size_t& x : b) if (coin(3)) x = rdim(0, 9); }
		c01_one(a, b, rdim(0, 14));
	}
}

static void c02_one (const dims_t& a)
{
	begin("coords", "s=" + str(a), a.size() > 1);
	tensorshape s(a);
	size_t n = nelems(a), count = 0;
	s.iterate([&](dims_t c, size_t i)
	{
		RV_CHECK(i == count, "iterate.order", "visit " << count << " got index " << i);
		dims_t e; size_t r = i;
		for (size_t d : a) { e.push_back(r % d); r /= d; }
		RV_CHECK(c == e, "iterate.coord", "index " << i << " got " << str(c) << " expected " << str(e));
		count++;
	});
	RV_CHECK(count == n, "iterate.count", "visited " << count << " of " << n);
	size_t step = std::max<size_t>(1, n / 3000);
	for (size_t i = 0; i < n; i += step)
	{
		dims_t c = s.coordinate_from_idx(i);
		RV_CHECK(c.size() == a.size(), "coord.rank", str(c));
		size_t stride = 1, back = 0;
		for (size_t k = 0; k < c.size() && k < a.size(); k++)
		{
			RV_CHECK(c[k] < a[k], "coord.range", "idx " << i << " coord " << str(c));
			RV_CHECK(c[k] == (i / stride) % a[k], "coord.value", "idx " << i << " coord " << str(c));
			back += c[k] * stride; stride *= a[k];
		}
		RV_CHECK(back == i, "coord.sum", "idx " << i << " coord " << str(c));
		RV_CHECK(s.flat_idx(c) == i, "flat.roundtrip", "flat_idx(" << str(c) << ") = " << s.flat_idx(c) << " expected " << i);
		// shorter / longer coordinate lists
		dims_t p = c; p.resize(rnd(1, a.size()));
		size_t e = 0; stride = 1;
		for (size_t k = 0; k < p.size(); k++) { e += p[k] * stride; stride *= a[k]; }
		RV_CHECK(s.flat_idx(p) == e, "flat.short", "flat_idx(" << str(p) << ") = " << s.flat_idx(p) << " expected " << e);
		p = c; p.push_back(rnd(0, 3));
		RV_CHECK(s.flat_idx(p) == i, "flat.long", "flat_idx(" << str(p) << ") = " << s.flat_idx(p));
	}
	RV_CHECK(L(s) == a, "coord.frame", str(L(s)));
}

// shapes too large to enumerate (or to store): single indices
static void c02_big (void)
{
	dims_t a; size_t n = 1;
	for (size_t k = rnd(1, 6); k > 0 && n < (1ul << 40); k--) { a.push_back(coin() ? rnd(1, 9) : rnd(1, 1u << 18)); n *= a.back(); }
	begin("big", "s=" + str(a), a.size() > 1);
	tensorshape s(a);
	for (int t = 0; t < 20; t++)
	{
		size_t i = t == 0 ? n - 1 : C().rng() % n, r = i;
		dims_t e, c = s.coordinate_from_idx(i);
		for (size_t d : a) { e.push_back(r % d); r /= d; }
		RV_CHECK(c == e, "big.coord", "index " << i << " got " << str(c) << " expected " << str(e));
		RV_CHECK(s.flat_idx(e) == i, "big.flat", "coord " << str(e) << " got " << s.flat_idx(e) << " expected " << i);
	}
}
static void c02 (void)
{
	for (auto& v : C().cex["s"])
	{
		dims_t a; size_t n = 1;
		for (double x : v) { a.push_back(x < 1 ? 1 : (x > 60 ? 60 : x)); n *= a.back(); }
		if (!a.empty() && n < 200000) c02_one(a);
	}
	for (auto& a : all_shapes(4, {1, 2, 3})) if (!a.empty()) c02_one(a);
	for (auto& a : all_shapes(3, {1, 2, 3, 4, 5})) if (!a.empty()) c02_one(a);
	while (more()) { c02_one(rshape(1, 8, 1, 7, 20000)); c02_big(); }
}

static bool compat (size_t a, size_t b) { return a == b || !a || !b; }
static bool oracle (const dims_t& a, const dims_t& b)
{
	if (a.empty() || b.empty()) return true;
	if (a.size() == b.size())
	{
		for (size_t i = 0; i < a.size(); i++) if (!compat(a[i], b[i])) return false;
		return true;
	}
	auto win = [](dims_t w)
	{
		while (w.size() > 1 && w.front() == 1) w.erase(w.begin());
		while (w.size() > 1 && w.back() == 1) w.pop_back();
		return w;
	};
	dims_t x = win(a), y = win(b);
	if (x.size() < y.size()) std::swap(x, y);
	while (x.size() > y.size() && x.front() == 0) x.erase(x.begin());
	while (x.size() > y.size() && x.back() == 0) x.pop_back();
	if (x.size() != y.size()) return false;
	for (size_t i = 0; i < x.size(); i++) if (!compat(x[i], y[i])) return false;
	return true;
}
static void c03_one (const dims_t& a, const dims_t& b)
{
	begin(a.size() == b.size() ? "same-rank" : "diff-rank", "s=" + str(a) + " o=" + str(b), !a.empty() && !b.empty());
	tensorshape s(a), o(b);
	bool e = oracle(a, b), r = s.is_compatible_with(o), q = o.is_compatible_with(s);
	RV_CHECK(r == e, "compatible", "s.is_compatible_with(o) = " << r << " expected " << e);
	RV_CHECK(q == e, "symmetric", "o.is_compatible_with(s) = " << q << " expected " << e);
	RV_CHECK(s.is_compatible_with(s), "reflexive", "");
	RV_CHECK(L(s) == a && L(o) == b, "compat.frame", "");
}
static void c03 (void)
{
	for (auto& v : C().cex["s"]) for (auto& w : C().cex["o"]) c03_one(dims_t(v.begin(), v.end()), dims_t(w.begin(), w.end()));
	auto all = all_shapes(3, {0, 1, 2, 3});
	for (auto& a : all) for (auto& b : all) c03_one(a, b);
	auto s5 = all_shapes(5, {0, 1, 3}), s3 = all_shapes(3, {0, 1, 3});
	for (auto& a : s5) for (auto& b : s3) c03_one(a, b);
	while (more())
	{
		dims_t a = rshape(0, 9, 0, 5, 1u << 30), b = a;
		if (coin(4)) b = rshape(0, 9, 0, 5, 1u << 30);
		else
		{
			for (size_t& x : b) if (coin(5)) x = rdim(0, 5);
			for (size_t n = rnd(0, 3); n > 0; n--)
			{
				if (coin()) b.insert(b.begin(), rnd(0, 1));
				else b.push_back(rnd(0, 1));
			}
		}
		c03_one(a, b);
	}
}

int main (int argc, char** argv)
{
	return main_(argc, argv, {{"C01", c01}, {"C02", c02}, {"C03", c03}});
}
