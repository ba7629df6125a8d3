// runtime contracts of tensor storage: reshape (C04), life cycle (C05), shape inference (C06)
#include "rv.hpp"
#include "memory/alloc_builder.hpp"
#include "tensor/tensor.hpp"
#include "tensor/tensor_handler.hpp"
using namespace rv;
using nnet::tensorshape;
using nnet::tensor;
typedef std::vector<double> data_t;

//! allocator that tracks every buffer it hands out
struct track_alloc : public nnet::iallocator
{
	std::map<void*, size_t> live;
	std::string err;
protected:
	virtual void* get_raw (size_t, size_t nb)
	{
		void* p = malloc(nb ? nb : 1);
		for (size_t i = 0; i < nb / sizeof(double); i++) ((double*) p)[i] = -777.25 - i;   // nothing may rely on fresh memory
		live[p] = nb;
		return p;
	}
	virtual void del_raw (void* p, size_t nb)
	{
		auto it = live.find(p);
		if (live.end() == it) err = "released a buffer that is not live";
		else if (it->second != nb) err = "released a buffer with a size it was not allocated with";
		else { live.erase(it); free(p); }
	}
	virtual nnet::iallocator* clone_impl (void) const { return nullptr; }
	virtual nnet::iallocator* move_impl (void) { return nullptr; }
};
static track_alloc* TA;
struct track2_alloc : public track_alloc {};
static track_alloc* TB;
static const size_t TID = 4242, TID2 = 4243;
static void setup (void)
{
	nnet::alloc_builder& b = nnet::alloc_builder::get_instance();
	b.registertype<track_alloc>(TID);
	TA = static_cast<track_alloc*>(b.get(TID));
	b.registertype<track2_alloc>(TID2);
	TB = static_cast<track_alloc*>(b.get(TID2));
}
static dims_t L (const tensorshape& s) { return s.as_list(); }
static bool full (const dims_t& d) { if (d.empty()) return false; for (size_t x : d) if (!x) return false; return true; }

//! refit oracle: element of the source at every coordinate both shapes have (missing coordinates are 0), zero elsewhere
static data_t refit (const data_t& src, const dims_t& in, const dims_t& out)
{
	data_t r(nelems(out), 0);
	for (size_t i = 0; i < r.size(); i++)
	{
		size_t rem = i, flat = 0, stride = 1;
		bool inside = true;
		for (size_t k = 0; k < out.size(); k++)
		{
			size_t c = rem % out[k]; rem /= out[k];
			if (k < in.size()) { inside = inside && c < in[k]; flat += c * stride; stride *= in[k]; }
			else inside = inside && c == 0;
		}
		if (inside) r[i] = src[flat];
	}
	return r;
}
static void fill (tensor<double>& t, const data_t& d)
{
	nnet::assign_func<double> f;
	f(t, d);
}
static data_t uniq (size_t n) { static double k = 1; data_t v(n); for (double& x : v) x = k++ * 0.5; return v; }
static void wf (tensor<double>& t, const char* where)
{
	bool st = t.raw_data_ != nullptr;
	RV_CHECK(t.is_alloc() == st, std::string("wf.storage:") + where, "is_alloc " << t.is_alloc() << " storage " << st);
	if (st)
	{
		track_alloc* own = t.alloc_ == TB ? TB : TA;
		auto it = own->live.find(t.raw_data_);
		if (t.alloc_ == own)
			RV_CHECK(it != own->live.end() && it->second == t.n_elems() * sizeof(double), std::string("wf.size:") + where,
				"storage is not a live buffer of n_elems " << t.n_elems());
		RV_CHECK(t.n_elems() == nelems(L(t.get_shape())), std::string("wf.n_elems:") + where, "");
		RV_CHECK(t.total_bytes() == t.n_elems() * sizeof(double), std::string("wf.bytes:") + where, "");
	}
	else RV_CHECK(t.n_elems() == 0, std::string("wf.n_elems0:") + where, "");
	RV_CHECK(t.rank() == L(t.get_shape()).size() && t.dims() == L(t.get_shape()), std::string("wf.dims:") + where, "");
	RV_CHECK(TA->err.empty() && TB->err.empty(), std::string("alloc:") + where, TA->err << TB->err);
}

static void c04_pair (const dims_t& in, const dims_t& out)
{
	begin("refit", "from=" + str(in) + " to=" + str(out), nelems(in) > 1 && in != out);
	data_t src = uniq(nelems(in));
	data_t want = refit(src, in, out);
	{
		tensor<double> t(in, TID);
		fill(t, src);
		bool comp = tensorshape(out).is_compatible_with(in);
		double* p = t.raw_data_;
		t.set_shape(out);
		wf(t, "set_shape");
		if (comp) RV_CHECK(t.raw_data_ == p && t.expose() == src, "set_shape.keep", "compatible reshape changed the data to " << str(t.expose()));
		else
		{
			RV_CHECK(L(t.get_shape()) == out, "set_shape.shape", str(L(t.get_shape())));
			RV_CHECK(t.expose() == want, "set_shape.data", str(t.expose()) << " expected " << str(want));
		}
	}
	{
		tensor<double> t(in, TID), u(out, TID), v(tensorshape(dims_t{}), TID);
		fill(t, src);
		bool a = u.copy_from(t, out), b = v.copy_from(t, out), c = t.copy_from(t, out);
		RV_CHECK(a && b && c, "copy_from.result", a << b << c);
		for (tensor<double>* x : {&u, &v, &t})
		{
			wf(*x, "copy_from");
			RV_CHECK(L(x->get_shape()) == out, "copy_from.shape", str(L(x->get_shape())));
			RV_CHECK(x->expose() == want, x == &t ? "copy_from.self" : "copy_from.data", str(x->expose()) << " expected " << str(want));
		}
	}
	{
		data_t d(nelems(out), 5.5);
		nnet::fit_toshape<double>(&d[0], out, &src[0], in);
		RV_CHECK(d == want, "fit_toshape", str(d) << " expected " << str(want));
	}
}

static void c04_alloc (const dims_t& allowed, const dims_t& first, const dims_t& s)
{
	begin("allocate", "allowed=" + str(allowed) + " allocated=" + str(first) + " to=" + str(s), full(s));
	tensor<double> t(tensorshape(allowed), TID);
	if (full(first)) t.allocate(tensorshape(first));
	bool was = t.is_alloc();
	dims_t old = L(t.alloc_shape_);
	data_t src;
	if (was) { src = uniq(t.n_elems()); fill(t, src); }
	bool want = full(s) && tensorshape(s).is_compatible_with(t.allowed_shape_) && !(was && tensorshape(s).is_compatible_with(old));
	bool got = t.allocate(tensorshape(s));
	wf(t, "allocate");
	RV_CHECK(got == want, "allocate.result", "got " << got << " expected " << want);
	RV_CHECK(L(t.allowed_shape_) == allowed, "allocate.allowed", str(L(t.allowed_shape_)));
	if (got)
	{
		RV_CHECK(L(t.get_shape()) == s, "allocate.shape", str(L(t.get_shape())));
		if (was) RV_CHECK(t.expose() == refit(src, old, s), "allocate.data", str(t.expose()));
	}
	else
	{
		RV_CHECK(t.is_alloc() == was, "allocate.refused", "");
		if (was) RV_CHECK(t.expose() == src && L(t.get_shape()) == old, "allocate.refused-data", str(t.expose()));
	}
}

static void c04_partial (const dims_t& in, const dims_t& part)
{
	begin("partial", "from=" + str(in) + " to=" + str(part));
	tensor<double> t(in, TID);
	data_t src = uniq(nelems(in));
	fill(t, src);
	bool comp = tensorshape(part).is_compatible_with(in);
	dims_t want = part;
	for (size_t i = 0; i < part.size(); i++) if (!want[i]) want[i] = in[i];
	t.set_shape(part);
	wf(t, "set_shape-partial");
	if (comp) want = in;
	RV_CHECK(L(t.get_shape()) == want, "set_shape.partial-shape", str(L(t.get_shape())) << " expected " << str(want));
	RV_CHECK(t.expose() == refit(src, in, want), "set_shape.partial-data", str(t.expose()));
}

static void c04 (void)
{
	setup();
	auto cx = C().cex["s"];
	for (auto& a : C().cex["t_shape"]) for (auto& b : cx)
	{
		dims_t x(a.begin(), a.end()), y(b.begin(), b.end());
		if (full(x) && full(y) && nelems(x) < 100000 && nelems(y) < 100000) c04_pair(x, y);
	}
	auto sh = all_shapes(3, {1, 2, 3});
	for (auto& a : sh) for (auto& b : sh) if (full(a) && full(b)) c04_pair(a, b);
	auto all = all_shapes(2, {0, 1, 2, 3});
	auto fs = all_shapes(2, {1, 2, 3});
	for (auto& a : all) for (auto& b : fs) for (auto& c : all) if (b.empty() || tensorshape(a).is_compatible_with(b)) c04_alloc(a, b, c);
	auto p3 = all_shapes(3, {0, 1, 3});
	for (auto& a : sh) for (auto& b : p3) if (full(a) && a.size() == b.size()) c04_partial(a, b);
	while (more())
	{
		dims_t a = rshape(1, 5, 1, 6), b = coin() ? rshape(1, 5, 1, 6) : a;
		if (coin()) for (size_t& x : b) if (coin()) x = rnd(1, 7);
		if (nelems(b) > 20000) continue;
		c04_pair(a, b);
		if (coin()) { dims_t p = b; if (p.size() == a.size()) { for (size_t& x : p) if (coin(3)) x = 0; c04_partial(a, p); } }
	}
	RV_CHECK(TA->live.empty(), "leak", TA->live.size() << " buffers never released");
}

// ---------------------------------------------------------------- life cycle
struct model { bool alive = false, st = false; dims_t allowed, alloc; data_t d; tensor<double>* t = nullptr; };
static void agree (model& m, const char* where)
{
	if (!m.t) return;
	wf(*m.t, where);
	RV_CHECK(m.t->is_alloc() == m.st, std::string("model.alloc:") + where, "is_alloc " << m.t->is_alloc() << " expected " << m.st);
	if (m.alive) RV_CHECK(L(m.t->allowed_shape_) == m.allowed, std::string("model.allowed:") + where, str(L(m.t->allowed_shape_)) << " expected " << str(m.allowed));
	if (m.st && m.t->is_alloc())
	{
		RV_CHECK(L(m.t->get_shape()) == m.alloc, std::string("model.shape:") + where, str(L(m.t->get_shape())) << " expected " << str(m.alloc));
		RV_CHECK(m.t->expose() == m.d, std::string("model.data:") + where, str(m.t->expose()) << " expected " << str(m.d));
		for (int k = 0; k < 3; k++)
		{
			size_t i = rnd(0, m.d.size() - 1), r = i;
			dims_t c;
			for (size_t x : m.alloc) { c.push_back(r % x); r /= x; }
			double v = m.t->get(c);
			RV_CHECK(v == m.d[i], std::string("get:") + where, "coordinate " << str(c) << " gave " << v << " expected " << m.d[i]);
			c[rnd(0, c.size() - 1)] += m.d.size() + 1;
			bool thrown = false;
			try { m.t->get(c); } catch (const std::out_of_range&) { thrown = true; }
			RV_CHECK(thrown, std::string("get.range:") + where, "out of range coordinate " << str(c) << " accepted");
		}
	}
	if (!m.st && m.alive) RV_CHECK(L(m.t->get_shape()) == m.allowed, std::string("model.get_shape:") + where, str(L(m.t->get_shape())));
}
static void c05_seq (size_t steps)
{
	model m[4];
	std::string tr;
	for (size_t s = 0; s < steps; s++)
	{
		size_t i = rnd(0, 3), j = rnd(0, 3), op = rnd(0, 12);
		model &a = m[i], &b = m[j];
		tr += std::to_string(op) + ":" + std::to_string(i) + std::to_string(j) + " ";
		const char* w = "";
		std::string show = tr.size() > 600 ? tr.substr(tr.size() - 600) : tr;
		begin("sequence", show, s > 2);
		switch (op)
		{
			case 0: case 1: { w = "construct"; delete a.t; dims_t d = rshape(0, 3, coin(3) ? 0 : 1, 4); a = model(); a.alive = true; a.allowed = d; a.t = new tensor<double>(tensorshape(d), coin(3) ? TID2 : TID);
				if (full(d)) { a.st = true; a.alloc = d; a.d = uniq(nelems(d)); fill(*a.t, a.d); } break; }
			case 2: { w = "destroy"; delete a.t; a = model(); break; }
			case 3: { w = "copy"; if (b.t && b.alive && i != j) { tensor<double>* n = new tensor<double>(*b.t); delete a.t; a = b; a.t = n; } break; }
			case 4: { w = "copy-assign"; if (a.t && b.t && b.alive) { *a.t = *b.t; tensor<double>* n = a.t; a = model(b); a.t = n; } break; }
			case 5: { w = "move"; if (b.t && b.alive && i != j) { tensor<double>* n = new tensor<double>(std::move(*b.t)); delete a.t; a = b; a.t = n; b.st = false; b.alive = false; } break; }
			case 6: { w = "move-assign"; if (a.t && b.t && b.alive) { *a.t = std::move(*b.t); if (i != j) { tensor<double>* n = a.t; a = model(b); a.t = n; b.st = false; b.alive = false; } } break; }
			case 7: { w = "deallocate"; if (a.t && a.alive) { bool r = a.t->deallocate(); RV_CHECK(r == a.st, "deallocate.result", r); a.st = false; } break; }
			case 8: { w = "allocate"; if (a.t && a.alive) { bool want = !a.st && full(a.allowed); bool r = a.t->allocate(); RV_CHECK(r == want, "allocate.result", r << " expected " << want);
				if (r && want) { a.st = true; a.alloc = a.allowed; a.d = uniq(nelems(a.alloc)); fill(*a.t, a.d); } } break; }
			case 9: { w = "clone"; if (b.t && b.alive && i != j) { tensor<double>* n = b.t->clone(); delete a.t; a = b; a.t = n; } break; }
			case 10: { w = "virtual-move"; if (b.t && b.alive && i != j) { tensor<double>* n = b.t->move(); delete a.t; a = b; a.t = n; b.st = false; b.alive = false; } break; }
			case 11: { w = "shape-clone"; if (b.t && b.alive && i != j) { tensor<double>* n = new tensor<double>(*b.t, true); delete a.t; a = b; a.t = n; if (a.st) { a.d = uniq(a.d.size()); fill(*n, a.d); } } break; }
			case 12: { w = "set_allocator"; if (a.t && a.alive) { bool bad = coin(4), threw = false; try { a.t->set_allocator(bad ? 987654 : coin(2) ? TID2 : TID); } catch (std::runtime_error&) { threw = true; }
				RV_CHECK(threw == bad, "set_allocator.refusal", threw << " expected " << bad); } break; }
		}
		for (model& x : m) agree(x, w);
		// no two tensors share storage; a write to one is invisible to the others
		if (a.t && a.st && a.t->is_alloc()) { a.d = uniq(a.d.size()); fill(*a.t, a.d); for (model& x : m) agree(x, "isolation"); }
		size_t owned = 0;
		for (model& x : m) if (x.t && x.t->raw_data_) owned++;
		RV_CHECK(TA->live.size() + TB->live.size() == owned, std::string("leak:") + w, TA->live.size() << " live buffers for " << owned << " allocated tensors");
		if (!C().failed.empty()) return;
	}
	for (model& x : m) delete x.t;
	RV_CHECK(TA->live.empty() && TB->live.empty(), "leak:end", TA->live.size() << " buffers never released");
	RV_CHECK(TA->err.empty() && TB->err.empty(), "alloc:end", TA->err << TB->err);
}
static void c05 (void)
{
	setup();
	for (double x : {0.0, 1.5, -3.25, 1e9})
	{
		begin("scalar", std::to_string(x));
		tensor<double> t(x, TID);
		wf(t, "scalar");
		RV_CHECK(t.expose() == data_t{x} && L(t.get_shape()) == dims_t{1}, "scalar", str(t.expose()));
		tensor<double> e;
		RV_CHECK(!e.is_alloc() && L(e.get_shape()).empty(), "default", "");
		bool thrown = false;
		try { tensor<double> bad(tensorshape(dims_t{1}), 987654); } catch (const std::runtime_error&) { thrown = true; }
		RV_CHECK(thrown, "unknown-allocator", "an unregistered allocator was accepted");
	}
	while (more() && C().failed.empty()) c05_seq(60);
}

// ---------------------------------------------------------------- shape inference
static void c06_one (const dims_t& a, size_t n)
{
	begin("infer", "allowed=" + str(a) + " data=" + std::to_string(n), !a.empty());
	tensor<double> t(tensorshape(a), TID);
	data_t d(n, 1.0);
	size_t known = 1, firstu = a.size();
	for (size_t i = 0; i < a.size(); i++) if (a[i]) known *= a[i]; else if (firstu == a.size()) firstu = i;
	// exact
	bool has = true; dims_t want;
	if (full(a)) { has = n == known; want = a; }
	else if (a.empty()) want = {n};
	else { has = n % known == 0; want = a; for (size_t& x : want) if (!x) x = 1; want[firstu] = n / known; }
	auto g = t.guess_shape(d);
	RV_CHECK((bool) g == has, "guess_shape.has", (bool) g << " expected " << has);
	if (g && has) RV_CHECK(L(*g) == want, "guess_shape", str(L(*g)) << " expected " << str(want));
	// loose
	bool lhas = !full(a) || n <= known;
	dims_t lw = a;
	if (a.empty()) lw = {n};
	else if (!full(a)) { for (size_t& x : lw) if (!x) x = 1; lw[firstu] = (n + known - 1) / known; }
	auto l = t.loosely_guess_shape(d);
	RV_CHECK((bool) l == lhas, "loosely_guess_shape.has", (bool) l);
	if (l && lhas) RV_CHECK(L(*l) == lw, "loosely_guess_shape", str(L(*l)) << " expected " << str(lw));
	RV_CHECK(t.is_compatible_with(d) == (full(a) ? n == known : (a.empty() || n % known == 0)), "is_compatible_with", t.is_compatible_with(d));
	RV_CHECK(t.is_loosely_compatible_with(d) == lhas, "is_loosely_compatible_with", t.is_loosely_compatible_with(d));
	// once allocated, the allocated shape decides compatibility
	if (g && has && full(want) && t.allocate(*g))
	{
		for (size_t k : {n, n + 1, n ? n - 1 : 0, 2 * n, (size_t) 0})
		{
			data_t e(k, 0.5);
			RV_CHECK(t.is_compatible_with(e) == (k == n), "is_compatible_with.allocated", "data " << k);
			RV_CHECK(t.is_loosely_compatible_with(e) == (k <= n), "is_loosely_compatible_with.allocated", "data " << k);
		}
	}
}
static void c06 (void)
{
	setup();
	for (const char* k : {"t_allowed", "t_shape"}) for (auto& v : C().cex[k])
	{
		dims_t a(v.begin(), v.end());
		size_t p = 1; for (size_t x : a) p *= x ? x : 1;
		std::vector<std::vector<double> > nd = C().cex["ndata"]; nd.push_back({(double) p}); nd.push_back({(double) p + 1}); nd.push_back({0});
		for (auto& q : nd) if (!q.empty() && q[0] >= 0 && q[0] < 100000) c06_one(a, (size_t) q[0]);
	}
	for (auto& a : all_shapes(C().thorough ? 4 : 3, {0, 1, 2, 3, 4})) for (size_t n = 0; n < 26; n++) c06_one(a, n);
	// data sizes beyond the integers single precision can hold
	for (const dims_t& a : {dims_t{0, 1}, dims_t{3, 0}, dims_t{}}) { c06_one(a, 16777217); }
	while (more())
	{
		dims_t a = rshape(0, 7, 0, 7);
		size_t p = 1; for (size_t x : a) p *= x ? x : 1;
		for (size_t n : {p, p + 1, p * rnd(0, 4), rdim(0, 300), p ? p - 1 : 0}) if (n < 50000) c06_one(a, n);
	}
}
int main (int argc, char** argv) { return main_(argc, argv, {{"C04", c04}, {"C05", c05}, {"C06", c06}}); }
