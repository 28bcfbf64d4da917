// The real engine, one translation unit per build variant.
// Compiled with -fsanitize=thread so that every memory access calls into rt.cpp.
#include "OpenMps/Computer.hpp"
#include "engine.hpp"
#include "rt.hpp"
#include <memory>
#include <cstring>

#ifdef DIM3
#define SIM_DIM 3
#else
#define SIM_DIM 2
#endif
#ifndef SIM_VARIANT
#define SIM_VARIANT "base"
#endif

#ifdef SIM_VCL_KNOB
std::size_t sim_vcl_min = 5000;
#endif

namespace
{
	OpenMps::Vector ToVec(const double* x)
	{
		OpenMps::Vector v;
#ifdef DIM3
		v[0] = x[0]; v[1] = x[1]; v[2] = x[2];
#else
		v[0] = x[0]; v[1] = x[2];
#endif
		return v;
	}
	void FromVec(const OpenMps::Vector& v, double* x)
	{
#ifdef DIM3
		x[0] = v[0]; x[1] = v[1]; x[2] = v[2];
#else
		x[0] = v[0]; x[1] = 0; x[2] = v[1];
#endif
	}
	OpenMps::Environment MakeEnv(const EnvParams& e)
	{
		return OpenMps::Environment(e.maxDt, e.courant, e.g, e.rho, e.nu,
#ifndef MPS_SPP
			e.surfaceRatio,
#endif
			e.re,
#ifdef PRESSURE_EXPLICIT
			e.c,
#endif
			e.l0,
#ifdef DIM3
			e.min[0], e.min[1], e.min[2], e.max[0], e.max[1], e.max[2]
#else
			e.min[0], e.min[2], e.max[0], e.max[2]
#endif
		);
	}

	struct PosFn
	{
		WallCb* cb;
		template<typename I>
		OpenMps::Vector operator()(const I i, const double t, const double dt) const
		{
			double out[3] = { 0, 0, 0 };
			cb->pos(static_cast<std::size_t>(i), t, dt, out);
			return ToVec(out);
		}
	};
	struct PreFn
	{
		WallCb* cb;
		void operator()(const double t, const double dt) const { cb->pre(t, dt); }
	};

	OpenMps::Particle ToParticle(const PState& s)
	{
		auto p = OpenMps::Particle(static_cast<OpenMps::Particle::Type>(s.type));
		p.X() = ToVec(s.x);
		p.U() = ToVec(s.u);
		p.P() = s.p;
		p.N() = s.n;
		return p;
	}

	struct Engine final : IEngine
	{
		PosFn pos; PreFn pre;
		using Comp = decltype(OpenMps::CreateComputer(
#ifndef PRESSURE_EXPLICIT
			0.0,
#endif
			std::declval<const OpenMps::Environment&>(), std::declval<const PosFn&>(), std::declval<const PreFn&>()));
		std::unique_ptr<Comp> comp;
		std::string msg;

		Engine(const EnvParams& e, WallCb* w)
			: pos{ w }, pre{ w },
			comp(new Comp(OpenMps::CreateComputer(
#ifndef PRESSURE_EXPLICIT
				e.eps,
#endif
				MakeEnv(e), static_cast<const PosFn&>(pos), static_cast<const PreFn&>(pre))))
		{}

		template<typename F>
		StepStatus guard(F&& f)
		{
			msg.clear();
			// reports are built outside the armed allocation window
			try { f(); return ST_OK; }
			catch (const std::bad_alloc&) { return ST_ALLOC; }
			catch (const UserError&) { return ST_USER; }
			catch (const std::exception& e) { sim::AllocPauser ap; msg = e.what(); return ST_STD; }
			catch (...) { return ST_OTHER; }
		}
		StepStatus add(const PState* p, std::size_t n) override
		{
			std::vector<OpenMps::Particle> v;
			{
				sim::AllocPauser ap;
				v.reserve(n);
				for (std::size_t i = 0; i < n; i++) { v.push_back(ToParticle(p[i])); }
			}
			return guard([&] { comp->AddParticles(std::move(v)); });
		}
		StepStatus step() override { return guard([&] { comp->ForwardTime(); }); }
		StepStatus step(double dt) override { return guard([&] { comp->ForwardTime(dt); }); }
		std::size_t size() const override { return comp->Particles().size(); }
		void get(std::size_t i, PState& s) const override
		{
			const auto& p = comp->Particles()[i];
			s.type = static_cast<int>(p.TYPE());
			FromVec(p.X(), s.x); FromVec(p.U(), s.u);
			s.p = p.P(); s.n = p.N();
		}
		double T() const override { return comp->GetEnvironment().T(); }
		double Dt() const override { return comp->GetEnvironment().Dt(); }
		bool move() override
		{
			if constexpr (std::is_move_constructible<Comp>::value) { std::unique_ptr<Comp> q(new Comp(std::move(*comp))); comp = std::move(q); return true; }
			else { return false; }
		}
		std::string what() const override { return msg; }
	};

#ifdef SIM_GRID
	struct GridImpl final : IGrid
	{
		OpenMps::Grid g;
		GridImpl(double nl, double l0, const double* mn, const double* mx) : g(nl, l0, ToVec(mn), ToVec(mx)) {}
		void clear() override { g.Clear(); }
		void storeOne(const double* x, std::size_t id, int* ret)
		{
			try { *ret = g.Store(ToVec(x), id) ? 1 : 0; }
			catch (const std::exception&) { *ret = 2; }
		}
		void storeAll(const double (*x)[3], std::size_t n, std::size_t firstId, int* ret, bool parallel) override
		{
			if (parallel)
			{
				OMP_PARALLEL_FOR
				for (std::size_t i = 0; i < n; i++) { storeOne(x[i], firstId + i, ret + i); }
			}
			else
			{
				for (std::size_t i = 0; i < n; i++) { storeOne(x[i], firstId + i, ret + i); }
			}
		}
		std::vector<std::size_t> around(const double* x) const override
		{
			std::vector<std::size_t> v;
			const auto&& b = g.cbegin(ToVec(x));
			const auto&& e = g.cend();
			auto it = std::move(b);
			for (; !(it == e); ++it)
			{
				v.push_back(*it);
				if (v.size() > 100000) { break; }
			}
			return v;
		}
		std::vector<std::vector<std::size_t>> aroundAll(const double (*x)[3], std::size_t n) const override
		{
			std::vector<std::vector<std::size_t>> r(n);
			OMP_PARALLEL_FOR
			for (std::size_t i = 0; i < n; i++) { r[i] = around(x[i]); }
			return r;
		}
		std::size_t maxParticles() const override { return g.MaxParticles(); }
	};
#endif
}

EngineFlags engine_flags()
{
	EngineFlags f{};
	f.dim = SIM_DIM; f.name = SIM_VARIANT;
#ifdef _OPENMP
	f.omp = true;
#endif
#ifdef USE_VIENNACL
	f.vcl = true;
#endif
#ifdef MPS_SPP
	f.spp = true;
#endif
#ifdef MPS_HS
	f.hs = true;
#endif
#ifdef MPS_HL
	f.hl = true;
#endif
#ifdef MPS_ECS
	f.ecs = true;
#endif
#ifdef MPS_DS
	f.ds = true;
#endif
#ifdef MPS_GC
	f.gc = true;
#endif
#ifdef PRESSURE_EXPLICIT
	f.pexp = true;
#endif
#ifdef CENTRAL_GRAVITY
	f.central = true;
#endif
	return f;
}

IEngine* make_engine(const EnvParams& e, WallCb* w) { return new Engine(e, w); }
#ifdef SIM_GRID
IGrid* make_grid(double nl, double l0, const double* mn, const double* mx) { return new GridImpl(nl, l0, mn, mx); }
#else
IGrid* make_grid(double, double, const double*, const double*) { return nullptr; }
#endif
