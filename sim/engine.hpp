// Uniform view of one build variant of the real engine (OpenMps::Computer).
#pragma once
#include <cstddef>
#include <string>
#include <vector>

struct PState { int type; double x[3], u[3], p, n; };

struct EnvParams
{
	double maxDt, courant, g, rho, nu, surfaceRatio, re, c, l0, eps;
	double min[3], max[3];
};

struct WallCb
{
	virtual ~WallCb() {}
	virtual void pre(double t, double dt) = 0;
	virtual void pos(std::size_t i, double t, double dt, double* out) = 0;
};

struct EngineFlags
{
	int dim;
	bool omp, vcl, spp, hs, hl, ecs, ds, gc, pexp, central;
	const char* name;
};

enum StepStatus { ST_OK = 0, ST_ALLOC = 1, ST_USER = 2, ST_STD = 3, ST_OTHER = 4 };

struct IEngine
{
	virtual ~IEngine() {}
	virtual StepStatus add(const PState* p, std::size_t n) = 0;
	virtual StepStatus step() = 0;
	virtual StepStatus step(double dt) = 0;
	virtual bool move() = 0;   // into another object
	virtual std::size_t size() const = 0;
	virtual void get(std::size_t i, PState& p) const = 0;
	virtual double T() const = 0;
	virtual double Dt() const = 0;
	virtual std::string what() const = 0;
	std::vector<PState> all() const { std::vector<PState> v(size()); for (std::size_t i = 0; i < v.size(); i++) { get(i, v[i]); } return v; }
};

// search grid alone
struct IGrid
{
	virtual ~IGrid() {}
	virtual void clear() = 0;
	// registers the positions from a parallel loop; ret[i]: 1 stored, 0 refused, 2 full
	virtual void storeAll(const double (*x)[3], std::size_t n, std::size_t firstId, int* ret, bool parallel) = 0;
	virtual std::vector<std::size_t> around(const double* x) const = 0;   // enumeration from cbegin to cend
	virtual std::vector<std::vector<std::size_t>> aroundAll(const double (*x)[3], std::size_t n) const = 0; // the same from a parallel loop
	virtual std::size_t maxParticles() const = 0;
};

struct UserError { int code; };

EngineFlags engine_flags();
IEngine* make_engine(const EnvParams& e, WallCb* w);
IGrid* make_grid(double neighborLength, double l0, const double* min, const double* max);

// phase mark of the guarded hook (OPENMPS_SIM)
extern "C" void openmps_sim_phase(const char* name);
