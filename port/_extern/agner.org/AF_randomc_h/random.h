// Stand-in for Agner Fog's generator package (a separate download, absent here): only the interface nntl uses.
// The generator itself is the environment: vp_rng_bits() yields arbitrary (symbolic, or replayed) 32 bits.
#pragma once
#include <cstdint>
#include <type_traits>
extern "C" uint32_t vp_rng_bits();
extern "C" double vp_rng_real(); // any value of [0,1)
namespace AFog {
	static constexpr int GEN_ERROR = (int)0x80000000;
	template<int Tag> class CRandomStub {
	public:
		CRandomStub(int s) { RandomInit(s); }
		void RandomInit(int s) { m_seed = s; }
		void RandomInitByArray(const int*, int) {}
		uint32_t BRandom() { return vp_rng_bits(); }
		double Random() { return vp_rng_real(); }
		float FRandom() { return (float)vp_rng_real(); }
		template<typename T> T FPRandom() { return (T)vp_rng_real(); }
		int IRandom(int lo, int hi) { return IRandomX(lo, hi); }
		int IRandomX(int lo, int hi) {
			if (hi < lo) return GEN_ERROR;
			const uint32_t n = (uint32_t)hi - (uint32_t)lo + 1u;
			const uint32_t b = vp_rng_bits();
			return (int)((uint32_t)lo + (n ? b % n : b));
		}
		int m_seed;
	};
	typedef CRandomStub<0> CRandomMersenne;
	typedef CRandomStub<1> CRandomSFMT0;
	typedef CRandomStub<2> CRandomSFMT1;
	template<typename T> struct has_FRandom : ::std::true_type {};
	template<> struct has_FRandom<CRandomMersenne> : ::std::false_type {};
}
