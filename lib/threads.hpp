// Schedule perturbation for concurrent checks: a deterministic stream of delays per thread.
#pragma once
#include "pbt.hpp"
#include <condition_variable>
#include <mutex>
#include <sched.h>
#include <thread>
namespace thr
{
	struct jitter
	{
		uint64_t x; unsigned level;
		jitter(uint64_t seed, unsigned l) : x(seed), level(l) {}
		uint64_t next() { return pbt::mix(x++); }
		void operator()()
		{
			if (!level) return;
			uint64_t r = next();
			switch (level) {
			case 1: if (r % 8 == 0) sched_yield(); break;
			case 2: if (r % 4 == 0) sched_yield(); else if (r % 16 == 1) { volatile unsigned k = 0; for (unsigned i = 0; i < (r >> 8) % 2000; i++) k = k + 1; } break;
			default: if (r % 6 == 0) usleep(static_cast<useconds_t>((r >> 8) % 60)); else if (r % 6 == 1) sched_yield();
			}
		}
	};
}
