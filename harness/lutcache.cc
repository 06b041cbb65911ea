/* C13: the look-up table cache, single-threaded histories and many threads (run under TSan and ASan). */
#include "kit.h"
#include "gamma_transfer_function.h"
#include "identity_transfer_function.h"
#include "modified_gamma_transfer_function.h"
#include "s_gamut3_transfer_function.h"
#include "transfer_function.h"
#include <atomic>
#include <cmath>
#include <memory>
#include <mutex>
#include <pthread.h>
#include <thread>

using namespace kit;
using std::make_shared;
using std::shared_ptr;
using std::string;
using std::vector;

namespace {

struct Request
{
	double from, to;
	int bits;
	bool inverse;
	/** 0 for a table of doubles */
	int scale;

	string text() const {
		std::ostringstream o;
		o.precision(17);
		o << from << ".." << to << "/" << bits << (inverse ? "i" : "f") << scale;
		return o.str();
	}
};

shared_ptr<dcp::TransferFunction> make(int kind)
{
	switch (kind) {
	case 0: return make_shared<dcp::GammaTransferFunction>(2.2);
	case 1: return make_shared<dcp::ModifiedGammaTransferFunction>(2.4, 0.04045, 0.055, 12.92);
	case 2: return make_shared<dcp::SGamut3TransferFunction>();
	case 3: return make_shared<dcp::IdentityTransferFunction>();
	default: return make_shared<dcp::GammaTransferFunction>(2.6);
	}
}

/** Requests which differ from each other in one respect only, and pairs which a careless key would confuse */
vector<Request> related_requests()
{
	vector<Request> r;
	Request base = { rng.pick({0.0, 0.062, 0.25}), rng.pick({1.0, 0.5, 0.062}), int(rng.range(2, 10)), rng.coin(), 0 };
	r.push_back(base);
	auto add = [&](std::function<void (Request&)> f) { auto q = base; f(q); r.push_back(q); };
	add([](Request& q) { std::swap(q.from, q.to); });
	add([](Request& q) { q.inverse = !q.inverse; });
	add([](Request& q) { q.bits += 1; });
	add([](Request& q) { q.bits = q.bits > 3 ? q.bits - 2 : q.bits + 3; });
	add([](Request& q) { q.from += 0.125; });
	add([](Request& q) { q.to += 1e-9; });
	add([](Request& q) { q.to = q.from; });
	add([](Request& q) { q.scale = 1; });
	add([](Request& q) { q.scale = 4095; });
	add([](Request& q) { q.scale = 65535; });
	add([](Request& q) { q.scale = 65535; q.inverse = !q.inverse; });
	add([](Request& q) { q.scale = q.bits; });
	add([](Request& q) { q.scale = 65535; std::swap(q.from, q.to); });
	add([](Request& q) { q.scale = 4095; q.bits += 1; });
	return r;
}

struct Answer
{
	vector<double> d;
	vector<int> i;
};

Answer fresh(int kind, Request const& q)
{
	Answer a;
	auto f = make(kind);
	if (q.scale) {
		a.i = f->int_lut(q.from, q.to, q.bits, q.inverse, q.scale);
	} else {
		a.d = f->double_lut(q.from, q.to, q.bits, q.inverse);
	}
	return a;
}

void c13()
{
	rule("Rounds of table requests on one function: near-identical parameter sets (swapped range, other direction/depth/scale) in random order, from 1 to 8 threads released together, references kept and re-checked at the end. Oracle: each table equals one from a fresh function asked only for it; same request gives same address; ThreadSanitizer/AddressSanitizer on the real cache. Non-trivial = more than one thread.");
	assumption("a fresh function asked for a single table is the reference; its values are decided by C12");
	size_t const N = budget(1500, 30000);
	for (size_t n = 0; n < N; ++n) {
		int const kind = rng.below(5);
		auto requests = related_requests();
		for (auto const& i: related_requests()) {
			requests.push_back(i);
		}
		vector<Answer> expected;
		for (auto const& q: requests) {
			expected.push_back(fresh(kind, q));
		}
		int const threads = n % 4 == 0 ? 1 : int(rng.range(2, 8));
		std::ostringstream o;
		o << "function " << kind << " threads " << threads << " round " << n << " " << requests[0].text() << " shard " << opt.shard;
		begin_case(o.str(), threads > 1);

		auto const fn = make(kind);
		struct Failure { string key, detail; };
		vector<vector<Failure>> failures(threads);
		vector<vector<void const*>> address(threads, vector<void const*>(requests.size(), nullptr));
		vector<uint64_t> seeds;
		for (int i = 0; i < threads; ++i) {
			seeds.push_back(rng.next());
		}
		pthread_barrier_t barrier;
		pthread_barrier_init(&barrier, nullptr, threads);
		bool const same_first = rng.coin();
		std::atomic<uint64_t> checked(0);

		auto work = [&](int t) {
			Rng r(seeds[t]);
			vector<size_t> order;
			for (int k = 0; k < 2; ++k) {
				for (size_t i = 0; i < requests.size(); ++i) {
					order.push_back(i);
				}
			}
			r.shuffle(order);
			if (same_first) {
				/* everybody wants the same new table at the same moment */
				order.insert(order.begin(), 0);
			}
			vector<std::pair<size_t, vector<double> const*>> kept_d;
			vector<std::pair<size_t, vector<int> const*>> kept_i;
			pthread_barrier_wait(&barrier);
			for (auto i: order) {
				auto const& q = requests[i];
				void const* p = nullptr;
				if (q.scale) {
					auto const& lut = fn->int_lut(q.from, q.to, q.bits, q.inverse, q.scale);
					if (lut != expected[i].i) {
						failures[t].push_back({"wrong-table", q.text()});
					}
					kept_i.push_back({i, &lut});
					p = lut.data();
				} else {
					auto const& lut = fn->double_lut(q.from, q.to, q.bits, q.inverse);
					if (lut != expected[i].d) {
						failures[t].push_back({"wrong-table", q.text()});
					}
					kept_d.push_back({i, &lut});
					p = lut.data();
				}
				if (address[t][i] && address[t][i] != p) {
					failures[t].push_back({"table-moved", q.text()});
				}
				address[t][i] = p;
				++checked;
			}
			pthread_barrier_wait(&barrier);
			for (auto const& k: kept_d) {
				if (*k.second != expected[k.first].d) {
					failures[t].push_back({"table-changed", requests[k.first].text()});
				}
				++checked;
			}
			for (auto const& k: kept_i) {
				if (*k.second != expected[k.first].i) {
					failures[t].push_back({"table-changed", requests[k.first].text()});
				}
				++checked;
			}
		};

		vector<std::thread> pool;
		for (int i = 1; i < threads; ++i) {
			pool.push_back(std::thread(work, i));
		}
		work(0);
		for (auto& i: pool) {
			i.join();
		}
		pthread_barrier_destroy(&barrier);
		observed(checked);
		for (auto const& i: failures) {
			for (auto const& f: i) {
				violation(f.key, f.detail);
			}
		}
		for (size_t i = 0; i < requests.size(); ++i) {
			for (int t = 1; t < threads; ++t) {
				EXPECT(address[t][i] == address[0][i], "table-moved", "threads got different tables for " << requests[i].text());
			}
		}
		count(threads > 1 ? "concurrent_rounds" : "single_thread_rounds");
	}

	/* many tables: earlier ones must survive the growth of the cache */
	size_t const M = budget(2, 20);
	for (size_t n = 0; n < M; ++n) {
		int const kind = rng.below(5);
		begin_case("growth of function " + std::to_string(kind) + " round " + std::to_string(n) + " shard " + std::to_string(opt.shard));
		auto const fn = make(kind);
		vector<std::pair<double, vector<double> const*>> kept;
		vector<std::pair<int, vector<int> const*>> kept_int;
		for (int i = 0; i < 600; ++i) {
			double const to = 0.3 + i / 1000.0;
			kept.push_back({to, &fn->double_lut(0, to, 4, false)});
			kept_int.push_back({i + 1, &fn->int_lut(0, 1, 4, false, i + 1)});
		}
		for (auto const& k: kept) {
			EXPECT(*k.second == fresh(kind, {0, k.first, 4, false, 0}).d, "table-changed", "0.." << k.first);
		}
		for (auto const& k: kept_int) {
			EXPECT(*k.second == fresh(kind, {0, 1, 4, false, k.first}).i, "table-changed", "scale " << k.first);
		}
	}
}

KIT_CHECK("C13", c13);

}
