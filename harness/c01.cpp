// C01: threads that work on objects of their own and only read what they share do not disturb each other.
// Runs under the thread sanitizer.
#include <atomic>
#include <thread>
#include <unistd.h>

#include "steps.h"

static std::vector<std::string> perform(const Pool& s, const std::vector<Op>& script, size_t rounds, const std::string& file)
{
    std::vector<std::string> out;
    Own own;
    own.file = file;
    for (size_t r = 0; r < rounds; ++r)
    {
        for (auto& op : script)
        {
            try
            {
                out.push_back(steps[op.what].step(s, own, op));
            }
            catch (const std::exception& e)
            {
                out.push_back(std::string("refused: ") + e.what());
            }
        }
    }
    return out;
}

static void run(Src& s, Ctx& c)
{
    std::vector<std::string> texts, numbers, documents;
    for (size_t n = 1 + s.below(4); n > 0; --n)
    {
        texts.push_back(utf8_text(s, 25));
    }
    for (size_t n = 1 + s.below(3); n > 0; --n)
    {
        numbers.push_back(number(s));
    }
    for (size_t n = 1 + s.below(2); n > 0; --n)
    {
        documents.push_back(document(s, texts));
    }
    const size_t threads = 2 + s.below(3), rounds = s.pick<size_t>({1, 1, 2, 5});
    const bool same = s.flip(); // all threads run the same script
    std::vector<std::vector<Op>> scripts(threads);
    size_t shared_reads = 0, kinds[Steps] = {}, met = 0;
    for (size_t w = 0; w < threads; ++w)
    {
        if (w > 0 && same)
        {
            scripts[w] = scripts[0];
        }
        else
        {
            for (size_t n = 1 + s.below(8); n > 0; --n)
            {
                scripts[w].push_back({s.below(Steps), s.below(4), s.below(4), s.below(13)});
            }
        }
        c.log << "thread:";
        for (auto& op : scripts[w])
        {
            shared_reads += steps[op.what].shared;
            kinds[op.what] |= size_t(1) << w;
            c.log << " " << steps[op.what].name << " (" << op.a << " " << op.b << " " << op.n << ");";
        }
        c.log << "\n";
    }
    for (size_t k : kinds)
    {
        met += (k & (k - 1)) != 0;
    }
    c.log << "rounds " << rounds << "\n";
    for (auto* list : {&texts, &numbers, &documents})
    {
        for (auto& x : *list)
        {
            c.log << "  " << pbt::show(x) << "\n";
        }
    }

    const std::string base = "c01." + std::to_string(getpid()), file = base + ".shared";
    {
        std::ofstream out(file, std::ios::binary | std::ios::trunc);
        for (auto& x : texts)
        {
            out << x << "\n";
        }
    }
    auto own_file = [&](size_t w) { return base + ".own" + std::to_string(w); };
    auto clean = [&] {
        for (size_t w = 0; w < threads; ++w)
        {
            std::remove(own_file(w).c_str());
        }
    };
    clean();

    // Together first, so that nothing has been looked up or prepared before by a single thread
    std::vector<std::vector<std::string>> together(threads);
    {
        const Pool shared(texts, numbers, documents, file);
        std::atomic<size_t> waiting{threads};
        std::vector<std::thread> running;
        for (size_t w = 0; w < threads; ++w)
        {
            running.emplace_back([&, w] {
                waiting.fetch_sub(1, std::memory_order_relaxed);
                while (waiting.load(std::memory_order_relaxed) != 0)
                {
                    std::this_thread::yield();
                }
                together[w] = perform(shared, scripts[w], rounds, own_file(w));
            });
        }
        for (auto& r : running)
        {
            r.join();
        }
    }
    clean();
    const Pool shared(texts, numbers, documents, file);
    for (size_t w = 0; w < threads; ++w)
    {
        const auto alone = perform(shared, scripts[w], rounds, own_file(w));
        c.eq(together[w].size(), alone.size(), "results");
        for (size_t i = 0; i < alone.size(); ++i)
        {
            const Op& op = scripts[w][i % scripts[w].size()];
            c.check(together[w][i] == alone[i], std::string(steps[op.what].name) + ": in parallel " + pbt::show(together[w][i]) + ", alone " + pbt::show(alone[i]));
        }
        for (auto& x : alone)
        {
            c.label_if(x.compare(0, 9, "refused: ") == 0, "a refusal");
        }
    }
    clean();
    std::remove(file.c_str());
    c.label_if(same, "same script");
    c.label_if(threads > 2, "more than two threads");
    c.nontrivial = met > 0 && shared_reads > 1;
}

static const Config cfg{"C01", run, 0, nullptr, false, 120};
PBT_MAIN(cfg)
