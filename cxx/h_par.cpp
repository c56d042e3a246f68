// C12: concurrent additions to the same entries of a sparse matrix lose nothing, and the product of a
// matrix with a vector is the one computed sequentially. Integers, so that every order of the
// additions gives exactly the same sum.
#include <atomic>
#include <thread>
#include "algebra/algebra.h"
#include "harness.h"

using namespace algebra;

int main(int argc, char **argv)
    {
    long n;
    H::start(argc, argv, n);
    for (long it = 0; it < n; it++)
        {
        int N = 1 + H::pick(12), T = 2 + H::pick(7), reps = 2000 + H::pick(6000), rounds = 1 + H::pick(3);
        MatrixShape shape(N);
        for (int i = 0; i < N; i++)
            {
            shape[i].insert(i);
            for (int k = H::pick(N + 1); k > 0; k--) shape[i].insert(H::pick(N));
            }
        SparseMatrix A(shape);
        std::vector<std::pair<int, int>> pos;
        for (int i = 0; i < N; i++)
            for (int j : shape[i]) pos.push_back({i, j});
        for (int round = 0; round < rounds; round++)
            {
            A.clear();
            int hot = 1 + H::pick((int) pos.size());  // entries that are fought for
            int first = H::pick((int) pos.size());
            std::vector<std::vector<std::pair<int, int>>> jobs(T);
            std::vector<double> want(pos.size(), 0.0);
            for (int t = 0; t < T; t++)
                for (int r = 0; r < reps; r++)
                    {
                    int p = (first + H::pick(hot)) % (int) pos.size(), v = H::pick(7) - 2;
                    jobs[t].push_back({p, v});
                    want[p] += v;
                    }
            std::atomic<int> ready(0);
            std::vector<std::thread> th;
            for (int t = 0; t < T; t++)
                th.emplace_back([&, t]()
                    {
                    ready.fetch_add(1, std::memory_order_relaxed);
                    while (ready.load(std::memory_order_relaxed) < T) std::this_thread::yield();
                    for (auto &j : jobs[t]) A.add(pos[j.first].first, pos[j.first].second, j.second);
                    });
            for (auto &x : th) x.join();
            H::count("concurrent additions", (long) T * reps);
            for (size_t p = 0; p < pos.size(); p++)
                if (A(pos[p].first, pos[p].second) != want[p])
                    H::fail("lost-update", "entry (%d,%d) is %.17g after concurrent additions by %d threads, "
                        "their sum is %.17g", pos[p].first, pos[p].second, A(pos[p].first, pos[p].second), T,
                        want[p]);
            std::vector<double> X(N), Y(N, 77.0);
            for (double &x : X) x = H::pick(9) - 4;
            A.mult(X, Y);
            for (int i = 0; i < N; i++)
                {
                double s = 0;
                for (size_t p = 0; p < pos.size(); p++)
                    if (pos[p].first == i) s += want[p] * X[pos[p].second];
                if (s != Y[i]) H::fail("mult", "row %d of the product: %.17g, expected %.17g", i, Y[i], s);
                }
            char k[80];
            snprintf(k, sizeof k, "add N=%d T=%d hot=%d", N, T, hot > 5 ? 5 : hot);
            H::kase(k);
            }
        }
    return H::finish();
    }
