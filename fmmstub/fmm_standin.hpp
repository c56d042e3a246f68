// Stand-in for the subset of ScalFMM 1.5 that feeLLGood uses, written for runtime monitoring.
//
// ScalFMM itself is not installed, so the far-field is computed by the exact direct sum that the
// fast multipole method approximates.  The container layout is deliberately different from "all
// particles in insertion order": particles are spread over the leaves of an octree and visited in
// Morton order, so that code which mixes up leaf-local and global indices is exposed.
//
// The stand-in is also an instrument: see fmm_monitor.cpp.
#ifndef FMM_STANDIN_HPP
#define FMM_STANDIN_HPP
#include <omp.h>
#include <cmath>
#include <cstddef>
#include <functional>
#include <map>
#include <vector>

typedef long long int FSize;

template <class FReal>
struct FPoint
    {
    FReal d[3];
    FPoint(FReal x = 0, FReal y = 0, FReal z = 0) : d{x, y, z} {}
    FReal getX() const { return d[0]; }
    FReal getY() const { return d[1]; }
    FReal getZ() const { return d[2]; }
    };

enum class FParticleType { FParticleTypeSource = 0, FParticleTypeTarget = 1 };

namespace fmm_monitor
    {
    /** One call per FMM evaluation, before the sum. Positions are in the octree box. */
    void before_execute(size_t nsrc, const double *const *xyz, const double *q,
                        const long long *src_idx, size_t ntgt, const double *const *txyz,
                        const long long *tgt_idx);
    /** One call per FMM evaluation, after the sum. */
    void after_execute(size_t ntgt, const double *pot, const long long *tgt_idx);
    void inserted(bool target, long long idx, double x, double y, double z, double half_width,
                  double cx, double cy, double cz);
    void direct_sum(size_t nsrc, const double *const *xyz, const double *q, size_t ntgt,
                    const double *const *txyz, double *pot);
    }

template <class FReal>
class FP2PParticleContainerIndexed
    {
public:
    FSize getNbParticles() const { return (FSize) idx.size(); }
    const std::vector<FSize> &getIndexes() const { return idx; }
    FReal *getPhysicalValues() { return phys.data(); }
    const FReal *getPhysicalValues() const { return phys.data(); }
    FReal *getPotentials() { return pot.data(); }
    const FReal *getPotentials() const { return pot.data(); }
    std::vector<FSize> idx;
    std::vector<FReal> phys, pot, x, y, z;
    void push(const FPoint<FReal> &p, FSize i, FReal v)
        {
        idx.push_back(i);
        phys.push_back(v);
        pot.push_back(0);
        x.push_back(p.getX());
        y.push_back(p.getY());
        z.push_back(p.getZ());
        }
    };

template <class FReal, class Container>
class FTypedLeaf
    {
public:
    Container *getSrc() { return &src; }
    Container *getTargets() { return &tgt; }
    Container src, tgt;
    };

template <class FReal, int P>
class FTypedRotationCell
    {
public:
    void resetToInitialState() {}
    };

template <class FReal, class Cell, class Container, int P>
class FRotationKernel
    {
public:
    FRotationKernel(int, FReal, const FPoint<FReal> &) {}
    };

template <class FReal, class Cell, class Container, class Leaf>
class FOctree
    {
    int height;
    FReal width;
    FPoint<FReal> center;
    std::map<unsigned long, Leaf> leaves;  // keyed by Morton index
    Cell cell;

    unsigned long morton(const FPoint<FReal> &p) const
        {
        const long n = 1L << (height - 1);
        unsigned long m = 0;
        long c[3];
        for (int k = 0; k < 3; k++)
            {
            FReal f = (p.d[k] - (center.d[k] - width / 2)) / width;
            c[k] = (long) std::floor(f * n);
            if (c[k] < 0 || !(f == f)) c[k] = 0;
            if (c[k] >= n) c[k] = n - 1;
            }
        for (int b = height - 2; b >= 0; b--)
            for (int k = 0; k < 3; k++) m = (m << 1) | ((c[k] >> b) & 1);
        return m;
        }

public:
    FOctree(int h, int, FReal w, const FPoint<FReal> &c) : height(h), width(w), center(c) {}
    void insert(const FPoint<FReal> &p, FParticleType type, FSize i, FReal v = 0)
        {
        bool target = (type == FParticleType::FParticleTypeTarget);
        fmm_monitor::inserted(target, i, p.getX(), p.getY(), p.getZ(), width / 2, center.d[0],
                              center.d[1], center.d[2]);
        Leaf &l = leaves[morton(p)];
        (target ? l.tgt : l.src).push(p, i, v);
        }
    template <class F>
    void forEachLeaf(F f)
        {
        for (auto &kv : leaves) f(&kv.second);
        }
    template <class F>
    void forEachCell(F f) { f(&cell); }
    std::map<unsigned long, Leaf> &all() { return leaves; }
    };

template <class Octree, class Cell, class Container, class Kernel, class Leaf>
class FFmmAlgorithmThreadTsm
    {
    Octree *tree;

public:
    FFmmAlgorithmThreadTsm(Octree *t, Kernel *) : tree(t) {}
    void execute()
        {
        std::vector<double> s[3], t[3], q, pot;
        std::vector<long long> si, ti;
        for (auto &kv : tree->all())
            {
            auto *a = kv.second.getSrc();
            s[0].insert(s[0].end(), a->x.begin(), a->x.end());
            s[1].insert(s[1].end(), a->y.begin(), a->y.end());
            s[2].insert(s[2].end(), a->z.begin(), a->z.end());
            q.insert(q.end(), a->phys.begin(), a->phys.end());
            si.insert(si.end(), a->idx.begin(), a->idx.end());
            a = kv.second.getTargets();
            t[0].insert(t[0].end(), a->x.begin(), a->x.end());
            t[1].insert(t[1].end(), a->y.begin(), a->y.end());
            t[2].insert(t[2].end(), a->z.begin(), a->z.end());
            ti.insert(ti.end(), a->idx.begin(), a->idx.end());
            }
        const double *sp[3] = {s[0].data(), s[1].data(), s[2].data()};
        const double *tp[3] = {t[0].data(), t[1].data(), t[2].data()};
        pot.resize(ti.size());
        fmm_monitor::before_execute(q.size(), sp, q.data(), si.data(), ti.size(), tp, ti.data());
        fmm_monitor::direct_sum(q.size(), sp, q.data(), ti.size(), tp, pot.data());
        fmm_monitor::after_execute(ti.size(), pot.data(), ti.data());
        size_t k = 0;
        for (auto &kv : tree->all())
            {
            auto *b = kv.second.getTargets();
            for (size_t i = 0; i < b->pot.size(); i++) b->pot[i] += pot[k++];  // += as the FMM does
            }
        }
    };
#endif
